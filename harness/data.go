package main

import (
	"embed"
	"encoding/json"
	"sort"
	"sync"
)

//go:embed data/*.json
var dataFS embed.FS

func load[T any](name string) func() T {
	return sync.OnceValue(func() T {
		bt, err := dataFS.ReadFile("data/" + name + ".json")
		must(err)
		var v T
		must(json.Unmarshal(bt, &v))
		return v
	})
}

// Reference data, recorded from the CLDR based tables the library is generated from.
var (
	refNames    = load[map[string]map[string]string]("names")
	refRel      = load[map[string]map[string]string]("rel")
	refRelRx    = load[map[string][][2]string]("relrx")
	refNumWords = load[map[string]map[string][]string]("numwords")
	refSkip     = load[map[string][]string]("skip")
	refForms    = load[map[string][]Form]("forms")
	refAmPm     = load[map[string]map[string]string]("ampm")
	refUnits    = load[map[string]struct{ Year, Hour []string }]("units")
	refOrders   = load[map[string]string]("orders")
	refNoSpace  = load[[]string]("nospace")
	refRanks    = load[struct {
		Locales, Languages map[string]int
	}]("ranks")
	refTz = load[struct {
		Offsets, Abbr [][2]any
	}]("tz")
)

type tzRef struct {
	Name string
	Secs int
}

func tzList(raw [][2]any) (out []tzRef) {
	for _, r := range raw {
		out = append(out, tzRef{r[0].(string), int(r[1].(float64))})
	}
	return
}

var refLocales = sync.OnceValue(func() []string { return sortedKeys(refOrders()) })

func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}
