From 1152206b631afbaaa703a08082ab3e97173c44d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 01/72] fix: try timezone patterns in a fixed order

Timezones and their alternative spellings were stored in maps, so the order
in which they were tried changed between processes. For string like
"10:00 GMT+0530" the pattern for "+0530" might be used before the one for
"GMT+0530", which left "GMT" behind and made the date unparseable.
---
 internal/timezone/timezones.go  | 27 +++++++++++++++++----------
 internal/timezone/tz-offsets.go | 15 +++++++++++----
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/internal/timezone/timezones.go b/internal/timezone/timezones.go
index 3dd841a..e84d2f1 100644
--- a/internal/timezone/timezones.go
+++ b/internal/timezone/timezones.go
@@ -5,10 +5,17 @@ import "github.com/markusmobius/go-dateparser/internal/regexp"
 // Info is the data for parsing timezone from a string.
 type Info struct {
 	RegexPatterns       []string
-	AlternativePatterns map[*regexp.Regexp]string
+	AlternativePatterns []AlternativePattern
 	Timezones           map[string]int
 }
 
+// AlternativePattern is rule to generate another way of writing a timezone. The
+// rules are ordered, from the most specific one to the most generic one.
+type AlternativePattern struct {
+	Replacer    *regexp.Regexp
+	Replacement string
+}
+
 // These timezone list are taken fromseveral sources:
 // - http://stackoverflow.com/q/1703546
 // - http://en.wikipedia.org/wiki/List_of_time_zone_abbreviations
@@ -19,20 +26,20 @@ var timezoneInfoList = []Info{
 		RegexPatterns: []string{
 			`(.)%s$`,
 		},
-		AlternativePatterns: map[*regexp.Regexp]string{
+		AlternativePatterns: []AlternativePattern{
 			// UTC+n, UTC-n, GMT+n, GMT-n:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):00`): `(?:UTC|GMT)\$1$2`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):00`), `(?:UTC|GMT)\$1$2`},
 			// UTC+n:mm, UTC-n:mm, GMT+n:mm, GMT-n:mm:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):(\d{2})`): `(?:UTC|GMT)\$1$2:$3`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):(\d{2})`), `(?:UTC|GMT)\$1$2:$3`},
 			// UTC+nn, UTC-nn, GMT+nn, GMT-nn:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):00`): `(?:UTC|GMT)\$1$2`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):00`), `(?:UTC|GMT)\$1$2`},
 			// UTC+nnmm, UTC-nnmm, GMT+nnmm, GMT-nnmm:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):(\d{2})`): `(?:UTC|GMT)\$1$2:?$3.*`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):(\d{2})`), `(?:UTC|GMT)\$1$2:?$3.*`},
 			// Others:
-			regexp.MustCompile(`UTC`):   "",
-			regexp.MustCompile(`:`):     "",
-			regexp.MustCompile(`:|UTC`): "",
-			regexp.MustCompile(`UTC`):   "GMT",
+			{regexp.MustCompile(`UTC`), ""},
+			{regexp.MustCompile(`:`), ""},
+			{regexp.MustCompile(`:|UTC`), ""},
+			{regexp.MustCompile(`UTC`), "GMT"},
 		},
 		Timezones: map[string]int{
 			`UTC-12:00`: -43200,
diff --git a/internal/timezone/tz-offsets.go b/internal/timezone/tz-offsets.go
index b53a382..6aacaed 100644
--- a/internal/timezone/tz-offsets.go
+++ b/internal/timezone/tz-offsets.go
@@ -2,6 +2,8 @@ package timezone
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 	"sort"
 	"strings"
 
@@ -25,9 +27,13 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 	searchPatterns := map[string]struct{}{}
 
 	for _, tzInfo := range timezoneInfoList {
+		// Sort the names, so offsets are always tried in the same order
+		tzNames := slices.Sorted(maps.Keys(tzInfo.Timezones))
+
 		for _, pattern := range tzInfo.RegexPatterns {
 			// Main pattern
-			for tzName, offset := range tzInfo.Timezones {
+			for _, tzName := range tzNames {
+				offset := tzInfo.Timezones[tzName]
 				searchPattern := regexp.QuoteMeta(tzName)
 				regexPattern := fmt.Sprintf(pattern, searchPattern)
 				if _, exist := regexPatterns[regexPattern]; exist {
@@ -43,10 +49,11 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 			}
 
 			// Alternative patterns
-			for replacer, replacement := range tzInfo.AlternativePatterns {
-				for tzName, offset := range tzInfo.Timezones {
+			for _, alternative := range tzInfo.AlternativePatterns {
+				for _, tzName := range tzNames {
+					offset := tzInfo.Timezones[tzName]
 					searchPattern := regexp.QuoteMeta(tzName)
-					searchPattern = replacer.ReplaceAllString(searchPattern, replacement)
+					searchPattern = alternative.Replacer.ReplaceAllString(searchPattern, alternative.Replacement)
 					regexPattern := fmt.Sprintf(pattern, searchPattern)
 					if _, exist := regexPatterns[regexPattern]; exist {
 						continue
-- 
2.43.0


From c4217e8a2913af1e4216f7ae74aad7d129d8bf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 02/72] fix: keep the whole character that precedes a popped
 timezone

PopTzOffset only kept the first byte of the character before the timezone,
so when it's a multi bytes character the leftover is an invalid UTF-8.
---
 internal/timezone/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/timezone/parser.go b/internal/timezone/parser.go
index 7893109..e3c57a1 100644
--- a/internal/timezone/parser.go
+++ b/internal/timezone/parser.go
@@ -1,5 +1,7 @@
 package timezone
 
+import "unicode/utf8"
+
 // PopTzOffset extracts timezone data from str then return the
 // str with the timezone code removed.
 func PopTzOffset(str string) (string, OffsetData) {
@@ -10,7 +12,9 @@ func PopTzOffset(str string) (string, OffsetData) {
 				continue
 			}
 
-			str = str[:idxs[0]+1] + str[idxs[1]:]
+			// Every pattern is prefixed by a single character, which must be kept
+			_, prefixSize := utf8.DecodeRuneInString(str[idxs[0]:])
+			str = str[:idxs[0]+prefixSize] + str[idxs[1]:]
 			return str, offsetData
 		}
 	}
-- 
2.43.0


From c8ab76d5f7f56c9188172ade44020b084bfeb202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 03/72] fix: accept the documented required parts

The validation of RequiredParts was inverted: "day", "month" and "year"
were rejected while everything else was accepted. Their letter case is
ignored by the validation, so do the same while looking for missing parts.
---
 config.go                              | 1 +
 internal/parser/common/strict-check.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index cb8a2c6..eaf4608 100644
--- a/config.go
+++ b/config.go
@@ -194,6 +194,7 @@ func (c Configuration) validate() error {
 	for _, part := range c.RequiredParts {
 		switch strings.ToLower(part) {
 		case "day", "month", "year":
+		default:
 			return fmt.Errorf("invalid component in required parts: %s", part)
 		}
 	}
diff --git a/internal/parser/common/strict-check.go b/internal/parser/common/strict-check.go
index 271ec2b..8d08b76 100644
--- a/internal/parser/common/strict-check.go
+++ b/internal/parser/common/strict-check.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/strutil"
@@ -23,7 +24,7 @@ func CheckStrictParsing(cfg *setting.Configuration, missingParts strutil.Dict) e
 
 	// Check if there are any missing required parts
 	for _, requiredPart := range requiredParts {
-		if missingParts.Contain(requiredPart) {
+		if missingParts.Contain(strings.ToLower(requiredPart)) {
 			return fmt.Errorf("required part \"%s\" is missing", requiredPart)
 		}
 	}
-- 
2.43.0


From ec9904e78ac56f8cf82ca547fa3d3937058f9327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 04/72] fix: remove trailing period from date order of the
 locales

Short date format in several locales is ended with period (e.g. "d. M. yyyy."),
which became part of their date order. Since "DMY." is not a valid order,
date without spaces could not be parsed in those locales, and
DefaultDateOrder returned an order that is refused by the parser.
---
 internal/data/bs-cyrl.go        | 2 +-
 internal/data/bs-latn.go        | 2 +-
 internal/data/bs.go             | 2 +-
 internal/data/hr.go             | 4 ++--
 internal/data/hu.go             | 2 +-
 internal/data/ko.go             | 4 ++--
 internal/data/sr-cyrl.go        | 8 ++++----
 internal/data/sr-latn.go        | 8 ++++----
 internal/data/sr.go             | 2 +-
 scripts/codegen/02-constants.go | 2 +-
 10 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/internal/data/bs-cyrl.go b/internal/data/bs-cyrl.go
index 380f3c2..ad7d3f1 100755
--- a/internal/data/bs-cyrl.go
+++ b/internal/data/bs-cyrl.go
@@ -11,7 +11,7 @@ var (
 func init() {
 	bs_Cyrl_Locale = merge(nil, LocaleData{
 		Name:      "bs-Cyrl",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Charset:   []rune(`ceghinorstuwzабвгдеиклмнопрстуфцчшјљћ`),
 		Translations: map[string][]string{
 			"понедељак": {"monday"},
diff --git a/internal/data/bs-latn.go b/internal/data/bs-latn.go
index 3ce0224..b269053 100755
--- a/internal/data/bs-latn.go
+++ b/internal/data/bs-latn.go
@@ -11,7 +11,7 @@ var (
 func init() {
 	bs_Latn_Locale = merge(nil, LocaleData{
 		Name:      "bs-Latn",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Charset:   []rune(`bcdefghijklnorstuvzćčš`),
 		Translations: map[string][]string{
 			"ponedjeljak": {"monday"},
diff --git a/internal/data/bs.go b/internal/data/bs.go
index de7f1d6..558a1f4 100755
--- a/internal/data/bs.go
+++ b/internal/data/bs.go
@@ -11,7 +11,7 @@ var (
 func init() {
 	bs_Locale = merge(nil, LocaleData{
 		Name:      "bs",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Charset:   []rune(`bcdefghijklnorstuvzćčš`),
 		Translations: map[string][]string{
 			"ponedjeljak": {"monday"},
diff --git a/internal/data/hr.go b/internal/data/hr.go
index 6407b2a..f8a68d3 100755
--- a/internal/data/hr.go
+++ b/internal/data/hr.go
@@ -12,7 +12,7 @@ var (
 func init() {
 	hr_Locale = merge(nil, LocaleData{
 		Name:      "hr",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Charset:   []rune(`bcdeghijklnorstuvzćčšž`),
 		Simplifications: []ReplacementData{
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])podne(\z|[^\pL\pM\d_])`), "${1}12:00${2}"},
@@ -264,6 +264,6 @@ func init() {
 
 	hr_BA_Locale = merge(&hr_Locale, LocaleData{
 		Name:      "hr-BA",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 	})
 }
diff --git a/internal/data/hu.go b/internal/data/hu.go
index 718cd13..ac68655 100755
--- a/internal/data/hu.go
+++ b/internal/data/hu.go
@@ -11,7 +11,7 @@ var (
 func init() {
 	hu_Locale = merge(nil, LocaleData{
 		Name:                  "hu",
-		DateOrder:             "YMD.",
+		DateOrder:             "YMD",
 		Charset:               []rune(`-bcdefghijklnorstuvxzáéóöúüő`),
 		SentenceSplitterGroup: 1,
 		Simplifications: []ReplacementData{
diff --git a/internal/data/ko.go b/internal/data/ko.go
index ea51b3b..6978263 100755
--- a/internal/data/ko.go
+++ b/internal/data/ko.go
@@ -12,7 +12,7 @@ var (
 func init() {
 	ko_Locale = merge(nil, LocaleData{
 		Name:      "ko",
-		DateOrder: "YMD.",
+		DateOrder: "YMD",
 		Charset:   []rune(`cgtuz간금난내년늘다달목번분수시어오올요월음이일작재전제주지초토해현화후`),
 		Translations: map[string][]string{
 			"10월": {"october"},
@@ -107,6 +107,6 @@ func init() {
 
 	ko_KP_Locale = merge(&ko_Locale, LocaleData{
 		Name:      "ko-KP",
-		DateOrder: "YMD.",
+		DateOrder: "YMD",
 	})
 }
diff --git a/internal/data/sr-cyrl.go b/internal/data/sr-cyrl.go
index f58fab6..ed28f85 100755
--- a/internal/data/sr-cyrl.go
+++ b/internal/data/sr-cyrl.go
@@ -14,7 +14,7 @@ var (
 func init() {
 	sr_Cyrl_Locale = merge(nil, LocaleData{
 		Name:      "sr-Cyrl",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Charset:   []rune(`cgtuzабвгдеиклмнопрстуфцчшјљћ`),
 		Translations: map[string][]string{
 			"понедељак": {"monday"},
@@ -163,7 +163,7 @@ func init() {
 
 	sr_Cyrl_BA_Locale = merge(&sr_Cyrl_Locale, LocaleData{
 		Name:      "sr-Cyrl-BA",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Translations: map[string][]string{
 			"прије подне": {"am"},
 			"недјеља":     {"sunday"},
@@ -177,7 +177,7 @@ func init() {
 
 	sr_Cyrl_ME_Locale = merge(&sr_Cyrl_Locale, LocaleData{
 		Name:      "sr-Cyrl-ME",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Translations: map[string][]string{
 			"прије подне": {"am"},
 			"недјеља":     {"sunday"},
@@ -191,7 +191,7 @@ func init() {
 
 	sr_Cyrl_XK_Locale = merge(&sr_Cyrl_Locale, LocaleData{
 		Name:      "sr-Cyrl-XK",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Translations: map[string][]string{
 			"септ": {"september"},
 			"ср":   {"wednesday"},
diff --git a/internal/data/sr-latn.go b/internal/data/sr-latn.go
index a4e3f08..3e058fe 100755
--- a/internal/data/sr-latn.go
+++ b/internal/data/sr-latn.go
@@ -14,7 +14,7 @@ var (
 func init() {
 	sr_Latn_Locale = merge(nil, LocaleData{
 		Name:      "sr-Latn",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Charset:   []rune(`bcdefgijklnorstuvzćčš`),
 		Translations: map[string][]string{
 			"ponedeljak": {"monday"},
@@ -163,7 +163,7 @@ func init() {
 
 	sr_Latn_BA_Locale = merge(&sr_Latn_Locale, LocaleData{
 		Name:      "sr-Latn-BA",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Translations: map[string][]string{
 			"prije podne": {"am"},
 			"nedjelja":    {"sunday"},
@@ -177,7 +177,7 @@ func init() {
 
 	sr_Latn_ME_Locale = merge(&sr_Latn_Locale, LocaleData{
 		Name:      "sr-Latn-ME",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Translations: map[string][]string{
 			"prije podne": {"am"},
 			"nedjelja":    {"sunday"},
@@ -191,7 +191,7 @@ func init() {
 
 	sr_Latn_XK_Locale = merge(&sr_Latn_Locale, LocaleData{
 		Name:      "sr-Latn-XK",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Translations: map[string][]string{
 			"sept": {"september"},
 			"sr":   {"wednesday"},
diff --git a/internal/data/sr.go b/internal/data/sr.go
index 347a9d6..11a5018 100755
--- a/internal/data/sr.go
+++ b/internal/data/sr.go
@@ -11,7 +11,7 @@ var (
 func init() {
 	sr_Locale = merge(nil, LocaleData{
 		Name:      "sr",
-		DateOrder: "DMY.",
+		DateOrder: "DMY",
 		Charset:   []rune(`cgtuzабвгдеиклмнопрстуфцчшјљћ`),
 		Translations: map[string][]string{
 			"понедељак": {"monday"},
diff --git a/scripts/codegen/02-constants.go b/scripts/codegen/02-constants.go
index 7fb60c4..7c7d15a 100644
--- a/scripts/codegen/02-constants.go
+++ b/scripts/codegen/02-constants.go
@@ -44,7 +44,7 @@ var (
 
 	rxLocale              = regexp.MustCompile(`-[A-Z0-9]+$`)
 	rxLocaleCleaner       = regexp.MustCompile(`-\w+`)
-	rxDateOrderPattern    = regexp.MustCompile(`([DMY])+\x{200f}*[-/. \t]*([DMY])+\x{200f}*[-/. \t]*([DMY])+`)
+	rxDateOrderPattern    = regexp.MustCompile(`([DMY])+\x{200f}*[-/. \t]*([DMY])+\x{200f}*[-/. \t]*([DMY])+\.*`)
 	rxNotRelativePattern  = regexp.MustCompile(`[\+\-]\s*\{0\}`)
 	rxDefaultMonthPattern = regexp.MustCompile(`^m?[` + strings.Join(numberChars, "") + `]+$`)
 	rxSanitizeAposthrope  = regexp.MustCompile(strings.Join(apostropheLookAlikeChars, "|"))
-- 
2.43.0


From 135b0eb59ec1978920ca96cb11f78addb3df99d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 05/72] fix: give Tagalog a date order

Tagalog doesn't exist in CLDR so its date order was empty, which made every
date that contains number could not be parsed in that language ("10 Enero
2015"). Use MDY, the default order of the original library.
---
 internal/data/tl.go        | 2 +-
 scripts/codegen/00-main.go | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/data/tl.go b/internal/data/tl.go
index 013c2f3..4776a33 100755
--- a/internal/data/tl.go
+++ b/internal/data/tl.go
@@ -11,7 +11,7 @@ var (
 func init() {
 	tl_Locale = merge(nil, LocaleData{
 		Name:                  "tl",
-		DateOrder:             "",
+		DateOrder:             "MDY",
 		Charset:               []rune(`bcdeghiklnorstuwyz`),
 		SentenceSplitterGroup: 1,
 		Simplifications: []ReplacementData{
diff --git a/scripts/codegen/00-main.go b/scripts/codegen/00-main.go
index dc59753..563500c 100644
--- a/scripts/codegen/00-main.go
+++ b/scripts/codegen/00-main.go
@@ -84,6 +84,11 @@ func rootCmdHandler(cmd *cobra.Command, args []string) error {
 
 		// Finalize and save language data
 		languageData = languageData.Merge(supplementalData)
+		if languageData.DateOrder == "" {
+			// Language doesn't exist in CLDR, so use the default order
+			languageData.DateOrder = "MDY"
+		}
+
 		languageData, err := finalizeData(languageData)
 		if err != nil {
 			return err
-- 
2.43.0


From b421a7ea152f2024beb630143bdf3857f2f16bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 06/72] fix: accept complete date without spaces in strict mode

Year was considered missing unless the format uses both its two and four
digits form, so strict parsing and required year rejected every date.
---
 internal/parser/nospace/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index ac023d2..7db30ef 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -71,10 +71,10 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 					continue
 				}
 
-				missingParts := strutil.NewDict()
+				missingParts := strutil.NewDict("day", "month", "year")
 				for key, part := range formatMapping {
-					if !strings.Contains(format, key) {
-						missingParts.Add(part)
+					if strings.Contains(format, key) {
+						missingParts.Remove(part)
 					}
 				}
 
-- 
2.43.0


From ca04500de4769a6496878a3face0a5a01014e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 07/72] fix: keep the month of a date that only has time

---
 internal/parser/absolute/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 71a5708..62269a9 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -567,12 +567,13 @@ func (p *Parser) correctForMonth(t time.Time) time.Time {
 		return t
 	}
 
-	// If only a weekday is provided (without year, month, or day), no adjustment is
-	// needed as well, because it's been handled previously by `correctForTimeFrame`
+	// If only a weekday and/or a time is provided (without year, month, or day), no adjustment
+	// is needed as well, because it's been handled previously by `correctForTimeFrame`
 	_, tokenDayExist := p.ComponentTokens["day"]
 	_, tokenYearExist := p.ComponentTokens["year"]
+	_, tokenTimeExist := p.ComponentTokens["time"]
 	_, tokenWeekdayExist := p.ComponentTokens["weekday"]
-	if tokenWeekdayExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist {
+	if (tokenWeekdayExist || tokenTimeExist) && !tokenYearExist && !tokenMonthExist && !tokenDayExist {
 		return t
 	}
 
-- 
2.43.0


From 8398e98ab6419ba397a6d38f5fc084208acc3eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 08/72] fix: compare time with current time in its own timezone

---
 internal/dateutil/dateutil.go      |  6 ++++++
 internal/parser/absolute/parser.go | 15 ++++++++-------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/internal/dateutil/dateutil.go b/internal/dateutil/dateutil.go
index 59c52c8..0269364 100644
--- a/internal/dateutil/dateutil.go
+++ b/internal/dateutil/dateutil.go
@@ -15,6 +15,12 @@ func IsLeapYear(year int) bool {
 	}
 }
 
+// InLocation puts the wall clock of the time into the specified location.
+func InLocation(t time.Time, loc *time.Location) time.Time {
+	return time.Date(t.Year(), t.Month(), t.Day(),
+		t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), loc)
+}
+
 // GetLeapYear returns the previous (or next if `toFuture` is true)
 // leap year from the current year.
 func GetLeapYear(year int, toFuture bool) int {
diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 62269a9..323bb10 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -529,18 +529,19 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	}
 
 	if tokenTimeExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist && !tokenWeekdayExist {
-		tzOffset := tz.Offset
-		if tz.IsZero() && p.Config.DefaultTimezone != nil {
-			_, tzOffset = t.In(p.Config.DefaultTimezone).Zone()
+		// Find the location where this wall clock will be put
+		loc := t.Location()
+		if !tz.IsZero() {
+			loc = time.FixedZone(tz.Name, tz.Offset)
+		} else if p.Config != nil && p.Config.DefaultTimezone != nil {
+			loc = p.Config.DefaultTimezone
 		}
 
-		tmp := t.Add(-time.Duration(tzOffset) * time.Second)
-
-		if dateSource == setting.Past && p.Now.Before(tmp) {
+		for dateSource == setting.Past && p.Now.Before(dateutil.InLocation(t, loc)) {
 			t = t.AddDate(0, 0, -1)
 		}
 
-		if dateSource == setting.Future && p.Now.After(tmp) {
+		for dateSource == setting.Future && p.Now.After(dateutil.InLocation(t, loc)) {
 			t = t.AddDate(0, 0, 1)
 		}
 	}
-- 
2.43.0


From 8b1f1e4ab6868514202fcfcb9a643b2f5c1ae6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 09/72] fix: use default timezone offset of the parsed wall
 clock

---
 parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 0dc6ace..8d055e5 100644
--- a/parser.go
+++ b/parser.go
@@ -10,6 +10,7 @@ import (
 
 	"github.com/markusmobius/go-dateparser/date"
 	"github.com/markusmobius/go-dateparser/internal/data"
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
 	"github.com/markusmobius/go-dateparser/internal/language"
 	"github.com/markusmobius/go-dateparser/internal/parser/absolute"
 	"github.com/markusmobius/go-dateparser/internal/parser/formatted"
@@ -323,7 +324,7 @@ func (p *Parser) applyTimezone(iCfg *setting.Configuration, dt date.Date, tz tim
 	if !tz.IsZero() {
 		tzName, tzOffset = tz.Name, tz.Offset
 	} else {
-		tzName, tzOffset = dt.Time.In(iCfg.DefaultTimezone).Zone()
+		tzName, tzOffset = dateutil.InLocation(dt.Time, iCfg.DefaultTimezone).Zone()
 	}
 
 	dt.Time = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
-- 
2.43.0


From a3b50da171e2d4f9872f0efa27d3a355085cac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 10/72] fix: use default timezone for Jalali and Hijri dates

---
 internal/parser/hijri/parser.go  | 9 +++++----
 internal/parser/jalali/parser.go | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index e2e0e6b..3525bfd 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/hablullah/go-hijri"
 	"github.com/markusmobius/go-dateparser/date"
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
 	"github.com/markusmobius/go-dateparser/internal/digit"
 	"github.com/markusmobius/go-dateparser/internal/parser/absolute"
 	"github.com/markusmobius/go-dateparser/internal/setting"
@@ -53,11 +54,11 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		return date.Date{}, err
 	}
 
-	// Apply the popped timezone
+	// Apply the popped timezone, or the default one if there are none
 	if !dt.IsZero() && !tz.IsZero() {
-		dt.Time = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
-			dt.Time.Hour(), dt.Time.Minute(), dt.Time.Second(), dt.Time.Nanosecond(),
-			time.FixedZone(tz.Name, tz.Offset))
+		dt.Time = dateutil.InLocation(dt.Time, time.FixedZone(tz.Name, tz.Offset))
+	} else if !dt.IsZero() && cfg != nil && cfg.DefaultTimezone != nil {
+		dt.Time = dateutil.InLocation(dt.Time, cfg.DefaultTimezone)
 	}
 
 	return dt, nil
diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 45e9bf7..8217eea 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/jalaali/go-jalaali"
 	"github.com/markusmobius/go-dateparser/date"
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
 	"github.com/markusmobius/go-dateparser/internal/digit"
 	"github.com/markusmobius/go-dateparser/internal/parser/absolute"
 	"github.com/markusmobius/go-dateparser/internal/setting"
@@ -49,11 +50,11 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		return date.Date{}, err
 	}
 
-	// Apply the popped timezone
+	// Apply the popped timezone, or the default one if there are none
 	if !dt.IsZero() && !tz.IsZero() {
-		dt.Time = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
-			dt.Time.Hour(), dt.Time.Minute(), dt.Time.Second(), dt.Time.Nanosecond(),
-			time.FixedZone(tz.Name, tz.Offset))
+		dt.Time = dateutil.InLocation(dt.Time, time.FixedZone(tz.Name, tz.Offset))
+	} else if !dt.IsZero() && cfg != nil && cfg.DefaultTimezone != nil {
+		dt.Time = dateutil.InLocation(dt.Time, cfg.DefaultTimezone)
 	}
 
 	return dt, nil
-- 
2.43.0


From 921c6c72bc0000c848916680319a2ad6df6e0c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 11/72] fix: use timezone of current time for custom formats
 and dates without spaces

---
 internal/parser/formatted/parser.go | 14 +++++++-------
 parser.go                           |  4 ++++
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index d436d07..525f5b0 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -15,24 +15,24 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 	// Create initial period
 	period := date.Day
 
+	// Fetch current time
+	currentTime := time.Now().UTC()
+	if !cfg.CurrentTime.IsZero() {
+		currentTime = cfg.CurrentTime
+	}
+
 	// Check if string contain timezone
 	var timeLoc *time.Location
 	if _, tzData := timezone.PopTzOffset(str); tzData.IsZero() {
 		if cfg.DefaultTimezone != nil {
 			timeLoc = cfg.DefaultTimezone
 		} else {
-			timeLoc = time.UTC
+			timeLoc = currentTime.Location()
 		}
 	} else {
 		timeLoc = time.FixedZone(tzData.Name, tzData.Offset)
 	}
 
-	// Fetch current time
-	currentTime := time.Now().UTC()
-	if !cfg.CurrentTime.IsZero() {
-		currentTime = cfg.CurrentTime
-	}
-
 	// Try each format
 	checker := time.Date(12, 3, 4, 5, 6, 7, 8, time.UTC)
 
diff --git a/parser.go b/parser.go
index 8d055e5..45bb1dc 100644
--- a/parser.go
+++ b/parser.go
@@ -205,6 +205,10 @@ func (p *Parser) tryNoSpacesTime(iCfg *setting.Configuration, translations []str
 	for _, translation := range translations {
 		if t, tz := p.stripBracesAndTimezones(translation); t != "" {
 			dt, _ := nospace.Parse(iCfg, t)
+			if !dt.IsZero() {
+				dt.Time = dateutil.InLocation(dt.Time, iCfg.CurrentTime.Location())
+			}
+
 			dt = p.applyTimezone(iCfg, dt, tz)
 			if !dt.IsZero() {
 				return dt
-- 
2.43.0


From e5652baf36862ae614cd6e847a34317d7ee0785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 12/72] fix: keep the month of a custom format that uses day of
 year

---
 internal/parser/formatted/parser.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index 525f5b0..7978842 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -1,7 +1,6 @@
 package formatted
 
 import (
-	"strings"
 	"time"
 
 	"github.com/markusmobius/go-dateparser/date"
@@ -33,8 +32,11 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 		timeLoc = time.FixedZone(tzData.Name, tzData.Offset)
 	}
 
-	// Try each format
+	// Try each format. The checkers share the same weekday, so the only things
+	// that differ between them are the day, the month and the day of year.
 	checker := time.Date(12, 3, 4, 5, 6, 7, 8, time.UTC)
+	otherDay := time.Date(12, 3, 11, 5, 6, 7, 8, time.UTC)
+	otherMonth := time.Date(12, 11, 4, 5, 6, 7, 8, time.UTC)
 
 	for _, format := range formats {
 		// Parse time
@@ -45,8 +47,8 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 
 		// Check if format has day or month
 		checkerText := checker.Format(format)
-		formatHasDay := strings.Contains(checkerText, "4")
-		formatHasMonth := strings.Contains(checkerText, "3") || strings.Contains(checkerText, "Mar")
+		formatHasDay := checkerText != otherDay.Format(format)
+		formatHasMonth := checkerText != otherMonth.Format(format)
 
 		if !formatHasMonth && !formatHasDay {
 			period = date.Year
-- 
2.43.0


From 8a4f6b5264aeb84f75da2072db4aed83b28d764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 13/72] fix: use a leap year for February 29 of a custom format
 without year

---
 internal/parser/absolute/parser.go  | 21 +------------------
 internal/parser/common/leap-year.go | 31 +++++++++++++++++++++++++++++
 internal/parser/formatted/parser.go |  8 +++++++-
 3 files changed, 39 insertions(+), 21 deletions(-)
 create mode 100644 internal/parser/common/leap-year.go

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 323bb10..b3ed41b 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -599,24 +599,5 @@ func (p *Parser) getPeriod() date.Period {
 }
 
 func (p Parser) getCorrectLeapYear(currentYear int) int {
-	var dateSource setting.PreferredDateSource
-	if p.Config != nil {
-		dateSource = p.Config.PreferredDateSource
-	}
-
-	switch dateSource {
-	case setting.Future:
-		return dateutil.GetLeapYear(currentYear, true)
-	case setting.Past:
-		return dateutil.GetLeapYear(currentYear, false)
-	default:
-		nextLeapYear := dateutil.GetLeapYear(currentYear, true)
-		prevLeapYear := dateutil.GetLeapYear(currentYear, false)
-		nextLeapYearIsCloser := nextLeapYear-currentYear < currentYear-prevLeapYear
-		if nextLeapYearIsCloser {
-			return nextLeapYear
-		} else {
-			return prevLeapYear
-		}
-	}
+	return common.GetCorrectLeapYear(p.Config, currentYear)
 }
diff --git a/internal/parser/common/leap-year.go b/internal/parser/common/leap-year.go
new file mode 100644
index 0000000..acdbbc1
--- /dev/null
+++ b/internal/parser/common/leap-year.go
@@ -0,0 +1,31 @@
+package common
+
+import (
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
+	"github.com/markusmobius/go-dateparser/internal/setting"
+)
+
+// GetCorrectLeapYear fetch the leap year around the current year, following the
+// preferred date source in config.
+func GetCorrectLeapYear(cfg *setting.Configuration, currentYear int) int {
+	var dateSource setting.PreferredDateSource
+	if cfg != nil {
+		dateSource = cfg.PreferredDateSource
+	}
+
+	switch dateSource {
+	case setting.Future:
+		return dateutil.GetLeapYear(currentYear, true)
+	case setting.Past:
+		return dateutil.GetLeapYear(currentYear, false)
+	default:
+		nextLeapYear := dateutil.GetLeapYear(currentYear, true)
+		prevLeapYear := dateutil.GetLeapYear(currentYear, false)
+		nextLeapYearIsCloser := nextLeapYear-currentYear < currentYear-prevLeapYear
+		if nextLeapYearIsCloser {
+			return nextLeapYear
+		} else {
+			return prevLeapYear
+		}
+	}
+}
diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index 7978842..99ae71e 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -4,6 +4,7 @@ import (
 	"time"
 
 	"github.com/markusmobius/go-dateparser/date"
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
 	"github.com/markusmobius/go-dateparser/internal/parser/common"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/timezone"
@@ -64,7 +65,12 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 
 		// Check if format has year
 		if t.Year() == 0 {
-			t = time.Date(currentTime.Year(), t.Month(), t.Day(),
+			year := currentTime.Year()
+			if t.Month() == time.February && t.Day() == 29 && !dateutil.IsLeapYear(year) {
+				year = common.GetCorrectLeapYear(cfg, year)
+			}
+
+			t = time.Date(year, t.Month(), t.Day(),
 				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
 				t.Location())
 		}
-- 
2.43.0


From 25ac344b3ad8b41b989cce0bcf5252960813671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 14/72] fix: don't overflow the day when applying preferred
 month

---
 internal/parser/common/apply-month.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/parser/common/apply-month.go b/internal/parser/common/apply-month.go
index 3aeddd4..4faacea 100644
--- a/internal/parser/common/apply-month.go
+++ b/internal/parser/common/apply-month.go
@@ -3,6 +3,7 @@ package common
 import (
 	"time"
 
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 )
 
@@ -29,7 +30,14 @@ func ApplyMonthFromConfig(cfg *setting.Configuration, t time.Time, currentMonth
 		}
 	}
 
-	return time.Date(t.Year(), newMonth, t.Day(),
+	// Make sure day is not bigger than max day in the new month
+	newDay := t.Day()
+	lastDayOfMonth := dateutil.GetLastDayOfMonth(t.Year(), int(newMonth))
+	if newDay > lastDayOfMonth {
+		newDay = lastDayOfMonth
+	}
+
+	return time.Date(t.Year(), newMonth, newDay,
 		t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
 		t.Location())
 }
-- 
2.43.0


From e4edb817727f698062a43f98276bd7755a91ead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 15/72] fix: accept day 31 in Jalali dates

---
 internal/parser/jalali/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 8217eea..cd4f125 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -122,7 +122,7 @@ func getDatePartValue(p *absolute.Parser, component, token, directive string) (i
 
 	if component == "day" && tokenLength <= 2 && tokenIsDigit {
 		day, _ := strconv.Atoi(token)
-		if day >= 1 && day <= 30 {
+		if day >= 1 && day <= 31 {
 			return day, true
 		}
 	}
-- 
2.43.0


From 08b5bfd40132a5b0c0e717d8978c7a46c5b26470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 16/72] fix: return error for Hijri dates outside Umm al-Qura
 scope

---
 internal/parser/hijri/parser.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 3525bfd..5da57fa 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -1,6 +1,7 @@
 package hijri
 
 import (
+	"fmt"
 	"strconv"
 	"strings"
 	"time"
@@ -16,6 +17,12 @@ import (
 	"github.com/markusmobius/go-dateparser/internal/timezone"
 )
 
+// The years that covered by Umm al-Qura calendar.
+const (
+	minHijriYear = 1356
+	maxHijriYear = 1500
+)
+
 var timeConventions = map[string]string{
 	"am": "صباحا",
 	"pm": "مساء",
@@ -131,6 +138,11 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
+	// Umm al-Qura calendar only defined for limited years
+	if Y < minHijriYear || Y > maxHijriYear || M < 1 || D < 1 {
+		return time.Time{}, fmt.Errorf("date is outside Umm al-Qura scope")
+	}
+
 	// Fix leap year
 	if D == 30 && M == 12 && !isHijriLeapYear(Y) {
 		Y = getCorrectHijriLeapYear(p.Config, Y)
@@ -170,8 +182,14 @@ func getHijriLeapYear(year int, toFuture bool) int {
 		step = -1
 	}
 
+	originalYear := year
+
 	for {
 		year += step
+		if year < minHijriYear || year > maxHijriYear {
+			return originalYear
+		}
+
 		if isHijriLeapYear(year) {
 			return year
 		}
-- 
2.43.0


From 41b998be61ea7e1cf2c0becfd98f27353d0c80f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 17/72] fix: use Umm al-Qura month length for Hijri dates

---
 internal/parser/hijri/parser.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 5da57fa..0f7bd51 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -220,14 +220,10 @@ func getCorrectHijriLeapYear(cfg *setting.Configuration, currentYear int) int {
 }
 
 func getLastDayOfHijriMonth(year, month int) int {
-	switch {
-	case month == 12 && isHijriLeapYear(year):
-		return 30
-	case month%2 == 0:
-		return 29
-	default:
-		return 30
-	}
+	// In Umm al-Qura the length of each month is different between years
+	firstDay := hijri.UmmAlQuraDate{Year: int64(year), Month: int64(month), Day: 1}
+	nextMonth := hijri.UmmAlQuraDate{Year: int64(year), Month: int64(month + 1), Day: 1}
+	return int(nextMonth.ToGregorian().Sub(firstDay.ToGregorian()).Hours()+12) / 24
 }
 
 func handleTwoDigitYear(year int) int {
-- 
2.43.0


From 10b984477f960a47333cefd77ce33d967672b701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 18/72] fix: don't share stateful text transformers between
 goroutines

---
 internal/strutil/strutil.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index 4a95223..5a04568 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -13,8 +13,8 @@ import (
 )
 
 var (
-	nfkcTransformer    = transform.Chain(norm.NFKD, norm.NFKC)
-	unicodeTransformer = transform.Chain(norm.NFKD, runes.Remove(runes.In(unicode.Mn)), norm.NFKC)
+	// The transformers here must be stateless since they are shared by every parser
+	markTransformer = runes.Remove(runes.In(unicode.Mn))
 
 	aposthropeTransformer = runes.Map(func(r rune) rune {
 		switch r {
@@ -58,11 +58,9 @@ func SanitizeSpaces(s string) string {
 // NormalizeUnicode removes Nonspacing Mark (Mn) characters then
 // use NFKC as the normal forms.
 func NormalizeUnicode(str string) string {
-	normalized, _, err := transform.String(unicodeTransformer, str)
-	if err != nil {
-		return str
-	}
-	return normalized
+	str = norm.NFKD.String(str)
+	str = markTransformer.String(str)
+	return norm.NFKC.String(str)
 }
 
 // NormalizeAposthrope replace apostrope lookalike chars into the ordinary aposthrope.
@@ -74,11 +72,7 @@ func NormalizeAposthrope(s string) string {
 // NormalizeCharset is used to normalize charset in a string. Used before
 // detecting language of a string.
 func NormalizeCharset(str string) string {
-	normalized, _, err := transform.String(nfkcTransformer, str)
-	if err == nil {
-		str = normalized
-	}
-
+	str = norm.NFKC.String(str)
 	str = NormalizeAposthrope(str)
 	str = strings.ReplaceAll(str, ".", "")
 	str = strings.ToLower(str)
-- 
2.43.0


From dd2520c9f85cd7494f058c11b7d2a450a52456a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 19/72] fix: read unique charsets of a search while parser is
 locked

---
 search.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/search.go b/search.go
index 84d0be9..a8eb08d 100644
--- a/search.go
+++ b/search.go
@@ -65,11 +65,11 @@ func (p *Parser) Search(cfg *Configuration, text string) (string, []SearchResult
 	}
 
 	// Generate charsets
-	p.initUniqueCharsets(languages)
+	uniqueCharsets := p.initUniqueCharsets(languages)
 
 	// Detect language of the text
 	iCfg := cfg.toInternalConfig()
-	lang, err := language.DetectFullTextLanguage(iCfg, text, languages, p.uniqueCharsets)
+	lang, err := language.DetectFullTextLanguage(iCfg, text, languages, uniqueCharsets)
 	if err != nil {
 		return "", nil, err
 	}
@@ -140,7 +140,7 @@ func (p *Parser) initSearchConfig(cfg *Configuration) (*Configuration, error) {
 	return cfg, nil
 }
 
-func (p *Parser) initUniqueCharsets(languages []string) {
+func (p *Parser) initUniqueCharsets(languages []string) map[string][]rune {
 	// Lock parser
 	p.Lock()
 	defer p.Unlock()
@@ -164,6 +164,8 @@ func (p *Parser) initUniqueCharsets(languages []string) {
 	if mustGenerate {
 		p.uniqueCharsets = language.GetUniqueCharsets(languages)
 	}
+
+	return p.uniqueCharsets
 }
 
 func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, translation, original []string) ([]parsedSearch, []string) {
-- 
2.43.0


From 390aa007da03c814eb142ded43286b66c6f145ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 20/72] fix: replace non-breaking spaces instead of removing
 them

---
 internal/strutil/strutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index 5a04568..5d1dfba 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -50,7 +50,7 @@ var (
 // SanitizeSpaces replaces non-breaking spaces into a normal one,
 // then remove any excess whitespaces.
 func SanitizeSpaces(s string) string {
-	s = strings.ReplaceAll(s, "\u00A0", "")
+	s = strings.ReplaceAll(s, "\u00A0", " ")
 	s = strings.Join(strings.Fields(s), " ")
 	return s
 }
-- 
2.43.0


From 8a37769a9486189ad8225ebaa51095d89ab22996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 21/72] fix: limit the count of translations for text with many
 ambiguous words

---
 internal/language/utils.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/language/utils.go b/internal/language/utils.go
index c496b97..b4d8013 100644
--- a/internal/language/utils.go
+++ b/internal/language/utils.go
@@ -9,6 +9,9 @@ import (
 	"github.com/markusmobius/go-dateparser/internal/strutil"
 )
 
+// maxPermutation is the max count of translations for a single text.
+const maxPermutation = 64
+
 func mapSkippedTokens(cfg *setting.Configuration, ld *data.LocaleData) strutil.Dict {
 	skippedTokens := strutil.NewDict()
 	if cfg != nil {
@@ -63,7 +66,14 @@ func isInDictionary(ld *data.LocaleData, word string) bool {
 func createPermutation[T comparable](input [][]T) [][]T {
 	// Calculate count of possible permutation
 	nPermutation := 1
-	for _, entries := range input {
+	input = slices.Clone(input)
+	for i, entries := range input {
+		// Keep the count of permutation bounded no matter how long the input is
+		if nPermutation*len(entries) > maxPermutation {
+			input[i] = entries[:1]
+			continue
+		}
+
 		nPermutation *= len(entries)
 	}
 
-- 
2.43.0


From 9537454610148c2a6f01eb5d3a5daa66e262ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 22/72] fix: keep only trailing punctuation of translated word
 in search

---
 internal/language/translate-search.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 3812bba..499ec8f 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -59,7 +59,17 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 				translatedChunk = append(translatedChunk, translations)
 				originalChunk = append(originalChunk, originalTokens[i])
 			} else if isInDictionary(ld, cleanedWord) && !dashes.Contain(word) {
-				punct := word[len(cleanedWord):]
+				openingPunct, punct, _ := strings.Cut(word, cleanedWord)
+				if openingPunct != "" && len(translatedChunk) > 0 {
+					// The previous chunk is ended by the opening punctuation
+					for _, permutation := range createPermutation(translatedChunk) {
+						translated = append(translated, permutation)
+						original = append(original, originalChunk)
+					}
+
+					originalChunk, translatedChunk = []string{}, [][]string{}
+				}
+
 				translations, _ := translateWord(ld, cleanedWord)
 				for i, translation := range translations {
 					translations[i] = translation + punct
-- 
2.43.0


From a856496a9f049e436927fa679e1f109e8d26863b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 23/72] fix: don't use previous locales that excluded by the
 config

---
 parser.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/parser.go b/parser.go
index 45bb1dc..f317eb4 100644
--- a/parser.go
+++ b/parser.go
@@ -230,15 +230,6 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 		dateStrings = append(dateStrings, poppedTz)
 	}
 
-	// Fetch previously used locales first
-	if cfg.TryPreviousLocales {
-		ld := p.checkPreviousLocales(iCfg, dateStrings)
-		if ld != nil {
-			results = append(results, ld)
-			resultTracker.Add(ld.Name)
-		}
-	}
-
 	// If specified, use external detector to fetch languages
 	languages := slices.Clone(cfg.Languages)
 	if p.DetectLanguagesFunction != nil && len(cfg.Locales) == 0 && len(languages) == 0 {
@@ -252,6 +243,22 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 		return nil, err
 	}
 
+	// Fetch previously used locales first, as long as they are allowed by the config
+	if cfg.TryPreviousLocales {
+		usedLocales := p.usedLocales
+		if len(cfg.Locales) > 0 || len(cfg.Languages) > 0 {
+			usedLocales = slices.DeleteFunc(slices.Clone(usedLocales), func(ld *data.LocaleData) bool {
+				return !slices.Contains(locales, ld)
+			})
+		}
+
+		ld := p.checkPreviousLocales(iCfg, usedLocales, dateStrings)
+		if ld != nil {
+			results = append(results, ld)
+			resultTracker.Add(ld.Name)
+		}
+	}
+
 	for _, locale := range locales {
 		if resultTracker.Contain(locale.Name) {
 			continue
@@ -285,8 +292,8 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 	return results, nil
 }
 
-func (p *Parser) checkPreviousLocales(iCfg *setting.Configuration, dateStrings []string) *data.LocaleData {
-	for _, usedLocale := range p.usedLocales {
+func (p *Parser) checkPreviousLocales(iCfg *setting.Configuration, usedLocales []*data.LocaleData, dateStrings []string) *data.LocaleData {
+	for _, usedLocale := range usedLocales {
 		for _, ds := range dateStrings {
 			if p.localeIsApplicable(iCfg, usedLocale, ds) {
 				return usedLocale
-- 
2.43.0


From 9521ba5a439cc44b038bcbedcaadb09b0d2a91eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 24/72] fix: parse eight digits as a complete date in its date
 order

---
 internal/parser/nospace/parser.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index 7db30ef..0b1a293 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -31,6 +31,12 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 	var order string
 	if cfg != nil && cfg.DateOrder != "" {
 		order = strings.ToLower(cfg.DateOrder)
+		if rxEightDigit.MatchString(str) {
+			dt := findCompleteDate(str, order)
+			if !dt.IsZero() {
+				return dt, nil
+			}
+		}
 	} else {
 		order = strings.ToLower("MDY")
 		if rxEightDigit.MatchString(str) {
@@ -111,6 +117,20 @@ func findBestMatchingDate(str string) date.Date {
 	return date.Date{}
 }
 
+// findCompleteDate parses the eight digits as a complete date, either
+// in the specified order or in the order of year, month then day.
+func findCompleteDate(str string, order string) date.Date {
+	orderFormat := strings.NewReplacer("y", "2006", "m", "01", "d", "02").Replace(order)
+	for _, format := range []string{orderFormat, "20060102"} {
+		t, _ := time.Parse(format, str)
+		if !t.IsZero() && t.Year() >= 1000 {
+			return date.Date{Time: t, Period: date.Day}
+		}
+	}
+
+	return date.Date{}
+}
+
 func getPeriodFromFormat(format string) date.Period {
 	for _, dayKey := range []string{"02", "d", "H", "M", "S", "f"} {
 		if strings.Contains(format, dayKey) {
-- 
2.43.0


From fe853f14c7b56ddb332dc5c81a55de071bc5fdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 25/72] fix: remove trailing literal from date order of
 Bulgarian

---
 internal/data/bg.go             | 2 +-
 scripts/codegen/02-constants.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/data/bg.go b/internal/data/bg.go
index c9dd6d3..a1052ab 100755
--- a/internal/data/bg.go
+++ b/internal/data/bg.go
@@ -11,7 +11,7 @@ var (
 func init() {
 	bg_Locale = merge(nil, LocaleData{
 		Name:                  "bg",
-		DateOrder:             "DMY 'Г'.",
+		DateOrder:             "DMY",
 		Charset:               []rune(`cgtuzабвгдезийклмнопрстуфхцчщъюя`),
 		SentenceSplitterGroup: 1,
 		Simplifications: []ReplacementData{
diff --git a/scripts/codegen/02-constants.go b/scripts/codegen/02-constants.go
index 7c7d15a..cf3fb76 100644
--- a/scripts/codegen/02-constants.go
+++ b/scripts/codegen/02-constants.go
@@ -44,7 +44,7 @@ var (
 
 	rxLocale              = regexp.MustCompile(`-[A-Z0-9]+$`)
 	rxLocaleCleaner       = regexp.MustCompile(`-\w+`)
-	rxDateOrderPattern    = regexp.MustCompile(`([DMY])+\x{200f}*[-/. \t]*([DMY])+\x{200f}*[-/. \t]*([DMY])+\.*`)
+	rxDateOrderPattern    = regexp.MustCompile(`([DMY])+\x{200f}*[-/. \t]*([DMY])+\x{200f}*[-/. \t]*([DMY])+.*`)
 	rxNotRelativePattern  = regexp.MustCompile(`[\+\-]\s*\{0\}`)
 	rxDefaultMonthPattern = regexp.MustCompile(`^m?[` + strings.Join(numberChars, "") + `]+$`)
 	rxSanitizeAposthrope  = regexp.MustCompile(strings.Join(apostropheLookAlikeChars, "|"))
-- 
2.43.0


From 5ee2a7b5f5414123599a5620a1e68288026a55cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 26/72] fix: don't change the year of February 29 that comes
 from current day

When the day is out of range for its month, put the last day of month if the
day or month is missing from the string, use the leap year if the year is
missing, and reject the date if all of them are specified.
---
 internal/parser/absolute/parser.go | 12 +++++++++++-
 internal/parser/absolute/root.go   | 21 ++++++++++++---------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index b3ed41b..37d0b63 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -326,6 +326,12 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 	}, nil
 }
 
+// HasToken returns true if the date component is specified in the string.
+func (p *Parser) HasToken(component string) bool {
+	_, exist := p.ComponentTokens[component]
+	return exist
+}
+
 func (p *Parser) getToken(i int) (tokenizer.Token, bool) {
 	if i >= 0 && i < len(p.Tokens) {
 		return p.Tokens[i], true
@@ -508,7 +514,11 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 		}
 
 		if tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
-			tYear = p.getCorrectLeapYear(tYear)
+			if tokenDayExist {
+				tYear = p.getCorrectLeapYear(tYear)
+			} else {
+				tDay = 28
+			}
 		}
 
 		t = time.Date(tYear, tMonth, tDay,
diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index 8853c0f..7e2bd98 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -1,6 +1,7 @@
 package absolute
 
 import (
+	"fmt"
 	"strings"
 	"time"
 
@@ -53,15 +54,17 @@ func createDateTime(p *Parser, pms map[string]int, loc *time.Location) (time.Tim
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
-	// Fix leap year
-	if D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
-		Y = p.getCorrectLeapYear(Y)
-	}
-
-	// Fix max day
-	lastDayOfMonth := dateutil.GetLastDayOfMonth(Y, M)
-	if D > lastDayOfMonth {
-		D = lastDayOfMonth
+	if lastDay := dateutil.GetLastDayOfMonth(Y, M); D > lastDay {
+		switch {
+		case !p.HasToken("day") || !p.HasToken("month"):
+			// Day or month comes from current time, so put the last day of the month
+			D = lastDay
+		case !p.HasToken("year") && D == 29 && M == 2:
+			// Year is not specified in the string, so use the leap year
+			Y = p.getCorrectLeapYear(Y)
+		default:
+			return time.Time{}, fmt.Errorf("day is out of range for month")
+		}
 	}
 
 	return time.Date(Y, time.Month(M), D, H, m, s, ns, loc), nil
-- 
2.43.0


From 705954797ec91aee5d48e4705ea4490c7a9d2e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 27/72] fix: keep the specified year of Jalali and Hijri dates

---
 internal/parser/hijri/parser.go  | 4 ++--
 internal/parser/jalali/parser.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 0f7bd51..7c6b87f 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -143,8 +143,8 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 		return time.Time{}, fmt.Errorf("date is outside Umm al-Qura scope")
 	}
 
-	// Fix leap year
-	if D == 30 && M == 12 && !isHijriLeapYear(Y) {
+	// Fix leap year, as long as the year is not specified in the string
+	if D == 30 && M == 12 && p.HasToken("day") && !p.HasToken("year") && !isHijriLeapYear(Y) {
 		Y = getCorrectHijriLeapYear(p.Config, Y)
 	}
 
diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index cd4f125..005762c 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -134,13 +134,13 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
-	// Fix leap year
+	// Fix leap year, as long as the year is not specified in the string
 	isLeapYear, err := jalaali.IsLeapYear(Y)
 	if err != nil {
 		return time.Time{}, err
 	}
 
-	if D == 30 && M == 12 && !isLeapYear {
+	if D == 30 && M == 12 && p.HasToken("day") && !p.HasToken("year") && !isLeapYear {
 		Y = getCorrectLeapYear(p.Config, Y)
 	}
 
-- 
2.43.0


From 3141e833914f6d44b4e840aee9a3ffb46f4c1f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 28/72] fix: don't read a time as date without spaces when date
 parts are required

---
 internal/parser/nospace/parser.go |  5 +++++
 parser.go                         | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index 0b1a293..7e7fdf9 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 	"time"
+	"unicode"
 
 	"github.com/markusmobius/go-dateparser/date"
 	"github.com/markusmobius/go-dateparser/internal/parser/common"
@@ -101,6 +102,10 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 }
 
 func isEligible(str string) bool {
+	if strings.ContainsFunc(str, unicode.IsLetter) {
+		return false
+	}
+
 	match := rxCompatible.FindString(str)
 	return match == "" || match == ":"
 }
diff --git a/parser.go b/parser.go
index f317eb4..d58e17e 100644
--- a/parser.go
+++ b/parser.go
@@ -13,6 +13,7 @@ import (
 	"github.com/markusmobius/go-dateparser/internal/dateutil"
 	"github.com/markusmobius/go-dateparser/internal/language"
 	"github.com/markusmobius/go-dateparser/internal/parser/absolute"
+	"github.com/markusmobius/go-dateparser/internal/parser/common"
 	"github.com/markusmobius/go-dateparser/internal/parser/formatted"
 	"github.com/markusmobius/go-dateparser/internal/parser/nospace"
 	"github.com/markusmobius/go-dateparser/internal/parser/relative"
@@ -204,6 +205,15 @@ func (p *Parser) tryAbsoluteTime(iCfg *setting.Configuration, translations []str
 func (p *Parser) tryNoSpacesTime(iCfg *setting.Configuration, translations []string) date.Date {
 	for _, translation := range translations {
 		if t, tz := p.stripBracesAndTimezones(translation); t != "" {
+			// Time doesn't have any date parts, so don't split it if they are required
+			firstWord, _, _ := strings.Cut(t, " ")
+			if _, _, err := common.ParseTime(firstWord); err == nil {
+				missingParts := strutil.NewDict("day", "month", "year")
+				if common.CheckStrictParsing(iCfg, missingParts) != nil {
+					continue
+				}
+			}
+
 			dt, _ := nospace.Parse(iCfg, t)
 			if !dt.IsZero() {
 				dt.Time = dateutil.InLocation(dt.Time, iCfg.CurrentTime.Location())
-- 
2.43.0


From da972fd153513c3ac5eb5fe9b4d29d7dbe692faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 29/72] fix: inherit known words of the parent locale

---
 internal/data/00-locale-data.go | 5 +++++
 scripts/codegen/05-templates.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/internal/data/00-locale-data.go b/internal/data/00-locale-data.go
index 873ed96..05914db 100755
--- a/internal/data/00-locale-data.go
+++ b/internal/data/00-locale-data.go
@@ -76,6 +76,11 @@ func merge(parent *LocaleData, child LocaleData) LocaleData {
 		child.RxExactCombined = parent.RxExactCombined
 	}
 
+	// Replace known words
+	if len(child.KnownWords) == 0 {
+		child.KnownWords = parent.KnownWords
+	}
+
 	return child
 }
 
diff --git a/scripts/codegen/05-templates.go b/scripts/codegen/05-templates.go
index 0a33237..11a35f6 100644
--- a/scripts/codegen/05-templates.go
+++ b/scripts/codegen/05-templates.go
@@ -264,6 +264,11 @@ func merge(parent *LocaleData, child LocaleData) LocaleData {
 		child.RxExactCombined = parent.RxExactCombined
 	}
 
+	// Replace known words
+	if len(child.KnownWords) == 0 {
+		child.KnownWords = parent.KnownWords
+	}
+
 	return child
 }
 
-- 
2.43.0


From 2478f550c53f78204c74901f006e3886228a886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 30/72] fix: don't read September abbreviation in French as
 number seven

---
 internal/data/fr.go                          | 2 +-
 scripts/codegen/02-constants.go              | 9 +++++++++
 scripts/codegen/data-supplementary-parser.go | 4 ++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/data/fr.go b/internal/data/fr.go
index 3a27d0a..7760575 100755
--- a/internal/data/fr.go
+++ b/internal/data/fr.go
@@ -75,7 +75,7 @@ func init() {
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])quatre(\z|[^\pL\pM\d_])`), "${1}4${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])cinq(\z|[^\pL\pM\d_])`), "${1}5${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])six(\z|[^\pL\pM\d_])`), "${1}6${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])sept(\z|[^\pL\pM\d_])`), "${1}7${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])sept(\s+(?:ans?|annees?|mois|semaines?|jours?|heures?|minutes?|secondes?))(\z|[^\pL\pM\d_])`), "${1}7${2}${3}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])huit(\z|[^\pL\pM\d_])`), "${1}8${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])neuf(\z|[^\pL\pM\d_])`), "${1}9${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])dix(\z|[^\pL\pM\d_])`), "${1}10${2}"},
diff --git a/scripts/codegen/02-constants.go b/scripts/codegen/02-constants.go
index cf3fb76..4693dac 100644
--- a/scripts/codegen/02-constants.go
+++ b/scripts/codegen/02-constants.go
@@ -76,6 +76,15 @@ var (
 		"vo":       {},
 	}
 
+	// Simplifications that must be restricted because the word has another meaning,
+	// e.g. in French "sept" is both the number seven and abbreviation of September.
+	replacedSimplifications = map[string]SimplificationData{
+		"sept": {
+			Pattern:     `sept(\s+(?:ans?|annees?|mois|semaines?|jours?|heures?|minutes?|secondes?))`,
+			Replacement: `7\1`,
+		},
+	}
+
 	enMonthNames = []string{
 		"january",
 		"february",
diff --git a/scripts/codegen/data-supplementary-parser.go b/scripts/codegen/data-supplementary-parser.go
index fcb91a4..3f9ad5e 100644
--- a/scripts/codegen/data-supplementary-parser.go
+++ b/scripts/codegen/data-supplementary-parser.go
@@ -107,6 +107,10 @@ func parseSupplementaryFile(fPath string) (*LocaleData, error) {
 
 	for _, simplification := range yamlData.Simplifications {
 		for pattern, replacement := range simplification {
+			if data, exist := replacedSimplifications[pattern]; exist {
+				pattern, replacement = data.Pattern, data.Replacement
+			}
+
 			data.AddSimplification(pattern, replacement)
 		}
 	}
-- 
2.43.0


From af5b55942f5ed9ba0b1f2f682734022917b4110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 31/72] fix: sanitize apostrophes in locale data after
 lowercasing

---
 internal/data/ca.go         |  4 ++--
 internal/data/jgo.go        | 18 +++++++++---------
 internal/strutil/strutil.go |  4 +++-
 scripts/codegen/04-utils.go |  3 ++-
 4 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/internal/data/ca.go b/internal/data/ca.go
index 1a068a1..7bedb91 100755
--- a/internal/data/ca.go
+++ b/internal/data/ca.go
@@ -124,7 +124,7 @@ func init() {
 			"el mes passat":      "1 month ago",
 			"el mes que ve":      "in 1 month",
 			"endema passat":      "in 3 day",
-			"abans-d’ahir":       "2 day ago",
+			"abans-d'ahir":       "2 day ago",
 			"aquest minut":       "0 minute ago",
 			"aquesta hora":       "0 hour ago",
 			"aquesta setm":       "0 week ago",
@@ -190,7 +190,7 @@ func init() {
 		},
 		RxCombined:      regexp.MustCompile(`(?i)(\A|[^\pL\pM\d]|_)(d'aqui a \d+[.,]?\d* setmanes|d'aqui a \d+[.,]?\d* setmana|d'aqui a \d+[.,]?\d* minuts|d'aqui a \d+[.,]?\d* segons|d'aqui a \d+[.,]?\d* hores|d'aqui a \d+[.,]?\d* mesos|d'aqui a \d+[.,]?\d* minut|d'aqui a \d+[.,]?\d* segon|d'aqui a \d+[.,]?\d* anys|d'aqui a \d+[.,]?\d* dies|d'aqui a \d+[.,]?\d* hora|d'aqui a \d+[.,]?\d* setm|d'aqui a \d+[.,]?\d* any|d'aqui a \d+[.,]?\d* dia|d'aqui a \d+[.,]?\d* mes|d'aqui a \d+[.,]?\d* min|fa \d+[.,]?\d* setmanes|d'aqui a \d+[.,]?\d* h|d'aqui a \d+[.,]?\d* s|d‘aqui a \d+[.,]?\d* h|fa \d+[.,]?\d* setmana|fa \d+[.,]?\d* minuts|fa \d+[.,]?\d* segons|fa \d+[.,]?\d* hores|fa \d+[.,]?\d* mesos|fa \d+[.,]?\d* minut|fa \d+[.,]?\d* segon|fa \d+[.,]?\d* anys|fa \d+[.,]?\d* dies|fa \d+[.,]?\d* hora|fa \d+[.,]?\d* setm|fa \d+[.,]?\d* any|fa \d+[.,]?\d* dia|fa \d+[.,]?\d* mes|fa \d+[.,]?\d* min|fa \d+[.,]?\d* h|fa \d+[.,]?\d* s)(\z|[^\pL\pM\d]|_)`),
 		RxExactCombined: regexp.MustCompile(`(?i)^(d'aqui a \d+[.,]?\d* setmanes|d'aqui a \d+[.,]?\d* setmana|d'aqui a \d+[.,]?\d* minuts|d'aqui a \d+[.,]?\d* segons|d'aqui a \d+[.,]?\d* hores|d'aqui a \d+[.,]?\d* mesos|d'aqui a \d+[.,]?\d* minut|d'aqui a \d+[.,]?\d* segon|d'aqui a \d+[.,]?\d* anys|d'aqui a \d+[.,]?\d* dies|d'aqui a \d+[.,]?\d* hora|d'aqui a \d+[.,]?\d* setm|d'aqui a \d+[.,]?\d* any|d'aqui a \d+[.,]?\d* dia|d'aqui a \d+[.,]?\d* mes|d'aqui a \d+[.,]?\d* min|fa \d+[.,]?\d* setmanes|d'aqui a \d+[.,]?\d* h|d'aqui a \d+[.,]?\d* s|d‘aqui a \d+[.,]?\d* h|fa \d+[.,]?\d* setmana|fa \d+[.,]?\d* minuts|fa \d+[.,]?\d* segons|fa \d+[.,]?\d* hores|fa \d+[.,]?\d* mesos|fa \d+[.,]?\d* minut|fa \d+[.,]?\d* segon|fa \d+[.,]?\d* anys|fa \d+[.,]?\d* dies|fa \d+[.,]?\d* hora|fa \d+[.,]?\d* setm|fa \d+[.,]?\d* any|fa \d+[.,]?\d* dia|fa \d+[.,]?\d* mes|fa \d+[.,]?\d* min|fa \d+[.,]?\d* h|fa \d+[.,]?\d* s)$`),
-		KnownWords:      []string{"la propera setmana", "la proxima setmana", "la setmana passada", "la setmana que ve", "la setmana vinent", "aquesta setmana", "la setm passada", "la setm que ve", "el mes passat", "el mes que ve", "endema passat", "abans-d’ahir", "aquest minut", "aquesta hora", "aquesta setm", "l'any passat", "l'any que ve", "setm passada", "de desembre", "de novembre", "de setembre", "dema passat", "despus-ahir", "despus-dema", "passat dema", "setm vinent", "aquest mes", "della-ahir", "mes passat", "mes vinent", "d'octubre", "de febrer", "de juliol", "divendres", "de gener", "desembre", "dimecres", "dissabte", "diumenge", "novembre", "setembre", "d'abril", "d'agost", "de febr", "de juny", "de maig", "de marc", "dilluns", "dimarts", "enguany", "octubre", "sendema", "setmana", "de des", "de gen", "de jul", "de nov", "de set", "dijous", "endema", "febrer", "juliol", "abril", "agost", "d'abr", "d'oct", "gener", "minut", "segon", "ahir", "avui", "d'ag", "dema", "febr", "hora", "juny", "maig", "marc", "setm", "abr", "any", "ara", "del", "des", "dia", "gen", "gmt", "hui", "jul", "mes", "min", "nov", "oct", "set", "utc", "ag", "am", "dc", "de", "dg", "dj", "dl", "ds", "dt", "dv", "en", "l'", "pm", " ", "'", "+", ",", "-", ".", "/", ":", ";", "@", "[", "]", "h", "i", "s", "z", "|"},
+		KnownWords:      []string{"la propera setmana", "la proxima setmana", "la setmana passada", "la setmana que ve", "la setmana vinent", "aquesta setmana", "la setm passada", "la setm que ve", "el mes passat", "el mes que ve", "endema passat", "abans-d'ahir", "aquest minut", "aquesta hora", "aquesta setm", "l'any passat", "l'any que ve", "setm passada", "de desembre", "de novembre", "de setembre", "dema passat", "despus-ahir", "despus-dema", "passat dema", "setm vinent", "aquest mes", "della-ahir", "mes passat", "mes vinent", "d'octubre", "de febrer", "de juliol", "divendres", "de gener", "desembre", "dimecres", "dissabte", "diumenge", "novembre", "setembre", "d'abril", "d'agost", "de febr", "de juny", "de maig", "de marc", "dilluns", "dimarts", "enguany", "octubre", "sendema", "setmana", "de des", "de gen", "de jul", "de nov", "de set", "dijous", "endema", "febrer", "juliol", "abril", "agost", "d'abr", "d'oct", "gener", "minut", "segon", "ahir", "avui", "d'ag", "dema", "febr", "hora", "juny", "maig", "marc", "setm", "abr", "any", "ara", "del", "des", "dia", "gen", "gmt", "hui", "jul", "mes", "min", "nov", "oct", "set", "utc", "ag", "am", "dc", "de", "dg", "dj", "dl", "ds", "dt", "dv", "en", "l'", "pm", " ", "'", "+", ",", "-", ".", "/", ":", ";", "@", "[", "]", "h", "i", "s", "z", "|"},
 	})
 
 	ca_AD_Locale = merge(&ca_Locale, LocaleData{
diff --git a/internal/data/jgo.go b/internal/data/jgo.go
index 2324484..fcfa96f 100755
--- a/internal/data/jgo.go
+++ b/internal/data/jgo.go
@@ -15,7 +15,7 @@ func init() {
 		Charset:   []rune(`bcdefghijklnorstuwxyzáâúŋɔɛ́̌ꞌ`),
 		Translations: map[string][]string{
 			"pɛsaŋ pɛnɛntuku": {"june"},
-			"pɛsaŋ pɛnɛpfuꞌu": {"september"},
+			"pɛsaŋ pɛnɛpfu'u": {"september"},
 			"pɛsaŋ ntsɔpmɔ":   {"november"},
 			"pɛsaŋ ntsɔppa":   {"december"},
 			"pɛsaŋ pɛnɛfɔm":   {"august"},
@@ -75,7 +75,7 @@ func init() {
 			"this year":   "0 year ago",
 			"yesterday":   "1 day ago",
 			"tomorrow":    "in 1 day",
-			"lɔꞌɔ":        "0 day ago",
+			"lɔ'ɔ":        "0 day ago",
 			"now":         "0 second ago",
 		},
 		RelativeTypeRegexes: []ReplacementData{
@@ -84,16 +84,16 @@ func init() {
 			{regexp.MustCompile(`(?i)ɛ gɛ mɔ pɛsaŋ (\d+[.,]?\d*)`), "$1 month ago"},
 			{regexp.MustCompile(`(?i)nuu ŋgap-mbi (\d+[.,]?\d*)`), "in $1 week"},
 			{regexp.MustCompile(`(?i)ɛ gɛ mɔ (\d+[.,]?\d*) hawa`), "$1 hour ago"},
-			{regexp.MustCompile(`(?i)ɛ gɛ mɔ lɛꞌ (\d+[.,]?\d*)`), "$1 day ago"},
-			{regexp.MustCompile(`(?i)ɛgɛ mɔ ŋguꞌ (\d+[.,]?\d*)`), "$1 year ago"},
+			{regexp.MustCompile(`(?i)ɛ gɛ mɔ lɛ' (\d+[.,]?\d*)`), "$1 day ago"},
+			{regexp.MustCompile(`(?i)ɛgɛ mɔ ŋgu' (\d+[.,]?\d*)`), "$1 year ago"},
 			{regexp.MustCompile(`(?i)nuu (\d+[.,]?\d*) minut`), "in $1 minute"},
 			{regexp.MustCompile(`(?i)nuu hawa (\d+[.,]?\d*)`), "in $1 hour"},
-			{regexp.MustCompile(`(?i)nuu ŋguꞌ (\d+[.,]?\d*)`), "in $1 year"},
+			{regexp.MustCompile(`(?i)nuu ŋgu' (\d+[.,]?\d*)`), "in $1 year"},
 			{regexp.MustCompile(`(?i)nuu (\d+[.,]?\d*) saŋ`), "in $1 month"},
-			{regexp.MustCompile(`(?i)nuu lɛꞌ (\d+[.,]?\d*)`), "in $1 day"},
+			{regexp.MustCompile(`(?i)nuu lɛ' (\d+[.,]?\d*)`), "in $1 day"},
 		},
-		RxCombined:      regexp.MustCompile(`(?i)(\A|[^\pL\pM\d]|_)(ɛ gɛ mɔ \d+[.,]?\d* ŋgap-mbi|ɛ gɛ mɔ minut \d+[.,]?\d*|ɛ gɛ mɔ pɛsaŋ \d+[.,]?\d*|nuu ŋgap-mbi \d+[.,]?\d*|ɛ gɛ mɔ \d+[.,]?\d* hawa|ɛ gɛ mɔ lɛꞌ \d+[.,]?\d*|ɛgɛ mɔ ŋguꞌ \d+[.,]?\d*|nuu \d+[.,]?\d* minut|nuu hawa \d+[.,]?\d*|nuu ŋguꞌ \d+[.,]?\d*|nuu \d+[.,]?\d* saŋ|nuu lɛꞌ \d+[.,]?\d*)(\z|[^\pL\pM\d]|_)`),
-		RxExactCombined: regexp.MustCompile(`(?i)^(ɛ gɛ mɔ \d+[.,]?\d* ŋgap-mbi|ɛ gɛ mɔ minut \d+[.,]?\d*|ɛ gɛ mɔ pɛsaŋ \d+[.,]?\d*|nuu ŋgap-mbi \d+[.,]?\d*|ɛ gɛ mɔ \d+[.,]?\d* hawa|ɛ gɛ mɔ lɛꞌ \d+[.,]?\d*|ɛgɛ mɔ ŋguꞌ \d+[.,]?\d*|nuu \d+[.,]?\d* minut|nuu hawa \d+[.,]?\d*|nuu ŋguꞌ \d+[.,]?\d*|nuu \d+[.,]?\d* saŋ|nuu lɛꞌ \d+[.,]?\d*)$`),
-		KnownWords:      []string{"pɛsaŋ pɛnɛntuku", "pɛsaŋ pɛnɛpfuꞌu", "pɛsaŋ ntsɔpmɔ", "pɛsaŋ ntsɔppa", "pɛsaŋ pɛnɛfɔm", "pɛsaŋ pɛnɛkwa", "pɛsaŋ saamba", "ŋka mbɔt nji", "nduŋmbi saŋ", "pɛsaŋ nɛgɛm", "pɛsaŋ pataa", "pɛsaŋ pɛtat", "this minute", "apta mɔndi", "last month", "next month", "pɛsaŋ pɛpa", "this month", "last week", "last year", "next week", "next year", "this hour", "this week", "this year", "yesterday", "fɛlayɛdɛ", "mba'mba'", "tomorrow", "wɛnɛsɛdɛ", "minute", "sasidɛ", "second", "tɔsɛdɛ", "month", "mɔndi", "sɔndi", "hour", "lɔꞌɔ", "week", "year", "day", "gmt", "now", "utc", "am", "pm", " ", "'", "+", ",", "-", ".", "/", ":", ";", "@", "[", "]", "z", "|"},
+		RxCombined:      regexp.MustCompile(`(?i)(\A|[^\pL\pM\d]|_)(ɛ gɛ mɔ \d+[.,]?\d* ŋgap-mbi|ɛ gɛ mɔ minut \d+[.,]?\d*|ɛ gɛ mɔ pɛsaŋ \d+[.,]?\d*|nuu ŋgap-mbi \d+[.,]?\d*|ɛ gɛ mɔ \d+[.,]?\d* hawa|ɛ gɛ mɔ lɛ' \d+[.,]?\d*|ɛgɛ mɔ ŋgu' \d+[.,]?\d*|nuu \d+[.,]?\d* minut|nuu hawa \d+[.,]?\d*|nuu ŋgu' \d+[.,]?\d*|nuu \d+[.,]?\d* saŋ|nuu lɛ' \d+[.,]?\d*)(\z|[^\pL\pM\d]|_)`),
+		RxExactCombined: regexp.MustCompile(`(?i)^(ɛ gɛ mɔ \d+[.,]?\d* ŋgap-mbi|ɛ gɛ mɔ minut \d+[.,]?\d*|ɛ gɛ mɔ pɛsaŋ \d+[.,]?\d*|nuu ŋgap-mbi \d+[.,]?\d*|ɛ gɛ mɔ \d+[.,]?\d* hawa|ɛ gɛ mɔ lɛ' \d+[.,]?\d*|ɛgɛ mɔ ŋgu' \d+[.,]?\d*|nuu \d+[.,]?\d* minut|nuu hawa \d+[.,]?\d*|nuu ŋgu' \d+[.,]?\d*|nuu \d+[.,]?\d* saŋ|nuu lɛ' \d+[.,]?\d*)$`),
+		KnownWords:      []string{"pɛsaŋ pɛnɛntuku", "pɛsaŋ pɛnɛpfu'u", "pɛsaŋ ntsɔpmɔ", "pɛsaŋ ntsɔppa", "pɛsaŋ pɛnɛfɔm", "pɛsaŋ pɛnɛkwa", "pɛsaŋ saamba", "ŋka mbɔt nji", "nduŋmbi saŋ", "pɛsaŋ nɛgɛm", "pɛsaŋ pataa", "pɛsaŋ pɛtat", "this minute", "apta mɔndi", "last month", "next month", "pɛsaŋ pɛpa", "this month", "last week", "last year", "next week", "next year", "this hour", "this week", "this year", "yesterday", "fɛlayɛdɛ", "mba'mba'", "tomorrow", "wɛnɛsɛdɛ", "minute", "sasidɛ", "second", "tɔsɛdɛ", "month", "mɔndi", "sɔndi", "hour", "lɔ'ɔ", "week", "year", "day", "gmt", "now", "utc", "am", "pm", " ", "'", "+", ",", "-", ".", "/", ":", ";", "@", "[", "]", "z", "|"},
 	})
 }
diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index 5d1dfba..ab9c2a7 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -82,10 +82,12 @@ func NormalizeCharset(str string) string {
 
 // NormalizeString is used to normalize the string before translated
 // into another language. This function will normalizes the unicode,
-// convert the string to lowercase then remove any excess whitespaces.
+// convert the string to lowercase, convert the aposthropes then remove
+// any excess whitespaces.
 func NormalizeString(str string) string {
 	str = NormalizeUnicode(str)
 	str = strings.ToLower(str)
+	str = NormalizeAposthrope(str)
 	str = SanitizeSpaces(str)
 	return str
 }
diff --git a/scripts/codegen/04-utils.go b/scripts/codegen/04-utils.go
index 1c93327..7296a91 100644
--- a/scripts/codegen/04-utils.go
+++ b/scripts/codegen/04-utils.go
@@ -64,9 +64,9 @@ func sanitizeSpaces(s string) string {
 
 func cleanString(str string) string {
 	str = normalizeUnicode(str)
+	str = strings.ToLower(str)
 	str = rxSanitizeAposthrope.ReplaceAllString(str, "'")
 	str = strings.ReplaceAll(str, ".", "")
-	str = strings.ToLower(str)
 	str = sanitizeSpaces(str)
 	return str
 }
@@ -74,6 +74,7 @@ func cleanString(str string) string {
 func normalizeString(str string) string {
 	str = normalizeUnicode(str)
 	str = strings.ToLower(str)
+	str = rxSanitizeAposthrope.ReplaceAllString(str, "'")
 	str = sanitizeSpaces(str)
 	return str
 }
-- 
2.43.0


From 47b7bda2257bb49541ea7d85e68123a99239f0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 32/72] fix: parse "from now" in English as future

---
 internal/data/en.go             | 2 +-
 scripts/codegen/02-constants.go | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/data/en.go b/internal/data/en.go
index 614e7c1..108e2e6 100755
--- a/internal/data/en.go
+++ b/internal/data/en.go
@@ -123,7 +123,7 @@ func init() {
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(?:12\s+)?noon(\z|[^\pL\pM\d_])`), "${1}12:00${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(?:12\s+)?midnight(\z|[^\pL\pM\d_])`), "${1}00:00${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+[.,]?\d*)h(\d+[.,]?\d*)(\z|[^\pL\pM\d_])`), "${1}${2}:${3}${4}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(from\s+)now(\z|[^\pL\pM\d_])`), "${1}${2}in${3}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])from\s+now(\z|[^\pL\pM\d_])`), "${1}in${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])less than 1 minute ago(\z|[^\pL\pM\d_])`), "${1}45 second ago${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+[.,]?\d*) (decade|year|month|week|day|hour|minute|second)s? later(\z|[^\pL\pM\d_])`), "${1}in ${2} ${3}${4}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])one(\z|[^\pL\pM\d_])`), "${1}1${2}"},
diff --git a/scripts/codegen/02-constants.go b/scripts/codegen/02-constants.go
index 4693dac..4bb2a1b 100644
--- a/scripts/codegen/02-constants.go
+++ b/scripts/codegen/02-constants.go
@@ -76,9 +76,14 @@ var (
 		"vo":       {},
 	}
 
-	// Simplifications that must be restricted because the word has another meaning,
-	// e.g. in French "sept" is both the number seven and abbreviation of September.
+	// Simplifications that must be replaced because they break the translation:
+	// - in English the word "from" is left and makes the text untranslatable;
+	// - in French "sept" is both the number seven and abbreviation of September.
 	replacedSimplifications = map[string]SimplificationData{
+		`(from\s+)now`: {
+			Pattern:     `from\s+now`,
+			Replacement: `in`,
+		},
 		"sept": {
 			Pattern:     `sept(\s+(?:ans?|annees?|mois|semaines?|jours?|heures?|minutes?|secondes?))`,
 			Replacement: `7\1`,
-- 
2.43.0


From 2ad0a9ff96401676f919425429dbd5e49e309fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 33/72] fix: keep direction of decades in the future

---
 internal/language/00-constant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index 468051d..43f3245 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -50,7 +50,7 @@ var (
 
 	dashes             = strutil.NewDict("-", "——", "—", "～")
 	alwaysKeptTokens   = strutil.NewDict("+", ":", ".", " ", "-", "/")
-	freshnessWords     = strutil.NewDict("day", "week", "month", "year", "hour", "minute", "second")
+	freshnessWords     = strutil.NewDict("decade", "day", "week", "month", "year", "hour", "minute", "second")
 	langWithDigitAbbrs = strutil.NewDict("fi", "cs", "hu", "de", "da")
 	commonCharset      = rangetable.New([]rune(`0123456789()\-/.,:' `)...)
 )
-- 
2.43.0


From ce7f610a4aa8632bbb8b603ec3f1fde1c3eda57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 34/72] fix: don't change the clock if end of month preserved
 across DST gap

---
 internal/parser/relative/parser.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/parser/relative/parser.go b/internal/parser/relative/parser.go
index 3432407..88ac0af 100644
--- a/internal/parser/relative/parser.go
+++ b/internal/parser/relative/parser.go
@@ -138,9 +138,7 @@ func addDate(cfg *setting.Configuration, date time.Time, years, months, days int
 		d = lastDay
 	}
 
-	date = time.Date(y, m, d, date.Hour(), date.Minute(), date.Second(), date.Nanosecond(), date.Location())
-
-	return date.AddDate(0, 0, days)
+	return time.Date(y, m, d+days, date.Hour(), date.Minute(), date.Second(), date.Nanosecond(), date.Location())
 }
 
 func allWordsAreUnits(s string) bool {
-- 
2.43.0


From d0ab6b0a844579351d16ae695988eebcc6e78b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 35/72] fix: try the longest relative pattern first in regional
 locales

---
 internal/data/00-locale-data.go | 8 ++++++++
 scripts/codegen/05-templates.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/internal/data/00-locale-data.go b/internal/data/00-locale-data.go
index 05914db..b6b7fbf 100755
--- a/internal/data/00-locale-data.go
+++ b/internal/data/00-locale-data.go
@@ -4,6 +4,7 @@ package data
 
 import (
 	"slices"
+	"unicode/utf8"
 
 	"github.com/markusmobius/go-dateparser/internal/regexp"
 )
@@ -40,6 +41,13 @@ func merge(parent *LocaleData, child LocaleData) LocaleData {
 	child.Simplifications = append(child.Simplifications, parent.Simplifications...)
 	child.RelativeTypeRegexes = append(child.RelativeTypeRegexes, parent.RelativeTypeRegexes...)
 
+	// The longest pattern must be tried first
+	slices.SortStableFunc(child.RelativeTypeRegexes, func(a, b ReplacementData) int {
+		lenA := utf8.RuneCountInString(a.Rx.String())
+		lenB := utf8.RuneCountInString(b.Rx.String())
+		return lenB - lenA
+	})
+
 	// Merge int
 	if child.SentenceSplitterGroup == 0 {
 		child.SentenceSplitterGroup = parent.SentenceSplitterGroup
diff --git a/scripts/codegen/05-templates.go b/scripts/codegen/05-templates.go
index 11a35f6..c791e94 100644
--- a/scripts/codegen/05-templates.go
+++ b/scripts/codegen/05-templates.go
@@ -192,6 +192,7 @@ package data
 
 import (
 	"slices"
+	"unicode/utf8"
 
 	"github.com/markusmobius/go-dateparser/internal/regexp"
 )
@@ -228,6 +229,13 @@ func merge(parent *LocaleData, child LocaleData) LocaleData {
 	child.Simplifications = append(child.Simplifications, parent.Simplifications...)
 	child.RelativeTypeRegexes = append(child.RelativeTypeRegexes, parent.RelativeTypeRegexes...)
 
+	// The longest pattern must be tried first
+	slices.SortStableFunc(child.RelativeTypeRegexes, func(a, b ReplacementData) int {
+		lenA := utf8.RuneCountInString(a.Rx.String())
+		lenB := utf8.RuneCountInString(b.Rx.String())
+		return lenB - lenA
+	})
+
 	// Merge int
 	if child.SentenceSplitterGroup == 0 {
 		child.SentenceSplitterGroup = parent.SentenceSplitterGroup
-- 
2.43.0


From 4235b7716ec1156f081962e3c596ab10752e764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 36/72] fix: parse plural units in the translated relative
 dates

---
 internal/parser/relative/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/relative/parser.go b/internal/parser/relative/parser.go
index 88ac0af..6b7f9db 100644
--- a/internal/parser/relative/parser.go
+++ b/internal/parser/relative/parser.go
@@ -19,7 +19,7 @@ var (
 	rxIn               = regexp.MustCompile(`(?i)\bin\b`)
 	rxAgo              = regexp.MustCompile(`(?i)\bago\b`)
 	rxInAgo            = regexp.MustCompile(`(?i)\b(?:ago|in)\b`)
-	rxRelativePattern  = regexp.MustCompile(`(?i)(\d+[.,]?\d*)\s*(` + relativeUnits + `)\b`)
+	rxRelativePattern  = regexp.MustCompile(`(?i)(\d+[.,]?\d*)\s*(` + relativeUnits + `)s?\b`)
 	rxRelativeSkipWord = regexp.MustCompile(`(?i)^(?:` + relativeUnits + `|ago|in|\d+|:|[ap]m)`)
 	relativeUnits      = `decade|year|month|week|day|hour|minute|second`
 )
-- 
2.43.0


From 83fd4bc7ae1e03eee4837010c8335fda12891fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 37/72] fix: don't replace the number of hours in Belarusian

---
 internal/data/be.go             | 2 +-
 scripts/codegen/02-constants.go | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/data/be.go b/internal/data/be.go
index 1c2b2f0..be1f0c0 100755
--- a/internal/data/be.go
+++ b/internal/data/be.go
@@ -16,7 +16,7 @@ func init() {
 		SentenceSplitterGroup: 1,
 		Simplifications: []ReplacementData{
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])^гадзіна(\z|[^\pL\pM\d_])`), "${1}1 гадзіна${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])гадзіну(\z|[^\pL\pM\d_])`), "${1}1 гадзіну${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(^|праз\s+)гадзіну(\z|[^\pL\pM\d_])`), "${1}${2}1 гадзіну${3}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])^хвіліну(\z|[^\pL\pM\d_])`), "${1}1 хвіліну${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])^секунду(\z|[^\pL\pM\d_])`), "${1}1 секунду${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])некалькі секунд(\z|[^\pL\pM\d_])`), "${1}44 секунды${2}"},
diff --git a/scripts/codegen/02-constants.go b/scripts/codegen/02-constants.go
index 4bb2a1b..1659406 100644
--- a/scripts/codegen/02-constants.go
+++ b/scripts/codegen/02-constants.go
@@ -78,12 +78,17 @@ var (
 
 	// Simplifications that must be replaced because they break the translation:
 	// - in English the word "from" is left and makes the text untranslatable;
+	// - in Belarusian the word "hour" is already preceded by the number;
 	// - in French "sept" is both the number seven and abbreviation of September.
 	replacedSimplifications = map[string]SimplificationData{
 		`(from\s+)now`: {
 			Pattern:     `from\s+now`,
 			Replacement: `in`,
 		},
+		"гадзіну": {
+			Pattern:     `(^|праз\s+)гадзіну`,
+			Replacement: `${1}1 гадзіну`,
+		},
 		"sept": {
 			Pattern:     `sept(\s+(?:ans?|annees?|mois|semaines?|jours?|heures?|minutes?|secondes?))`,
 			Replacement: `7\1`,
-- 
2.43.0


From b53fd61e49efb73c50d7d8c7d5422ae180780f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 38/72] fix: keep wall clock of date whose timezone isn't the
 one of current time

---
 internal/parser/absolute/parser.go | 32 ++++++++++++++++++------------
 parser.go                          |  2 +-
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 37d0b63..5cd1d54 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -287,7 +287,6 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 	}
 
 	// Fetch datetime parameters
-	dtLocation := p.Now.Location()
 	dtParams := p.FnGetDateTimeParams(p)
 	if !p.ParsedTime.IsZero() {
 		dtParams["hour"] = p.ParsedTime.Hour()
@@ -296,8 +295,9 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 		dtParams["nanosecond"] = p.ParsedTime.Nanosecond()
 	}
 
-	// Create datetime object
-	dt, err := p.FnCreateDateTime(p, dtParams, dtLocation)
+	// Create datetime object. Its location is only set once the date is final, otherwise
+	// wall clocks that doesn't exist in there will be shifted.
+	dt, err := p.FnCreateDateTime(p, dtParams, time.UTC)
 	if err != nil {
 		return date.Date{}, err
 	}
@@ -312,6 +312,12 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 	// Apply correction for preference of day: beginning, current, end
 	dt = p.correctForDay(dt)
 
+	// Put the wall clock in the location of current time, unless the caller
+	// will put it in other timezone
+	if tz.IsZero() && (p.Config == nil || p.Config.DefaultTimezone == nil) {
+		dt = dateutil.InLocation(dt, p.Now.Location())
+	}
+
 	// Get the period of this date
 	returnTimeAsPeriod := p.Config != nil && p.Config.ReturnTimeAsPeriod
 
@@ -500,10 +506,18 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 		t = t.AddDate(0, 0, steps)
 	}
 
+	// Find the location where this wall clock will be put
+	loc := p.Now.Location()
+	if !tz.IsZero() {
+		loc = time.FixedZone(tz.Name, tz.Offset)
+	} else if p.Config != nil && p.Config.DefaultTimezone != nil {
+		loc = p.Config.DefaultTimezone
+	}
+
 	if monthExist && !yearExist {
 		tDay, tMonth, tYear := t.Day(), t.Month(), t.Year()
 
-		if p.Now.Before(t) {
+		if p.Now.Before(dateutil.InLocation(t, loc)) {
 			if dateSource == setting.Past {
 				tYear--
 			}
@@ -527,7 +541,7 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	}
 
 	if tokenYearExist && len(tokenYear.Text) == 2 {
-		if p.Now.Before(t) {
+		if p.Now.Before(dateutil.InLocation(t, loc)) {
 			if dateSource == setting.Past {
 				t = t.AddDate(-100, 0, 0)
 			}
@@ -539,14 +553,6 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	}
 
 	if tokenTimeExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist && !tokenWeekdayExist {
-		// Find the location where this wall clock will be put
-		loc := t.Location()
-		if !tz.IsZero() {
-			loc = time.FixedZone(tz.Name, tz.Offset)
-		} else if p.Config != nil && p.Config.DefaultTimezone != nil {
-			loc = p.Config.DefaultTimezone
-		}
-
 		for dateSource == setting.Past && p.Now.Before(dateutil.InLocation(t, loc)) {
 			t = t.AddDate(0, 0, -1)
 		}
diff --git a/parser.go b/parser.go
index d58e17e..db7a3cd 100644
--- a/parser.go
+++ b/parser.go
@@ -215,7 +215,7 @@ func (p *Parser) tryNoSpacesTime(iCfg *setting.Configuration, translations []str
 			}
 
 			dt, _ := nospace.Parse(iCfg, t)
-			if !dt.IsZero() {
+			if !dt.IsZero() && tz.IsZero() && iCfg.DefaultTimezone == nil {
 				dt.Time = dateutil.InLocation(dt.Time, iCfg.CurrentTime.Location())
 			}
 
-- 
2.43.0


From b7a0e1cd0856151ec062cfaf46b2c7dc0edf5822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 39/72] fix: don't shift relative hours when the clock happens
 twice

---
 internal/parser/relative/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/parser/relative/parser.go b/internal/parser/relative/parser.go
index 6b7f9db..e7d3847 100644
--- a/internal/parser/relative/parser.go
+++ b/internal/parser/relative/parser.go
@@ -125,6 +125,11 @@ func parseDate(cfg *setting.Configuration, str string, now time.Time) (time.Time
 }
 
 func addDate(cfg *setting.Configuration, date time.Time, years, months, days int) time.Time {
+	// Don't recreate the time, its clock might be ambiguous around DST changes
+	if years == 0 && months == 0 && days == 0 {
+		return date
+	}
+
 	if !cfg.PreserveEndOfMonth {
 		return date.AddDate(years, months, days)
 	}
-- 
2.43.0


From 8398ab6bcca85f948e82713d4de4dcb436d2422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 40/72] fix: set year of custom format before its last day of
 month

---
 internal/parser/formatted/parser.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index 99ae71e..35e0ae9 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -46,6 +46,19 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 			continue
 		}
 
+		// Check if format has year. Must be done before filling the month and day, since
+		// the last day of month depends on the year.
+		if t.Year() == 0 {
+			year := currentTime.Year()
+			if t.Month() == time.February && t.Day() == 29 && !dateutil.IsLeapYear(year) {
+				year = common.GetCorrectLeapYear(cfg, year)
+			}
+
+			t = time.Date(year, t.Month(), t.Day(),
+				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
+				t.Location())
+		}
+
 		// Check if format has day or month
 		checkerText := checker.Format(format)
 		formatHasDay := checkerText != otherDay.Format(format)
@@ -63,18 +76,6 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 			t = common.ApplyDayFromConfig(cfg, t)
 		}
 
-		// Check if format has year
-		if t.Year() == 0 {
-			year := currentTime.Year()
-			if t.Month() == time.February && t.Day() == 29 && !dateutil.IsLeapYear(year) {
-				year = common.GetCorrectLeapYear(cfg, year)
-			}
-
-			t = time.Date(year, t.Month(), t.Day(),
-				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
-				t.Location())
-		}
-
 		return date.Date{Time: t, Period: period}
 	}
 
-- 
2.43.0


From 6041f66f3d7c8c040c08758d82b512c7a09669ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:21 +0000
Subject: [PATCH 41/72] fix: don't panic on opening punctuation of Spanish
 sentence in search

---
 internal/language/split.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/language/split.go b/internal/language/split.go
index 01e9238..195663b 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -65,8 +65,13 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 	var lastPosition int
 	useDigitAbbrs := langWithDigitAbbrs.Contain(ld.Name)
 	for _, pos := range rxSplitter.FindAllStringSubmatchIndex(str, -1) {
-		// Fetch end of sentence from this match
-		eos := str[pos[2]:pos[3]]
+		// Fetch end of sentence from this match. If it's the opening punctuation of the
+		// next sentence, there is no word in it.
+		eosStart, eosEnd := pos[2], pos[3]
+		if eosStart < 0 {
+			eosStart, eosEnd = pos[0], pos[0]
+		}
+		eos := str[eosStart:eosEnd]
 
 		// If end of sentence is abbreviation, continue
 		if isAbbreviation(eos) {
@@ -79,7 +84,7 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 		}
 
 		// Extract this sentence
-		sentence := strings.TrimSpace(str[lastPosition:pos[3]])
+		sentence := strings.TrimSpace(str[lastPosition:eosEnd])
 		if sentence != "" {
 			sentences = append(sentences, sentence)
 		}
-- 
2.43.0


From c86e175af41675a1af43d7497c739299e1e55ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:39 +0000
Subject: [PATCH 42/72] fix: parse dates found by search in the date order of
 their language

---
 search.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/search.go b/search.go
index a8eb08d..bc40b55 100644
--- a/search.go
+++ b/search.go
@@ -94,19 +94,27 @@ func (p *Parser) SearchWithLanguage(cfg *Configuration, lang string, text string
 		return nil, fmt.Errorf("unknown language: %s", lang)
 	}
 
+	// Dates are written in the date order of this language
+	iCfg.DateOrder = ld.DateOrder
+	if cfg.DateOrder != nil {
+		if do, valid := validateDateOrder(cfg.DateOrder(ld.Name)); valid {
+			iCfg.DateOrder = do
+		}
+	}
+
 	// Translate the text
 	translation, original := language.TranslateSearch(iCfg, ld, text)
 
-	// Create languages for the temporary parser
-	var languages []string
+	// Create locales for the temporary parser
+	var locales []string
 	if lang != "vi" && lang != "hu" {
-		languages = []string{"en"}
+		locales = []string{"en"}
 	} else {
-		languages = []string{ld.Name}
+		locales = []string{ld.Name}
 	}
 
 	// Parse the text
-	parsedSearch, subStrings := p.parseFoundObjects(iCfg, languages, translation, original)
+	parsedSearch, subStrings := p.parseFoundObjects(iCfg, locales, translation, original)
 
 	// Create final result
 	result := make([]SearchResult, len(parsedSearch))
@@ -168,10 +176,10 @@ func (p *Parser) initUniqueCharsets(languages []string) map[string][]rune {
 	return p.uniqueCharsets
 }
 
-func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, translation, original []string) ([]parsedSearch, []string) {
+func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, locales, translation, original []string) ([]parsedSearch, []string) {
 	// Specify entries to parse
 	var parserEntries []string
-	if languages[0] == "en" {
+	if locales[0] == "en" {
 		parserEntries = slices.Clone(translation)
 	} else {
 		parserEntries = slices.Clone(original)
@@ -187,7 +195,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 			continue
 		}
 
-		parsedEntry, isRelative := p.parseEntry(iCfg, entry, translation[i], parsedList, needRelativeBase)
+		parsedEntry, isRelative := p.parseEntry(iCfg, locales, entry, translation[i], parsedList, needRelativeBase)
 		if !parsedEntry.IsZero() {
 			parsedList = append(parsedList, parsedSearch{parsedEntry, isRelative})
 			subStrings = append(subStrings, strutil.TrimChars(original[i], ` .,:()[]-'`))
@@ -211,7 +219,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 						continue
 					}
 
-					parsedJEntry, jIsRelative := p.parseEntry(iCfg, jEntry,
+					parsedJEntry, jIsRelative := p.parseEntry(iCfg, locales, jEntry,
 						split.EntryParts[j], currentParseResult, needRelativeBase)
 
 					jSubString := strutil.TrimChars(split.OriginalParts[j], ` .,:()[]-`)
@@ -237,13 +245,15 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 	return parsedList, subStrings
 }
 
-func (p *Parser) parseEntry(iCfg *setting.Configuration, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
+func (p *Parser) parseEntry(iCfg *setting.Configuration, locales []string, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
 	// Normalize entry
 	entry = strings.ReplaceAll(entry, "ngày", "")
 	entry = strings.ReplaceAll(entry, "am", "")
 
 	// Parse entry
 	cfg := configFromInternal(iCfg)
+	cfg.Locales = locales
+	cfg.DateOrder = func(string) string { return iCfg.DateOrder }
 	parsedEntry, _ := p.Parse(cfg, entry)
 
 	// If needed, generate relative base and parse the entry
-- 
2.43.0


From 12163ba9a3a1676d4dfe2481793b89eb203ddd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 43/72] fix: keep AM of the clock in search

---
 search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search.go b/search.go
index bc40b55..2f97a10 100644
--- a/search.go
+++ b/search.go
@@ -13,6 +13,7 @@ import (
 	"github.com/markusmobius/go-dateparser/date"
 	"github.com/markusmobius/go-dateparser/internal/data"
 	"github.com/markusmobius/go-dateparser/internal/language"
+	"github.com/markusmobius/go-dateparser/internal/regexp"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/strutil"
 )
@@ -20,6 +21,7 @@ import (
 var (
 	splitters     = []string{",", "،", "——", "—", "–", ".", " "}
 	relativeWords = []string{"ago", "in", "from now", "tomorrow", "today", "yesterday"}
+	rxAmWord      = regexp.MustCompile(`(\d:\d+(?:[:.]\d+)*\s*am)|am`)
 )
 
 type SearchResult struct {
@@ -248,7 +250,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, locales, transla
 func (p *Parser) parseEntry(iCfg *setting.Configuration, locales []string, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
 	// Normalize entry
 	entry = strings.ReplaceAll(entry, "ngày", "")
-	entry = strings.ReplaceAll(entry, "am", "")
+	entry = rxAmWord.ReplaceAllString(entry, "$1") // don't change the AM of a clock
 
 	// Parse entry
 	cfg := configFromInternal(iCfg)
-- 
2.43.0


From 68aafbe93a3d91f3f4ccccbbdef12df8ac592d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 44/72] fix: keep future word before unit with punctuation in
 search

---
 internal/language/translate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/language/translate.go b/internal/language/translate.go
index 4aa0610..26b46a9 100644
--- a/internal/language/translate.go
+++ b/internal/language/translate.go
@@ -109,7 +109,7 @@ func clearFutureWords(words []string) []string {
 	var hasFreshness bool
 	var wordsWithoutIn []string
 	for _, word := range words {
-		isFreshWord := freshnessWords.Contain(word)
+		isFreshWord := freshnessWords.Contain(strutil.TrimChars(word, `()"'{}[],.،`))
 		hasFreshness = hasFreshness || isFreshWord
 
 		if word != "in" {
-- 
2.43.0


From 93c29ebe8a5da20758af9d69bef91b2b8ccadb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 45/72] fix: don't join the last word of sentence with a
 missing word in search

---
 internal/language/translate-search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 499ec8f..8022165 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -47,7 +47,7 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 			if word == "" || word == " " {
 				translatedChunk = append(translatedChunk, []string{word})
 				originalChunk = append(originalChunk, originalTokens[i])
-			} else if isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable {
+			} else if i < lastTokenIndex && isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable {
 				translations, _ := translateWord(ld, currentAndNextJoined)
 				joinedOriginalToken := joinChunk(ld, originalTokens[i], originalTokens[i+1])
 
-- 
2.43.0


From a810dc85605e4387a4fa111ce758fc2d4eea6de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 46/72] fix: don't remove am from the middle of words in search

---
 search.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/search.go b/search.go
index 2f97a10..c85b949 100644
--- a/search.go
+++ b/search.go
@@ -21,7 +21,7 @@ import (
 var (
 	splitters     = []string{",", "،", "——", "—", "–", ".", " "}
 	relativeWords = []string{"ago", "in", "from now", "tomorrow", "today", "yesterday"}
-	rxAmWord      = regexp.MustCompile(`(\d:\d+(?:[:.]\d+)*\s*am)|am`)
+	rxAmWord      = regexp.MustCompile(`(\d:\d+(?:[:.]\d+)*\s*am|[\pL\pM]+am|am[\pL\pM]+)|am`)
 )
 
 type SearchResult struct {
@@ -250,7 +250,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, locales, transla
 func (p *Parser) parseEntry(iCfg *setting.Configuration, locales []string, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
 	// Normalize entry
 	entry = strings.ReplaceAll(entry, "ngày", "")
-	entry = rxAmWord.ReplaceAllString(entry, "$1") // don't change the AM of a clock
+	entry = rxAmWord.ReplaceAllString(entry, "$1") // don't change the AM of a clock and other words
 
 	// Parse entry
 	cfg := configFromInternal(iCfg)
-- 
2.43.0


From c703dc32f6d6c7f8c44f4161ba81edfd8a2879d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 47/72] fix: don't use punctuation to detect the language of a
 text

---
 internal/language/detector.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/internal/language/detector.go b/internal/language/detector.go
index 6033ae9..c0eee64 100644
--- a/internal/language/detector.go
+++ b/internal/language/detector.go
@@ -75,22 +75,16 @@ func getLanguageCandidates(str string, languages []string, uniqueCharsets map[st
 	// Normalize charset
 	str = strutil.NormalizeCharset(str)
 
-	// Convert string to charset (runes)
+	// Convert string to charset (runes), without the ones that common in any language
 	strCharset := map[rune]struct{}{}
 	for _, r := range str {
-		strCharset[r] = struct{}{}
-	}
-
-	// If this string only uses common chars, any language will do
-	onlyUseCommon := true
-	for char := range strCharset {
-		if !unicode.Is(commonCharset, char) {
-			onlyUseCommon = false
-			break
+		if !unicode.Is(commonCharset, r) {
+			strCharset[r] = struct{}{}
 		}
 	}
 
-	if onlyUseCommon {
+	// If this string only uses common chars, any language will do
+	if len(strCharset) == 0 {
 		return []string{languages[0]}
 	}
 
-- 
2.43.0


From 0820ad8b139696c3ed7519868702460fa13d775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:21 +0000
Subject: [PATCH 48/72] fix: don't parse text without any date part as today

---
 internal/parser/absolute/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 5cd1d54..55847c0 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -272,6 +272,11 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 		}
 	}
 
+	// Text without any parts of date and time is not a date
+	if len(p.ComponentValues) == 0 && len(p.ComponentTokens) == 0 {
+		return date.Date{}, fmt.Errorf("string has no date")
+	}
+
 	err := common.CheckStrictParsing(p.Config, missingParts)
 	if err != nil {
 		return date.Date{}, err
-- 
2.43.0


From c9c4811506a3d6e8c9c61c1badd8f9d7fdf88523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 49/72] fix: don't return search result without text

---
 search.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/search.go b/search.go
index c85b949..2d2c0a1 100644
--- a/search.go
+++ b/search.go
@@ -199,8 +199,11 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, locales, transla
 
 		parsedEntry, isRelative := p.parseEntry(iCfg, locales, entry, translation[i], parsedList, needRelativeBase)
 		if !parsedEntry.IsZero() {
-			parsedList = append(parsedList, parsedSearch{parsedEntry, isRelative})
-			subStrings = append(subStrings, strutil.TrimChars(original[i], ` .,:()[]-'`))
+			// Without any text, this date comes from misaligned translation
+			if subString := strutil.TrimChars(original[i], ` .,:()[]-'`); subString != "" {
+				parsedList = append(parsedList, parsedSearch{parsedEntry, isRelative})
+				subStrings = append(subStrings, subString)
+			}
 			continue
 		}
 
@@ -237,7 +240,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, locales, transla
 
 		bestParseResult, bestSubString := chooseBestSplit(possibleParseResult, possibleSubStrings)
 		for k, parseResult := range bestParseResult {
-			if !parseResult.Date.IsZero() {
+			if !parseResult.Date.IsZero() && bestSubString[k] != "" {
 				parsedList = append(parsedList, parseResult)
 				subStrings = append(subStrings, bestSubString[k])
 			}
-- 
2.43.0


From 34578b7d14ae8fd47323e23b33f37b284a98c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:29 +0000
Subject: [PATCH 50/72] fix: fill missing parts of Jalali and Hijri date in
 their own calendar

---
 internal/parser/absolute/parser.go | 107 +++++++++++++++++++++++++----
 internal/parser/hijri/parser.go    |   1 +
 internal/parser/jalali/parser.go   |   1 +
 3 files changed, 96 insertions(+), 13 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 55847c0..5722abb 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -46,6 +46,10 @@ type Parser struct {
 	FnCreateDateTime    func(p *Parser, params map[string]int, loc *time.Location) (time.Time, error)
 	FnGetDatePartValue  func(p *Parser, component, token, directive string) (int, bool)
 
+	// OtherCalendar is true if date parts are from other calendar than the Gregorian. The missing
+	// parts must be filled in that calendar as well, since its months and years are different.
+	OtherCalendar bool
+
 	Tokens           []tokenizer.Token
 	FilteredTokens   []FilteredToken
 	Components       []string
@@ -300,6 +304,10 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 		dtParams["nanosecond"] = p.ParsedTime.Nanosecond()
 	}
 
+	if p.OtherCalendar {
+		p.setPreferredParts(dtParams)
+	}
+
 	// Create datetime object. Its location is only set once the date is final, otherwise
 	// wall clocks that doesn't exist in there will be shifted.
 	dt, err := p.FnCreateDateTime(p, dtParams, time.UTC)
@@ -308,14 +316,16 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 	}
 
 	// Apply correction for past and future
-	dt = p.correctForTimeFrame(dt, tz)
+	dt = p.correctForTimeFrame(dt, tz, dtParams)
 
-	// Apply correction for preference of month: beginning, current, end.
-	// Must be done before day so that day is derived from the correct month.
-	dt = p.correctForMonth(dt)
+	if !p.OtherCalendar {
+		// Apply correction for preference of month: beginning, current, end.
+		// Must be done before day so that day is derived from the correct month.
+		dt = p.correctForMonth(dt)
 
-	// Apply correction for preference of day: beginning, current, end
-	dt = p.correctForDay(dt)
+		// Apply correction for preference of day: beginning, current, end
+		dt = p.correctForDay(dt)
+	}
 
 	// Put the wall clock in the location of current time, unless the caller
 	// will put it in other timezone
@@ -461,7 +471,7 @@ func (p *Parser) parseLetterToken(tokenText string, skippedComponent string) ([]
 	return nil, fmt.Errorf("unable to parse %s", tokenText)
 }
 
-func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.Time {
+func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData, params map[string]int) time.Time {
 	_, yearExist := p.ComponentValues["year"]
 	_, monthExist := p.ComponentValues["month"]
 	_, tokenTimeExist := p.ComponentTokens["time"]
@@ -519,6 +529,10 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 		loc = p.Config.DefaultTimezone
 	}
 
+	if p.OtherCalendar {
+		return p.correctOtherCalendar(t, loc, dateSource, params)
+	}
+
 	if monthExist && !yearExist {
 		tDay, tMonth, tYear := t.Day(), t.Month(), t.Year()
 
@@ -558,18 +572,85 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	}
 
 	if tokenTimeExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist && !tokenWeekdayExist {
-		for dateSource == setting.Past && p.Now.Before(dateutil.InLocation(t, loc)) {
-			t = t.AddDate(0, 0, -1)
-		}
+		t = p.correctTimeOnly(t, loc, dateSource)
+	}
 
-		for dateSource == setting.Future && p.Now.After(dateutil.InLocation(t, loc)) {
-			t = t.AddDate(0, 0, 1)
-		}
+	return t
+}
+
+// correctTimeOnly moves a time without any date to the closest day in the preferred direction.
+func (p *Parser) correctTimeOnly(t time.Time, loc *time.Location, dateSource setting.PreferredDateSource) time.Time {
+	for dateSource == setting.Past && p.Now.Before(dateutil.InLocation(t, loc)) {
+		t = t.AddDate(0, 0, -1)
+	}
+
+	for dateSource == setting.Future && p.Now.After(dateutil.InLocation(t, loc)) {
+		t = t.AddDate(0, 0, 1)
 	}
 
 	return t
 }
 
+// correctOtherCalendar moves a date without year or with two digits year to the preferred
+// direction, by recreating it from the params of its calendar.
+func (p *Parser) correctOtherCalendar(t time.Time, loc *time.Location, dateSource setting.PreferredDateSource, params map[string]int) time.Time {
+	_, yearExist := p.ComponentValues["year"]
+	_, monthExist := p.ComponentValues["month"]
+	tokenYear, tokenYearExist := p.ComponentTokens["year"]
+
+	var years int
+	switch {
+	case monthExist && !yearExist:
+		years = 1
+	case tokenYearExist && len(tokenYear.Text) == 2:
+		years = 100
+	case p.HasToken("time") && !p.HasToken("day") && !p.HasToken("month") && !tokenYearExist:
+		return p.correctTimeOnly(t, loc, dateSource)
+	}
+
+	isAfterNow := p.Now.Before(dateutil.InLocation(t, loc))
+	switch {
+	case dateSource == setting.Past && isAfterNow:
+		params["year"] -= years
+	case dateSource == setting.Future && !isAfterNow:
+		params["year"] += years
+	default:
+		return t
+	}
+
+	if moved, err := p.FnCreateDateTime(p, params, time.UTC); err == nil {
+		t = moved
+	}
+
+	return t
+}
+
+// setPreferredParts sets the preferred day and month for the missing ones in date string.
+func (p *Parser) setPreferredParts(params map[string]int) {
+	if p.Config == nil {
+		return
+	}
+
+	onlyTime := p.HasToken("time") && !p.HasToken("day") && !p.HasToken("year")
+	if !p.HasToken("month") && !onlyTime {
+		switch p.Config.PreferredMonthOfYear {
+		case setting.FirstMonth:
+			params["month"] = 1
+		case setting.LastMonth:
+			params["month"] = 12
+		}
+	}
+
+	if !p.HasToken("day") && !p.HasToken("time") {
+		switch p.Config.PreferredDayOfMonth {
+		case setting.First:
+			params["day"] = 1
+		case setting.Last:
+			params["day"] = 31 // limited to the last day of month later
+		}
+	}
+}
+
 func (p *Parser) correctForDay(t time.Time) time.Time {
 	_, tokenDayExist := p.ComponentTokens["day"]
 	_, tokenTimeExist := p.ComponentTokens["time"]
diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 7c6b87f..32bfeef 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -49,6 +49,7 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		FnGetDateTimeParams: getDateTimeParams,
 		FnGetDatePartValue:  getDatePartValue,
 		FnCreateDateTime:    createDateTime,
+		OtherCalendar:       true,
 	}
 
 	if err := parser.Init(str); err != nil {
diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 005762c..dff3674 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -38,6 +38,7 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		FnGetDateTimeParams: getDateTimeParams,
 		FnGetDatePartValue:  getDatePartValue,
 		FnCreateDateTime:    createDateTime,
+		OtherCalendar:       true,
 	}
 
 	if err := parser.Init(str); err != nil {
-- 
2.43.0


From c8bd48c1345a006d111183f01526598d60f9e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:05 +0000
Subject: [PATCH 51/72] fix: use current date in the calendar of Jalali and
 Hijri date

---
 internal/parser/hijri/parser.go  |  5 +++--
 internal/parser/jalali/parser.go | 16 +++++++++++-----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 32bfeef..85c6f6a 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -73,8 +73,9 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 }
 
 func getDateTimeParams(p *absolute.Parser) map[string]int {
-	// Get current time in Hijri
-	hd, _ := hijri.CreateUmmAlQuraDate(p.Now)
+	// Get current time in Hijri. Use noon in UTC since the calendar uses the date in UTC.
+	gY, gM, gD := p.Now.Date()
+	hd, _ := hijri.CreateUmmAlQuraDate(time.Date(gY, gM, gD, 12, 0, 0, 0, time.UTC))
 
 	// Get component values
 	day, dayExist := p.ComponentValues["day"]
diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index dff3674..4ed96a1 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -1,6 +1,7 @@
 package jalali
 
 import (
+	"fmt"
 	"strconv"
 	"time"
 	"unicode"
@@ -62,23 +63,23 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 }
 
 func getDateTimeParams(p *absolute.Parser) map[string]int {
-	// Get current time in Jalali
-	jd := jalaali.From(p.Now)
+	// Get current time in Jalali. They are all zero if it's outside the scope of calendar.
+	jYear, jMonth, jDay, _ := jalaali.ToJalaali(p.Now.Date())
 
 	// Get component values
 	day, dayExist := p.ComponentValues["day"]
 	if !dayExist || day == 0 {
-		day = jd.Day()
+		day = jDay
 	}
 
 	month, monthExist := p.ComponentValues["month"]
 	if !monthExist || month == 0 {
-		month = int(jd.Month())
+		month = int(jMonth)
 	}
 
 	year, yearExist := p.ComponentValues["year"]
 	if !yearExist || year == 0 {
-		year = jd.Year()
+		year = jYear
 	}
 
 	return map[string]int{
@@ -135,6 +136,11 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
+	// The missing parts are zero if current time is outside the scope of calendar
+	if M < 1 || D < 1 {
+		return time.Time{}, fmt.Errorf("date is outside Jalali scope")
+	}
+
 	// Fix leap year, as long as the year is not specified in the string
 	isLeapYear, err := jalaali.IsLeapYear(Y)
 	if err != nil {
-- 
2.43.0


From a0f5457ff8d25bb23e56e4483e0cd2b1595dbacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 52/72] fix: use Jalali leap years that match the calendar

---
 internal/parser/jalali/parser.go | 39 ++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 4ed96a1..9deb04d 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -142,20 +142,17 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	}
 
 	// Fix leap year, as long as the year is not specified in the string
-	isLeapYear, err := jalaali.IsLeapYear(Y)
+	leapYear, err := isLeapYear(Y)
 	if err != nil {
 		return time.Time{}, err
 	}
 
-	if D == 30 && M == 12 && p.HasToken("day") && !p.HasToken("year") && !isLeapYear {
+	if D == 30 && M == 12 && p.HasToken("day") && !p.HasToken("year") && !leapYear {
 		Y = getCorrectLeapYear(p.Config, Y)
 	}
 
 	// Fix max day
-	lastDayOfMonth, err := jalaali.MonthLength(Y, M)
-	if err == nil && D > lastDayOfMonth {
-		D = lastDayOfMonth
-	}
+	D = min(D, lastDayOfMonth(Y, M))
 
 	// Convert Jalali to Gregorian
 	gY, gM, gD, err := jalaali.ToGregorian(Y, jalaali.Month(M), D)
@@ -176,6 +173,34 @@ func isDigit(s string) bool {
 	return true
 }
 
+// isLeapYear checks whether the year has 366 days. The one from jalaali package is not used since
+// its result doesn't match with its own calendar for the last years of a leap year cycle.
+func isLeapYear(year int) (bool, error) {
+	gY, gM, gD, err := jalaali.ToGregorian(year, jalaali.Esfand, 30)
+	if err != nil {
+		return false, err
+	}
+
+	nY, nM, nD, err := jalaali.ToGregorian(year+1, jalaali.Farvardin, 1)
+	if err != nil {
+		return jalaali.IsLeapYear(year)
+	}
+
+	return gY != nY || gM != nM || gD != nD, nil
+}
+
+func lastDayOfMonth(year, month int) int {
+	leapYear, _ := isLeapYear(year)
+	switch {
+	case month <= 6:
+		return 31
+	case month < 12 || leapYear:
+		return 30
+	default:
+		return 29
+	}
+}
+
 func getLeapYear(year int, toFuture bool) int {
 	step := 1
 	if !toFuture {
@@ -186,7 +211,7 @@ func getLeapYear(year int, toFuture bool) int {
 
 	for {
 		year += step
-		isLeap, err := jalaali.IsLeapYear(year)
+		isLeap, err := isLeapYear(year)
 		if isLeap {
 			return year
 		} else if err != nil {
-- 
2.43.0


From 93f20bdfdfd02d6f81d9c98663975f72490645f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:24 +0000
Subject: [PATCH 53/72] fix: ignore invisible characters between words of
 Jalali date

---
 internal/parser/jalali/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 9deb04d..6941b7d 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -3,6 +3,7 @@ package jalali
 import (
 	"fmt"
 	"strconv"
+	"strings"
 	"time"
 	"unicode"
 
@@ -17,9 +18,12 @@ import (
 )
 
 func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
-	// Normalize the string
+	// Sanitize and normalize the string. The zero width non-joiners are removed
+	// since there are none in the translations below.
+	str = strutil.SanitizeDate(str)
 	str = strutil.NormalizeString(str)
 	str = digit.NormalizeString(str)
+	str = strings.ReplaceAll(str, "\u200c", "")
 
 	// Translate the foreign texts
 	str = replaceMonths(str)
-- 
2.43.0


From c3c94b92d27b35eda95e678c843ed8a739a6ff8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 54/72] fix: read timestamp with non latin digits

---
 internal/parser/timestamp/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/parser/timestamp/parser.go b/internal/parser/timestamp/parser.go
index d10121f..6bfe9d1 100644
--- a/internal/parser/timestamp/parser.go
+++ b/internal/parser/timestamp/parser.go
@@ -5,6 +5,7 @@ import (
 	"time"
 
 	"github.com/markusmobius/go-dateparser/date"
+	"github.com/markusmobius/go-dateparser/internal/digit"
 	"github.com/markusmobius/go-dateparser/internal/regexp"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 )
@@ -28,7 +29,7 @@ func Parse(cfg *setting.Configuration, str string, negative bool) date.Date {
 		rx = rxTimestamp
 	}
 
-	parts := rx.FindStringSubmatch(str)
+	parts := rx.FindStringSubmatch(digit.NormalizeString(str))
 	if len(parts) > 0 {
 		seconds, _ := strconv.ParseInt(parts[1], 10, 64)
 		millis, _ := strconv.ParseInt(parts[2], 10, 64)
-- 
2.43.0


From a2a7434e28e6d61c6e1c80c484baa5abcd3ef6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 55/72] fix: convert digits of ranges with several sets of
 digits

---
 internal/digit/digit.go    | 2 +-
 scripts/digit/templates.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/digit/digit.go b/internal/digit/digit.go
index ff9fbfa..5a4cdb0 100755
--- a/internal/digit/digit.go
+++ b/internal/digit/digit.go
@@ -45,7 +45,7 @@ type digitRange struct {
 
 func (dr digitRange) apply(r rune) (rune, bool) {
 	if r >= dr.Start && r <= dr.End {
-		number := int32(r - dr.Start)
+		number := (r - dr.Start) % 10 // some ranges have several sets of digits
 		return '0' + number, true
 	}
 
diff --git a/scripts/digit/templates.go b/scripts/digit/templates.go
index 9e8adec..74cad8f 100644
--- a/scripts/digit/templates.go
+++ b/scripts/digit/templates.go
@@ -52,7 +52,7 @@ type digitRange struct {
 
 func (dr digitRange) apply(r rune) (rune, bool) {
 	if r >= dr.Start && r <= dr.End {
-		number := int32(r - dr.Start)
+		number := (r - dr.Start) % 10 // some ranges have several sets of digits
 		return '0' + number, true
 	}
 
-- 
2.43.0


From a0e3260a03588cc064573303a5b884285323b9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:43 +0000
Subject: [PATCH 56/72] fix: don't take words that contain a timezone for a
 timezone in search

---
 internal/timezone/parser.go     | 2 +-
 internal/timezone/tz-offsets.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/timezone/parser.go b/internal/timezone/parser.go
index e3c57a1..d45ad38 100644
--- a/internal/timezone/parser.go
+++ b/internal/timezone/parser.go
@@ -24,5 +24,5 @@ func PopTzOffset(str string) (string, OffsetData) {
 
 // WordIsTz check if the specified word is a timezone code.
 func WordIsTz(word string) bool {
-	return rxSearch.MatchString(word)
+	return rxWord.MatchString(word)
 }
diff --git a/internal/timezone/tz-offsets.go b/internal/timezone/tz-offsets.go
index 6aacaed..9c411aa 100644
--- a/internal/timezone/tz-offsets.go
+++ b/internal/timezone/tz-offsets.go
@@ -20,7 +20,7 @@ func (tod OffsetData) IsZero() bool {
 	return tod.Name == "" && tod.Regex == nil && tod.Offset == 0
 }
 
-var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regexp.Regexp, *regexp.Regexp) {
+var timezoneOffsets, rxWord, rxSearchIgnoreCase = func() ([]OffsetData, *regexp.Regexp, *regexp.Regexp) {
 	// Process timezone info list
 	offsets := []OffsetData{}
 	regexPatterns := map[string]struct{}{}
@@ -79,7 +79,7 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 	sort.Strings(patterns)
 	strSearchPatterns := strings.Join(patterns, "|")
 
-	rxSearch := regexp.MustCompile(strSearchPatterns)
+	rxWord := regexp.MustCompile(`^\W*(?:` + strSearchPatterns + `)\W*$`)
 	rxSearchIgnoreCase := regexp.MustCompile("(?i)" + strSearchPatterns)
-	return offsets, rxSearch, rxSearchIgnoreCase
+	return offsets, rxWord, rxSearchIgnoreCase
 }()
-- 
2.43.0


From 07ce65bff343d8d235604c1d2eaa12f81c5c6f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 57/72] fix: skip adjacent words that aren't known

---
 internal/language/split.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/language/split.go b/internal/language/split.go
index 195663b..cf8b9a2 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -38,8 +38,7 @@ func Split(ld *data.LocaleData, str string, keepFormatting bool, skippedTokens s
 			continue
 		}
 
-		trimmedToken := strings.TrimSpace(token)
-		if !skippedTokens.Contain(trimmedToken) {
+		if !isSkipped(token, skippedTokens) {
 			finalTokens = append(finalTokens, token)
 		}
 	}
@@ -47,6 +46,19 @@ func Split(ld *data.LocaleData, str string, keepFormatting bool, skippedTokens s
 	return finalTokens
 }
 
+// isSkipped checks whether the token is skipped. Adjacent words that aren't known stay
+// together in one token, so it's also skipped if every one of its words is.
+func isSkipped(token string, skippedTokens strutil.Dict) bool {
+	if skippedTokens.Contain(strings.TrimSpace(token)) {
+		return true
+	}
+
+	words := strings.Fields(token)
+	return len(words) > 1 && !slices.ContainsFunc(words, func(word string) bool {
+		return !skippedTokens.Contain(word)
+	})
+}
+
 func SplitSentence(ld *data.LocaleData, str string) []string {
 	// Prepare helper function
 	isAbbreviation := func(s string) bool {
-- 
2.43.0


From c887bea9b51e567a9b23a4f75695bfd367cc48ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 58/72] fix: skip d. before the day in Danish

---
 data-supplementary/date-translation/da.yaml | 2 +-
 internal/data/da.go                         | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/data-supplementary/date-translation/da.yaml b/data-supplementary/date-translation/da.yaml
index 22f0693..59e86c9 100644
--- a/data-supplementary/date-translation/da.yaml
+++ b/data-supplementary/date-translation/da.yaml
@@ -1,4 +1,4 @@
-skip: ['cirka', 'd.', 'kl', 'kl.']
+skip: ['cirka', 'd', 'd.', 'kl', 'kl.']
 
 sentence_splitter_group: 1
 
diff --git a/internal/data/da.go b/internal/data/da.go
index cf84668..f5a1ab2 100755
--- a/internal/data/da.go
+++ b/internal/data/da.go
@@ -102,6 +102,7 @@ func init() {
 			"@":         {""},
 			"[":         {""},
 			"]":         {""},
+			"d":         {""},
 			"i":         {"in"},
 			"s":         {"second"},
 			"t":         {"hour"},
@@ -172,7 +173,7 @@ func init() {
 		},
 		RxCombined:      regexp.MustCompile(`(?i)(\A|[^\pL\pM\d]|_)(for \d+[.,]?\d* minutter siden|for \d+[.,]?\d* sekunder siden|for \d+[.,]?\d* maneder siden|for \d+[.,]?\d* sekund siden|for \d+[.,]?\d* maned siden|for \d+[.,]?\d* minut siden|for \d+[.,]?\d* timer siden|for \d+[.,]?\d* dage siden|for \d+[.,]?\d* time siden|for \d+[.,]?\d* uger siden|for \d+[.,]?\d* dag siden|for \d+[.,]?\d* mdr siden|for \d+[.,]?\d* min siden|for \d+[.,]?\d* sek siden|for \d+[.,]?\d* uge siden|for \d+[.,]?\d* ar siden|for \d+[.,]?\d* md siden|for \d+[.,]?\d* minutter|for \d+[.,]?\d* sekunder|om \d+[.,]?\d* minutter|om \d+[.,]?\d* sekunder|om \d+[.,]?\d* maneder|for \d+[.,]?\d* timer|om \d+[.,]?\d* sekund|om \d+[.,]?\d* maned|om \d+[.,]?\d* minut|om \d+[.,]?\d* timer|for \d+[.,]?\d*\s*h|for \d+[.,]?\d*\s*m|for \d+[.,]?\d*\s*s|om \d+[.,]?\d* dage|om \d+[.,]?\d* time|om \d+[.,]?\d* uger|om \d+[.,]?\d* dag|om \d+[.,]?\d* mdr|om \d+[.,]?\d* min|om \d+[.,]?\d* sek|om \d+[.,]?\d* uge|om \d+[.,]?\d* ar|om \d+[.,]?\d* md)(\z|[^\pL\pM\d]|_)`),
 		RxExactCombined: regexp.MustCompile(`(?i)^(for \d+[.,]?\d* minutter siden|for \d+[.,]?\d* sekunder siden|for \d+[.,]?\d* maneder siden|for \d+[.,]?\d* sekund siden|for \d+[.,]?\d* maned siden|for \d+[.,]?\d* minut siden|for \d+[.,]?\d* timer siden|for \d+[.,]?\d* dage siden|for \d+[.,]?\d* time siden|for \d+[.,]?\d* uger siden|for \d+[.,]?\d* dag siden|for \d+[.,]?\d* mdr siden|for \d+[.,]?\d* min siden|for \d+[.,]?\d* sek siden|for \d+[.,]?\d* uge siden|for \d+[.,]?\d* ar siden|for \d+[.,]?\d* md siden|for \d+[.,]?\d* minutter|for \d+[.,]?\d* sekunder|om \d+[.,]?\d* minutter|om \d+[.,]?\d* sekunder|om \d+[.,]?\d* maneder|for \d+[.,]?\d* timer|om \d+[.,]?\d* sekund|om \d+[.,]?\d* maned|om \d+[.,]?\d* minut|om \d+[.,]?\d* timer|for \d+[.,]?\d*\s*h|for \d+[.,]?\d*\s*m|for \d+[.,]?\d*\s*s|om \d+[.,]?\d* dage|om \d+[.,]?\d* time|om \d+[.,]?\d* uger|om \d+[.,]?\d* dag|om \d+[.,]?\d* mdr|om \d+[.,]?\d* min|om \d+[.,]?\d* sek|om \d+[.,]?\d* uge|om \d+[.,]?\d* ar|om \d+[.,]?\d* md)$`),
-		KnownWords:      []string{"i det kommende minut", "i den kommende time", "sidste maned", "denne maned", "næste maned", "sidste uge", "denne uge", "næste uge", "september", "sidste ar", "sidste md", "december", "denne md", "i morgen", "minutter", "november", "næste ar", "næste md", "sekunder", "februar", "maneder", "oktober", "tirsdag", "torsdag", "august", "fredag", "januar", "lørdag", "mandag", "onsdag", "sekund", "søndag", "april", "cirka", "i dag", "i gar", "maned", "marts", "minut", "siden", "timer", "dage", "i ar", "juli", "juni", "time", "uger", "apr", "aug", "dag", "dec", "feb", "fre", "gmt", "jan", "jul", "jun", "kl.", "lør", "maj", "man", "mar", "min", "nov", "okt", "ons", "sek", "sep", "søn", "tir", "tor", "uge", "utc", "am", "ar", "d.", "kl", "md", "nu", "pm", " ", "'", "+", ",", "-", ".", "/", ":", ";", "@", "[", "]", "i", "s", "t", "z", "|"},
+		KnownWords:      []string{"i det kommende minut", "i den kommende time", "sidste maned", "denne maned", "næste maned", "sidste uge", "denne uge", "næste uge", "september", "sidste ar", "sidste md", "december", "denne md", "i morgen", "minutter", "november", "næste ar", "næste md", "sekunder", "februar", "maneder", "oktober", "tirsdag", "torsdag", "august", "fredag", "januar", "lørdag", "mandag", "onsdag", "sekund", "søndag", "april", "cirka", "i dag", "i gar", "maned", "marts", "minut", "siden", "timer", "dage", "i ar", "juli", "juni", "time", "uger", "apr", "aug", "dag", "dec", "feb", "fre", "gmt", "jan", "jul", "jun", "kl.", "lør", "maj", "man", "mar", "min", "nov", "okt", "ons", "sek", "sep", "søn", "tir", "tor", "uge", "utc", "am", "ar", "d.", "kl", "md", "nu", "pm", " ", "'", "+", ",", "-", ".", "/", ":", ";", "@", "[", "]", "d", "i", "s", "t", "z", "|"},
 	})
 
 	da_GL_Locale = merge(&da_Locale, LocaleData{
-- 
2.43.0


From 1e9c4869e691094225de398ec7ced2c857eacc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:06 +0000
Subject: [PATCH 59/72] fix: don't read unit beside numeric date or clock as
 duration

---
 internal/parser/relative/parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/parser/relative/parser.go b/internal/parser/relative/parser.go
index e7d3847..85c02d9 100644
--- a/internal/parser/relative/parser.go
+++ b/internal/parser/relative/parser.go
@@ -20,6 +20,8 @@ var (
 	rxAgo              = regexp.MustCompile(`(?i)\bago\b`)
 	rxInAgo            = regexp.MustCompile(`(?i)\b(?:ago|in)\b`)
 	rxRelativePattern  = regexp.MustCompile(`(?i)(\d+[.,]?\d*)\s*(` + relativeUnits + `)s?\b`)
+	rxNumericDate      = regexp.MustCompile(`\d[./-]\s*\d+[./-]\s*\d`)
+	rxClockBeforeUnit  = regexp.MustCompile(`(?i)\d:\d+\s*(?:` + relativeUnits + `)s?\b`)
 	rxRelativeSkipWord = regexp.MustCompile(`(?i)^(?:` + relativeUnits + `|ago|in|\d+|:|[ap]m)`)
 	relativeUnits      = `decade|year|month|week|day|hour|minute|second`
 )
@@ -76,6 +78,16 @@ func parseDate(cfg *setting.Configuration, str string, now time.Time) (time.Time
 		return time.Time{}, 0
 	}
 
+	// The unit beside a numeric date or after a clock isn't part of a duration, e.g.
+	// "12.05.2021 r." in Polish and "10:30 horas" in Spanish
+	if rxNumericDate.MatchString(str) {
+		return time.Time{}, 0
+	}
+
+	if rxClockBeforeUnit.MatchString(str) && !rxInAgo.MatchString(str) {
+		return time.Time{}, 0
+	}
+
 	// Retrieve relative durations
 	relDurations := getRelativeDurations(str)
 	if len(relDurations) == 0 {
-- 
2.43.0


From 471ffd157aabd8a1599e25708f7cdea9e67c2cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 60/72] fix: find known words that also appear inside other
 words

---
 internal/language/split.go | 50 +++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/internal/language/split.go b/internal/language/split.go
index cf8b9a2..400b202 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -190,38 +190,48 @@ func findMatchingKnownWord(ld *data.LocaleData, str string) []string {
 	lastPos := -1
 	var candidates []string
 	for _, knownWord := range ld.KnownWords {
-		wordLen := len(knownWord)
-		pos := strings.Index(str, knownWord)
+		// Find the first place where the word stands by itself
+		pos := indexKnownWord(ld, str, knownWord)
 		if pos < 0 {
 			continue
 		}
 
-		prefix := str[:pos]
-		match := str[pos : pos+wordLen]
-		suffix := str[pos+wordLen:]
-
-		prefixMatch := true
-		suffixMatch := true
-		if !ld.NoWordSpacing {
-			prefixMatch = checkKnownWordNeighbor(prefix, true)
-			suffixMatch = checkKnownWordNeighbor(suffix, false)
+		if lastPos == -1 || pos < lastPos {
+			wordEnd := pos + len(knownWord)
+			lastPos = pos
+			candidates = []string{str, str[:pos], str[pos:wordEnd], str[wordEnd:]}
 		}
 
-		if prefixMatch && suffixMatch {
-			if lastPos == -1 || pos < lastPos {
-				lastPos = pos
-				candidates = []string{str, prefix, match, suffix}
-			}
-
-			if pos == 0 {
-				return candidates
-			}
+		if pos == 0 {
+			return candidates
 		}
 	}
 
 	return candidates
 }
 
+// indexKnownWord returns the index of the first occurrence of the known word in the string
+// that isn't a part of another word, or -1 if there is none.
+func indexKnownWord(ld *data.LocaleData, str, knownWord string) int {
+	var start int
+	for {
+		pos := strings.Index(str[start:], knownWord)
+		if pos < 0 {
+			return -1
+		}
+
+		pos += start
+		if ld.NoWordSpacing ||
+			checkKnownWordNeighbor(str[:pos], true) &&
+				checkKnownWordNeighbor(str[pos+len(knownWord):], false) {
+			return pos
+		}
+
+		_, runeLen := utf8.DecodeRuneInString(str[pos:])
+		start = pos + max(runeLen, 1)
+	}
+}
+
 func checkKnownWordNeighbor(s string, isPrefix bool) bool {
 	if s == "" {
 		return true
-- 
2.43.0


From 809ec964c99d547f55d75d98e74f365f3e2872a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:53 +0000
Subject: [PATCH 61/72] fix: read am and pm in front of the clock

---
 data-supplementary/date-translation/zh.yaml |  4 +--
 internal/data/zh.go                         |  4 +--
 internal/parser/absolute/parser.go          | 29 ++++++++++++++++++++-
 internal/parser/common/time.go              |  4 +++
 4 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/data-supplementary/date-translation/zh.yaml b/data-supplementary/date-translation/zh.yaml
index 0d9be1b..6a381c2 100644
--- a/data-supplementary/date-translation/zh.yaml
+++ b/data-supplementary/date-translation/zh.yaml
@@ -47,8 +47,8 @@ relative-type:
 
 simplifications:
   - 半小时前: 30分前
-  - (?:中午|下午|(?:晚上?))(?:\s*)(\d+[.,]?\d*)(?:\s*):(?:\s+|:)?(\d+[.,]?\d*): \1:\2 pm
-  - (?:上午|早上|凌晨)(?:\s*)(\d+[.,]?\d*)(?:\s*):(?:\s+|:)?(\d+[.,]?\d*): \1:\2 am
+  - (?:中午|下午|(?:晚上?))(?:\s*)(\d+[.,]?\d*)(?:\s*):(?:\s+|:)?(\d+[.,]?\d*(?::\d+[.,]?\d*)?): \1:\2 pm
+  - (?:上午|早上|凌晨)(?:\s*)(\d+[.,]?\d*)(?:\s*):(?:\s+|:)?(\d+[.,]?\d*(?::\d+[.,]?\d*)?): \1:\2 am
   - 中午: '12:00'
   - (\d+[.,]?\d*)年(?:\s+)?(\d+[.,]?\d*)月(?:\s+)?(\d+[.,]?\d*)日(?:\s+)?(\d+[.,]?\d*)时(?:\s+)?(\d+[.,]?\d*)分: \1-\2-\3 \4:\5
   - (\d+[.,]?\d*)年(?:\s+)?(\d+[.,]?\d*)月(?:\s+)?(\d{1,2})(?:日)?(?:\s+)?(\d{1,2})(?:点|:)(\d{1,2}): \1-\2-\3 \4:\5
diff --git a/internal/data/zh.go b/internal/data/zh.go
index 8f1d1ca..0d842ae 100755
--- a/internal/data/zh.go
+++ b/internal/data/zh.go
@@ -17,8 +17,8 @@ func init() {
 		SentenceSplitterGroup: 4,
 		Simplifications: []ReplacementData{
 			{regexp.MustCompile(`(?i)半小时前`), "30分前"},
-			{regexp.MustCompile(`(?i)(?:中午|下午|(?:晚上?))(?:\s*)(\d+[.,]?\d*)(?:\s*):(?:\s+|:)?(\d+[.,]?\d*)`), "${1}:${2} pm"},
-			{regexp.MustCompile(`(?i)(?:上午|早上|凌晨)(?:\s*)(\d+[.,]?\d*)(?:\s*):(?:\s+|:)?(\d+[.,]?\d*)`), "${1}:${2} am"},
+			{regexp.MustCompile(`(?i)(?:中午|下午|(?:晚上?))(?:\s*)(\d+[.,]?\d*)(?:\s*):(?:\s+|:)?(\d+[.,]?\d*(?::\d+[.,]?\d*)?)`), "${1}:${2} pm"},
+			{regexp.MustCompile(`(?i)(?:上午|早上|凌晨)(?:\s*)(\d+[.,]?\d*)(?:\s*):(?:\s+|:)?(\d+[.,]?\d*(?::\d+[.,]?\d*)?)`), "${1}:${2} am"},
 			{regexp.MustCompile(`(?i)中午`), "12:00"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*)年(?:\s+)?(\d+[.,]?\d*)月(?:\s+)?(\d+[.,]?\d*)日(?:\s+)?(\d+[.,]?\d*)时(?:\s+)?(\d+[.,]?\d*)分`), "${1}-${2}-${3} ${4}:${5}"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*)年(?:\s+)?(\d+[.,]?\d*)月(?:\s+)?(\d{1,2})(?:日)?(?:\s+)?(\d{1,2})(?:点|:)(\d{1,2})`), "${1}-${2}-${3} ${4}:${5}"},
diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 5722abb..562e9a9 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -20,6 +20,7 @@ var (
 	rxHourMinute  = regexp.MustCompile(`^([0-9]|0[0-9]|1[0-9]|2[0-3]):[0-5][0-9]$`)
 	rxMicrosecond = regexp.MustCompile(`\d{1,6}`)
 	rxMeridian    = regexp.MustCompile(`(?i)am|pm`)
+	rxOnlyAmPm    = regexp.MustCompile(`(?i)^[ap]m$`)
 
 	alphaDirectives = map[string][]string{
 		"weekday": {"Monday", "Mon"},
@@ -140,7 +141,7 @@ func (p *Parser) Init(str string) error {
 			continue
 		}
 
-		if p.SkippedTokens.Contain(filteredToken.Text) {
+		if p.SkippedTokens.Contain(filteredToken.Text) || p.isMeridianOfNextClock(index) {
 			continue
 		}
 
@@ -206,6 +207,15 @@ func (p *Parser) Init(str string) error {
 				meridian = rxMeridian.FindString(meridianToken.Text)
 			}
 
+			// Some languages put the meridian before the clock
+			isClock := strings.Contains(filteredToken.Text, ":")
+			if !isClock && p.isMeridianOfNextClock(meridianIndex) {
+				meridian = ""
+			} else if isClock && p.isMeridianOfNextClock(index-1) {
+				meridianIndex = index - 1
+				meridian = p.FilteredTokens[meridianIndex].Text
+			}
+
 			// Capture time
 			if strings.Contains(filteredToken.Text, ":") || meridian != "" || microsecond != "" {
 				var strTime string
@@ -367,6 +377,23 @@ func (p *Parser) getFilteredToken(i int) (FilteredToken, bool) {
 	return FilteredToken{}, false
 }
 
+// isMeridianOfNextClock checks whether the token is a meridian that directly followed by a
+// clock without its own meridian, for example "PM 3:30".
+func (p *Parser) isMeridianOfNextClock(i int) bool {
+	token, exist := p.getFilteredToken(i)
+	if _, skipped := p.SkippedIndexes[i]; !exist || skipped || !rxOnlyAmPm.MatchString(token.Text) {
+		return false
+	}
+
+	nextToken, exist := p.getFilteredToken(i + 1)
+	if !exist || !strings.Contains(nextToken.Text, ":") {
+		return false
+	}
+
+	afterToken, exist := p.getFilteredToken(i + 2)
+	return !exist || !rxOnlyAmPm.MatchString(afterToken.Text)
+}
+
 func (p *Parser) setAndReturn(component string, token tokenizer.Token, value int, skipDateOrder bool) ([]TokenParseResult, error) {
 	if !skipDateOrder {
 		p.AutoOrder = append(p.AutoOrder, component)
diff --git a/internal/parser/common/time.go b/internal/parser/common/time.go
index 1a566f4..bef9166 100644
--- a/internal/parser/common/time.go
+++ b/internal/parser/common/time.go
@@ -6,8 +6,11 @@ import (
 	"time"
 
 	"github.com/markusmobius/go-dateparser/date"
+	"github.com/markusmobius/go-dateparser/internal/regexp"
 )
 
+var rxMeridianBeforeClock = regexp.MustCompile(`^([AP]M)\s*(\d.*)$`)
+
 // ParseTime parses the specified string using one of the common time formats.
 func ParseTime(s string) (time.Time, date.Period, error) {
 	timeFormats := []struct {
@@ -26,6 +29,7 @@ func ParseTime(s string) (time.Time, date.Period, error) {
 
 	tmp := strings.TrimSpace(s)
 	tmp = strings.ToUpper(tmp)
+	tmp = rxMeridianBeforeClock.ReplaceAllString(tmp, "$2 $1")
 	for _, format := range timeFormats {
 		t, err := time.Parse(format.Pattern, tmp)
 		if err != nil {
-- 
2.43.0


From 2bdf47e2d1ccabb879d7af5c2f06785b24cd5e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:50 +0000
Subject: [PATCH 62/72] fix: don't read the end of clock as amount of relative
 phrase

---
 internal/language/00-constant.go |  1 +
 internal/language/split.go       | 26 ++++++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index 43f3245..ec86077 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -25,6 +25,7 @@ var (
 	rxKeepToken1 = regexp.MustCompile(`^.*[^\W_].*$`)
 	rxKeepToken2 = regexp.MustCompile(`^.*[^\P{L}\d_].*$`)
 	rxNumeral    = regexp.MustCompile(`(\d+)`)
+	rxClockStart = regexp.MustCompile(`\d:$`)
 	rxTokenDigit = regexp.MustCompile(`[\d\.:\-/]+`)
 
 	disallowedKnownWordRunes = rangetable.Merge(
diff --git a/internal/language/split.go b/internal/language/split.go
index 400b202..af530fc 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -122,6 +122,13 @@ func splitWithRegex(s string, rx *regexp.Regexp) string {
 			break
 		}
 
+		// The number of a clock is not an amount, for example in "10:00 minggu lalu"
+		if clockEnd := indexClockEnd(s, pos); clockEnd > 0 {
+			tmp += s[:clockEnd]
+			s = s[clockEnd:]
+			continue
+		}
+
 		tmp += s[:pos[0]]
 
 		switch lenPos {
@@ -153,6 +160,25 @@ func splitWithRegex(s string, rx *regexp.Regexp) string {
 	return s
 }
 
+// indexClockEnd returns the end of the clock whose last number is the start of the phrase in
+// the specified submatches, or -1 if the phrase doesn't start inside a clock.
+func indexClockEnd(s string, submatches []int) int {
+	if len(submatches) != 4*2 {
+		return -1
+	}
+
+	phraseStart := submatches[4]
+	if !rxClockStart.MatchString(s[:phraseStart]) {
+		return -1
+	}
+
+	if number := rxNumeral.FindStringIndex(s[phraseStart:]); number != nil && number[0] == 0 {
+		return phraseStart + number[1]
+	}
+
+	return -1
+}
+
 func splitByKnownWords(ld *data.LocaleData, str string, keepFormatting bool) []string {
 	matches := findMatchingKnownWord(ld, str)
 	if len(matches) == 0 {
-- 
2.43.0


From 2e4caf7a54bbc8261ad1ec5c902fcbbf174d5102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:09 +0000
Subject: [PATCH 63/72] fix: read the number of named month with the word for
 day as the day

---
 internal/parser/absolute/parser.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 562e9a9..5f7f21d 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -242,7 +242,9 @@ func (p *Parser) Init(str string) error {
 
 		var err error
 		var results []TokenParseResult
-		if filteredToken.Type == tokenizer.Digit {
+		if dayResults, isDay := p.parseDayWithUnit(index); isDay {
+			results = dayResults
+		} else if filteredToken.Type == tokenizer.Digit {
 			results, err = p.parseDigitToken(filteredToken.Text, p.SkippedComponent)
 		} else if filteredToken.Type == tokenizer.Letter {
 			results, err = p.parseLetterToken(filteredToken.Text, p.SkippedComponent)
@@ -394,6 +396,29 @@ func (p *Parser) isMeridianOfNextClock(i int) bool {
 	return !exist || !rxOnlyAmPm.MatchString(afterToken.Text)
 }
 
+// parseDayWithUnit parses the day of a named month that followed by the word for day, for
+// example in the Japanese "4月17日" or the Lithuanian "balandžio 17 d.".
+func (p *Parser) parseDayWithUnit(i int) ([]TokenParseResult, bool) {
+	token, _ := p.getFilteredToken(i)
+	nextToken, exist := p.getFilteredToken(i + 1)
+	if !exist || nextToken.Text != "day" || token.Type != tokenizer.Digit {
+		return nil, false
+	}
+
+	if p.ComponentTokens["month"].Type != tokenizer.Letter || !p.HasToken("month") || p.HasToken("day") {
+		return nil, false
+	}
+
+	day, found := p.FnGetDatePartValue(p, "day", token.Text, "2")
+	if !found {
+		return nil, false
+	}
+
+	p.SkippedIndexes[i+1] = struct{}{}
+	results, _ := p.setAndReturn("day", token.Token, day, false)
+	return results, true
+}
+
 func (p *Parser) setAndReturn(component string, token tokenizer.Token, value int, skipDateOrder bool) ([]TokenParseResult, error) {
 	if !skipDateOrder {
 		p.AutoOrder = append(p.AutoOrder, component)
-- 
2.43.0


From 403413aae3738b39743a3454bcf7c842b0b7a328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:00 +0000
Subject: [PATCH 64/72] fix: don't split words at the vowel marks fatha and
 damma

---
 internal/strutil/strutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index ab9c2a7..6048392 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -40,7 +40,7 @@ var (
 		'[', ']',
 	)))
 
-	rxSanitizeSkip     = regexp.MustCompile(`\t|\n|\r|\x{00bb}|,\s\x{0432}\b|\x{200e}|\x{b7}|\x{200f}|\x{064e}|\x{064f}`)
+	rxSanitizeSkip     = regexp.MustCompile(`\t|\n|\r|\x{00bb}|,\s\x{0432}\b|\x{200e}|\x{b7}|\x{200f}`)
 	rxSanitizeRussian  = regexp.MustCompile(`(?i)([\PL\pN])\x{0433}\.`)
 	rxSanitizeCroatian = regexp.MustCompile(`(?i)(\pN+)\.\s?(\pN+)\.\s?(\pN+)\.( u)?`)
 	rxSanitizePeriod   = regexp.MustCompile(`(?i)([^\pN\.\s])\.`)
-- 
2.43.0


From 474b687906289f05e97ce340bff7ea4f75923b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:59 +0000
Subject: [PATCH 65/72] fix: separate the Japanese word for Monday from the day
 in front of it

---
 data-supplementary/date-translation/ja.yaml | 1 +
 internal/data/ja.go                         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/data-supplementary/date-translation/ja.yaml b/data-supplementary/date-translation/ja.yaml
index 73eb0f7..15438da 100644
--- a/data-supplementary/date-translation/ja.yaml
+++ b/data-supplementary/date-translation/ja.yaml
@@ -79,6 +79,7 @@ relative-type:
     - 明後日
 
 simplifications:
+  - 日月曜: 日 月曜
   - (\d+[.,]?\d*)年(?:\s+)?(\d+[.,]?\d*)月(?:\s+)?(\d+[.,]?\d*)日: \1-\2-\3
   - (\d+[.,]?\d*)月(?:\s+)?(\d+[.,]?\d*)日: \1-\2
   - (\d+[.,]?\d*)時(?:\s+)?(\d+[.,]?\d*)分(?:\s+)?(\d+[.,]?\d*)秒: \1:\2:\3
diff --git a/internal/data/ja.go b/internal/data/ja.go
index 1557c45..2e8d380 100755
--- a/internal/data/ja.go
+++ b/internal/data/ja.go
@@ -16,6 +16,7 @@ func init() {
 		Charset:               []rune(`cgtuz々かてでのらカヶ一七三九二五今以先八六内分前十午去四土在年後日明昨時曜月木水火現秒約翌週金間`),
 		SentenceSplitterGroup: 4,
 		Simplifications: []ReplacementData{
+			{regexp.MustCompile(`(?i)日月曜`), "日 月曜"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*)年(?:\s+)?(\d+[.,]?\d*)月(?:\s+)?(\d+[.,]?\d*)日`), "${1}-${2}-${3}"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*)月(?:\s+)?(\d+[.,]?\d*)日`), "${1}-${2}"},
 			{regexp.MustCompile(`(?i)(\d+[.,]?\d*)時(?:\s+)?(\d+[.,]?\d*)分(?:\s+)?(\d+[.,]?\d*)秒`), "${1}:${2}:${3}"},
-- 
2.43.0


From 7af4bfac7a28c19352507af956cead3714be9558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:01 +0000
Subject: [PATCH 66/72] fix: don't drop the number with a colon in front of a
 clock

---
 internal/parser/absolute/parser.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 5f7f21d..a4ce056 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -20,6 +20,7 @@ var (
 	rxHourMinute  = regexp.MustCompile(`^([0-9]|0[0-9]|1[0-9]|2[0-3]):[0-5][0-9]$`)
 	rxMicrosecond = regexp.MustCompile(`\d{1,6}`)
 	rxMeridian    = regexp.MustCompile(`(?i)am|pm`)
+	rxClock       = regexp.MustCompile(`^\d{1,2}:\d`)
 	rxOnlyAmPm    = regexp.MustCompile(`(?i)^[ap]m$`)
 
 	alphaDirectives = map[string][]string{
@@ -117,6 +118,18 @@ func (p *Parser) Init(str string) error {
 		}
 	}
 
+	// The colon between a date and its clock doesn't belong to the date
+	for i := 0; i < len(p.FilteredTokens)-1; i++ {
+		isClock := rxClock.MatchString(p.FilteredTokens[i+1].Text)
+		if !isClock && i+2 < len(p.FilteredTokens) {
+			isClock = rxOnlyAmPm.MatchString(p.FilteredTokens[i+2].Text)
+		}
+
+		if text := p.FilteredTokens[i].Text; isClock && text != ":" {
+			p.FilteredTokens[i].Text = strings.TrimSuffix(text, ":")
+		}
+	}
+
 	// Prepare list of number directives
 	if cfg != nil {
 		for _, char := range strings.ToLower(cfg.DateOrder) {
-- 
2.43.0


From 379d7c1e04d4886cc1ee5bcd4b2b59bcd12bfd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:53 +0000
Subject: [PATCH 67/72] fix: find words next to a colon or typographic quotes
 in search

---
 internal/language/00-constant.go      | 3 +++
 internal/language/translate-search.go | 4 +++-
 internal/language/translate.go        | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/language/00-constant.go b/internal/language/00-constant.go
index ec86077..0123a11 100644
--- a/internal/language/00-constant.go
+++ b/internal/language/00-constant.go
@@ -18,6 +18,9 @@ var (
 
 const (
 	splitSeparator = `|#=#=#|`
+
+	// Punctuations around a word, which are not part of it
+	wordPunctuations = `()"'{}[],.،:;؛«»“”„`
 )
 
 var (
diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 8022165..ed1aec1 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -42,7 +42,7 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 				continue
 			}
 
-			cleanedWord := strutil.TrimChars(word, `()"'{}[],.،`)
+			cleanedWord := strutil.TrimChars(word, wordPunctuations)
 
 			if word == "" || word == " " {
 				translatedChunk = append(translatedChunk, []string{word})
@@ -70,6 +70,8 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 					originalChunk, translatedChunk = []string{}, [][]string{}
 				}
 
+				// A colon would be taken as a part of clock
+				punct = strings.ReplaceAll(punct, ":", "")
 				translations, _ := translateWord(ld, cleanedWord)
 				for i, translation := range translations {
 					translations[i] = translation + punct
diff --git a/internal/language/translate.go b/internal/language/translate.go
index 26b46a9..96e5220 100644
--- a/internal/language/translate.go
+++ b/internal/language/translate.go
@@ -109,7 +109,7 @@ func clearFutureWords(words []string) []string {
 	var hasFreshness bool
 	var wordsWithoutIn []string
 	for _, word := range words {
-		isFreshWord := freshnessWords.Contain(strutil.TrimChars(word, `()"'{}[],.،`))
+		isFreshWord := freshnessWords.Contain(strutil.TrimChars(word, wordPunctuations))
 		hasFreshness = hasFreshness || isFreshWord
 
 		if word != "in" {
-- 
2.43.0


From 7c0285b9a7cec45bc7ea174617274f1f924f72d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:06 +0000
Subject: [PATCH 68/72] fix: one day in Filipino is not two

---
 data-supplementary/date-translation/tl.yaml | 2 +-
 internal/data/tl.go                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/data-supplementary/date-translation/tl.yaml b/data-supplementary/date-translation/tl.yaml
index 57b80e6..dac41f6 100644
--- a/data-supplementary/date-translation/tl.yaml
+++ b/data-supplementary/date-translation/tl.yaml
@@ -84,4 +84,4 @@ in:
 simplifications:
     - kahapon: 1 araw nakaraan
     - ngayon: 0 segundo nakalipas
-    - isang araw: 2 araw
+    - isang araw: 1 araw
diff --git a/internal/data/tl.go b/internal/data/tl.go
index 4776a33..2318572 100755
--- a/internal/data/tl.go
+++ b/internal/data/tl.go
@@ -17,7 +17,7 @@ func init() {
 		Simplifications: []ReplacementData{
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])kahapon(\z|[^\pL\pM\d_])`), "${1}1 araw nakaraan${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])ngayon(\z|[^\pL\pM\d_])`), "${1}0 segundo nakalipas${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])isang araw(\z|[^\pL\pM\d_])`), "${1}2 araw${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])isang araw(\z|[^\pL\pM\d_])`), "${1}1 araw${2}"},
 		},
 		Translations: map[string][]string{
 			"miyerkules": {"wednesday"},
-- 
2.43.0


From 40eeb28b5171cac4d8d020c71338c40b18c82ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:13 +0000
Subject: [PATCH 69/72] fix: recognize Ukrainian words for one and two

---
 data-supplementary/date-translation/uk.yaml | 4 ++--
 internal/data/uk.go                         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/data-supplementary/date-translation/uk.yaml b/data-supplementary/date-translation/uk.yaml
index e23a431..999eb39 100644
--- a/data-supplementary/date-translation/uk.yaml
+++ b/data-supplementary/date-translation/uk.yaml
@@ -154,8 +154,8 @@ relative-type-regex:
     - (\d+[.,]?\d*) секунда тому
 
 simplifications:
-  - од(на|ну|ні|ної|нієї|ин|ній): '1'
-  - дв(а|і|оє|ох): '2'
+  - од(?:на|ну|ні|ної|нієї|ин|ній): '1'
+  - дв(?:а|і|оє|ох): '2'
   - пар[ауі]: '2'
   - три: '3'
   - чотири: '4'
diff --git a/internal/data/uk.go b/internal/data/uk.go
index 6bacba0..a53c652 100755
--- a/internal/data/uk.go
+++ b/internal/data/uk.go
@@ -15,8 +15,8 @@ func init() {
 		Charset:               []rune(`cgtuzабвгдежзийклмнопрстухцчьюяєії`),
 		SentenceSplitterGroup: 1,
 		Simplifications: []ReplacementData{
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])од(на|ну|ні|ноі|нієі|ин|ніи)(\z|[^\pL\pM\d_])`), "${1}1${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])дв(а|і|оє|ох)(\z|[^\pL\pM\d_])`), "${1}2${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])од(?:на|ну|ні|ноі|нієі|ин|ніи)(\z|[^\pL\pM\d_])`), "${1}1${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])дв(?:а|і|оє|ох)(\z|[^\pL\pM\d_])`), "${1}2${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])пар[ауі](\z|[^\pL\pM\d_])`), "${1}2${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])три(\z|[^\pL\pM\d_])`), "${1}3${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])чотири(\z|[^\pL\pM\d_])`), "${1}4${2}"},
-- 
2.43.0


From bf13141fe4de60cf576ec29b94894868314ab68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:30 +0000
Subject: [PATCH 70/72] fix: Danish abbreviated units and less than a minute

---
 data-supplementary/date-translation/da.yaml | 6 +++---
 internal/data/da.go                         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/data-supplementary/date-translation/da.yaml b/data-supplementary/date-translation/da.yaml
index 59e86c9..7353977 100644
--- a/data-supplementary/date-translation/da.yaml
+++ b/data-supplementary/date-translation/da.yaml
@@ -34,9 +34,9 @@ relative-type-regex:
 simplifications:
   - en: '1'
   - et: '1'
-  - (\d+[.,]?\d*)\s*hr(s?): \1 time\2
-  - (\d+[.,]?\d*)\s*min(s?): \1 minut\2
-  - (\d+[.,]?\d*)\s*sec(s?): \1 sekund\2
+  - (\d+[.,]?\d*)\s*hrs?: \1 time
+  - (\d+[.,]?\d*)\s*mins?: \1 minut
+  - (\d+[.,]?\d*)\s*secs?: \1 sekund
   - middag: '12:00'
   - midnat: '00:00'
   - (\d+[.,]?\d*)h(\d+[.,]?\d*)m?: \1:\2
diff --git a/internal/data/da.go b/internal/data/da.go
index f5a1ab2..4c8e84b 100755
--- a/internal/data/da.go
+++ b/internal/data/da.go
@@ -19,9 +19,9 @@ func init() {
 		Simplifications: []ReplacementData{
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])en(\z|[^\pL\pM\d_])`), "${1}1${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])et(\z|[^\pL\pM\d_])`), "${1}1${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+[.,]?\d*)\s*hr(s?)(\z|[^\pL\pM\d_])`), "${1}${2} time${3}${4}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+[.,]?\d*)\s*min(s?)(\z|[^\pL\pM\d_])`), "${1}${2} minut${3}${4}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+[.,]?\d*)\s*sec(s?)(\z|[^\pL\pM\d_])`), "${1}${2} sekund${3}${4}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+[.,]?\d*)\s*hrs?(\z|[^\pL\pM\d_])`), "${1}${2} time${3}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+[.,]?\d*)\s*mins?(\z|[^\pL\pM\d_])`), "${1}${2} minut${3}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+[.,]?\d*)\s*secs?(\z|[^\pL\pM\d_])`), "${1}${2} sekund${3}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])middag(\z|[^\pL\pM\d_])`), "${1}12:00${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])midnat(\z|[^\pL\pM\d_])`), "${1}00:00${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+[.,]?\d*)h(\d+[.,]?\d*)m?(\z|[^\pL\pM\d_])`), "${1}${2}:${3}${4}"},
-- 
2.43.0


From 2160385246d320cb9579d4be5e593002a5b19d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:30 +0000
Subject: [PATCH 71/72] fix: number words in front of later

---
 data-supplementary/date-translation/en.yaml | 4 ++--
 internal/data/en.go                         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/data-supplementary/date-translation/en.yaml b/data-supplementary/date-translation/en.yaml
index 19d1931..3a1fb5f 100644
--- a/data-supplementary/date-translation/en.yaml
+++ b/data-supplementary/date-translation/en.yaml
@@ -85,8 +85,6 @@ simplifications:
   - (?:12\s+)?midnight: '00:00'
   - (\d+[.,]?\d*)h(\d+[.,]?\d*): \1:\2
   - (from\s+)now: \1in
-  - less than 1 minute ago: 45 second ago
-  - (\d+[.,]?\d*) (decade|year|month|week|day|hour|minute|second)s? later: in \1 \2
   - one: '1'
   - two: '2'
   - three: '3'
@@ -99,3 +97,5 @@ simplifications:
   - ten: '10'
   - eleven: '11'
   - twelve: '12'
+  - less than 1 minute ago: 45 second ago
+  - (\d+[.,]?\d*) (decade|year|month|week|day|hour|minute|second)s? later: in \1 \2
diff --git a/internal/data/en.go b/internal/data/en.go
index 108e2e6..a7099c6 100755
--- a/internal/data/en.go
+++ b/internal/data/en.go
@@ -124,8 +124,6 @@ func init() {
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(?:12\s+)?midnight(\z|[^\pL\pM\d_])`), "${1}00:00${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+[.,]?\d*)h(\d+[.,]?\d*)(\z|[^\pL\pM\d_])`), "${1}${2}:${3}${4}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])from\s+now(\z|[^\pL\pM\d_])`), "${1}in${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])less than 1 minute ago(\z|[^\pL\pM\d_])`), "${1}45 second ago${2}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+[.,]?\d*) (decade|year|month|week|day|hour|minute|second)s? later(\z|[^\pL\pM\d_])`), "${1}in ${2} ${3}${4}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])one(\z|[^\pL\pM\d_])`), "${1}1${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])two(\z|[^\pL\pM\d_])`), "${1}2${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])three(\z|[^\pL\pM\d_])`), "${1}3${2}"},
@@ -138,6 +136,8 @@ func init() {
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])ten(\z|[^\pL\pM\d_])`), "${1}10${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])eleven(\z|[^\pL\pM\d_])`), "${1}11${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])twelve(\z|[^\pL\pM\d_])`), "${1}12${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])less than 1 minute ago(\z|[^\pL\pM\d_])`), "${1}45 second ago${2}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+[.,]?\d*) (decade|year|month|week|day|hour|minute|second)s? later(\z|[^\pL\pM\d_])`), "${1}in ${2} ${3}${4}"},
 		},
 		Translations: map[string][]string{
 			"september": {"september"},
-- 
2.43.0


From 778e234d87384dddec8228106d746e0d5ed4841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:30 +0000
Subject: [PATCH 72/72] fix: less than some minutes in French

---
 data-supplementary/date-translation/fr.yaml | 2 +-
 internal/data/fr.go                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/data-supplementary/date-translation/fr.yaml b/data-supplementary/date-translation/fr.yaml
index 526a89d..38109a3 100644
--- a/data-supplementary/date-translation/fr.yaml
+++ b/data-supplementary/date-translation/fr.yaml
@@ -65,7 +65,7 @@ simplifications:
   - un: '1'
   - (\d+[.,]?\d*)\s+h\s+(\d+[.,]?\d*)\s+min: \1h\2m
   - (\d+[.,]?\d*)h(\d+[.,]?\d*)m?: \1:\2
-  - moins\s(?:de\s)?(\d+[.,]?\d*)\s?(minute|seconde|heure): \1 \2
+  - moins\s(?:de\s)?(\d+[.,]?\d*)\s?(minute|seconde|heure)s?: \1 \2
   - moins\s(?:de\s)?(\d+[.,]?\d*)\s?s: \1 seconde
   - moins\s(?:de\s)?(\d+[.,]?\d*)\s?m: \1 minute
   - moins\s(?:de\s)?(\d+[.,]?\d*)\s?h: \1 heure
diff --git a/internal/data/fr.go b/internal/data/fr.go
index 7760575..0c33dcc 100755
--- a/internal/data/fr.go
+++ b/internal/data/fr.go
@@ -66,7 +66,7 @@ func init() {
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])un(\z|[^\pL\pM\d_])`), "${1}1${2}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+[.,]?\d*)\s+h\s+(\d+[.,]?\d*)\s+min(\z|[^\pL\pM\d_])`), "${1}${2}h${3}m${4}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])(\d+[.,]?\d*)h(\d+[.,]?\d*)m?(\z|[^\pL\pM\d_])`), "${1}${2}:${3}${4}"},
-			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])moins\s(?:de\s)?(\d+[.,]?\d*)\s?(minute|seconde|heure)(\z|[^\pL\pM\d_])`), "${1}${2} ${3}${4}"},
+			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])moins\s(?:de\s)?(\d+[.,]?\d*)\s?(minute|seconde|heure)s?(\z|[^\pL\pM\d_])`), "${1}${2} ${3}${4}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])moins\s(?:de\s)?(\d+[.,]?\d*)\s?s(\z|[^\pL\pM\d_])`), "${1}${2} seconde${3}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])moins\s(?:de\s)?(\d+[.,]?\d*)\s?m(\z|[^\pL\pM\d_])`), "${1}${2} minute${3}"},
 			{regexp.MustCompile(`(?i)(\A|[^\pL\pM\d_])moins\s(?:de\s)?(\d+[.,]?\d*)\s?h(\z|[^\pL\pM\d_])`), "${1}${2} heure${3}"},
-- 
2.43.0

