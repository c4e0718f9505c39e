package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"unicode/utf8"

	dps "github.com/markusmobius/go-dateparser"
)

// Call is one serializable call of the public API.
type Call struct {
	Op      string   // parse, search, searchlang, jalali, hijri, poptz
	Cfg     Cfg      `json:",omitempty"`
	Text    string   `json:",omitempty"`
	Raw     []byte   `json:",omitempty"` // text that isn't UTF-8
	Formats []string `json:",omitempty"`
	Lang    string   `json:",omitempty"`
	Types   []int    `json:",omitempty"`
}

// CallOut is everything observable of a call.
type CallOut struct {
	Out     Out      `json:",omitempty"`
	Lang    string   `json:",omitempty"`
	Texts   []string `json:",omitempty"`
	Dates   []Out    `json:",omitempty"`
	ErrText string   `json:",omitempty"`
	Panic   string   `json:",omitempty"`
}

func (c Call) text() string {
	if c.Raw != nil {
		return string(c.Raw)
	}
	return c.Text
}

func (c Call) on(p *dps.Parser) CallOut { return c.onCfg(p, c.Cfg.build()) }

func (c Call) onCfg(p *dps.Parser, cfg *dps.Configuration) (o CallOut) {
	defer o.encode()
	switch c.Op {
	case "parse":
		d, err := p.Parse(cfg, c.text(), c.Formats...)
		o.Out = toOut(d, err)
		if err != nil {
			o.ErrText = err.Error()
		}
	case "search":
		lang, res, err := p.Search(cfg, c.text())
		o.Lang, o.Out.Err = lang, err != nil
		o.fill(res)
	case "searchlang":
		res, err := p.SearchWithLanguage(cfg, c.Lang, c.text())
		o.Out.Err = err != nil
		o.fill(res)
	case "jalali":
		o.Out = toOut(dps.ParseJalali(cfg, c.text()))
	case "hijri":
		o.Out = toOut(dps.ParseHijri(cfg, c.text()))
	case "poptz":
		s, name, off := dps.PopTzOffset(c.text())
		o.Texts = []string{s, name, fmt.Sprint(off)}
	}
	return o
}

func (o *CallOut) fill(res []dps.SearchResult) {
	for _, r := range res {
		o.Texts = append(o.Texts, r.Text)
		o.Dates = append(o.Dates, toOut(r.Date, nil))
	}
}

func (c Call) fresh() CallOut {
	p := &dps.Parser{}
	for _, t := range c.Types {
		p.ParserTypes = append(p.ParserTypes, dps.ParserType(t))
	}
	return c.on(p)
}

// utf keeps texts that aren't UTF-8 through JSON.
func utf(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	return strconv.Quote(s)
}

func (o *CallOut) encode() {
	o.Lang, o.ErrText, o.Panic, o.Out.Locale = utf(o.Lang), utf(o.ErrText), utf(o.Panic), utf(o.Out.Locale)
	for i := range o.Texts {
		o.Texts[i] = utf(o.Texts[i])
	}
}

func (o CallOut) key() string {
	bt, _ := json.Marshal(o)
	return string(bt)
}

// serve answers calls read as JSON lines; used by checks that compare processes.
func serve(in *bufio.Reader, out io.Writer) {
	w := bufio.NewWriter(out)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var calls []Call
		must(json.Unmarshal(line, &calls))
		outs := make([]CallOut, len(calls))
		for i, c := range calls {
			func() {
				defer func() {
					if r := recover(); r != nil {
						outs[i] = CallOut{Panic: fmt.Sprint(r)}
					}
				}()
				outs[i] = c.fresh()
			}()
		}
		bt, err := json.Marshal(outs)
		must(err)
		w.Write(bt)
		w.WriteByte('\n')
		w.Flush()
	}
}

var peerBinary string

type peerProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var peers = map[string]*peerProc{}

// ask sends calls to a child process of the specified binary and environment.
func ask(binary string, env []string, calls []Call) ([]CallOut, error) {
	key := fmt.Sprint(binary, env)
	p := peers[key]
	if p == nil {
		p = &peerProc{cmd: exec.Command(binary, "serve")}
		p.cmd.Env = append(os.Environ(), env...)
		p.cmd.Stderr = os.Stderr
		var err error
		if p.in, err = p.cmd.StdinPipe(); err != nil {
			return nil, err
		}
		so, err := p.cmd.StdoutPipe()
		if err != nil {
			return nil, err
		}
		p.out = bufio.NewReaderSize(so, 1<<20)
		if err = p.cmd.Start(); err != nil {
			return nil, err
		}
		peers[key] = p
	}
	bt, err := json.Marshal(calls)
	if err != nil {
		return nil, err
	}
	if _, err = p.in.Write(append(bt, '\n')); err != nil {
		return nil, err
	}
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		delete(peers, key)
		return nil, fmt.Errorf("peer process died: %w", err)
	}
	var outs []CallOut
	err = json.Unmarshal(line, &outs)
	return outs, err
}

// dropPeers ends the processes with the environments.
func dropPeers(envs ...[]string) {
	for _, env := range envs {
		key := fmt.Sprint(peerBinary, env)
		if p := peers[key]; p != nil {
			p.in.Close()
			p.cmd.Wait()
			delete(peers, key)
		}
	}
}

func closePeers() {
	for _, p := range peers {
		p.in.Close()
		p.cmd.Wait()
	}
}
