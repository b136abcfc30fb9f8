package main

// Reading texts of worlds and trees (spec/Doc.tla, spec/TextTrace.tla).

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/world"
)

// Tok is a token of a text (spec/Doc.tla).
type Tok struct {
	T  string     `json:"t"`
	Id string     `json:"id"`
	To string     `json:"to"`
	P  [][]string `json:"p"`
	N  int        `json:"n"`
}

// TextOp: doc (read the text of the tokens), parts (read parts of the text written by the code), replies (read the
// commands and the replies to them), text (read Txt, which is no text of a world or a tree).
type TextOp struct {
	E    string   `json:"e"`
	Toks []Tok    `json:"toks"`
	Txt  string   `json:"txt"`
	Kind string   `json:"kind"`
	Cmds []string `json:"cmds"`
	In   []Tok    `json:"in"`   // one, write: the items of the world that relationships are read in
	Bare bool     `json:"bare"` // doc: write identifiers and values without quotes where the language allows it
}
type TextJob struct {
	T         string   `json:"t"`
	Job       string   `json:"job"`
	Ops       []TextOp `json:"ops"`
	CrashAt   int      `json:"crash_at"`
	CrashKind string   `json:"crash_kind"`
}
type TextStep struct {
	E     string   `json:"e"`
	As    string   `json:"as"` // world or tree
	Toks  []Tok    `json:"toks"`
	Txt   string   `json:"txt"`
	Kind  string   `json:"kind"`
	Crash string   `json:"crash"`
	Err   bool     `json:"err"`
	None  bool     `json:"none"` // no world or tree was returned
	V     View     `json:"v"`
	TV    TView    `json:"tv"`
	Items int      `json:"items"`
	V2    View     `json:"v2"`
	Got   int      `json:"got"`
	Ends  int      `json:"ends"`
	Eq    bool     `json:"eq"`
	Bad   []string `json:"bad"`
	M     int      `json:"m"`
}
type TextTrace struct {
	T    string     `json:"t"`
	Mode string     `json:"mode"`
	Tab  Tables     `json:"tab"`
	S    []TextStep `json:"s"`
}

func renderToks(ts []Tok, bare bool) string {
	q := func(s string) string {
		if bare && bareId(s) {
			return s
		}
		return `"` + s + `"`
	}
	params := func(p [][]string) string {
		s := ""
		for _, kv := range p {
			switch kv[0] {
			case "type", "external", "async":
				s += " " + kv[0] + "=" + kv[1]
			default:
				s += " " + kv[0] + "=" + q(kv[1])
			}
		}
		return s
	}
	var b strings.Builder
	for i, t := range ts {
		switch t.T {
		case "BW":
			b.WriteString("$$world\n")
		case "VN":
			b.WriteString("version=" + strconv.Itoa(t.N) + "\n")
		case "ID":
			b.WriteString("id=" + q(t.Id) + "\n")
		case "NM":
			b.WriteString("name=" + q(t.Id) + "\n")
		case "EX":
			b.WriteString("expanded=" + q(t.Id) + "\n")
		case "TO":
			b.WriteString("tree{")
		case "NI":
			b.WriteString("nil")
		case "IT":
			b.WriteString("item " + q(t.Id) + params(t.P))
			if bare && i+1 < len(ts) && ts[i+1].T != "OP" {
				b.WriteString(" ") // what follows is not part of the last word
			}
		case "OP":
			b.WriteString("::[")
		case "CL":
			b.WriteString("]}")
			if i+1 == len(ts) || ts[i+1].T == "CL" {
				break
			}
			if ts[i+1].T == "TO" {
				b.WriteString(" ")
			} else {
				b.WriteString("\n")
			}
		case "RL":
			b.WriteString("rel " + q(t.Id) + " " + q(t.To) + params(t.P) + "\n")
		case "EW":
			b.WriteString("endworld$$")
		default:
			b.WriteString(" " + t.Id + " ")
		}
	}
	return b.String()
}

// part is a text that cannot be complete, because it was made from a complete one by taking something away or doubling it.
func parts(s string, f func(kind, t string)) {
	s = strings.TrimSpace(s)
	for k := 1; k < len(s); k++ {
		f("initial", s[:k])
		f("final", s[k:])
	}
	f("followed by itself", s+"\n"+s)
	f("followed by a word", s+"\nx")
	f("preceded by a word", "x "+s)
	quoted := false
	for k := 0; k < len(s); k++ {
		c := s[k]
		if c == '"' {
			quoted = !quoted
		} else if quoted {
			continue
		}
		if c == ' ' || c == '\n' || ('0' <= c && c <= '9') {
			continue
		}
		f("without a character", s[:k]+s[k+1:])
		f("with a character doubled", s[:k+1]+s[k:])
	}
}

func runText(j TextJob, progress func(int)) TextTrace {
	n := newInterner()
	t := TextTrace{T: j.T, Mode: "text", S: []TextStep{}}
	for i, o := range j.Ops {
		if o.Toks == nil {
			o.Toks = []Tok{}
		}
		for k := range o.Toks {
			if o.Toks[k].P == nil {
				o.Toks[k].P = [][]string{}
			}
		}
		mk := func(as string) TextStep {
			return TextStep{E: o.E, As: as, Toks: o.Toks, Txt: o.Txt, Kind: o.Kind, V: emptyView(), V2: emptyView(), TV: emptyTView(), Bad: []string{}}
		}
		if j.CrashAt == i+1 {
			st := mk("world")
			st.Crash = j.CrashKind
			t.S = append(t.S, st)
			break
		}
		if i%16 == 0 || j.CrashAt > 0 || o.E != "doc" {
			progress(i + 1)
		}
		uni := []string{}
		for _, k := range o.Toks {
			if k.T == "IT" {
				uni = append(uni, k.Id)
			}
		}
		if o.E == "doc" && o.Txt == "" {
			o.Txt = renderToks(o.Toks, o.Bare)
		}
		switch o.E {
		case "doc":
			for _, as := range []string{"world", "tree"} {
				st := mk(as)
				readText(n, &st, uni)
				t.S = append(t.S, st)
			}
		case "text":
			for _, as := range []string{"world", "tree"} {
				st := mk(as)
				readText(n, &st, uni)
				t.S = append(t.S, st)
			}
		case "one", "write":
			if len(o.Toks) == 0 {
				o.Toks = []Tok{{T: "RAW", Id: o.Txt, P: [][]string{}}}
			}
			for _, as := range []string{"item", "rel"} {
				st := mk(as)
				if readOne(n, &st, o) {
					t.S = append(t.S, st)
				}
			}
		case "parts":
			st := mk("world")
			readParts(&st)
			if st.Crash != "" || st.M > 0 {
				t.S = append(t.S, st)
			}
		case "replies":
			a, err := app.NewApp(world.CreateWorld("w"))
			if err != nil {
				continue
			}
			texts := []string{}
			for _, c := range o.Cmds {
				texts = append(texts, c)
				guarded(func() {
					texts = append(texts, a.Exec(c))
				})
			}
			o.E = "text"
			for k, x := range texts {
				o.Txt, o.Kind = x, []string{"command", "reply"}[k%2]
				for _, as := range []string{"world", "tree"} {
					if as == "tree" && (x == "" || strings.HasPrefix(x, "tree{")) {
						continue // these are texts of trees
					}
					st := mk(as)
					readText(n, &st, uni)
					t.S = append(t.S, st)
				}
			}
		default:
			panic("unknown operation " + o.E)
		}
	}
	t.Tab = n.tab
	return t
}

func guarded(f func()) {
	defer func() { recover() }()
	f()
}

func readText(n *interner, st *TextStep, uni []string) {
	defer func() {
		if r := recover(); r != nil {
			st.Crash = "panic " + fmt.Sprint(r)
		}
	}()
	if st.As == "world" {
		w, err := world.FromString(st.Txt)
		st.Err, st.None = err != nil, isNil(w)
		if err == nil && !st.None {
			st.V = project(n, w, uni)
		}
		return
	}
	t, items, err := world.TreeFromString(st.Txt)
	st.Err, st.None = err != nil, isNil(t)
	if err == nil && !st.None {
		st.TV = projectTree(n, t, uni)
		st.Items = n.items(mapItems(items))
	}
}

// readOne reads a text as one item or relationship of a world that holds the items o.In.
func readOne(n *interner, st *TextStep, o TextOp) (done bool) {
	w := world.CreateWorld("w")
	uni := []string{}
	for _, k := range o.In {
		uni = append(uni, k.Id)
		w.ItemCreate(k.Id, itemParams(k.P))
	}
	w.SetVersion(3)
	st.V = project(n, w, uni)
	defer func() {
		if r := recover(); r != nil {
			st.Crash = "panic " + fmt.Sprint(r)
			done = true
		}
	}()
	var wi world.Item
	var wr world.Rel
	if o.E == "write" {
		k := o.Toks[0]
		v := world.CreateWorld("v")
		if k.T == "IT" {
			v.ItemCreate(k.Id, itemParams(k.P))
			i, ok := v.ItemFetch(k.Id)
			if !ok {
				return false
			}
			wi, st.Txt = i, i.String()
		} else {
			for _, i := range o.In {
				v.ItemCreate(i.Id, itemParams(i.P))
			}
			v.RelCreate(k.Id, k.To, relParams(k.P))
			rs := v.RelFetch(k.Id, k.To, true)
			if len(rs) != 1 {
				return false
			}
			wr, st.Txt = rs[0], rs[0].String()
		}
	} else if st.Txt == "" {
		st.Txt = renderToks(o.Toks, o.Bare)
	}
	if st.As == "item" {
		i, err := world.ItemFromString(st.Txt)
		st.Err = err != nil
		if err == nil {
			st.Got = n.items([]ItemRec{itemRec(i)})
			st.Eq = world.ItemEqual(i, wi) && world.ItemEqual(wi, i)
		}
	} else {
		r, err := world.RelFromString(w, st.Txt)
		st.Err = err != nil
		if err == nil {
			st.Got = n.rels([]RelRec{relRec(r)})
			st.Ends = n.items([]ItemRec{itemRec(r.From), itemRec(r.To)})
			st.Eq = world.RelEqual(r, wr) && world.RelEqual(wr, r)
		}
	}
	st.V2 = project(n, w, uni)
	return true
}

func readParts(st *TextStep) {
	txt := renderToks(st.Toks, false)
	last := ""
	defer func() {
		if r := recover(); r != nil {
			st.Crash = "panic " + fmt.Sprint(r)
			st.Bad = append(st.Bad, last)
		}
	}()
	if w, err := world.FromString(txt); err == nil && w != nil {
		txt = w.String()
	} else if t, _, err := world.TreeFromString(txt); err == nil && t != nil {
		st.As = "tree"
		txt = t.String()
	} else {
		return // the doc operation judges this
	}
	st.Txt = txt
	parts(txt, func(kind, p string) {
		last = kind + ": " + p
		st.M++
		var err error
		none := true
		if st.As == "world" {
			var w world.World
			w, err = world.FromString(p)
			none = isNil(w)
		} else {
			_, _, err = world.TreeFromString(p)
		}
		if (err == nil || !none) && len(st.Bad) < 5 {
			st.Bad = append(st.Bad, last)
		}
	})
}

func isNil(v any) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	return r.Kind() == reflect.Ptr && r.IsNil()
}
