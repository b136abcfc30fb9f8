package main

// Parsing texts with the repository's grammar (spec/LangTrace.tla).

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/williamflynt/topolith/pkg/grammar"
)

type LangCase struct {
	E   string   `json:"e"` // parse or bad
	C   Cmd      `json:"c"`
	Fl  []string `json:"fl"`
	Txt string   `json:"txt"`
}
type LangJob struct {
	T         string     `json:"t"`
	Job       string     `json:"job"`
	Ops       []LangCase `json:"ops"`
	CrashAt   int        `json:"crash_at"`
	CrashKind string     `json:"crash_kind"`
}
type LangParse struct {
	Rt     string     `json:"rt"`
	Verb   string     `json:"verb"`
	Id     string     `json:"id"`
	Ids    []string   `json:"ids"`
	Sec    []string   `json:"sec"`
	Params [][]string `json:"params"`
	Flags  []string   `json:"flags"`
	Comp   bool       `json:"comp"`
}
type LangStep struct {
	LangCase
	Err   bool      `json:"err"`
	Stmt  string    `json:"stmt"`
	Crash string    `json:"crash"`
	P     LangParse `json:"p"`
}
type LangTrace struct {
	T    string     `json:"t"`
	Mode string     `json:"mode"`
	S    []LangStep `json:"s"`
}

func strs(v []string) []string {
	if v == nil {
		return []string{}
	}
	return append([]string{}, v...)
}

func parseOne(c LangCase, st *LangStep) {
	defer func() {
		if r := recover(); r != nil {
			st.Crash = "panic " + fmt.Sprint(r)
		}
	}()
	p, err := grammar.Parse(c.Txt)
	st.Err = err != nil
	if err != nil {
		return
	}
	st.Stmt = p.StmtType
	a := p.InputAttributes
	st.P = LangParse{a.ResourceType, a.Verb, a.ResourceId, strs(a.ResourceIds), strs(a.SecondaryIds), [][]string{}, strs(a.Flags), a.Components}
	for k, v := range a.Params {
		if k == "limit" { // the number that was written, however many zeros lead it
			if t := strings.TrimLeft(v, "0"); t != "" {
				v = t
			}
		}
		st.P.Params = append(st.P.Params, []string{k, v})
	}
	sort.Slice(st.P.Params, func(i, j int) bool { return st.P.Params[i][0] < st.P.Params[j][0] })
}

func runLang(j LangJob, progress func(int)) LangTrace {
	t := LangTrace{T: j.T, Mode: "lang", S: []LangStep{}}
	for i, c := range j.Ops {
		c.C = c.C.norm()
		c.Fl = strs(c.Fl)
		st := LangStep{LangCase: c, P: LangParse{Ids: []string{}, Sec: []string{}, Params: [][]string{}, Flags: []string{}}}
		if j.CrashAt == i+1 {
			st.Crash = j.CrashKind
			t.S = append(t.S, st)
			break
		}
		if i%32 == 0 || j.CrashAt > 0 {
			progress(i + 1)
		}
		parseOne(c, &st)
		t.S = append(t.S, st)
	}
	return t
}

// randomLang makes texts with every choice of spelling made word by word.
func randomLang(seed int64, n int, label string) LangJob {
	r := rand.New(rand.NewSource(seed))
	p := Profile{NIds: 12, Odd: true, Vals: true, Spell: true}
	g := &genState{r: r, p: p, ids: append(append([]string{}, oddIds...), plainIds...)}
	g.items = g.ids
	style := Style{rng: rand.New(rand.NewSource(seed + 7)), plain: true}
	order := []string{}
	for _, k := range kindOrder {
		switch k {
		case "undo", "redo", "undoall", "raw", "reload", "meta.name", "meta.id", "meta.expanded", "meta.version":
		default:
			order = append(order, k)
		}
	}
	j := LangJob{T: fmt.Sprintf("%s-%d", label, seed), Job: "lang", Ops: []LangCase{}}
	for i := 0; i < n; i++ {
		c := g.cmd(order[r.Intn(len(order))], false)
		if r.Intn(6) == 0 && (c.K == "nest" || c.K == "free") {
			for k := r.Intn(9); k > 0; k-- {
				c.Ids = append(c.Ids, g.anyId())
			}
		}
		if r.Intn(8) == 0 && c.Lim > 0 {
			c.Lim = r.Intn(100000)
		}
		c.Strict = false
		fl := []string{}
		txt := style.spell(c)
		if r.Intn(3) == 0 {
			for k := 1 + r.Intn(3); k > 0; k-- {
				f := []string{"strict", "verbose", "ids"}[r.Intn(3)]
				fl = append(fl, f)
				txt += []string{" ", "\n", "\t "}[r.Intn(3)] + style.flag(f)
			}
		}
		j.Ops = append(j.Ops, LangCase{"parse", c.norm(), fl, txt})
	}
	return j
}
