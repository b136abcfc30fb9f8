package main

// The same scripts, each on a world of its own, first one after the other and then all at once (spec/ParTrace.tla).

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
)

type ParJob struct {
	T         string `json:"t"`
	Job       string `json:"job"`
	Scripts   []Job  `json:"scripts"`
	CrashAt   int    `json:"crash_at"`
	CrashKind string `json:"crash_kind"`
}

// ParRes is what one step of a script did.
type ParRes struct {
	Crash string   `json:"crash"`
	St    int      `json:"st"`
	Err   bool     `json:"err"`
	Kind  string   `json:"kind"`
	N     int      `json:"n"`
	Post  View     `json:"post"`
	Hist  []string `json:"hist"`
	SErr  bool     `json:"serr"` // the world was saved and loaded back: error, what was loaded
	Saved View     `json:"saved"`
}
type ParStep struct {
	E     string `json:"e"`
	C     Cmd    `json:"c"`
	Txt   string `json:"txt"`
	Alone ParRes `json:"alone"`
	Par   ParRes `json:"par"`
}
type ParTrace struct {
	T    string    `json:"t"`
	Mode string    `json:"mode"`
	Tab  Tables    `json:"tab"`
	S    []ParStep `json:"s"`
}

func parScript(n *interner, j Job, dir string) []ParRes {
	s := &session{n: n, uni: j.universe(), w: world.CreateWorld(j.Name)}
	var store persistence.Persistence = persistence.NewFilePersistence()
	if j.Mode == "app" {
		a, err := app.NewApp(s.w)
		if err != nil {
			panic(err)
		}
		s.a = a
		store = a.Persistence()
	}
	store.SetSourcePath(dir)
	out := []ParRes{}
	for i, o := range j.Ops {
		if !hooked && s.a != nil && (o.E == "undo" || o.E == "redo") || o.E == "api" && (o.C.K == "meta.name" || o.C.K == "item.list" || o.C.K == "rel.list") {
			continue
		}
		if o.E == "cmd" && o.Txt == "" {
			o.Txt = Style{}.spell(o.C)
		}
		st := newStep(o)
		s.do(o, &st)
		if s.a != nil {
			s.w = s.a.World()
		}
		r := ParRes{Crash: st.Crash, St: st.St, Err: st.Err, Kind: st.O.Kind, N: st.O.N, Post: emptyView(), Saved: emptyView(), Hist: []string{}}
		if st.Crash == "" {
			r.Post = project(n, s.w, s.uni)
			if s.a != nil {
				for _, c := range s.a.History() {
					r.Hist = append(r.Hist, c.String())
				}
			}
			if i%5 == 4 {
				if r.SErr = store.Save(s.w) != nil; !r.SErr {
					w, err := store.Load(j.Name)
					if r.SErr = err != nil || w == nil; !r.SErr {
						r.Saved = project(n, w, s.uni)
					}
				}
			}
		}
		out = append(out, r)
		if st.Crash != "" {
			break
		}
	}
	return out
}

func runPar(j ParJob, progress func(int)) []ParTrace {
	out := []ParTrace{}
	if j.CrashAt > 0 {
		st := ParStep{E: "par"}
		st.C = st.C.norm()
		st.Par = ParRes{Crash: j.CrashKind, Post: emptyView(), Saved: emptyView(), Hist: []string{}}
		st.Alone = st.Par
		st.Alone.Crash = ""
		return append(out, ParTrace{T: j.T, Mode: "par", S: []ParStep{st}, Tab: newInterner().tab})
	}
	progress(1)
	base, err := os.MkdirTemp("", "verif-par-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	os.Setenv("HOME", base)
	silenceStderr()
	k := len(j.Scripts)
	ns := make([]*interner, k)
	alone, par := make([][]ParRes, k), make([][]ParRes, k)
	for i := range j.Scripts {
		j.Scripts[i].Name = fmt.Sprintf("w%d", i)
		ns[i] = newInterner()
		alone[i] = parScript(ns[i], j.Scripts[i], filepath.Join(base, "alone"))
	}
	progress(2)
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := range j.Scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			par[i] = parScript(ns[i], j.Scripts[i], filepath.Join(base, "par"))
		}()
	}
	close(start)
	wg.Wait()
	for i := range j.Scripts {
		t := ParTrace{T: fmt.Sprintf("%s.%d", j.T, i), Mode: "par:" + j.Scripts[i].Mode, S: []ParStep{}}
		for x := range alone[i] {
			st := ParStep{E: "par", Alone: alone[i][x], Par: ParRes{Crash: "missing", Post: emptyView(), Saved: emptyView(), Hist: []string{}}}
			st.C = st.C.norm()
			if x < len(par[i]) {
				st.Par = par[i][x]
			}
			t.S = append(t.S, st)
		}
		t.Tab = ns[i].tab
		out = append(out, t)
	}
	return out
}
