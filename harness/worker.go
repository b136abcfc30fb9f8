package main

// Running scripts against the real code and recording what is observed.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/errors"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
)

// Job is a script, possibly with the step at which an earlier run of it died.
type Job struct {
	Script
	CrashAt   int    `json:"crash_at"` // 1-based; 0: none
	CrashKind string `json:"crash_kind"`
}

func errCode(err error) int {
	if err == nil {
		return 200
	}
	if te, ok := err.(errors.TopolithError); ok {
		return int(te.Code)
	}
	return 599
}

func (s Script) universe() []string {
	seen, out := map[string]bool{}, []string{}
	add := func(x string) {
		if x != "" && !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for _, u := range s.Uni {
		add(u)
	}
	for _, o := range s.Ops {
		add(o.C.Id)
		add(o.C.To)
		for _, i := range o.C.Ids {
			add(i)
		}
	}
	return out
}

type session struct {
	n    *interner
	uni  []string
	w    world.World
	a    app.App
	cmds []app.Command // command objects (mode cmd), and how many of them are executed and not undone
	done int
}

func newStep(o Op) Step {
	return Step{E: o.E, C: o.C.norm(), Txt: o.Txt, Inv: o.Inv, O: Obj{Items: []ItemRec{}, Rels: []RelRec{}, Ids: []string{}, W: emptyView()},
		Post: emptyView(), Old: emptyView(), Hist: []string{}}
}

func itemParams(p [][]string) world.ItemParams {
	out := world.ItemParams{}
	for _, kv := range p {
		v := kv[1]
		b := v == "true"
		switch kv[0] {
		case "name":
			out.Name = &v
		case "type":
			out.Type = &v
		case "mechanism":
			out.Mechanism = &v
		case "expanded":
			out.Expanded = &v
		case "external":
			out.External = &b
		}
	}
	return out
}
func relParams(p [][]string) world.RelParams {
	out := world.RelParams{}
	for _, kv := range p {
		v := kv[1]
		b := v == "true"
		switch kv[0] {
		case "verb":
			out.Verb = &v
		case "mechanism":
			out.Mechanism = &v
		case "expanded":
			out.Expanded = &v
		case "async":
			out.Async = &b
		}
	}
	return out
}

func (s *session) do(o Op, st *Step) {
	defer func() {
		if r := recover(); r != nil {
			st.Crash = "panic"
			st.Msg = fmt.Sprint(r)
		}
	}()
	switch o.E {
	case "raw", "cmd":
		if s.a != nil {
			rep := s.a.Exec(o.Txt)
			st.Rep = rep
			st.O, st.St, st.Msg = parseReply(s.n, rep)
			if p, err := grammar.Parse(rep); err == nil {
				st.PSt, st.PTy, st.PStmt, st.PMsg = p.Response.Status.Code, p.Response.Object.Type, p.StmtType, p.Response.Status.Message
				st.PN = len(p.ItemStrings)
				if len(p.RelStrings) > 0 {
					st.PN = len(p.RelStrings)
				}
			}
			break
		}
		p, err := grammar.Parse(o.Txt)
		if err != nil || p.StmtType != "Command" {
			st.St = 400
			st.O.Kind = "none"
			break
		}
		c, err := app.InputToCommand(p.InputAttributes)
		if err != nil {
			st.St = 400
			st.O.Kind = "none"
			break
		}
		s.cmds = append(s.cmds[:s.done:s.done], c)
		s.done++
		res, err := c.Execute(s.w)
		if err != nil {
			st.St = errCode(err)
			st.Msg = err.Error()
			st.O.Kind = "none"
			break
		}
		st.Rep = res.String()
		st.O, st.St, _ = parseReply(s.n, st.Rep+"\n$$$$\n200 ok")
	case "undo":
		if s.a != nil {
			st.Err = appUndo(s.a) != nil
		} else if s.done > 0 {
			s.done--
			st.Err = s.cmds[s.done].Undo(s.w) != nil
		}
	case "redo":
		if s.a != nil {
			st.Err = appRedo(s.a) != nil
		} else if s.done < len(s.cmds) {
			s.done++
			s.cmds[s.done-1].Execute(s.w)
		}
	case "api":
		s.api(o.C, st)
	case "reload":
		old := s.w
		st.Txt = old.String()
		nw, err := world.FromString(st.Txt)
		st.Err = err != nil || nw == nil
		if st.Err {
			if err != nil {
				st.Msg = err.Error()
			}
			break
		}
		st.Old = project(s.n, old, s.uni)
		st.O.Kind = "bool"
		st.O.Val = world.WorldEqual(old, nw)
		s.w = nw
		s.cmds, s.done = nil, 0
		if s.a != nil {
			s.a, err = app.NewApp(nw)
			st.Err = err != nil
		}
	}
}

func (s *session) api(c Cmd, st *Step) {
	st.St = 200
	st.O.Kind = "none"
	item := func(w world.WorldWithItem) {
		i, err := w.Item()
		st.Err = err != nil
		if (w.Err() != nil) != st.Err {
			st.Msg = "Err and Item disagree"
		}
		st.O.Kind = "items"
		st.O.Items = []ItemRec{itemRec(i)}
		st.O.N = 1
	}
	rel := func(w world.WorldWithRel) {
		r, err := w.Rel()
		st.Err = err != nil
		st.O.Kind = "rels"
		st.O.Rels = []RelRec{relRec(r)}
		st.O.N = 1
	}
	switch c.K {
	case "item.create":
		item(s.w.ItemCreate(c.Id, itemParams(c.P)))
	case "item.set":
		item(s.w.ItemSet(c.Id, itemParams(c.P)))
	case "item.cos":
		if _, ok := s.w.ItemFetch(c.Id); ok {
			item(s.w.ItemSet(c.Id, itemParams(c.P)))
		} else {
			item(s.w.ItemCreate(c.Id, itemParams(c.P)))
		}
	case "rel.cos":
		if len(s.w.RelFetch(c.Id, c.To, true)) > 0 {
			rel(s.w.RelSet(c.Id, c.To, relParams(c.P)))
		} else {
			rel(s.w.RelCreate(c.Id, c.To, relParams(c.P)))
		}
	case "item.delete":
		st.Err = s.w.ItemDelete(c.Id).Err() != nil
	case "rel.create":
		rel(s.w.RelCreate(c.Id, c.To, relParams(c.P)))
	case "rel.set":
		rel(s.w.RelSet(c.Id, c.To, relParams(c.P)))
	case "rel.delete":
		st.Err = s.w.RelDelete(c.Id, c.To).Err() != nil
	case "nest":
		item(s.w.Nest(c.Ids[0], c.To))
	case "free":
		item(s.w.Free(c.Ids[0]))
	case "item.list":
		st.O.Kind = "items"
		for _, i := range s.w.ItemList(c.Lim) {
			st.O.Items = append(st.O.Items, itemRec(i))
		}
		st.O.N = len(st.O.Items)
	case "rel.list":
		st.O.Kind = "rels"
		st.O.Rels = relRecs(s.w.RelList(c.Lim))
		st.O.N = len(st.O.Rels)
	case "item.fetch":
		i, ok := s.w.ItemFetch(c.Id)
		st.Err = !ok
		st.O.Kind = "items"
		st.O.Items = []ItemRec{itemRec(i)}
		st.O.N = 1
	case "item.in":
		is, ok := s.w.ItemComponents(c.Id)
		st.Err = !ok
		st.O.Kind = "items"
		for _, i := range is {
			st.O.Items = append(st.O.Items, itemRec(i))
		}
		st.O.N = len(st.O.Items)
	case "in?":
		st.O.Kind = "bool"
		st.O.Val = s.w.In(c.Id, c.To, c.Strict)
	case "rel.fetch":
		st.O.Kind = "rels"
		st.O.Rels = relRecs(s.w.RelFetch(c.Id, c.To, c.Strict))
		st.O.N = len(st.O.Rels)
	case "to?":
		st.O.Kind = "rels"
		st.O.Rels = relRecs(s.w.RelTo(c.Id, c.Strict))
		st.O.N = len(st.O.Rels)
	case "from?":
		st.O.Kind = "rels"
		st.O.Rels = relRecs(s.w.RelFrom(c.Id, c.Strict))
		st.O.N = len(st.O.Rels)
	case "meta.name":
		s.w.SetName(c.Id)
	case "meta.id":
		s.w.SetId(c.Id)
	case "meta.expanded":
		s.w.SetExpanded(c.Id)
	case "meta.version":
		s.w.SetVersion(c.Lim)
	default:
		panic("unknown api op " + c.K)
	}
	if st.O.N == 0 && (st.O.Kind == "items" || st.O.Kind == "rels") {
		st.O.Kind = "empty"
	}
}

// runScript executes a job; progress is called before every step.
func runScript(j Job, progress func(int)) Trace {
	n := newInterner()
	s := &session{n: n, uni: j.universe(), w: world.CreateWorld(j.Name)}
	if j.Mode == "app" {
		a, err := app.NewApp(s.w)
		if err != nil {
			panic(err)
		}
		s.a = a
	}
	t := Trace{T: j.T, Mode: j.Mode, S: []Step{}, Init: project(n, s.w, s.uni)}
	for i, o := range j.Ops {
		if o.E == "cmd" && o.Txt == "" {
			o.Txt = Style{}.spell(o.C)
		}
		if i < j.Pre && j.CrashAt != i+1 {
			progress(i + 1)
			st := newStep(o)
			s.do(o, &st)
			if s.a != nil {
				s.w = s.a.World()
			}
			if st.Crash != "" {
				t.S = append(t.S, st)
				break
			}
			if i == j.Pre-1 { // what follows starts here, with no history
				s.cmds, s.done = nil, 0
				if s.a != nil {
					a, err := app.NewApp(s.w)
					if err != nil {
						panic(err)
					}
					s.a = a
				}
				t.Init = project(n, s.w, s.uni)
			}
			continue
		}
		if !hooked && s.a != nil && (o.E == "undo" || o.E == "redo") {
			continue // undo and redo of the application are not reachable in this build
		}
		st := newStep(o)
		if j.CrashAt == i+1 {
			st.Crash = j.CrashKind
			t.S = append(t.S, st)
			break
		}
		progress(i + 1)
		s.do(o, &st)
		if st.Crash == "" {
			if s.a != nil {
				s.w = s.a.World()
			}
			st.Post = project(n, s.w, s.uni)
			if s.a != nil {
				for _, c := range s.a.History() {
					st.Hist = append(st.Hist, c.String())
				}
				st.CU, st.CR = s.a.CanUndo(), s.a.CanRedo()
			}
		}
		t.S = append(t.S, st)
		if st.Crash != "" {
			break
		}
	}
	t.Tab = n.tab
	return t
}

// workerMain reads jobs from stdin and writes progress and traces to fd 3.
func workerMain() {
	debug.SetMaxStack(64 << 20)
	debug.SetMemoryLimit(2 << 30)
	out := bufio.NewWriterSize(os.NewFile(3, "results"), 1<<16)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			return
		}
		kind := ""
		var probe struct {
			Job string `json:"job"`
		}
		if json.Unmarshal(line, &probe) == nil {
			kind = probe.Job
		}
		progress := func(k int) {
			fmt.Fprintf(out, "S %d\n", k)
			out.Flush()
		}
		res, err := runJob(kind, line, progress)
		if err != nil {
			fmt.Fprintf(os.Stderr, "bad job: %v\n", err)
			os.Exit(3)
		}
		b, err := json.Marshal(res)
		if err != nil {
			fmt.Fprintf(os.Stderr, "marshal: %v\n", err)
			os.Exit(3)
		}
		out.WriteString("T ")
		out.Write(b)
		out.WriteString("\n")
		out.Flush()
	}
}

func runJob(kind string, line []byte, progress func(int)) (any, error) {
	switch kind {
	case "":
		var j Job
		if err := json.Unmarshal(line, &j); err != nil {
			return nil, err
		}
		return runScript(j, progress), nil
	case "multi":
		var j MJob
		if err := json.Unmarshal(line, &j); err != nil {
			return nil, err
		}
		return runMulti(j, progress), nil
	case "par":
		var j ParJob
		if err := json.Unmarshal(line, &j); err != nil {
			return nil, err
		}
		return runPar(j, progress), nil
	case "lang":
		var j LangJob
		if err := json.Unmarshal(line, &j); err != nil {
			return nil, err
		}
		return runLang(j, progress), nil
	case "err":
		var j ErrJob
		if err := json.Unmarshal(line, &j); err != nil {
			return nil, err
		}
		return runErr(j, progress), nil
	case "console":
		var j ConsoleJob
		if err := json.Unmarshal(line, &j); err != nil {
			return nil, err
		}
		return runConsole(j, progress), nil
	case "bridge":
		var j BridgeJob
		if err := json.Unmarshal(line, &j); err != nil {
			return nil, err
		}
		return runBridge(j, progress), nil
	case "eq":
		var j EqJob
		if err := json.Unmarshal(line, &j); err != nil {
			return nil, err
		}
		return runEq(j, progress), nil
	case "text":
		var j TextJob
		if err := json.Unmarshal(line, &j); err != nil {
			return nil, err
		}
		return runText(j, progress), nil
	}
	return nil, fmt.Errorf("unknown job kind %q", kind)
}
