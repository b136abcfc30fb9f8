package main

// What the interactive console printed, next to what the application answers (spec/ConsoleTrace.tla).

import (
	"strings"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/world"
)

type ConsoleOp struct {
	E     string `json:"e"` // cmd, raw, blank
	C     Cmd    `json:"c"`
	Txt   string `json:"txt"`
	Inv   bool   `json:"inv"`
	Out   string `json:"out"`
	After string `json:"after"` // what it printed for the line "world" next
	Gone  string `json:"gone"`
}
type ConsoleJob struct {
	T         string      `json:"t"`
	Job       string      `json:"job"`
	Start     string      `json:"start"`
	Exit      *int        `json:"exit"`
	Ops       []ConsoleOp `json:"ops"`
	CrashAt   int         `json:"crash_at"`
	CrashKind string      `json:"crash_kind"`
}
type ConsoleStep struct {
	E    string `json:"e"`
	C    Cmd    `json:"c"`
	Txt  string `json:"txt"`
	Inv  bool   `json:"inv"`
	Gone string `json:"gone"`
	Out  string `json:"out"`
	Nl   bool   `json:"nl"`
	O    Obj    `json:"o"`
	St   int    `json:"st"`
	NRaw string `json:"nraw"`
	NO   Obj    `json:"no"`
	W    Obj    `json:"w"`
}
type ConsoleTrace struct {
	T     string        `json:"t"`
	Mode  string        `json:"mode"`
	Tab   Tables        `json:"tab"`
	Start Obj           `json:"start"`
	S     []ConsoleStep `json:"s"`
}

func runConsole(j ConsoleJob, progress func(int)) ConsoleTrace {
	n := newInterner()
	a, err := app.NewApp(world.CreateWorld("default-world"))
	if err != nil {
		panic(err)
	}
	empty := Obj{Kind: "bad", Items: []ItemRec{}, Rels: []RelRec{}, Ids: []string{}, W: emptyView()}
	shown := func(s string) Obj {
		o, _, _ := parseReply(n, s)
		return o
	}
	t := ConsoleTrace{T: j.T, Mode: "console", S: []ConsoleStep{}, Start: shown(j.Start)}
	for i, o := range j.Ops {
		st := ConsoleStep{E: o.E, C: o.C.norm(), Txt: o.Txt, Inv: o.Inv, Gone: o.Gone, O: empty, NO: empty, W: shown(o.After)}
		st.Out, st.Nl = strings.CutSuffix(o.Out, "\n")
		st.O, st.St, _ = parseReply(n, st.Out)
		if o.E == "raw" { // before the reply there may be an account of the text, with the text in it; the status is the last line
			s := strings.TrimRight(st.Out, " \n")
			_, st.St, _ = parseReply(n, s[strings.LastIndex(s, "\n")+1:])
		}
		if j.CrashAt == i+1 {
			break // the application itself, which is not this property's business
		}
		progress(i + 1)
		if o.E != "blank" {
			guarded(func() {
				st.NRaw = a.Exec(strings.TrimSpace(o.Txt))
				st.NO, _, _ = parseReply(n, st.NRaw)
			})
		}
		t.S = append(t.S, st)
	}
	if j.Exit != nil {
		t.S = append(t.S, ConsoleStep{E: "quit", C: Cmd{}.norm(), St: *j.Exit, O: empty, NO: empty, W: empty})
	}
	t.Tab = n.tab
	return t
}
