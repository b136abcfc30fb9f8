package main

// What the browser bridge returned, next to what the application answers natively (spec/BridgeTrace.tla).

import (
	"encoding/json"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
)

type JsCall struct {
	Ret    string `json:"ret"`
	Thrown string `json:"thrown"`
}
type BridgeOp struct {
	E     string  `json:"e"` // cmd, raw, badcall
	C     Cmd     `json:"c"`
	Txt   string  `json:"txt"`
	Inv   bool    `json:"inv"`
	Js    *JsCall `json:"js"`
	After *JsCall `json:"after"`
}
type BridgeJob struct {
	T         string     `json:"t"`
	Job       string     `json:"job"`
	Start     JsCall     `json:"start"`
	Ops       []BridgeOp `json:"ops"`
	CrashAt   int        `json:"crash_at"`
	CrashKind string     `json:"crash_kind"`
}
type BridgeStep struct {
	E      string     `json:"e"`
	C      Cmd        `json:"c"`
	Txt    string     `json:"txt"`
	Inv    bool       `json:"inv"`
	Thrown bool       `json:"thrown"`
	Json   bool       `json:"json"`   // the reply is a JSON object with exactly the fields it should have
	Status int        `json:"status"` // its fields
	DType  string     `json:"dtype"`
	DRepr  string     `json:"drepr"`
	DCode  int        `json:"dcode"`
	DMsg   string     `json:"dmsg"`
	Errs   [][]string `json:"errs"`
	Raw    string     `json:"raw"`
	PType  string     `json:"ptype"` // the repository's own parse of raw
	PRepr  string     `json:"prepr"`
	PCode  int        `json:"pcode"`
	PMsg   string     `json:"pmsg"`
	O      Obj        `json:"o"` // raw, read independently
	St     int        `json:"st"`
	Msg    string     `json:"msg"`
	NRaw   string     `json:"nraw"` // the reply of an application that was given the same commands natively
	NO     Obj        `json:"no"`
	W      Obj        `json:"w"` // the world shown afterwards through the bridge
}
type BridgeTrace struct {
	T     string       `json:"t"`
	Mode  string       `json:"mode"`
	Tab   Tables       `json:"tab"`
	Start Obj          `json:"start"`
	S     []BridgeStep `json:"s"`
}

type jsReply struct {
	Status int               `json:"status"`
	Data   grammar.Response  `json:"data"`
	Error  map[string]string `json:"error"`
	Raw    string            `json:"raw"`
}

func shownWorld(n *interner, c *JsCall) Obj {
	var r jsReply
	if c == nil || json.Unmarshal([]byte(c.Ret), &r) != nil {
		return Obj{Kind: "bad", Items: []ItemRec{}, Rels: []RelRec{}, Ids: []string{}, W: emptyView()}
	}
	o, _, _ := parseReply(n, r.Raw)
	return o
}

func runBridge(j BridgeJob, progress func(int)) BridgeTrace {
	n := newInterner()
	a, err := app.NewApp(world.CreateWorld("default-world"))
	if err != nil {
		panic(err)
	}
	t := BridgeTrace{T: j.T, Mode: "bridge", S: []BridgeStep{}, Start: shownWorld(n, &j.Start)}
	for i, o := range j.Ops {
		st := BridgeStep{E: o.E, C: o.C.norm(), Txt: o.Txt, Inv: o.Inv, Errs: [][]string{}}
		empty := Obj{Kind: "bad", Items: []ItemRec{}, Rels: []RelRec{}, Ids: []string{}, W: emptyView()}
		st.O, st.NO, st.W = empty, empty, empty
		if o.Js == nil {
			break
		}
		if j.CrashAt == i+1 {
			break // the native application, which is not this property's business
		}
		progress(i + 1)
		st.Thrown = o.Js.Thrown != "" || o.After == nil || o.After.Thrown != ""
		st.W = shownWorld(n, o.After)
		if o.E != "badcall" && !st.Thrown {
			var r jsReply
			keys := map[string]json.RawMessage{}
			st.Json = json.Unmarshal([]byte(o.Js.Ret), &r) == nil && json.Unmarshal([]byte(o.Js.Ret), &keys) == nil &&
				keys["status"] != nil && keys["data"] != nil && keys["error"] != nil && keys["raw"] != nil
			st.Status, st.Raw = r.Status, r.Raw
			st.DType, st.DRepr, st.DCode, st.DMsg = r.Data.Object.Type, r.Data.Object.Repr, r.Data.Status.Code, r.Data.Status.Message
			for _, k := range []string{"code", "message"} {
				if v, ok := r.Error[k]; ok {
					st.Errs = append(st.Errs, []string{k, v})
					delete(r.Error, k)
				}
			}
			for k, v := range r.Error {
				st.Errs = append(st.Errs, []string{k, v})
			}
			if p, err := grammar.Parse(r.Raw); err == nil {
				st.PType, st.PRepr, st.PCode, st.PMsg = p.Response.Object.Type, p.Response.Object.Repr, p.Response.Status.Code, p.Response.Status.Message
			}
			st.O, st.St, st.Msg = parseReply(n, r.Raw)
			guarded(func() {
				st.NRaw = a.Exec(o.Txt)
				st.NO, _, _ = parseReply(n, st.NRaw)
			})
		}
		t.S = append(t.S, st)
	}
	t.Tab = n.tab
	return t
}
