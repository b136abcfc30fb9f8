package main

// The operations and logs exchanged with the TLA+ specification (spec/World.tla explains the fields).

type Cmd struct {
	K      string     `json:"k"`
	Id     string     `json:"id"`
	To     string     `json:"to"`
	Ids    []string   `json:"ids"`
	P      [][]string `json:"p"`
	Lim    int        `json:"lim"`
	Strict bool       `json:"strict"`
}

func (c Cmd) norm() Cmd {
	if c.Ids == nil {
		c.Ids = []string{}
	}
	if c.P == nil {
		c.P = [][]string{}
	}
	return c
}

// Op is one step of a script. E: cmd, undo, redo, raw, api, reload.
type Op struct {
	E   string `json:"e"`
	C   Cmd    `json:"c"`
	Txt string `json:"txt,omitempty"` // the input text, if already chosen
	Inv bool   `json:"inv,omitempty"` // raw input known not to be a command
}

// Script is a sequence of operations on one fresh application. Mode: app, cmd (command objects), api.
type Script struct {
	T    string   `json:"t"`
	Mode string   `json:"mode"`
	Seed int64    `json:"seed"`
	Name string   `json:"name"`
	Uni  []string `json:"uni"` // extra identifiers to probe
	Ops  []Op     `json:"ops"`
	Pre  int      `json:"pre"` // how many of the first steps only prepare the world: they are done and not recorded
}

type ItemAttr struct {
	Name      string `json:"name"`
	Type      string `json:"type"`
	Mechanism string `json:"mechanism"`
	Expanded  string `json:"expanded"`
	External  bool   `json:"external"`
}
type RelAttr struct {
	Verb      string `json:"verb"`
	Mechanism string `json:"mechanism"`
	Async     bool   `json:"async"`
	Expanded  string `json:"expanded"`
}
type ItemRec struct {
	Id string   `json:"id"`
	A  ItemAttr `json:"a"`
}
type RelRec struct {
	From string  `json:"from"`
	To   string  `json:"to"`
	A    RelAttr `json:"a"`
}
type Meta struct {
	Version  int    `json:"version"`
	Id       string `json:"id"`
	Name     string `json:"name"`
	Expanded string `json:"expanded"`
}

// View is what one observation of a world shows; every field holds 1-based indices into the trace's tables
// (0: the observation failed), so that equal views are one table entry.
type View struct {
	M   []int `json:"m"`   // meta: accessors, text
	A   []int `json:"a"`   // items with attributes: ItemList, ItemFetch, text
	AC  int   `json:"ac"`  // items shown as components of some item
	AP  int   `json:"ap"`  // items shown as parent of some item
	AR  int   `json:"ar"`  // items shown at the ends of relationships
	E   []int `json:"e"`   // ids found by: ItemFetch, Parent, Components, ItemParent, ItemComponents
	P   []int `json:"p"`   // placements: Parent, Components, ItemParent, ItemComponents, text
	In  int   `json:"in"`  // pairs <<x, a>> with In(x, a, false)
	InS int   `json:"ins"` // pairs with In(x, a, true)
	R   []int `json:"r"`   // relationships: RelList, RelFetch(strict), RelTo(strict), RelFrom(strict), text
}

// Obj is the object part of a reply.
type Obj struct {
	Kind  string    `json:"kind"`
	N     int       `json:"n"`
	Items []ItemRec `json:"items"`
	Rels  []RelRec  `json:"rels"`
	Val   bool      `json:"val"`
	W     View      `json:"w"` // for kind world: only m, a, p, r are used, one entry each
	Ids   []string  `json:"ids"`
}

type Step struct {
	E     string   `json:"e"`
	C     Cmd      `json:"c"`
	Txt   string   `json:"txt"`
	Inv   bool     `json:"inv"`
	Crash string   `json:"crash"` // "", panic, died, hang
	St    int      `json:"st"`    // status code of the reply (0: none)
	Msg   string   `json:"msg"`
	Err   bool     `json:"err"` // API error / undo error
	O     Obj      `json:"o"`
	PSt   int      `json:"pst"` // the repository's own parse of the reply: status code, object type and statement type
	PTy   string   `json:"pty"`
	PStmt string   `json:"pstmt"`
	PMsg  string   `json:"pmsg"`
	PN    int      `json:"pn"` // entries found by the repository's parse
	Rep   string   `json:"rep"`
	Post  View     `json:"post"`
	Old   View     `json:"old"` // reload: the world that was written, afterwards
	Hist  []string `json:"hist"`
	CU    bool     `json:"cu"`
	CR    bool     `json:"cr"`
}

// Tables hold the distinct observations of a trace.
type Tables struct {
	M  []Meta       `json:"m"`
	A  [][]ItemRec  `json:"a"`
	P  [][][]string `json:"p"`
	R  [][]RelRec   `json:"r"`
	Id [][]string   `json:"id"`
}

type Trace struct {
	T    string `json:"t"`
	Mode string `json:"mode"`
	Init View   `json:"init"`
	Tab  Tables `json:"tab"`
	S    []Step `json:"s"`
}
