package main

// Several worlds, applications and trees in one process, and stored worlds (spec/Multi.tla, spec/MultiTrace.tla).

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
)

type MOp struct {
	E     string `json:"e"`    // new, read, app, cmd, api, undo, redo, save, load, place, tnew, tread, tadd, tdel, probe
	Slot  int    `json:"slot"` // 1-based
	Src   int    `json:"src"`  // for read, tread; for place the number of the place
	Name  string `json:"name"` // for new, load
	C     Cmd    `json:"c"`
	Txt   string `json:"txt"`
	At    string `json:"at"`    // tadd, tdel: the node
	Fault Fault  `json:"fault"` // fsave
	St    int    `json:"st"`    // the store, 1-based
}

// renamed gives the identifiers of items other names.
func (o MOp) renamed(ren map[string]string) MOp {
	mv := func(x string) string {
		if y, ok := ren[x]; ok {
			return y
		}
		return x
	}
	if !strings.HasPrefix(o.C.K, "meta.") {
		o.C.Id = mv(o.C.Id)
	}
	o.C.To, o.At = mv(o.C.To), mv(o.At)
	ids := []string{}
	for _, x := range o.C.Ids {
		ids = append(ids, mv(x))
	}
	o.C.Ids = ids
	return o
}

type MJob struct {
	T         string   `json:"t"`
	Job       string   `json:"job"`
	Slots     int      `json:"slots"`
	Disk      bool     `json:"disk"`
	Stores    int      `json:"stores"` // 1 if not given
	Places    int      `json:"places"`
	Names     []string `json:"names"` // names that may be stored
	Uni       []string `json:"uni"`
	Ops       []MOp    `json:"ops"`
	CrashAt   int      `json:"crash_at"`
	CrashKind string   `json:"crash_kind"`
}

// TView is what one observation of a tree shows.
type TView struct {
	A     []int  `json:"a"` // items: walking Components, Find, text
	P     []int  `json:"p"` // placements: walking Components, Parent of found nodes, text
	Has   int    `json:"has"`
	HasS  int    `json:"hass"`
	Desc  int    `json:"desc"`
	Ids   int    `json:"ids"`  // ids found by Find
	Root  string `json:"root"` // the root's item
	RootS string `json:"roots"`
	Empty bool   `json:"empty"`
	PE    bool   `json:"pe"` // the parent of the root is empty, and Root leads back to the root from every node
}
type MSlot struct {
	K string `json:"k"` // none, world, tree
	V View   `json:"v"`
	T TView  `json:"t"`
}
type Stored struct {
	Name string `json:"name"`
	Ok   bool   `json:"ok"`
	V    View   `json:"v"`
}

// StoreView is what a store shows.
type StoreView struct {
	Disk []Stored `json:"disk"`
	List []string `json:"list"`
	LErr bool     `json:"lerr"`
}
type MStep struct {
	E      string      `json:"e"`
	St     int         `json:"st"`
	Slot   int         `json:"slot"`
	Src    int         `json:"src"`
	Name   string      `json:"name"`
	At     string      `json:"at"`
	C      Cmd         `json:"c"`
	Txt    string      `json:"txt"`
	Crash  string      `json:"crash"`
	Err    bool        `json:"err"`
	Died   bool        `json:"died"`
	Eq     bool        `json:"eq"` // read, tread, load: the code's own equality of source and result
	Items  int         `json:"items"`
	Slots  []MSlot     `json:"slots"`
	Stores []StoreView `json:"stores"`
}
type MTrace struct {
	T      string  `json:"t"`
	Mode   string  `json:"mode"`
	Disk   bool    `json:"disk"`
	Tab    Tables  `json:"tab"`
	Slots  int     `json:"nslots"`
	Stores int     `json:"nstores"`
	Places int     `json:"nplaces"`
	S      []MStep `json:"s"`
}

func emptyTView() TView { return TView{A: []int{}, P: []int{}} }

type mslot struct {
	w world.World
	a app.App
	t world.Tree
	c *session // for api calls and command objects
}

// projectTree observes a tree through every view.
func projectTree(n *interner, t world.Tree, uni []string) TView {
	v := emptyTView()
	ids, seen := []string{}, map[string]bool{}
	add := func(x string) {
		if x != "" && !seen[x] {
			seen[x] = true
			ids = append(ids, x)
		}
	}
	var aw, pw int
	try(func() int {
		items, pairs, count := []ItemRec{}, [][]string{}, 0
		var walk func(x world.Tree, parent string, top bool, depth int)
		walk = func(x world.Tree, parent string, top bool, depth int) {
			if count++; depth > 300 || count > 5000 {
				panic("endless tree")
			}
			it := x.Item()
			if !top || it.Id != "" {
				items = append(items, itemRec(it))
				pairs = append(pairs, []string{it.Id, parent})
				add(it.Id)
			}
			for _, c := range x.Components().ToSlice() {
				walk(c, it.Id, false, depth+1)
			}
		}
		walk(t, "", true, 0)
		aw, pw = n.items(items), n.pairs(pairs)
		return 0
	})
	sort.Strings(ids)
	for _, x := range uni {
		add(x)
	}
	var af, pf int
	pe := true
	try(func() int {
		items, pairs, found := []ItemRec{}, [][]string{}, []string{}
		for _, x := range ids {
			if f, ok := t.Find(x); ok {
				found = append(found, x)
				items = append(items, itemRec(f.Item()))
				if x == t.Item().Id {
					pairs = append(pairs, []string{x, ""})
				} else {
					pairs = append(pairs, []string{x, f.Parent().Item().Id})
				}
				pe = pe && f.Root() == t.Root()
			}
		}
		v.Ids = n.ids(found)
		af, pf = n.items(items), n.pairs(pairs)
		return 0
	})
	v.Has = try(func() int {
		pairs := [][]string{}
		for _, a := range ids {
			if f, ok := t.Find(a); ok {
				for _, x := range ids {
					if f.Has(x, false) {
						pairs = append(pairs, []string{x, a})
					}
				}
			}
		}
		return n.pairs(pairs)
	})
	v.HasS = try(func() int {
		pairs := [][]string{}
		for _, a := range ids {
			if f, ok := t.Find(a); ok {
				for _, x := range ids {
					if f.Has(x, true) {
						pairs = append(pairs, []string{x, a})
					}
				}
			}
		}
		return n.pairs(pairs)
	})
	v.Desc = try(func() int {
		pairs := [][]string{}
		for _, a := range ids {
			for _, x := range t.GetDescendantIds(a) {
				pairs = append(pairs, []string{x, a})
			}
		}
		return n.pairs(pairs)
	})
	var at, pt int
	try(func() int {
		d := worldDoc{items: []ItemRec{}, pairs: [][]string{}}
		l := &lexer{s: t.String()}
		if err := l.tree(&d, "", true, 0); err != nil {
			return 0
		}
		if l.ws(); l.pos != len(l.s) {
			return 0
		}
		at, pt = n.items(d.items), n.pairs(d.pairs)
		return 0
	})
	try(func() int {
		v.Root = t.Root().Item().Id
		v.RootS = t.Item().Id
		v.Empty = t.Empty()
		return 0
	})
	v.PE = pe && try(func() int {
		if t.Root().Parent().Empty() {
			return 1
		}
		return 0
	}) == 1
	v.A = []int{aw, af, at}
	v.P = []int{pw, pf, pt}
	return v
}

func runMulti(j MJob, progress func(int)) MTrace {
	n := newInterner()
	slots := make([]*mslot, j.Slots)
	for i := range slots {
		slots[i] = &mslot{}
	}
	uni := append([]string{}, j.Uni...)
	seen := map[string]bool{}
	for _, u := range uni {
		seen[u] = true
	}
	for _, o := range j.Ops {
		if strings.HasPrefix(o.C.K, "meta.") {
			continue
		}
		for _, x := range append([]string{o.C.Id, o.C.To, o.At}, o.C.Ids...) {
			if x != "" && !seen[x] {
				seen[x] = true
				uni = append(uni, x)
			}
		}
	}
	stores, places, at := []*mstore{}, []string{}, []int{}
	if j.Disk {
		base, err := os.MkdirTemp("", "verif-store-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(base)
		j.Stores, j.Places = max(j.Stores, 1), max(j.Places, 1)
		os.Setenv("HOME", filepath.Join(base, "home"))
		for i := 0; i < j.Places; i++ {
			places = append(places, filepath.Join(base, fmt.Sprintf("worlds%d", i)))
		}
		empty := filepath.Join(base, "cwd")
		os.Mkdir(empty, 0755)
		os.Chdir(empty)
		defer os.Chdir("/")
		silenceStderr()
		for i := 0; i < j.Stores; i++ {
			s := &mstore{}
			if i == 0 {
				s.p = persistence.NewFilePersistence()
			} else if a, err := app.NewApp(world.CreateWorld("")); err == nil {
				s.a = a
			} else {
				s.p = persistence.NewFilePersistence()
			}
			at = append(at, i%j.Places)
			if i >= j.Places {
				at[i] = 0
			}
			s.get().SetSourcePath(places[at[i]])
			stores = append(stores, s)
		}
	}
	t := MTrace{T: j.T, Mode: j.Job, Disk: j.Disk, Slots: j.Slots, Stores: len(stores), Places: len(places), S: []MStep{}}
	for i, o := range j.Ops {
		if !possible(slots, o) {
			continue
		}
		if o.St = max(o.St, 1); o.Slot == 0 {
			o.Slot = 1
		}
		st := MStep{E: o.E, St: o.St, Slot: o.Slot, Src: o.Src, Name: o.Name, At: o.At, C: o.C.norm(), Txt: o.Txt, Slots: []MSlot{}, Stores: []StoreView{}}
		if j.CrashAt == i+1 {
			st.Crash = j.CrashKind
		} else {
			progress(i + 1)
			if o.E == "fsave" {
				if !faultySave(places[at[o.St-1]], slots[o.Slot-1].w, o.Fault, &st) {
					continue
				}
			} else if o.E == "place" {
				at[o.St-1] = o.Src - 1
				stores[o.St-1].get().SetSourcePath(places[o.Src-1])
			} else {
				var store persistence.Persistence
				if j.Disk {
					store = stores[o.St-1].get()
				}
				doMulti(n, slots, store, o, &st, uni)
			}
		}
		if st.Crash != "" {
			t.S = append(t.S, st)
			break
		}
		for _, s := range slots {
			m := MSlot{K: "none", V: emptyView(), T: emptyTView()}
			if s.w != nil {
				m.K = "world"
				m.V = project(n, s.w, uni)
			} else if s.t != nil {
				m.K = "tree"
				m.T = projectTree(n, s.t, uni)
			}
			st.Slots = append(st.Slots, m)
		}
		for _, s := range stores {
			st.Stores = append(st.Stores, observeStore(n, s.get(), j.Names, uni))
		}
		t.S = append(t.S, st)
	}
	t.Tab = n.tab
	return t
}

// possible tells whether the slots of the operation hold what it works on (Worlds!Enabled).
func possible(slots []*mslot, o MOp) bool {
	switch o.E {
	case "new", "load", "tnew", "place":
		return true
	case "read", "tworld":
		return slots[o.Src-1].w != nil
	case "tread":
		return slots[o.Src-1].t != nil
	case "tadd", "tdel", "probe":
		return slots[o.Slot-1].t != nil
	}
	return slots[o.Slot-1].w != nil
}

// mstore is the store of an application, or one on its own.
type mstore struct {
	a app.App
	p persistence.Persistence
}

func (s *mstore) get() persistence.Persistence {
	if s.a != nil {
		return s.a.Persistence()
	}
	return s.p
}

// observeStore loads every name and lists the stored worlds.
func observeStore(n *interner, store persistence.Persistence, names, uni []string) StoreView {
	st := StoreView{Disk: []Stored{}, List: []string{}}
	for _, name := range names {
		d := Stored{Name: name, V: emptyView()}
		try(func() int {
			w, err := store.Load(name)
			if err == nil && w != nil {
				d.Ok = true
				d.V = project(n, w, uni)
			}
			return 0
		})
		st.Disk = append(st.Disk, d)
	}
	ls, err := store.ListWorlds()
	st.LErr = err != nil
	st.List = append(st.List, ls...)
	sort.Strings(st.List)
	return st
}

func doMulti(n *interner, slots []*mslot, store persistence.Persistence, o MOp, st *MStep, uni []string) {
	defer func() {
		if r := recover(); r != nil {
			st.Crash = "panic " + fmt.Sprint(r)
		}
	}()
	s := slots[o.Slot-1]
	set := func(w world.World, err error) {
		st.Err = err != nil || w == nil
		if !st.Err {
			*s = mslot{w: w}
		}
	}
	switch o.E {
	case "new":
		set(world.CreateWorld(o.Name), nil)
	case "read":
		w, err := world.FromString(slots[o.Src-1].w.String())
		if err == nil && w != nil {
			st.Eq = world.WorldEqual(w, slots[o.Src-1].w)
		}
		set(w, err)
	case "app":
		a, err := app.NewApp(s.w)
		st.Err = err != nil
		if err == nil {
			s.a = a
			s.w = a.World()
		}
	case "cmd", "api", "undo", "redo":
		if s.c == nil {
			s.c = &session{n: n, w: s.w}
		}
		s.c.a = nil
		if o.E != "api" {
			s.c.a = s.a
		}
		if o.E == "cmd" && o.Txt == "" {
			o.Txt = Style{}.spell(o.C)
			st.Txt = o.Txt
		}
		if !hooked && s.c.a != nil && (o.E == "undo" || o.E == "redo") {
			break
		}
		x := newStep(Op{E: o.E, C: o.C, Txt: o.Txt})
		s.c.do(Op{E: o.E, C: o.C, Txt: o.Txt}, &x)
		st.Err = x.Err
		st.Crash = x.Crash
		if s.c.a != nil {
			s.w = s.a.World()
			s.c.w = s.w
		}
	case "save":
		st.Err = store.Save(s.w) != nil
	case "load":
		w, err := store.Load(o.Name)
		set(w, err)
	case "tnew":
		t, items, err := world.TreeFromString("")
		st.Err = err != nil
		if err == nil {
			*s = mslot{t: t}
			st.Items = n.items(mapItems(items))
			st.Eq = world.TreeEqual(t, t)
		}
	case "tread": // the part under At of the tree in Src
		src := slots[o.Src-1].t
		if o.At != "" {
			if src, _ = src.Find(o.At); src == nil {
				st.Err = true
				break
			}
		}
		t, items, err := world.TreeFromString(src.String())
		st.Err = err != nil || t == nil
		if !st.Err {
			st.Items = n.items(mapItems(items))
			st.Eq = world.TreeEqual(t, src) && world.TreeEqual(src, t)
			*s = mslot{t: t}
		}
	case "tworld": // the tree of the text of the world in Src
		txt, err := treeText(slots[o.Src-1].w.String())
		if err != nil {
			st.Err = true
			break
		}
		t, items, err := world.TreeFromString(txt)
		st.Err = err != nil || t == nil
		if !st.Err {
			st.Items = n.items(mapItems(items))
			*s = mslot{t: t}
		}
	case "tadd":
		node := s.t
		if o.At != "" {
			node, _ = s.t.Find(o.At)
		}
		it := makeItem(o.C.Id, o.C.P)
		if node == nil {
			st.Err = true
			break
		}
		st.Err = node.AddOrMove(it) != nil
	case "tdel":
		node := s.t
		if o.At != "" {
			node, _ = s.t.Find(o.At)
		}
		if node == nil {
			break
		}
		node.Delete(o.C.Id)
	case "probe": // what lies above a root is an empty tree, and stays one
		p := s.t.Root().Parent()
		p.AddOrMove(makeItem(o.C.Id, o.C.P))
		p.Delete(o.C.Id)
		p.Find(o.C.Id)
		_ = p.String()
		st.Eq = p.Empty() && s.t.Root().Parent().Empty()
	default:
		panic("unknown operation " + o.E)
	}
}

func mapItems(m map[string]world.Item) []ItemRec {
	out := []ItemRec{}
	for k, i := range m {
		r := itemRec(i)
		if k != i.Id {
			r.Id = k + "!=" + i.Id
		}
		out = append(out, r)
	}
	return out
}

func makeItem(id string, p [][]string) *world.Item {
	it := world.Item{Id: id}
	for _, kv := range p {
		switch kv[0] {
		case "name":
			it.Name = kv[1]
		case "type":
			it.Type = world.ItemTypeFromString(kv[1])
		case "mechanism":
			it.Mechanism = kv[1]
		case "expanded":
			it.Expanded = kv[1]
		case "external":
			it.External = kv[1] == "true"
		}
	}
	return &it
}

// treeText cuts the tree out of a world's text.
func treeText(s string) (string, error) {
	for i := range s {
		if s[i:min(len(s), i+5)] == "tree{" && (i == 0 || s[i-1] == '\n') {
			d := worldDoc{items: []ItemRec{}, pairs: [][]string{}}
			l := &lexer{s: s, pos: i}
			if err := l.tree(&d, "", true, 0); err == nil {
				return s[i:l.pos], nil
			}
		}
	}
	return "", fmt.Errorf("no tree")
}

// silenceStderr discards what the code under test prints (Load prints the file).
func silenceStderr() {
	if os.Getenv("VERIF_STDERR") != "" {
		return
	}
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		dup2(int(f.Fd()), 2)
		f.Close()
	}
}
