package main

// Comparing worlds, trees, items and relationships that were built in different ways (spec/EqualTrace.tla).

import (
	"fmt"
	"math/rand"
	"sort"

	"github.com/williamflynt/topolith/pkg/world"
)

// EqMember is a world: what is done to an empty world called Name, and how often it is then written and read back.
type EqMember struct {
	Name string `json:"name"`
	Ops  []Op   `json:"ops"`
	Read int    `json:"read"`
}
type EqJob struct {
	T         string     `json:"t"`
	Job       string     `json:"job"`
	Seed      int64      `json:"seed"`
	Reps      int        `json:"reps"`
	Members   []EqMember `json:"members"`
	Most      int        `json:"most"` // items and relationships compared
	CrashAt   int        `json:"crash_at"`
	CrashKind string     `json:"crash_kind"`
}
type EqStep struct {
	E     string `json:"e"`
	K     string `json:"k"`
	I     int    `json:"i"`
	Crash string `json:"crash"`
	Res   []int  `json:"res"`
	Back  []int  `json:"back"`
}
type EqRel struct {
	From ItemRec `json:"from"`
	To   ItemRec `json:"to"`
	A    RelAttr `json:"a"`
}
type EqTrace struct {
	T      string    `json:"t"`
	Mode   string    `json:"mode"`
	Tab    Tables    `json:"tab"`
	Worlds []View    `json:"worlds"`
	Trees  []TView   `json:"trees"`
	Items  []ItemRec `json:"items"`
	Rels   []EqRel   `json:"rels"`
	S      []EqStep  `json:"s"`
}

// addTree builds a tree with the containment of w by adding items one at a time, and moving them afterwards.
func addTree(w world.World, r *rand.Rand) (t world.Tree) {
	t, _, _ = world.TreeFromString("")
	items := w.ItemList(0)
	sort.Slice(items, func(i, j int) bool { return items[i].Id < items[j].Id })
	r.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	for i := range items {
		it := items[i]
		t.AddOrMove(&it)
	}
	for pass := 0; pass < len(items); pass++ {
		for i := range items {
			if p, ok := w.Parent(items[i].Id); ok && p != "" {
				if f, ok := t.Find(p); ok {
					it := items[i]
					f.AddOrMove(&it)
				}
			}
		}
	}
	return t
}

func runEq(j EqJob, progress func(int)) EqTrace {
	n := newInterner()
	r := rand.New(rand.NewSource(j.Seed))
	t := EqTrace{T: j.T, Mode: "eq", Worlds: []View{}, Trees: []TView{}, Items: []ItemRec{}, Rels: []EqRel{}, S: []EqStep{}}
	worlds, trees, items, rels := []world.World{}, []world.Tree{}, []world.Item{}, []world.Rel{}
	step := 0
	uni := []string{}
	seen := map[string]bool{}
	for _, m := range j.Members {
		for _, o := range m.Ops {
			for _, x := range append([]string{o.C.Id, o.C.To}, o.C.Ids...) {
				if x != "" && !seen[x] && o.C.K != "meta.name" && o.C.K != "meta.id" && o.C.K != "meta.expanded" {
					seen[x] = true
					uni = append(uni, x)
				}
			}
		}
	}
	sort.Strings(uni)
	crashed := func(k, what string) {
		t.S = append(t.S, EqStep{E: "eq", K: k, I: 1, Crash: what, Res: []int{}, Back: []int{}})
	}
	// Building; a step that kills the process is not this property's business unless it is a comparison.
	for _, m := range j.Members {
		step++
		if j.CrashAt == step {
			continue
		}
		progress(step)
		guarded(func() {
			w := world.CreateWorld(m.Name)
			s := &session{n: n, w: w}
			for _, o := range m.Ops {
				x := newStep(o)
				s.do(o, &x)
			}
			for k := 0; k < m.Read; k++ {
				v, err := world.FromString(w.String())
				if err != nil {
					return
				}
				w = v
			}
			v := project(n, w, uni)
			worlds, t.Worlds = append(worlds, w), append(t.Worlds, v)
			var tree world.Tree
			if len(worlds)%2 == 0 {
				tree = addTree(w, r)
			} else if txt, err := treeText(w.String()); err == nil {
				tree, _, _ = world.TreeFromString(txt)
			}
			if !isNil(tree) {
				trees, t.Trees = append(trees, tree), append(t.Trees, projectTree(n, tree, uni))
				ids := []string{}
				for _, i := range w.ItemList(0) {
					ids = append(ids, i.Id)
				}
				sort.Strings(ids)
				if len(ids) > 0 {
					if f, ok := tree.Find(ids[r.Intn(len(ids))]); ok {
						if sub, _, err := world.TreeFromString(f.String()); err == nil {
							trees, t.Trees = append(trees, sub), append(t.Trees, projectTree(n, sub, uni))
						}
					}
				}
			}
			is := w.ItemList(0)
			sort.Slice(is, func(a, b int) bool { return is[a].Id < is[b].Id })
			for _, i := range is {
				if len(items) < j.Most {
					items, t.Items = append(items, i), append(t.Items, itemRec(i))
				}
			}
			rs := w.RelList(0)
			sort.Slice(rs, func(a, b int) bool {
				return rs[a].From.Id+"\x00"+rs[a].To.Id < rs[b].From.Id+"\x00"+rs[b].To.Id
			})
			for _, x := range rs {
				if len(rels) < j.Most {
					rels = append(rels, x)
					t.Rels = append(t.Rels, EqRel{itemRec(x.From), itemRec(x.To), relRec(x).A})
				}
			}
		})
	}
	compare := func(k string, size int, eq func(a, b int) bool) bool {
		for i := 0; i < size; i++ {
			step++
			if j.CrashAt == step {
				crashed(k, j.CrashKind)
				return false
			}
			if step%8 == 0 || j.CrashAt > 0 {
				progress(step)
			}
			st := EqStep{E: "eq", K: k, I: i + 1, Res: []int{}, Back: []int{}}
			func() {
				defer func() {
					if x := recover(); x != nil {
						st.Crash = "panic " + fmt.Sprint(x)
					}
				}()
				for b := 0; b < size; b++ {
					count := func(f func() bool) int {
						yes := 0
						for c := 0; c < j.Reps; c++ {
							if f() {
								yes++
							}
						}
						switch yes {
						case 0:
							return 0
						case j.Reps:
							return 1
						}
						return 2
					}
					st.Res = append(st.Res, count(func() bool { return eq(i, b) }))
					st.Back = append(st.Back, count(func() bool { return eq(b, i) }))
				}
			}()
			t.S = append(t.S, st)
			if st.Crash != "" {
				return false
			}
		}
		return true
	}
	_ = compare("world", len(worlds), func(a, b int) bool { return world.WorldEqual(worlds[a], worlds[b]) }) &&
		compare("tree", len(trees), func(a, b int) bool { return world.TreeEqual(trees[a], trees[b]) }) &&
		compare("item", len(items), func(a, b int) bool { return world.ItemEqual(items[a], items[b]) }) &&
		compare("rel", len(rels), func(a, b int) bool { return world.RelEqual(rels[a], rels[b]) })
	t.Tab = n.tab
	return t
}
