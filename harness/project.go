package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"

	"github.com/williamflynt/topolith/pkg/world"
)

type interner struct {
	tab Tables
	idx map[string]int
}

func newInterner() *interner {
	return &interner{idx: map[string]int{}, tab: Tables{M: []Meta{}, A: [][]ItemRec{}, P: [][][]string{}, R: [][]RelRec{}, Id: [][]string{}}}
}

func (n *interner) key(kind string, v any) string {
	b, _ := json.Marshal(v)
	return kind + string(b)
}
func (n *interner) meta(m Meta) int {
	k := n.key("m", m)
	if i, ok := n.idx[k]; ok {
		return i
	}
	n.tab.M = append(n.tab.M, m)
	n.idx[k] = len(n.tab.M)
	return n.idx[k]
}
func (n *interner) items(v []ItemRec) int {
	if v == nil {
		v = []ItemRec{}
	}
	sort.Slice(v, func(i, j int) bool { return n.key("", v[i]) < n.key("", v[j]) })
	k := n.key("a", v)
	if i, ok := n.idx[k]; ok {
		return i
	}
	n.tab.A = append(n.tab.A, v)
	n.idx[k] = len(n.tab.A)
	return n.idx[k]
}
func (n *interner) pairs(v [][]string) int {
	if v == nil {
		v = [][]string{}
	}
	sort.Slice(v, func(i, j int) bool {
		return v[i][0] < v[j][0] || (v[i][0] == v[j][0] && v[i][1] < v[j][1])
	})
	k := n.key("p", v)
	if i, ok := n.idx[k]; ok {
		return i
	}
	n.tab.P = append(n.tab.P, v)
	n.idx[k] = len(n.tab.P)
	return n.idx[k]
}
func (n *interner) rels(v []RelRec) int {
	if v == nil {
		v = []RelRec{}
	}
	sort.Slice(v, func(i, j int) bool { return n.key("", v[i]) < n.key("", v[j]) })
	k := n.key("r", v)
	if i, ok := n.idx[k]; ok {
		return i
	}
	n.tab.R = append(n.tab.R, v)
	n.idx[k] = len(n.tab.R)
	return n.idx[k]
}
func (n *interner) ids(v []string) int {
	if v == nil {
		v = []string{}
	}
	sort.Strings(v)
	k := n.key("i", v)
	if i, ok := n.idx[k]; ok {
		return i
	}
	n.tab.Id = append(n.tab.Id, v)
	n.idx[k] = len(n.tab.Id)
	return n.idx[k]
}

var typeNames = []string{"", "person", "database", "queue", "blobstore", "browser", "mobile", "server", "device", "code"}

func itemRec(i world.Item) ItemRec {
	ty := "#" + strconv.Itoa(int(i.Type))
	if int(i.Type) >= 0 && int(i.Type) < len(typeNames) {
		ty = typeNames[int(i.Type)]
	}
	return ItemRec{i.Id, ItemAttr{i.Name, ty, i.Mechanism, i.Expanded, i.External}}
}
func relRec(r world.Rel) RelRec {
	return RelRec{r.From.Id, r.To.Id, RelAttr{r.Verb, r.Mechanism, r.Async, r.Expanded}}
}
func relRecs(rs []world.Rel) []RelRec {
	out := make([]RelRec, 0, len(rs))
	for _, r := range rs {
		out = append(out, relRec(r))
	}
	return out
}

// try runs f and turns a panic into index 0 (observation failed).
func try(f func() int) (i int) {
	defer func() {
		if r := recover(); r != nil {
			i = 0
		}
	}()
	return f()
}

// project observes a world through every read view. uni holds ids to probe besides the listed ones.
func project(n *interner, w world.World, uni []string) View {
	v := View{}
	var items []world.Item
	listIdx := try(func() int {
		items = w.ItemList(0)
		recs := []ItemRec{}
		for _, i := range items {
			recs = append(recs, itemRec(i))
		}
		return n.items(recs)
	})
	seen := map[string]bool{}
	probe := []string{}
	for _, i := range items {
		if !seen[i.Id] {
			seen[i.Id] = true
			probe = append(probe, i.Id)
		}
	}
	sort.Strings(probe)
	listed := append([]string{}, probe...)
	for _, id := range uni {
		if !seen[id] {
			seen[id] = true
			probe = append(probe, id)
		}
	}
	isListed := map[string]bool{}
	for _, id := range listed {
		isListed[id] = true
	}
	fetchIdx := try(func() int {
		recs := []ItemRec{}
		for _, id := range probe {
			if i, ok := w.ItemFetch(id); ok {
				recs = append(recs, itemRec(i))
			}
		}
		return n.items(recs)
	})
	eFetch := try(func() int {
		found := []string{}
		for _, id := range probe {
			if _, ok := w.ItemFetch(id); ok {
				found = append(found, id)
			}
		}
		return n.ids(found)
	})
	var eParent, eComp, eIParent, eIComp int
	pParent := try(func() int {
		found, pairs := []string{}, [][]string{}
		for _, id := range probe {
			if p, ok := w.Parent(id); ok {
				found = append(found, id)
				pairs = append(pairs, []string{id, p})
			}
		}
		eParent = n.ids(found)
		return n.pairs(pairs)
	})
	pComp := try(func() int {
		found, pairs, placed := []string{}, [][]string{}, map[string]bool{}
		for _, id := range probe {
			cs, ok := w.Components(id)
			if ok {
				found = append(found, id)
			}
			for _, c := range cs {
				pairs = append(pairs, []string{c, id})
				placed[c] = true
			}
		}
		for _, id := range listed {
			if !placed[id] {
				pairs = append(pairs, []string{id, ""})
			}
		}
		eComp = n.ids(found)
		return n.pairs(pairs)
	})
	pIParent := try(func() int {
		found, pairs, recs, done := []string{}, [][]string{}, []ItemRec{}, map[string]bool{}
		for _, id := range probe {
			if p, ok := w.ItemParent(id); ok {
				found = append(found, id)
				pairs = append(pairs, []string{id, p.Id})
				if r := itemRec(p); p.Id != "" && !done[n.key("", r)] {
					done[n.key("", r)] = true
					recs = append(recs, r)
				}
			}
		}
		eIParent = n.ids(found)
		v.AP = n.items(recs)
		return n.pairs(pairs)
	})
	pIComp := try(func() int {
		found, pairs, placed, recs := []string{}, [][]string{}, map[string]bool{}, []ItemRec{}
		for _, id := range probe {
			cs, ok := w.ItemComponents(id)
			if ok {
				found = append(found, id)
			}
			for _, c := range cs {
				pairs = append(pairs, []string{c.Id, id})
				placed[c.Id] = true
				recs = append(recs, itemRec(c))
			}
		}
		for _, id := range listed {
			if !placed[id] {
				pairs = append(pairs, []string{id, ""})
			}
		}
		eIComp = n.ids(found)
		v.AC = n.items(recs)
		return n.pairs(pairs)
	})
	v.In = try(func() int {
		pairs := [][]string{}
		for _, x := range probe {
			for _, a := range probe {
				if w.In(x, a, false) {
					pairs = append(pairs, []string{x, a})
				}
			}
		}
		return n.pairs(pairs)
	})
	v.InS = try(func() int {
		pairs := [][]string{}
		for _, x := range probe {
			for _, a := range probe {
				if w.In(x, a, true) {
					pairs = append(pairs, []string{x, a})
				}
			}
		}
		return n.pairs(pairs)
	})
	ends, doneEnds := []ItemRec{}, map[string]bool{}
	end := func(i world.Item) {
		if r := itemRec(i); !doneEnds[n.key("", r)] {
			doneEnds[n.key("", r)] = true
			ends = append(ends, r)
		}
	}
	rList := try(func() int {
		rs := w.RelList(0)
		for _, r := range rs {
			end(r.From)
			end(r.To)
		}
		return n.rels(relRecs(rs))
	})
	rFetch := try(func() int {
		out := []RelRec{}
		for _, x := range probe {
			for _, y := range probe {
				for _, r := range w.RelFetch(x, y, true) {
					end(r.From)
					end(r.To)
					out = append(out, relRec(r))
				}
			}
		}
		return n.rels(out)
	})
	rTo := try(func() int {
		out := []RelRec{}
		for _, x := range probe {
			for _, r := range w.RelTo(x, true) {
				end(r.From)
				end(r.To)
				out = append(out, relRec(r))
			}
		}
		return n.rels(out)
	})
	rFrom := try(func() int {
		out := []RelRec{}
		for _, x := range probe {
			for _, r := range w.RelFrom(x, true) {
				end(r.From)
				end(r.To)
				out = append(out, relRec(r))
			}
		}
		return n.rels(out)
	})
	v.AR = n.items(ends)
	mAcc := try(func() int { return n.meta(Meta{w.Version(), w.Id(), w.Name(), w.Expanded()}) })
	var tm, ta, tp, tr int
	try(func() int {
		d, err := parseWorldText(w.String())
		if err != nil {
			return 0
		}
		tm, ta, tp, tr = n.meta(d.meta), n.items(d.items), n.pairs(d.pairs), n.rels(d.rels)
		return 0
	})
	v.M = []int{mAcc, tm}
	v.A = []int{listIdx, fetchIdx, ta}
	v.E = []int{eFetch, eParent, eComp, eIParent, eIComp}
	v.P = []int{pParent, pComp, pIParent, pIComp, tp}
	v.R = []int{rList, rFetch, rTo, rFrom, tr}
	return v
}

func emptyView() View {
	return View{M: []int{}, A: []int{}, E: []int{}, P: []int{}, R: []int{}}
}

var _ = fmt.Sprint
