package main

// Script generators: random scripts over rich universes, and walks over the transition graph printed by TLC.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"strings"
)

var plainIds = []string{"a", "b", "c", "d", "e", "f", "g", "h", "k", "m"}
var oddIds = []string{"nil", "a::b", "b c", "a", "::", "x::", "::x", "tree{", "item", "in", "world", "ok", "a b", "b", "c", "1", "00", "-x", "A", "a.b",
	"$$$$", "$$world", "endworld$$", "x=1", "200", "[a]", "nil nil", " a", "a ", "in b", "rel", "x&y", "a::", "b::c", "a::b::c", "Nil", "#", "item a", "true", "z_z", "'",
	"ab", "aa", "a1", "AB", "B C", "b  c", "a;", "id=", "name=x y", "strict", "--strict", "create", "nest a in b", "free", " ", "0", "-1", "200 ok", "error", "rel a b", "ITEM", "items", "a, b", "b.world", "..",
	"a long identifier that goes on: " + strings.Repeat("and on, ", 30) + "end"}
var quotedChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.,!@#$%^&*()[]+=~;: "

func validQuoted(s string) bool {
	for _, c := range s {
		if !strings.ContainsRune(quotedChars, c) {
			return false
		}
	}
	return true
}
func init() {
	out := []string{}
	for _, s := range oddIds {
		if validQuoted(s) {
			out = append(out, s)
		}
	}
	oddIds = out
}

// Profile weights the kinds of steps of a random script.
type Profile struct {
	Kinds map[string]int
	// universe: number of ids, odd ids included
	NIds   int
	Odd    bool
	Vals   bool // arbitrary quoted text as attribute values
	Spell  bool // random spelling
	Mode   string
	Build  int // percent chance that creation is preferred at the start
	Pinned []string
	// Pre: with Big, these first steps are not recorded.
	Pre bool
	// Words: the script goes through the special texts, giving each to every attribute by every kind of command.
	Words  bool
	NWords int
	// Wide: with Big, what has many parts is undone and redone even if nothing else is.
	Wide bool
	// Big: the script starts by creating all ids, in chains and bushes, joined by many relationships.
	Big bool
}

var attrVals = []string{"x", "y z", "", "nil", "v1", "Long, name (with) [all] = ~ signs; and: more!", "a::b", "true", "name=x", "$$$$ 200 ok", "]} endworld$$", " lead", "trail ", "person", "0",
	"false", "none", "None", "null", "n.a.", "unknown", "default", "-", "root", "no", "undefined", "1", "false,", "item", "in", "strict", "X", "a", "  ", " ", "=", ";", "[]", "[a]", "::", "x=y z=w", "external=true", "type=code", "tree[nil]", "#", "item a b", "::[", "A&B", "100%", "(x", "x)", "errors=[]", "verb=x", "400 error: x"}

func (p Profile) val(r *rand.Rand) string {
	if !p.Vals {
		return []string{"x", "y", "z w", ""}[r.Intn(4)]
	}
	if r.Intn(3) > 0 {
		v := attrVals[r.Intn(len(attrVals))]
		if validQuoted(v) {
			return v
		}
		return "q"
	}
	n := r.Intn(14)
	switch r.Intn(24) {
	case 0:
		n = 40 + r.Intn(300)
	case 1:
		n = []int{31, 32, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025}[r.Intn(17)]
	case 2:
		if r.Intn(4) == 0 {
			n = 2000 + r.Intn(3000)
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = quotedChars[r.Intn(len(quotedChars))]
	}
	return string(b)
}

var itemKeys = []string{"name", "type", "mechanism", "expanded", "external"}
var relKeys = []string{"verb", "mechanism", "async", "expanded"}

func (p Profile) params(r *rand.Rand, keys []string, min int, api bool) [][]string {
	n := min + r.Intn(3)
	if r.Intn(8) == 0 {
		n = len(keys) + r.Intn(2)
	}
	if n < min {
		n = min
	}
	out := [][]string{}
	for i := 0; i < n; i++ {
		k := keys[r.Intn(len(keys))]
		v := ""
		switch k {
		case "external", "async":
			v = []string{"true", "false"}[r.Intn(2)]
		case "type":
			v = typeNames[1+r.Intn(len(typeNames)-1)]
			if api && r.Intn(4) == 0 {
				v = []string{"", "alien", "Person", "persons", "none", " person", "9x"}[r.Intn(7)]
			}
		default:
			v = p.val(r)
		}
		if api {
			dup := false
			for _, kv := range out {
				dup = dup || kv[0] == k
			}
			if dup {
				continue
			}
		}
		out = append(out, []string{k, v})
	}
	return out
}
func pkeys(r *rand.Rand, keys []string) [][]string {
	n := 1 + r.Intn(3)
	if r.Intn(6) == 0 {
		n = len(keys)
	}
	out := [][]string{}
	for i := 0; i < n; i++ {
		out = append(out, []string{keys[r.Intn(len(keys))], ""})
	}
	return out
}

func pick(r *rand.Rand, m map[string]int, order []string) string {
	tot := 0
	for _, k := range order {
		tot += m[k]
	}
	x := r.Intn(tot)
	for _, k := range order {
		if x -= m[k]; x < 0 {
			return k
		}
	}
	return order[0]
}

var rawSamples = []string{"", " ", "hello", "item", "item create", "rel create a", "item create a b c", "nest a", "nest a in", "free", "item set",
	"item set a type=alien", "item create \"a\" name", "world world", "item fetch", "200 ok", "$$$$", "$$world", "tree{nil::[]}", "400 error \"x\"",
	"item list x", "item clear a", "item clear a verb", "rel set a b name=x", "in? a", "to?", "from? a b", "item create world", "item create \"un", "item create \"é\"",
	"undo", "redo", "ITEM list", "item create a name=\"x\"y", "\x00", "item create \"a\\b\"", "item create \"a'b\"", "nest in b", "nest a in b c d", "item a extrnal=true",
	"$$world\nversion=1\nid=a\nname=a\nexpanded=\ntree{nil::[]}\n\nendworld$$", "item \"a\"\n$$$$\n200 ok", "\n$$$$\n200 ok ", "404 error", "item in", "rel list a", "rel a", "delete a", "create item a",
	"item list;", "world.", "world;", "item create a;", "item delete a.", "nest a in b;", "item set a name=x;", "free a.", "# item create a", "; world", "item list; item delete a;", "item create a && item create b!"}

// generator state: what probably exists, to aim at interesting arguments
type genState struct {
	r     *rand.Rand
	p     Profile
	ids   []string
	items []string
	rels  [][2]string
	order []string
	par   map[string]string // probable containment
}

// related returns ids near x: its parent, its components, their components.
func (g *genState) related(x string) string {
	var near []string
	for _, i := range g.items {
		if g.par[i] == x || g.par[g.par[i]] == x && g.par[i] != "" {
			near = append(near, i)
		}
	}
	if p := g.par[x]; p != "" {
		near = append(near, p, p)
	}
	if len(near) == 0 {
		return g.anyId()
	}
	return near[g.r.Intn(len(near))]
}

// several picks n ids, often related ones.
func (g *genState) several(n int) []string {
	out := []string{g.anyId()}
	for len(out) < n {
		if g.r.Intn(3) > 0 {
			out = append(out, g.related(out[g.r.Intn(len(out))]))
		} else {
			out = append(out, g.anyId())
		}
	}
	g.r.Shuffle(n, func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func (g *genState) anyId() string {
	if len(g.items) > 0 && g.r.Intn(6) > 0 {
		return g.items[g.r.Intn(len(g.items))]
	}
	if g.r.Intn(25) == 0 {
		return ""
	}
	return g.ids[g.r.Intn(len(g.ids))]
}
func (g *genState) pair() (string, string) {
	if len(g.rels) > 0 && g.r.Intn(3) > 0 {
		p := g.rels[g.r.Intn(len(g.rels))]
		if g.r.Intn(6) == 0 {
			return p[1], p[0]
		}
		return p[0], p[1]
	}
	return g.anyId(), g.anyId()
}

// above is x or one of the items it is in, however far out.
func (g *genState) above(x string) string {
	for g.par[x] != "" && g.r.Intn(3) > 0 {
		x = g.par[x]
	}
	return x
}
func (g *genState) note(c Cmd) {
	has := func(x string) bool {
		for _, i := range g.items {
			if i == x {
				return true
			}
		}
		return false
	}
	switch c.K {
	case "nest":
		for _, x := range c.Ids {
			if has(x) && has(c.To) && x != c.To {
				g.par[x] = c.To
			}
		}
	case "free":
		for _, x := range c.Ids {
			delete(g.par, x)
		}
	case "item.create", "item.cof", "item.cos":
		if !has(c.Id) && c.Id != "" {
			g.items = append(g.items, c.Id)
		}
	case "item.delete":
		out := []string{}
		for _, i := range g.items {
			if i != c.Id {
				out = append(out, i)
			}
		}
		for i, p := range g.par {
			if p == c.Id {
				g.par[i] = g.par[c.Id]
			}
		}
		delete(g.par, c.Id)
		g.items = out
		rs := [][2]string{}
		for _, p := range g.rels {
			if p[0] != c.Id && p[1] != c.Id {
				rs = append(rs, p)
			}
		}
		g.rels = rs
	case "rel.create", "rel.cof", "rel.cos":
		if has(c.Id) && has(c.To) {
			g.rels = append(g.rels, [2]string{c.Id, c.To})
		}
	case "rel.delete":
		rs := [][2]string{}
		for _, p := range g.rels {
			if p[0] != c.Id || p[1] != c.To {
				rs = append(rs, p)
			}
		}
		g.rels = rs
	}
}
func (g *genState) cmd(k string, api bool) Cmd {
	r := g.r
	c := Cmd{K: k}
	switch k {
	case "item.create":
		c.Id = g.ids[r.Intn(len(g.ids))]
		if r.Intn(30) == 0 {
			c.Id = ""
		}
		c.P = g.p.params(r, itemKeys, 0, api)
	case "item.cos":
		c.Id = g.anyId()
		c.P = g.p.params(r, itemKeys, 1, api)
	case "item.cof":
		c.Id = g.ids[r.Intn(len(g.ids))]
	case "item.set":
		c.Id = g.anyId()
		c.P = g.p.params(r, itemKeys, 1, api)
	case "item.clear":
		c.Id = g.anyId()
		c.P = pkeys(r, itemKeys)
	case "item.delete", "item.fetch", "item.in", "item.exists":
		c.Id = g.anyId()
	case "item.list", "rel.list":
		if r.Intn(2) == 0 {
			c.Lim = r.Intn(13)
			if r.Intn(8) == 0 {
				c.Lim = []int{20, 50, 64, 99, 100, 127, 128, 129, 130, 200, 255, 256, 257, 1000, 32768, 65536, 2147483647}[r.Intn(17)]
			}
		}
	case "rel.create", "rel.set", "rel.cos":
		if k == "rel.create" {
			c.Id, c.To = g.anyId(), g.anyId()
		} else {
			c.Id, c.To = g.pair()
		}
		min := 1
		if k == "rel.create" {
			min = 0
		}
		c.P = g.p.params(r, relKeys, min, api)
	case "rel.clear":
		c.Id, c.To = g.pair()
		c.P = pkeys(r, relKeys)
	case "rel.cof":
		c.Id, c.To = g.anyId(), g.anyId()
	case "rel.delete", "rel.exists":
		c.Id, c.To = g.pair()
	case "rel.fetch":
		c.Id, c.To = g.pair()
		switch r.Intn(4) {
		case 0:
			c.Id, c.To = g.anyId(), g.anyId()
		case 1, 2:
			c.Id, c.To = g.above(c.Id), g.above(c.To)
		}
		c.Strict = r.Intn(3) == 0
	case "to?", "from?":
		c.Id = g.anyId()
		if r.Intn(2) == 0 {
			x, y := g.pair()
			if k == "from?" {
				y = x
			}
			c.Id = g.above(y)
		}
		c.Strict = r.Intn(2) == 0
	case "in?":
		c.Id, c.To = g.anyId(), g.anyId()
		if r.Intn(2) == 0 {
			c.To = g.above(c.Id)
		}
		c.Strict = r.Intn(3) == 0
	case "nest":
		n := 1
		if !api && r.Intn(3) == 0 {
			n = 2 + r.Intn(3)
		}
		c.Ids = g.several(n)
		c.To = g.anyId()
		if r.Intn(4) == 0 {
			c.To = g.related(c.Ids[r.Intn(n)])
		}
	case "free":
		n := 1
		if !api && r.Intn(3) == 0 {
			n = 2 + r.Intn(3)
		}
		c.Ids = g.several(n)
	case "meta.name", "meta.expanded", "meta.id":
		c.Id = g.p.val(r)
	case "meta.version":
		c.Lim = versions[r.Intn(len(versions))]
	}
	return c
}

var versions = []int{0, 1, 2, 3, 7, 9, 10, 12, 99, 100, 255, 256, 1000, 1001, 65535, 65536, 123456, 2147483647}

// words makes the steps that give every special text to every attribute, and back again.
func (g *genState) words(style Style) []Op {
	r, out := g.r, []Op{}
	put := func(c Cmd) {
		if g.p.Mode == "api" {
			out = append(out, Op{E: "api", C: c.norm()})
		} else {
			out = append(out, Op{E: "cmd", C: c.norm(), Txt: style.spell(c)})
		}
		if g.p.Mode != "api" && g.p.Kinds["undo"] > 0 && r.Intn(3) == 0 {
			out = append(out, Op{E: "undo"}, Op{E: "redo"})
		}
	}
	all := func(v string, keys ...string) [][]string {
		ps := [][]string{}
		for _, i := range r.Perm(len(keys)) {
			ps = append(ps, []string{keys[i], v})
		}
		return ps
	}
	put(Cmd{K: "item.create", Id: "a"})
	put(Cmd{K: "item.create", Id: "b"})
	put(Cmd{K: "rel.create", Id: "b", To: "a"})
	vs := append([]string{}, attrVals...)
	r.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
	n := 0
	for _, v := range vs {
		if !validQuoted(v) {
			continue
		}
		if n++; n > g.p.NWords {
			break
		}
		id := v
		if id == "" || id == "a" || id == "b" {
			id = "v"
		}
		put(Cmd{K: "item.create", Id: id, P: all(v, "name", "mechanism", "expanded")})
		put(Cmd{K: "rel.create", Id: "a", To: id, P: all(v, "verb", "mechanism", "expanded")})
		if g.p.Mode == "api" {
			put(Cmd{K: "item.set", Id: "a", P: all(v, "name", "mechanism", "expanded")})
			put(Cmd{K: "rel.set", Id: "b", To: "a", P: all(v, "verb", "mechanism", "expanded")})
		} else {
			put(Cmd{K: []string{"item.cos", "item.set"}[n%2], Id: "a", P: all(v, "name", "mechanism", "expanded")})
			put(Cmd{K: []string{"item.set", "item.cos"}[n%2], Id: "b", P: all(v, "name", "mechanism", "expanded")})
			put(Cmd{K: []string{"rel.cos", "rel.set"}[n%2], Id: "b", To: "a", P: all(v, "verb", "mechanism", "expanded")})
			put(Cmd{K: []string{"rel.cos", "rel.set"}[1-n%2], Id: "a", To: id, P: all(v, "verb", "mechanism", "expanded")})
		}
		put(Cmd{K: "nest", Ids: []string{id}, To: "a"})
		if g.p.Kinds["reload"] > 0 {
			out = append(out, Op{E: "reload"})
		}
		put(Cmd{K: "item.delete", Id: id})
	}
	return out
}

// randomScript makes one script.
func randomScript(p Profile, seed int64, n int, name string) Script {
	r := rand.New(rand.NewSource(seed))
	ids := append([]string{}, p.Pinned...)
	pool := plainIds
	if p.Odd {
		pool = append(append([]string{}, oddIds...), plainIds...)
	}
	for _, i := range r.Perm(len(pool)) {
		if len(ids) >= p.NIds {
			break
		}
		dup := false
		for _, x := range ids {
			dup = dup || x == pool[i]
		}
		if !dup {
			ids = append(ids, pool[i])
		}
	}
	for k := len(ids); k < p.NIds; k++ {
		ids = append(ids, fmt.Sprintf("n%d", k))
	}
	g := &genState{r: r, p: p, ids: ids, par: map[string]string{}}
	for _, k := range kindOrder {
		if p.Kinds[k] > 0 {
			g.order = append(g.order, k)
		}
	}
	sc := Script{T: fmt.Sprintf("rnd-%d", seed), Mode: p.Mode, Seed: seed, Name: name, Uni: ids[:min(len(ids), 10)], Ops: []Op{}}
	style := Style{}
	if p.Spell {
		style.rng = rand.New(rand.NewSource(seed + 1))
	}
	if p.Big {
		put := func(c Cmd) {
			g.note(c)
			if p.Mode == "api" {
				for _, id := range c.Ids {
					d := c
					d.Ids = []string{id}
					sc.Ops = append(sc.Ops, Op{E: "api", C: d.norm()})
				}
				if len(c.Ids) == 0 {
					sc.Ops = append(sc.Ops, Op{E: "api", C: c.norm()})
				}
			} else {
				sc.Ops = append(sc.Ops, Op{E: "cmd", C: c.norm(), Txt: style.spell(c)})
			}
		}
		for _, id := range ids {
			put(Cmd{K: "item.create", Id: id, P: p.params(r, itemKeys, 0, p.Mode == "api")})
		}
		// one deep chain, one item with many components
		cut := len(ids)/3 + r.Intn(len(ids)/3)
		for i := 1; i < cut; i++ {
			put(Cmd{K: "nest", Ids: []string{ids[i]}, To: ids[i-1]})
		}
		put(Cmd{K: "nest", Ids: append([]string{}, ids[cut+1:len(ids)-2]...), To: ids[cut]})
		for i := 0; i < len(ids); i++ {
			k := i
			if r.Intn(2) == 0 {
				k = 0
			}
			put(Cmd{K: "rel.create", Id: ids[k], To: ids[r.Intn(len(ids))], P: p.params(r, relKeys, 0, p.Mode == "api")})
		}
		if p.Pre {
			sc.Pre = len(sc.Ops)
		}
		// what has many parts, at once
		back := func() {
			if p.Mode != "api" && (p.Kinds["undo"] > 0 || p.Wide) {
				for _, e := range []string{"undo", "redo", "undo"} {
					sc.Ops = append(sc.Ops, Op{E: e})
				}
			}
		}
		wide := append([]string{}, ids[cut+1:len(ids)-2]...)
		put(Cmd{K: "item.delete", Id: ids[cut]})
		back()
		if p.Mode != "api" {
			put(Cmd{K: "free", Ids: wide})
			back()
			put(Cmd{K: "nest", Ids: wide, To: ids[0]})
			back()
			put(Cmd{K: "item.delete", Id: ids[0]})
			back()
		}
		n += len(sc.Ops)
	}
	if p.Words {
		sc.Ops = append(sc.Ops, g.words(style)...)
		n = 0
	}
	pend := 0 // undos done in a row
	for len(sc.Ops) < n {
		k := ""
		if !p.Big && len(sc.Ops) < p.NIds && r.Intn(100) < p.Build {
			k = "item.create"
		} else {
			k = pick(r, p.Kinds, g.order)
		}
		switch k {
		case "undo":
			for m := 1 + r.Intn(3); m > 0; m-- {
				sc.Ops = append(sc.Ops, Op{E: "undo"})
				pend++
			}
			for pend > 0 && r.Intn(3) > 0 {
				sc.Ops = append(sc.Ops, Op{E: "redo"})
				pend--
			}
		case "undoall":
			for m := len(sc.Ops) + 1; m > 0; m-- {
				sc.Ops = append(sc.Ops, Op{E: "undo"})
			}
			for m := len(sc.Ops) / 2; m > 0; m-- {
				sc.Ops = append(sc.Ops, Op{E: "redo"})
			}
		case "redo":
			sc.Ops = append(sc.Ops, Op{E: "redo"})
		case "raw":
			t := rawSamples[r.Intn(len(rawSamples))]
			if r.Intn(2) == 0 {
				t = style.spell(g.cmd(pick(r, p.Kinds, cmdsOnly(g.order)), false))
				if r.Intn(4) == 0 {
					t += []string{";", ".", " ;", "#", " .", ",", "!", " &", " # note.", ";;"}[r.Intn(10)]
				} else {
					t = mutate(r, t)
				}
			}
			sc.Ops = append(sc.Ops, Op{E: "raw", Txt: t, Inv: surelyInvalid(t)})
		case "reload":
			sc.Ops = append(sc.Ops, Op{E: "reload"})
			pend = 0
		default:
			api := p.Mode == "api" || strings.HasPrefix(k, "meta.")
			c := g.cmd(k, api)
			if api && k == "item.delete" && c.Id == "" {
				continue
			}
			g.note(c)
			pend = 0
			if api {
				sc.Ops = append(sc.Ops, Op{E: "api", C: c.norm()})
			} else {
				sc.Ops = append(sc.Ops, Op{E: "cmd", C: c.norm(), Txt: style.spell(c)})
			}
		}
	}
	return sc
}

var kindOrder = []string{"item.create", "item.cof", "item.cos", "item.set", "item.clear", "item.delete", "item.fetch", "item.list", "item.in", "item.exists",
	"rel.create", "rel.cof", "rel.cos", "rel.set", "rel.clear", "rel.delete", "rel.fetch", "rel.list", "rel.exists", "to?", "from?", "in?", "nest", "free", "world",
	"undo", "redo", "undoall", "raw", "reload", "meta.name", "meta.id", "meta.expanded", "meta.version"}

func cmdsOnly(order []string) []string {
	out := []string{}
	for _, k := range order {
		switch k {
		case "undo", "redo", "undoall", "raw", "reload", "meta.name", "meta.id", "meta.expanded", "meta.version":
		default:
			out = append(out, k)
		}
	}
	return out
}

func mutate(r *rand.Rand, s string) string {
	for n := 1 + r.Intn(2); n > 0; n-- {
		if s == "" {
			return "?"
		}
		i := r.Intn(len(s))
		switch r.Intn(5) {
		case 0:
			s = s[:i] + s[i+1:]
		case 1:
			s = s[:i] + string([]byte{"\"=?${}'\\/<>|`éx "[r.Intn(16)]}) + s[i:]
		case 2:
			s = s[:i]
		case 3:
			s = s + " " + s
		case 4:
			s = s[i:]
		}
	}
	return s
}

// surelyInvalid reports text that cannot be a command: it starts with no word that can begin one, or has an odd number of quotes,
// or has a character no word or quoted text may hold.
func surelyInvalid(s string) bool {
	t := strings.TrimLeft(s, " \t\r\n")
	start := false
	for _, k := range []string{"item", "rel", "nest", "free", "in?", "to?", "from?", "world"} {
		start = start || strings.HasPrefix(t, k)
	}
	if !start || strings.Count(s, `"`)%2 == 1 {
		return true
	}
	for _, c := range s {
		if !strings.ContainsRune(quotedChars+"\"?\t\r\n", c) {
			return true
		}
	}
	if strings.ContainsRune(";.,!#&@^*~+:", rune((" " + strings.TrimSpace(t))[len(strings.TrimSpace(t))])) {
		return true // Outside quotes, no word ends like that.
	}
	return strings.TrimSpace(t) == "item" || strings.TrimSpace(t) == "rel"
}

// Edge of a printed graph.
type Edge struct {
	F int64           `json:"f"`
	T int64           `json:"t"`
	C json.RawMessage `json:"c"`
}

func readEdges(r io.Reader) ([]Edge, error) {
	var out []Edge
	sc := bufio.NewScanner(r)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	seen := map[string]bool{}
	for sc.Scan() {
		l := sc.Text()
		i := strings.Index(l, "EDGE ")
		if i < 0 {
			continue
		}
		l = strings.TrimSuffix(l[i+5:], `"`)
		l = strings.ReplaceAll(l, `\"`, `"`)
		l = strings.ReplaceAll(l, `\\`, `\`)
		if seen[l] {
			continue
		}
		seen[l] = true
		var e Edge
		if err := json.Unmarshal([]byte(l), &e); err != nil {
			return nil, fmt.Errorf("%v: %s", err, l)
		}
		out = append(out, e)
	}
	return out, sc.Err()
}

// walks covers every edge of the graph by walks from the first edge's source. Random choices make the ways to a state vary.
func walks(edges []Edge, seed int64, maxLen int, budget int) (scripts [][]Edge, covered int) {
	r := rand.New(rand.NewSource(seed))
	out := map[int64][]int{}
	for i, e := range edges {
		out[e.F] = append(out[e.F], i)
	}
	init := edges[0].F
	todo := map[int64][]int{} // uncovered edges per node
	left := len(edges)
	for n, es := range out {
		p := append([]int{}, es...)
		r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
		todo[n] = p
	}
	take := func(n int64) int {
		es := todo[n]
		e := es[len(es)-1]
		todo[n] = es[:len(es)-1]
		left--
		return e
	}
	steps := 0
	// path to the nearest node with uncovered edges, in random order
	path := func(from int64) []int {
		prev := map[int64]int{from: -1}
		q := []int64{from}
		for len(q) > 0 {
			n := q[0]
			q = q[1:]
			if len(todo[n]) > 0 && n != from {
				var p []int
				for x := n; prev[x] >= 0; x = edges[prev[x]].F {
					p = append([]int{prev[x]}, p...)
				}
				return p
			}
			for _, k := range r.Perm(len(out[n])) {
				e := out[n][k]
				if _, ok := prev[edges[e].T]; !ok {
					prev[edges[e].T] = e
					q = append(q, edges[e].T)
				}
			}
		}
		return nil
	}
	for left > 0 && steps < budget {
		at := init
		var w []Edge
		for len(w) < maxLen {
			if len(todo[at]) > 0 {
				e := take(at)
				w = append(w, edges[e])
				at = edges[e].T
				continue
			}
			if left == 0 {
				break
			}
			p := path(at)
			if p == nil {
				break
			}
			if len(w) > 0 && len(w)+len(p) >= maxLen {
				break
			}
			for _, e := range p {
				w = append(w, edges[e])
				at = edges[e].T
			}
		}
		if len(w) == 0 {
			break
		}
		steps += len(w)
		scripts = append(scripts, w)
	}
	return scripts, len(edges) - left
}
