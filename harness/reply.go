package main

// An independent reader of replies and world text (it shares no code with the repository's grammar package).

import (
	"fmt"
	"strconv"
	"strings"
)

type lexer struct {
	s   string
	pos int
}

func (l *lexer) ws() {
	for l.pos < len(l.s) && strings.IndexByte(" \t\r\n", l.s[l.pos]) >= 0 {
		l.pos++
	}
}
func (l *lexer) lit(t string) bool {
	if strings.HasPrefix(l.s[l.pos:], t) {
		l.pos += len(t)
		return true
	}
	return false
}
func isWord(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_'
}

// value reads a quoted text or a bare word; empty is returned as not found.
func (l *lexer) value() (string, bool) {
	if l.pos < len(l.s) && l.s[l.pos] == '"' {
		end := strings.IndexByte(l.s[l.pos+1:], '"')
		if end < 0 {
			return "", false
		}
		v := l.s[l.pos+1 : l.pos+1+end]
		l.pos += end + 2
		return v, true
	}
	start := l.pos
	for l.pos < len(l.s) && isWord(l.s[l.pos]) {
		l.pos++
	}
	return l.s[start:l.pos], l.pos > start
}

// kvs reads key=value pairs.
func (l *lexer) kvs(keys string) map[string]string {
	out := map[string]string{}
	for {
		save := l.pos
		l.ws()
		start := l.pos
		for l.pos < len(l.s) && l.s[l.pos] >= 'a' && l.s[l.pos] <= 'z' {
			l.pos++
		}
		k := l.s[start:l.pos]
		if k == "" || !strings.Contains(" "+keys+" ", " "+k+" ") || !l.lit("=") {
			l.pos = save
			return out
		}
		v, ok := l.value()
		if !ok {
			l.pos = save
			return out
		}
		if _, dup := out[k]; dup {
			out["?dup"] = k
		}
		out[k] = v
	}
}
func (l *lexer) item() (ItemRec, error) {
	if !l.lit("item ") {
		return ItemRec{}, fmt.Errorf("item expected at %d", l.pos)
	}
	id, ok := l.value()
	if !ok {
		return ItemRec{}, fmt.Errorf("id expected at %d", l.pos)
	}
	m := l.kvs("name type mechanism expanded external")
	return ItemRec{id, ItemAttr{m["name"], m["type"], m["mechanism"], m["expanded"], m["external"] == "true"}}, nil
}
func (l *lexer) rel() (RelRec, error) {
	if !l.lit("rel ") {
		return RelRec{}, fmt.Errorf("rel expected at %d", l.pos)
	}
	from, ok := l.value()
	l.ws()
	to, ok2 := l.value()
	if !ok || !ok2 {
		return RelRec{}, fmt.Errorf("ids expected at %d", l.pos)
	}
	m := l.kvs("verb mechanism async expanded")
	return RelRec{from, to, RelAttr{m["verb"], m["mechanism"], m["async"] == "true", m["expanded"]}}, nil
}

type worldDoc struct {
	meta  Meta
	items []ItemRec
	pairs [][]string
	rels  []RelRec
}

// tree reads tree{...}; root items may be nil only at the top.
func (l *lexer) tree(d *worldDoc, parent string, top bool, depth int) error {
	if depth > 10000 || !l.lit("tree{") {
		return fmt.Errorf("tree expected at %d", l.pos)
	}
	id := ""
	if top && l.lit("nil") {
	} else {
		it, err := l.item()
		if err != nil {
			return err
		}
		id = it.Id
		d.items = append(d.items, it)
		d.pairs = append(d.pairs, []string{id, parent})
	}
	if !l.lit("::[") {
		return fmt.Errorf("components expected at %d", l.pos)
	}
	for {
		l.ws()
		if l.lit("]}") {
			return nil
		}
		if err := l.tree(d, id, false, depth+1); err != nil {
			return err
		}
	}
}
func parseWorldText(s string) (worldDoc, error) {
	d := worldDoc{items: []ItemRec{}, pairs: [][]string{}, rels: []RelRec{}}
	l := &lexer{s: s}
	if !l.lit("$$world") {
		return d, fmt.Errorf("no begin")
	}
	get := func(k string) (string, error) {
		l.ws()
		if !l.lit(k + "=") {
			return "", fmt.Errorf("%s expected at %d", k, l.pos)
		}
		v, _ := l.value()
		return v, nil
	}
	var err error
	var v string
	if v, err = get("version"); err != nil {
		return d, err
	}
	if d.meta.Version, err = strconv.Atoi(v); err != nil {
		return d, err
	}
	if d.meta.Id, err = get("id"); err != nil {
		return d, err
	}
	if d.meta.Name, err = get("name"); err != nil {
		return d, err
	}
	if d.meta.Expanded, err = get("expanded"); err != nil {
		return d, err
	}
	l.ws()
	if err = l.tree(&d, "", true, 0); err != nil {
		return d, err
	}
	for {
		l.ws()
		if l.lit("endworld$$") {
			l.ws()
			if l.pos != len(l.s) {
				return d, fmt.Errorf("trailing text at %d", l.pos)
			}
			return d, nil
		}
		r, err := l.rel()
		if err != nil {
			return d, err
		}
		d.rels = append(d.rels, r)
	}
}

// parseReply splits a reply into its object and status.
func parseReply(n *interner, s string) (o Obj, st int, msg string) {
	o = Obj{Items: []ItemRec{}, Rels: []RelRec{}, Ids: []string{}, W: emptyView()}
	status := s
	objText := ""
	if i := strings.LastIndex(s, "$$$$"); i >= 0 {
		objText, status = s[:i], s[i+4:]
	} else {
		o.Kind = "none"
	}
	l := &lexer{s: strings.TrimSpace(status)}
	num := 0
	for l.pos < len(l.s) && l.s[l.pos] >= '0' && l.s[l.pos] <= '9' {
		num = num*10 + int(l.s[l.pos]-'0')
		l.pos++
	}
	l.ws()
	word, _ := l.value()
	l.ws()
	msg, _ = l.value()
	if word == "error" || word == "ok" {
		st = num
	}
	if o.Kind == "none" {
		return
	}
	objText = strings.TrimSpace(objText)
	o.Kind = "bad"
	switch {
	case objText == "":
		o.Kind = "empty"
	case strings.HasPrefix(objText, "$$world"):
		d, err := parseWorldText(objText)
		if err != nil {
			return
		}
		o.Kind = "world"
		o.W.M = []int{n.meta(d.meta)}
		o.W.A = []int{n.items(d.items)}
		o.W.P = []int{n.pairs(d.pairs)}
		o.W.R = []int{n.rels(d.rels)}
	case strings.HasPrefix(objText, "item "):
		l := &lexer{s: objText}
		for l.ws(); l.pos < len(l.s); l.ws() {
			it, err := l.item()
			if err != nil {
				return
			}
			o.Items = append(o.Items, it)
		}
		o.N = len(o.Items)
		o.Kind = "items"
		if o.N == 1 && o.Items[0] == (ItemRec{}) {
			o.Kind = "blank"
		}
	case strings.HasPrefix(objText, "rel "):
		l := &lexer{s: objText}
		for l.ws(); l.pos < len(l.s); l.ws() {
			r, err := l.rel()
			if err != nil {
				return
			}
			o.Rels = append(o.Rels, r)
		}
		o.N = len(o.Rels)
		o.Kind = "rels"
		if o.N == 1 && o.Rels[0] == (RelRec{}) {
			o.Kind = "blank"
		}
	case objText == "true" || objText == "false":
		o.Kind = "bool"
		o.Val = objText == "true"
	}
	return
}
