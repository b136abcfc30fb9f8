package main

// Turning abstract commands into text of the command language.

import (
	"math/rand"
	"regexp"
	"strconv"
	"strings"
)

var bareRe = regexp.MustCompile(`^[a-zA-Z0-9_-]+$`)
var keywordRe = regexp.MustCompile(`^(world|endworld|error|ok|item|rel|in|create|delete|set|clear|fetch|list|exists|free|nest|from\?|to\?|-)`)

func bareId(s string) bool    { return bareRe.MatchString(s) && !keywordRe.MatchString(s) }
func bareValue(s string) bool { return bareRe.MatchString(s) }

// Style decides how a command is spelled; a nil rng gives the canonical spelling.
type Style struct {
	rng   *rand.Rand
	plain bool // without flags that change nothing
}

func (y Style) chance(n int) bool { return y.rng != nil && y.rng.Intn(n) == 0 }
func (y Style) sp() string {
	if y.rng == nil || y.rng.Intn(4) > 0 {
		return " "
	}
	return []string{"  ", "\t", "\n", " \t ", "\r\n", "   \n"}[y.rng.Intn(6)]
}
func (y Style) id(s string) string {
	if bareId(s) && (y.rng == nil || y.rng.Intn(3) > 0) {
		return s
	}
	return `"` + s + `"`
}
func (y Style) val(s string) string {
	if bareValue(s) && y.chance(3) {
		return s
	}
	return `"` + s + `"`
}
func (y Style) noun(s string) string {
	if y.chance(3) {
		return s + "s"
	}
	return s
}
func (y Style) flag(f string) string {
	if y.chance(2) {
		return "-" + f
	}
	return "--" + f
}
func (y Style) params(p [][]string) string {
	var b strings.Builder
	for _, kv := range p {
		b.WriteString(y.sp())
		switch kv[0] {
		case "type", "external", "async":
			b.WriteString(kv[0] + "=" + kv[1])
		default:
			b.WriteString(kv[0] + "=" + y.val(kv[1]))
		}
	}
	return b.String()
}
func (y Style) keys(p [][]string) string {
	var b strings.Builder
	for _, kv := range p {
		b.WriteString(y.sp() + kv[0])
	}
	return b.String()
}

func (y Style) spell(c Cmd) string {
	s := y.sp
	out := ""
	two := func() string { return y.id(c.Id) + s() + y.id(c.To) }
	lim := ""
	if c.Lim > 0 {
		lim = s()
		if y.chance(4) { // the same number
			lim += []string{"0", "00", "000"}[y.rng.Intn(3)]
		}
		lim += strconv.Itoa(c.Lim)
	}
	switch c.K {
	case "item.create":
		out = y.noun("item") + s() + "create" + s() + y.id(c.Id) + y.params(c.P)
	case "item.set":
		out = y.noun("item") + s() + "set" + s() + y.id(c.Id) + y.params(c.P)
	case "item.clear":
		out = y.noun("item") + s() + "clear" + s() + y.id(c.Id) + y.keys(c.P)
	case "item.delete":
		out = y.noun("item") + s() + "delete" + s() + y.id(c.Id)
	case "item.fetch":
		out = y.noun("item") + s() + "fetch" + s() + y.id(c.Id)
	case "item.list":
		out = y.noun("item") + s() + "list" + lim
	case "item.in":
		out = y.noun("item") + s() + "in" + s() + y.id(c.Id)
	case "item.exists":
		if y.chance(2) {
			out = y.noun("item") + s() + "exists" + s() + y.id(c.Id)
		} else {
			out = "item?" + s() + y.id(c.Id)
		}
	case "item.cof", "item.cos":
		out = y.noun("item") + s() + y.id(c.Id) + y.params(c.P)
	case "rel.create":
		out = y.noun("rel") + s() + "create" + s() + two() + y.params(c.P)
	case "rel.set":
		out = y.noun("rel") + s() + "set" + s() + two() + y.params(c.P)
	case "rel.clear":
		out = y.noun("rel") + s() + "clear" + s() + two() + y.keys(c.P)
	case "rel.delete":
		out = y.noun("rel") + s() + "delete" + s() + two()
	case "rel.fetch":
		out = y.noun("rel") + s() + "fetch" + s() + two()
	case "rel.list":
		out = y.noun("rel") + s() + "list" + lim
	case "rel.exists":
		if y.chance(2) {
			out = y.noun("rel") + s() + "exists" + s() + two()
		} else {
			out = "rel?" + s() + two()
		}
	case "rel.cof", "rel.cos":
		out = y.noun("rel") + s() + two() + y.params(c.P)
	case "to?", "from?":
		out = c.K + s() + y.id(c.Id)
	case "in?":
		out = "in?" + s() + two()
	case "nest":
		out = "nest"
		for _, i := range c.Ids {
			out += s() + y.id(i)
		}
		to := y.id(c.To)
		out += s() + "in" + s() + to
	case "free":
		out = "free"
		for _, i := range c.Ids {
			out += s() + y.id(i)
		}
	case "world":
		out = "world"
	}
	// The flags verbose and ids are part of the language and change nothing, wherever they stand.
	var flags []string
	if c.Strict {
		flags = append(flags, "strict")
	}
	for !y.plain && y.chance(8) {
		flags = append(flags, []string{"verbose", "ids"}[y.rng.Intn(2)])
	}
	if y.rng != nil {
		y.rng.Shuffle(len(flags), func(i, j int) { flags[i], flags[j] = flags[j], flags[i] })
	}
	for _, f := range flags {
		out += s() + y.flag(f)
	}
	if y.chance(6) {
		out = []string{" ", "\n", "\t"}[y.rng.Intn(3)] + out
	}
	if y.chance(6) {
		out += []string{" ", "\n", "\r\n"}[y.rng.Intn(3)]
	}
	return out
}
