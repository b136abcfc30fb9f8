package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"strings"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: vh worker|run|walk|gen ...")
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	in := fs.String("in", "", "input file")
	out := fs.String("out", "", "output file")
	seed := fs.Int64("seed", 1, "seed")
	n := fs.Int("n", 100, "number of scripts")
	length := fs.Int("len", 40, "steps per script")
	workers := fs.Int("workers", 8, "worker processes")
	mode := fs.String("mode", "app", "app, cmd or api")
	profile := fs.String("profile", "", "JSON profile")
	undo := fs.Bool("undo", false, "walk: undo and redo after every step, and all the way at the end")
	rename := fs.String("rename", "", "walk: comma separated old=new renamings of identifiers")
	spell := fs.Bool("spell", false, "walk: random spelling")
	budget := fs.Int("budget", 1000000, "walk: most steps")
	name := fs.String("name", "w", "name of the world")
	label := fs.String("label", "s", "prefix of the scripts' names")
	reload := fs.Bool("reload", false, "walk: write the world as text and read it back after every step")
	dir := fs.String("dir", "", "savechild: the store")
	how := fs.String("how", "", "savechild: the fault")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "worker":
		workerMain()
	case "savechild":
		saveChild(*dir, *how, *n)
	case "run":
		f, err := os.Open(*in)
		if err != nil {
			die("%v", err)
		}
		g, err := os.Create(*out)
		if err != nil {
			die("%v", err)
		}
		done, crashed, err := runPool(f, g, *workers)
		if err != nil {
			die("%v", err)
		}
		g.Close()
		fmt.Printf("{\"done\":%d,\"crashed\":%d}\n", done, crashed)
	case "walk":
		f, err := os.Open(*in)
		if err != nil {
			die("%v", err)
		}
		edges, err := readEdges(f)
		if err != nil {
			die("%v", err)
		}
		if len(edges) == 0 {
			die("no edges in %s", *in)
		}
		ws, cov := walks(edges, *seed, *length, *budget)
		ren := map[string]string{}
		for _, kv := range strings.Split(*rename, ",") {
			if a, b, ok := strings.Cut(kv, "="); ok {
				ren[a] = b
			}
		}
		g, _ := os.Create(*out)
		bw := bufio.NewWriter(g)
		steps := 0
		for i, w := range ws {
			sc := Script{T: fmt.Sprintf("%s-%d", *label, i), Mode: *mode, Seed: *seed, Name: *name, Ops: []Op{}}
			style := Style{}
			if *spell {
				style.rng = rand.New(rand.NewSource(*seed*7919 + int64(i)))
			}
			undone := 0
			for _, e := range w {
				var c Cmd
				if err := json.Unmarshal(e.C, &c); err != nil {
					die("%v", err)
				}
				mv := func(x string) string {
					if y, ok := ren[x]; ok {
						return y
					}
					return x
				}
				c.Id, c.To = mv(c.Id), mv(c.To)
				ids := []string{}
				for _, x := range c.Ids {
					ids = append(ids, mv(x))
				}
				c.Ids = ids
				if *reload && len(sc.Ops) > 0 {
					sc.Ops = append(sc.Ops, Op{E: "reload"})
				}
				switch {
				case c.K == "undo" || c.K == "redo" || c.K == "reload":
					sc.Ops = append(sc.Ops, Op{E: c.K})
				case *mode == "api":
					sc.Ops = append(sc.Ops, asApi(c)...)
				default:
					sc.Ops = append(sc.Ops, Op{E: "cmd", C: c.norm(), Txt: style.spell(c)})
					if *undo {
						sc.Ops = append(sc.Ops, Op{E: "undo"})
						sc.Ops = append(sc.Ops, Op{E: "redo"})
						undone++
					}
				}
			}
			if *undo {
				for k := 0; k <= undone; k++ {
					sc.Ops = append(sc.Ops, Op{E: "undo"})
				}
				for k := 0; k <= undone; k++ {
					sc.Ops = append(sc.Ops, Op{E: "redo"})
				}
			}
			steps += len(sc.Ops)
			b, _ := json.Marshal(sc)
			bw.Write(b)
			bw.WriteByte('\n')
		}
		bw.Flush()
		g.Close()
		fmt.Printf("{\"edges\":%d,\"covered\":%d,\"walks\":%d,\"steps\":%d}\n", len(edges), cov, len(ws), steps)
	case "mwalk":
		f, err := os.Open(*in)
		if err != nil {
			die("%v", err)
		}
		edges, err := readEdges(f)
		if err != nil || len(edges) == 0 {
			die("no edges in %s: %v", *in, err)
		}
		var j MJob
		if err := json.Unmarshal([]byte(*profile), &j); err != nil {
			die("profile: %v", err)
		}
		ws, cov := walks(edges, *seed, *length, *budget)
		ren := map[string]string{}
		for _, kv := range strings.Split(*rename, ",") {
			if a, b, ok := strings.Cut(kv, "="); ok {
				ren[a] = b
			}
		}
		g, _ := os.Create(*out)
		bw := bufio.NewWriter(g)
		steps := 0
		for i, w := range ws {
			k := j
			k.T, k.Job, k.Ops = fmt.Sprintf("%s-%d", *label, i), "multi", []MOp{}
			for _, e := range w {
				var o MOp
				if err := json.Unmarshal(e.C, &o); err != nil {
					die("%v", err)
				}
				k.Ops = append(k.Ops, o.renamed(ren))
			}
			steps += len(k.Ops)
			b, _ := json.Marshal(k)
			bw.Write(b)
			bw.WriteByte('\n')
		}
		bw.Flush()
		g.Close()
		fmt.Printf("{\"edges\":%d,\"covered\":%d,\"walks\":%d,\"steps\":%d}\n", len(edges), cov, len(ws), steps)
	case "gen":
		var p Profile
		if err := json.Unmarshal([]byte(*profile), &p); err != nil {
			die("profile: %v", err)
		}
		g, _ := os.Create(*out)
		bw := bufio.NewWriter(g)
		for i := 0; i < *n; i++ {
			sc := randomScript(p, *seed*1000003+int64(i), *length, *name)
			sc.T = *label + "-" + sc.T
			b, _ := json.Marshal(sc)
			bw.Write(b)
			bw.WriteByte('\n')
		}
		bw.Flush()
		g.Close()
		fmt.Printf("{\"scripts\":%d}\n", *n)
	case "genlang":
		g, _ := os.Create(*out)
		bw := bufio.NewWriter(g)
		for i := 0; i < *n; i++ {
			b, _ := json.Marshal(randomLang(*seed*1000003+int64(i), *length, *label))
			bw.Write(b)
			bw.WriteByte('\n')
		}
		bw.Flush()
		g.Close()
		fmt.Printf("{\"scripts\":%d}\n", *n)
	default:
		die("unknown command %s", os.Args[1])
	}
}

// asApi turns a command into the calls of the world API that have its effect.
func asApi(c Cmd) []Op {
	switch c.K {
	case "item.cof":
		c.K = "item.create"
	case "rel.cof":
		c.K = "rel.create"
	case "item.clear":
		c.K = "item.set"
	case "rel.clear":
		c.K = "rel.set"
	case "item.exists":
		c.K = "item.fetch"
	case "rel.exists":
		c.K, c.Strict = "rel.fetch", true
	case "world":
		return nil
	case "nest", "free":
		out := []Op{}
		for _, x := range c.Ids {
			d := c
			d.Ids = []string{x}
			out = append(out, Op{E: "api", C: d.norm()})
		}
		return out
	}
	return []Op{{E: "api", C: c.norm()}}
}
