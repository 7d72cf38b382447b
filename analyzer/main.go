// Command trypocheck decides properties of the trypo source statically.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"trypocheck/eng"
	"trypocheck/rules"
)

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	prop := flag.String("prop", "", "property ids, or all")
	out := flag.String("out", "", "directory for evidence and reports")
	tier := flag.String("tier", "quick", "tier to report")
	dump := flag.String("dump", "", "function to dump, for debugging")
	layer := flag.String("layer", "L0", "layer for -dump")
	verbose := flag.Bool("v", false, "list all obligations")
	list := flag.Bool("list", false, "list the properties that have rules")
	describe := flag.Bool("describe", false, "describe the rules")
	flag.Parse()
	if *describe {
		m := map[string]rules.Desc{}
		for _, id := range rules.IDs() {
			m[id] = rules.Describe(id)
		}
		b, _ := json.Marshal(m)
		fmt.Println(string(b))
		return
	}
	if *list {
		fmt.Println(strings.Join(rules.IDs(), "\n"))
		return
	}

	t0 := time.Now()
	p, err := eng.Load(*repo)
	if *dump != "" {
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		debugDump(p, *dump, *layer)
		return
	}
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = rules.IDs()
	}
	bad := false
	for _, id := range ids {
		t1 := time.Now()
		if id == ids[0] {
			t1 = t0
		}
		c := rules.New(p, id)
		if err != nil {
			c.Bad("load", "repository", *repo, "the source cannot be loaded and type-checked: %v", err)
		} else {
			rules.Decide(c)
		}
		viol := c.Violations()
		seen := map[string]bool{}
		var msgs []string
		for _, v := range viol {
			m := fmt.Sprintf("  [%s] %s at %s: %s", v.Rule, v.Inst, v.Where, v.Msg)
			if !seen[m] {
				seen[m] = true
				msgs = append(msgs, m)
			}
		}
		if *out != "" {
			writeEvidence(c, *out, *tier, t1, len(msgs))
		}
		n := map[string]int{}
		for _, i := range c.Items {
			n[i.Rule]++
		}
		var rs []string
		for r := range n {
			rs = append(rs, r)
		}
		sort.Strings(rs)
		for i, r := range rs {
			rs[i] = fmt.Sprintf("%s:%d", r, n[r])
		}
		fmt.Printf("%s: %d obligations (%s), %d violated, %d graphs, %d blocks, %.1fs\n", id, len(c.Items), strings.Join(rs, " "), len(msgs), c.Graphs, c.Blocks, time.Since(t1).Seconds())
		if *verbose {
			for _, i := range c.Items {
				fmt.Printf("    %v [%s] %s at %s %s\n", i.OK, i.Rule, i.Inst, i.Where, i.Msg)
			}
			for _, s := range c.Notes {
				fmt.Println("    note:", s)
			}
		}
		if len(msgs) > 0 {
			bad = true
			path := "-"
			if *out != "" {
				path = filepath.Join(*out, id+".violation.txt")
				os.WriteFile(path, []byte(id+" violated:\n"+strings.Join(msgs, "\n")+"\n"), 0o644)
			}
			for _, m := range msgs {
				fmt.Println(m)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		}
	}
	if bad {
		os.Exit(1)
	}
}

func writeEvidence(c *rules.C, dir, tier string, t0 time.Time, nv int) {
	os.MkdirAll(dir, 0o755)
	os.Remove(filepath.Join(dir, c.Prop+".violation.txt"))
	per := map[string]int{}
	disc := 0
	sites := map[string]bool{}
	var samples []rules.Item
	got := map[string]int{}
	for _, i := range c.Items {
		per[i.Rule]++
		if i.OK {
			disc++
		}
		sites[i.Where] = true
		if got[i.Rule] < 3 {
			got[i.Rule]++
			samples = append(samples, i)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	desc := rules.Describe(c.Prop)
	cov := map[string]interface{}{
		"explanation":           desc.How,
		"rules":                 desc.Rules,
		"obligations":           len(c.Items),
		"discharged":            disc,
		"obligations_per_rule":  per,
		"sites":                 len(sites),
		"functions_in_program":  nFuncs(c),
		"flattened_graphs":      c.Graphs,
		"basic_blocks_analysed": c.Blocks,
		"instructions_analysed": c.Vals,
		"path_states_explored":  c.States,
		"samples":               samples,
	}
	ev := map[string]interface{}{
		"property": c.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": desc.Assumes, "wall_s": time.Since(t0).Seconds(), "violations": nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.Prop+".json"), append(b, '\n'), 0o644)
}

func nFuncs(c *rules.C) int {
	if c.P == nil {
		return 0
	}
	return len(c.P.Funcs)
}

func debugDump(p *eng.Prog, name, layer string) {
	c := rules.New(p, "dump")
	for _, f := range p.Funcs {
		if f.String() != name && eng.ShortFn(f) != name {
			continue
		}
		g := c.Flat(f, layer)
		if g == nil {
			continue
		}
		fmt.Println(g.Dump())
		t := g.Terms()
		g.Each(func(v *eng.Val) {
			if v.Typ != nil {
				t.Of(v)
			}
			switch v.Op {
			case eng.OpLoad, eng.OpIf, eng.OpStore, eng.OpCall, eng.OpAppend, eng.OpReturn, eng.OpMapUpdate:
				fmt.Println(v)
				for _, a := range v.Args {
					fmt.Println("     ", t.Of(a))
				}
				if v.Op == eng.OpLoad {
					fmt.Println("   = ", t.Of(v))
				}
				for _, x := range t.BlockFacts(v.Blk).List() {
					fmt.Println("       fact", x.Cond, x.Val)
				}
			}
		})
	}
}
