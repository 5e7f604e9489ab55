package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: drv seq|replay|... flags")
		os.Exit(3)
	}
	fs := flag.NewFlagSet("drv", flag.ExitOnError)
	out := fs.String("out", "", "file for the traces")
	seed := fs.Uint64("seed", 1, "random seed")
	n := fs.Int("n", 10, "number of runs")
	prop := fs.String("prop", "C01", "property, chooses what the runs are made of")
	in := fs.String("in", "", "file with scripts")
	secs := fs.Float64("secs", 0, "time limit")
	tier := fs.String("tier", "quick", "quick or thorough")
	limit2 := fs.Int("limit", 300, "schedules for each scene")
	small := fs.Bool("small", false, "small trees only")
	level := fs.Int("level", 0, "1: switch at atomic operations, 2: at statements, 0: as the scene says")
	fs.Parse(os.Args[2:])
	o := newOutput(*out)
	limit := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	over := func() bool { return *secs > 0 && time.Now().After(limit) }
	switch os.Args[1] {
	case "seq":
		for i := 0; i < *n && !over(); i++ {
			sc := seqScript(*prop, *seed*1000003+uint64(i), i, *tier)
			tr, ok := runScript(sc, *seed+uint64(i))
			o.ops += len(sc.Ops)
			o.add(tr, "")
			if !ok {
				break
			}
		}
	case "scenes":
		// scenes made elsewhere, a JSON array, each under limit schedules
		var scs []*Scene
		readJSON(*in, &scs)
		x := &explorer{o: o, over: over}
		for i, sc := range scs {
			if over() {
				break
			}
			x.explore(sc, newRnd(*seed*1000003+uint64(i)), *limit2)
		}
	case "conc":
		// n scenes, each under limit schedules
		x := &explorer{o: o, over: over}
		for i := 0; i < *n && !over(); i++ {
			r := newRnd(*seed*1000003 + uint64(i))
			names := shapeNames
			if *small {
				names = smallShapes
			}
			if *prop == "C15" {
				x.explore(poolScene(r, i), r, *limit2)
				continue
			}
			sc := genScene(*prop, r, names[(i+int(*seed))%len(names)])
			if *level > 0 {
				sc.Level = *level
			}
			x.explore(sc, r, *limit2)
		}
	case "replay":
		// scripts made elsewhere, one JSON object per line
		var scs []*Script
		readJSON(*in, &scs)
		for i, sc := range scs {
			if over() {
				break
			}
			tr, ok := runScript(sc, *seed+uint64(i))
			o.ops += len(sc.Ops)
			o.add(tr, "")
			if !ok {
				break
			}
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(3)
	}
	o.close()
}

func readJSON(name string, v interface{}) {
	data, err := os.ReadFile(name)
	if err == nil {
		err = json.Unmarshal(data, v)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// seqScript makes one random history for a property.
func seqScript(prop string, seed uint64, i int, tier string) *Script {
	r := newRnd(seed)
	kinds := []string{"alpha", "prefix", "fan", "int", "mix"}
	kind := kinds[i%len(kinds)]
	n := r.pick(1, 2, 3, 5, 8, 12, 20, 40, 80)
	if kind == "fan" {
		n = r.pick(4, 70, 130, 150, 270)
	}
	sc := &Script{Allocs: 1 + r.n(4), Tag: kind}
	m := mix{probes: 20, aborts: 10, iters: 4, exts: 8, counts: 4, lens: 4}
	steps := 60 + r.n(3*n+60)
	switch prop {
	case "C01":
		m = mix{probes: 10, aborts: 3, allocs: r.n(2) == 0}
		sc.Big = r.n(3) == 0
		steps = 100 + r.n(5*n+100)
	case "C02":
		m = mix{probes: 100, aborts: 10, allocs: r.n(3) == 0}
	case "C05":
		m = mix{probes: 10, aborts: 100, lens: 10, counts: 5}
	case "C06":
		m = mix{iters: 30, aborts: 2}
		if r.n(8) == 0 {
			n = 250 + r.n(400)
			kind = kinds[r.n(len(kinds))]
			steps = n + r.n(n)
			m.iters = 2
		}
	case "C08":
		m = mix{exts: 60, aborts: 2}
	case "C09":
		m = mix{lens: 40, counts: 15, aborts: 20, allocs: r.n(2) == 0}
	case "C10":
		m = mix{counts: 40}
	}
	switch prop {
	case "C12":
		return churnScript(r, i, tier, false)
	case "C12x":
		return churnScript(r, i, tier, true)
	case "C13", "C14":
		return persistScript(r, i, prop)
	case "C13m":
		return momentScript(r, i)
	case "C16":
		return diagScript(r, i)
	case "C18":
		return lentScript(r, i)
	case "C19":
		return apartScript(r, i)
	}
	if prop == "C07" {
		return changingScript(r, i)
	}
	if prop == "C01" && i%4 == 3 {
		return lensScript(r, i/4)
	}
	if i%6 == 5 && prop != "C05" {
		return fanScript(r, prop)
	}
	sc.Keys = genKeys(r, kind, n)
	if len(sc.Keys) == 0 {
		sc.Keys = [][]byte{{1}}
	}
	sc.Ops = []Op{}
	if r.n(4) == 0 {
		// a brand-new tree
		sc.Ops = audit(sc.Ops, r, sc.Keys, true)
	}
	sc.Ops = append(sc.Ops, walk(r, sc.Keys, steps, m, sc.Allocs)...)
	return sc
}
