package main

import (
	"flag"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"
)

var debugPanic bool

func bigI(v int64) *big.Int { return big.NewInt(v) }

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	if len(os.Args) > 1 && os.Args[1] == "witness" {
		os.Exit(witnessMain(os.Args[2:]))
	}
	prop := flag.String("prop", "", "property")
	fnFlag := flag.String("fn", "", "comma separated functions (development)")
	flag.BoolVar(&debugLoops, "loops", false, "show loop inference")
	flag.BoolVar(&debugPanic, "panic", false, "do not catch internal errors")
	level := flag.Int("level", 2, "solver effort")
	dump := flag.String("dump", "", "write failing queries to this directory")
	verbose := flag.Bool("v", false, "verbose")
	lemmas := flag.String("lemma", "", "verify a lemma, or all")
	list := flag.Bool("list", false, "list functions")
	flag.Parse()
	w, err := loadAll()
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(2)
	}
	if *list {
		var ns []string
		for n := range w.Funcs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			bcs := w.contractsFor(w.Funcs[n])
			var cs []string
			for _, b := range bcs {
				cs = append(cs, b.con.name)
			}
			fmt.Println(n, strings.Join(cs, " "))
		}
		return
	}
	var names []string
	for _, l := range w.Cons.Lemmas {
		if *lemmas == "" || *lemmas != "all" && *lemmas != l.name {
			continue
		}
		t0 := time.Now()
		rep, v := w.verifyLemma(*prop, l)
		v.discharge(*level, nil)
		for i, o := range rep.Obls {
			fmt.Printf("%-30s %v %v %s %s %s %s\n", rep.Name, o.goal == nil || o.Res.OK, time.Since(t0).Round(time.Millisecond), o.Name, o.Res.Backend, strings.ReplaceAll(o.Res.Out, "\n", " "), rep.Err)
			if *dump != "" && o.text != "" && !o.Res.OK {
				os.MkdirAll(*dump, 0755)
				os.WriteFile(fmt.Sprintf("%s/%s_%d.smt2", *dump, l.name, i), []byte(o.text+"(check-sat)\n"), 0644)
			}
		}
		if rep.Err != "" {
			fmt.Println(rep.Name, rep.Err)
		}
	}
	if *lemmas != "" {
		return
	}
	if *fnFlag != "" {
		names = strings.Split(*fnFlag, ",")
	} else {
		for n, f := range w.Funcs {
			if len(w.contractsFor(f)) > 0 {
				names = append(names, n)
			}
		}
		sort.Strings(names)
	}
	bad := 0
	for _, n := range names {
		fn := w.Funcs[n]
		if fn == nil {
			fmt.Println("no function", n)
			continue
		}
		t0 := time.Now()
		rep, v := w.verifyFn(*prop, n, fn, nil, 0)
		t1 := time.Now()
		v.discharge(*level, nil)
		ok := 0
		for _, o := range rep.Obls {
			if o.goal == nil || o.Res.OK {
				ok++
			}
		}
		fmt.Printf("%-44s %d/%d obligations, %d paths, %d returns, gen %v solve %v %s\n", n, ok, len(rep.Obls), rep.Paths, rep.Returns, t1.Sub(t0).Round(time.Millisecond), time.Since(t1).Round(time.Millisecond), rep.Err)
		if rep.Err != "" || ok < len(rep.Obls) {
			bad++
		}
		if *verbose && *dump != "" {
			for i, o := range rep.Obls {
				if o.Res.Dur > 2*time.Second {
					fmt.Println("   slow", i, o.Res.Dur, o.Res.Backend, o.Name, o.Trace)
					os.MkdirAll(*dump, 0755)
					os.WriteFile(fmt.Sprintf("%s/%s_%d.smt2", *dump, mangle(n), i), []byte(o.text+"(check-sat)\n"), 0644)
				}
			}
		}
		for i, o := range rep.Obls {
			if o.goal != nil && !o.Res.OK || *verbose {
				fmt.Printf("   %v [%s] %s at %s (%s)\n", o.goal == nil || o.Res.OK, o.Kind, o.Name, o.Pos, strings.Join(o.Trace, " / "))
				if o.goal != nil && !o.Res.OK {
					fmt.Println("      " + strings.ReplaceAll(strings.TrimSpace(o.Res.Out), "\n", " | "))
				}
				if *dump != "" && o.text != "" && !o.Res.OK {
					os.MkdirAll(*dump, 0755)
					os.WriteFile(fmt.Sprintf("%s/%s_%d.smt2", *dump, mangle(n), i), []byte(o.text+"(check-sat)\n"), 0644)
				}
			}
		}
	}
	fmt.Printf("%d functions, %d with failures, backends %v, solver time %v, %d queries\n", len(names), bad, stats.ByBack, stats.Time.Round(time.Millisecond), stats.Queries)
	if bad > 0 {
		os.Exit(1)
	}
}

func loadAll() (*World, error) {
	w, err := loadWorld(repoDir())
	if err != nil {
		return nil, err
	}
	pre, err := loadPrelude(verifDir()+"/contracts", w)
	if err != nil {
		return nil, err
	}
	w.Pre = pre
	if err := pre.add(w.objidDef()); err != nil {
		return nil, err
	}
	for n, ci := range pre.Ctors {
		w.Ctors[n] = ci
	}
	w.Cons, err = loadContracts(verifDir() + "/contracts")
	if err != nil {
		return nil, err
	}
	return w, nil
}
