package main

import (
	"fmt"
	"os"
	"regexp"
	debugrt "runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"

	"vtool/eng"
	"vtool/own"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vtool check ID [OUTDIR] | list | debug ...")
		os.Exit(2)
	}
	debugrt.SetGCPercent(300)
	debugrt.SetMemoryLimit(2500 << 20)
	if f := os.Getenv("VPROF"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
		defer pprof.StopCPUProfile()
	}
	eng.DebugEq = os.Getenv("DE") != ""
	eng.DebugMatch = os.Getenv("DM") != ""
	switch os.Args[1] {
	case "check":
		out := "/verif/evidence"
		if len(os.Args) > 3 {
			out = os.Args[3]
		}
		os.Exit(check(os.Args[2], out))
	case "shard":
		k, _ := strconv.Atoi(os.Args[3])
		n, _ := strconv.Atoi(os.Args[4])
		os.Exit(shard(os.Args[2], k, n))
	case "list":
		for _, id := range propIDs() {
			fmt.Println(id)
		}
	case "unit":
		w, err := load()
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		eng.DebugLoops = os.Getenv("DL") != ""
		for _, u := range props[os.Args[2]].Units(w) {
			if len(os.Args) > 3 && !regexp.MustCompile(os.Args[3]).MatchString(u.Name) {
				continue
			}
			r := runUnit(os.Args[2], w, u)
			fmt.Printf("%-50s %4d obligations %3d findings %.2fs\n", u.Name, r.Obligations, len(r.Findings), r.Wall)
			for i, f := range r.Findings {
				if i < 5 {
					fmt.Println("   ", f.Rule, f.Construct, short(f.Detail, 900))
				}
			}
		}
	case "own":
		w, err := load()
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		a := own.New(w.Analysed(), w.Follow)
		for _, f := range w.AllFuncs() {
			if len(os.Args) > 2 && !regexp.MustCompile(os.Args[2]).MatchString(f.String()) {
				continue
			}
			wr, kp, rs := a.Collapsed(f)
			if f.Object() == nil || !f.Object().Exported() {
				continue
			}
			fmt.Println(strings.ReplaceAll(f.String(), "github.com/thedonutfactory/go-tfhe/", ""), "W", wr, "K", kp, "R", rs)
		}
	case "debug":
		w, err := load()
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		debug(w, os.Args[2:])
	}
}

func debug(w *eng.World, names []string) {
	eng.DebugLoops = os.Getenv("DL") != ""
	eng.DebugMatch = os.Getenv("DM") != ""
	if f := os.Getenv("F"); f != "" {
		eng.DumpFilter = regexp.MustCompile(f)
	}
	want := os.Getenv("LV")
	if want == "" {
		want = "Security128Bit"
	}
	lv := LevelInfo{"", 128}
	for _, l := range levels(w) {
		if l.Name == want {
			lv = l
		}
	}
	for _, a := range names {
		t1 := time.Now()
		c := NewCtx(w, lv, strings.Fields(os.Getenv("INIT"))...)
		x := c.X
		fmt.Println(c.bad, c.N0, c.N1, c.N, c.L, c.A0)
		fourierModels(x)
		p := strings.SplitN(a, ".", 3)
		fn := w.Func(p[0], p[1])
		if len(p) == 3 {
			fn = w.Method(p[0], p[1], p[2])
		}
		if fn == nil {
			fmt.Println("no function", a)
			continue
		}
		var args []eng.Value
		for _, q := range fn.Params {
			args = append(args, c.arg(q.Name(), q.Type()))
		}
		t1 = time.Now()
		r, ns := x.Run(c.St, fn, args...)
		fmt.Println("==", a, time.Since(t1), eng.ShowVal(r))
		if ns != nil {
			x.Dump(ns, r)
		}
		for _, p := range x.Problems {
			fmt.Println("problem:", p)
		}
		for _, p := range x.Panics {
			fmt.Println("panic:", p.Fn, p.Pos, p.Msg, p.Cond)
		}
		for _, p := range x.Bounds {
			fmt.Println("bound:", p.Fn, p.Pos, p.Cond)
		}
		for k, v := range x.NLoops {
			if !strings.HasPrefix(v, "unrolled") && !strings.HasPrefix(v, "summarised") {
				fmt.Println("loop:", k, v)
			}
		}
	}
}
