package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) >= 3 && os.Args[1] == "-prop" {
		rc := 0
		for _, id := range os.Args[2:] {
			if r := runProperty(id); r > rc {
				rc = r
			}
		}
		os.Exit(rc)
	}
	if len(os.Args) == 2 && os.Args[1] == "-list" {
		var l []string
		for id := range properties {
			l = append(l, id)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
		return
	}
	debugMain()
}

func debugMain() {
	p, err := loadProgram()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	t0 := time.Now()
	e := newEngine(p)
	e.initBase()
	fmt.Println("init", time.Since(t0), p.base.gaveUp, len(p.base.heap))
	for _, name := range os.Args[1:] {
		if strings.HasPrefix(name, "ssa:") {
			p.fn(name[4:]).WriteTo(os.Stdout)
			continue
		}
		if f := p.fn(name); f != nil {
			t0 = time.Now()
			e := newEngine(p)
			if name == "sip.ParseMsg" {
				e.contractParseURI()
				e.contractSDPParse()
			}
			if pf := os.Getenv("GOSIP_PROF"); pf != "" {
				w, _ := os.Create(pf)
				pprof.StartCPUProfile(w)
				defer pprof.StopCPUProfile()
			}
			rs := e.run(f, nil)
			fmt.Println(name, "exits", len(rs), "steps", e.steps, e.gaveUp, time.Since(t0))
			n, bad := 0, 0
			for _, k := range sortedKeys(e.obls) {
				o := e.obls[k]
				n++
				if !o.OK {
					bad++
					fmt.Println("  FAIL", o.Kind, p.pos(o.Pos), o.Fn.Name(), o.Msg)
				}
			}
			fmt.Println("  obligations", n, "failed", bad)
			for _, r := range rs {
				fmt.Println("   ->", render(r.v))
			}
		} else {
			fmt.Println("no function", name)
		}
	}
}
