package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if len(os.Args) < 3 {
		fmt.Println("usage: vgo check|dev|replay|search ...")
		os.Exit(2)
	}
	arg := func(i int) string {
		if i < len(os.Args) {
			return os.Args[i]
		}
		return ""
	}
	switch os.Args[1] {
	case "dev":
	case "check":
		os.Exit(check(os.Args[2]))
	case "replay":
		os.Exit(replayCmd(os.Args[2]))
	case "search":
		os.Exit(searchCmd(os.Args[2], arg(3), 3))
	}
	prop, pat := arg(2), arg(3)
	ov, _, dirs, err := overlayFor(prop)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	l, err := load(dirs, ov)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if len(l.Errs) > 0 {
		fmt.Println(strings.Join(l.Errs, "\n"))
		os.Exit(2)
	}
	for _, h := range l.harnesses(prop) {
		if pat != "" && !strings.Contains(h.Name, pat) {
			continue
		}
		r := l.verify(h, devLimit())
		fmt.Printf("%s ok=%v wall=%v solver=%v queries=%d counts=%v returned=%d\n", h.Name, r.OK(), r.Wall.Round(time.Millisecond), r.Solver.Round(time.Millisecond), r.Queries, r.Counts, r.Returned)
		if r.Err != "" {
			fmt.Println("   ERR", r.Err)
		}
		for _, o := range r.Obls {
			if o.Status != "discharged" || os.Getenv("V") != "" {
				fmt.Println("   ", o.Status, o.Name, o.Detail, o.Model)
			}
		}
		if os.Getenv("V") != "" {
			fmt.Println("   inlined", r.Inlined, "\n   trusted", r.Trusted, "\n   assume", r.Assume)
			for _, lo := range r.Loops {
				fmt.Println("   loop", lo.Fn, lo.Cands, lo.Kept)
			}
		}
	}
}

func devLimit() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("LIM")); err == nil {
		return d
	}
	return 120 * time.Second
}
