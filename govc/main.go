package main

import (
	"flag"
	"fmt"
	"os"
	"time"
)

func main() {
	stop := profile()
	repo := flag.String("repo", "/repo", "repository")
	cdir := flag.String("contracts", "/verif/contracts", "contract files")
	prop := flag.String("prop", "", "property")
	only := flag.String("only", "", "verify one contract")
	full := flag.Bool("v", false, "verbose")
	tier := flag.String("tier", "quick", "tier")
	budget := flag.Int("budget", 600, "seconds")
	out := flag.String("out", "", "verification directory: write evidence and report")
	flag.Parse()
	t0 := time.Now()
	if flag.Arg(0) == "replay" {
		ok, text := replay(*prop, *out, *repo)
		fmt.Println(text)
		fmt.Println("failing input found:", ok)
		return
	}
	w, err := loadWorld(*repo)
	if err != nil {
		fmt.Println("cannot load:", err)
		if *out != "" {
			os.Exit(report(nil, nil, *prop, *tier, *out, *repo, []string{err.Error()}, t0))
		}
		os.Exit(2)
	}
	w.tier = *tier
	if flag.Arg(0) == "api" {
		w.api(flag.Arg(1))
		return
	}
	cons, specs, err := loadContracts(*cdir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	w.specs = specs
	forProp(cons, *prop)
	bad := w.bindContracts(cons)
	if *out == "" {
		for _, b := range bad {
			fmt.Println("UNBOUND contract", b)
		}
	}
	rs := w.checkProp(*prop, *only, time.Duration(*budget)*time.Second)
	if *out == "" {
		stop()
		verbose(rs, *full)
		fmt.Println("total", time.Since(t0), "pushing", time.Duration(pushTime.Load()))
		return
	}
	var miss []string
	for _, c := range cons {
		if c.FullName == "" && w.relevant(c, *prop) {
			miss = append(miss, "the function under contract "+c.Name+" no longer exists")
		}
	}
	stop()
	os.Exit(report(w, rs, *prop, *tier, *out, *repo, miss, t0))
}
