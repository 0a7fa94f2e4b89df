// Command checker decides the properties of /verif/properties.jsonl for the
// current source of the repository by static analysis.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"time"

	"verif/checker/checks"
	"verif/checker/load"
)

func main() {
	prop := flag.String("p", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	prof := flag.String("prof", "", "cpu profile")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := run(*prop, *tier, *repo, *verif)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func run(prop, tier, repo, verif string) (code int) {
	r := checks.NewReport(prop, tier)
	defer func() {
		if e := recover(); e != nil {
			r.Fail("analysis: internal", "checker", "the analysis did not terminate normally: %v\n%s", e, debug.Stack())
			code = r.Finish(verif)
		}
	}()
	fn := checks.All[prop]
	if fn == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	p, err := load.Load(repo)
	if err != nil {
		r.Fail("analysis: load", "repository", "the program could not be type-checked: %v", err)
		return r.Finish(verif)
	}
	r.P = p
	w, err := checks.NewWorld(p)
	if err != nil {
		r.Fail("analysis: init", "repository", "%v", err)
		return r.Finish(verif)
	}
	r.W = w
	limit := 840 * time.Second
	go func() {
		for t0 := time.Now(); ; time.Sleep(time.Second) {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if time.Since(t0) < limit && m.HeapAlloc < 20<<30 {
				continue
			}
			r.Fail("analysis: budget", "checker", "the analysis used up its time or memory (%v, %d MB); the property is undecided", time.Since(t0).Round(time.Second), m.HeapAlloc>>20)
			os.Exit(r.Finish(verif))
		}
	}()
	fn(r)
	return r.Finish(verif)
}
