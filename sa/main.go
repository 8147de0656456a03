package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

type property struct {
	ID          string
	Level       string
	Explanation string
	Assumptions []string
	Variants    []string // build tags to analyse
	Run         func(p *Program, r *Report)
}

var registry = map[string]*property{}

func register(pr *property) {
	if pr.Level == "" {
		pr.Level = "other"
	}
	if pr.Variants == nil {
		pr.Variants = []string{""}
	}
	registry[pr.ID] = pr
}

func main() {
	var (
		prop  = flag.String("property", "", "property to decide")
		repo  = flag.String("repo", "/repo", "repository to analyse")
		verif = flag.String("verif", "/verif", "verification directory")
		dump  = flag.String("dump", "", "debug: dump SSA of function")
		dcl   = flag.Bool("decls", false, "write the repository's declarations (baseline_decls.txt)")
	)
	prof := flag.String("cpuprofile", "", "debug: write a CPU profile")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *dcl {
		if err := writeDecls(*repo); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	if *dump != "" {
		p, err := loadProgram(*repo, "")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if f := p.Func(*dump); f != nil {
			f.WriteTo(os.Stdout)
		} else {
			for _, fn := range p.Funcs {
				fmt.Println(p.fnID(fn), len(p.callers[fn]), len(p.taken[fn]))
			}
		}
		return
	}
	var ids []string
	switch {
	case *prop == "all":
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	default:
		ids = strings.Split(*prop, ",")
	}
	code := 0
	for _, id := range ids {
		pr := registry[id]
		if pr == nil {
			fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
			os.Exit(2)
		}
		start := time.Now()
		r := newReport(id)
		stats := map[string]interface{}{}
		var variants []string
		for _, tags := range pr.Variants {
			variants = append(variants, fmt.Sprintf("tags=%q", tags))
			r.variant = tags
			runVariant(pr, r, *repo, tags, stats)
		}
		if c := r.finish(*verif, *repo, start, pr.Level, pr.Explanation, pr.Assumptions, variants, stats); c > code {
			code = c
		}
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

var loaded = map[string]*Program{}

func load(repo, tags string) (*Program, error) {
	if p := loaded[tags]; p != nil {
		return p, nil
	}
	p, err := loadProgram(repo, tags)
	if err == nil {
		loaded[tags] = p
	}
	return p, err
}

func runVariant(pr *property, r *Report, repo, tags string, stats map[string]interface{}) {
	defer func() {
		if e := recover(); e != nil {
			r.Rule("analysis", "the analysis completes", 0)
			r.Bad("analysis", "panic", "analysis failed, property undecided: %v\n%s", e, debug.Stack())
		}
	}()
	p, err := load(repo, tags)
	if err != nil {
		r.Rule("analysis", "the analysis completes", 0)
		r.Bad("analysis", "load", "cannot analyse the tree (tags %q), property undecided: %v", tags, err)
		return
	}
	n := 0
	calls := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			n += len(b.Instrs)
		}
	}
	for range p.callees {
		calls++
	}
	stats["functions_analysed"] = len(p.Funcs)
	stats["ssa_instructions"] = n
	stats["call_sites_resolved"] = calls
	stats["packages"] = len(p.Pkgs)
	pr.Run(p, r)
}
