package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type entryReport struct {
	Entry      string         `json:"entry"`
	Paths      int64          `json:"paths"`
	Complete   int64          `json:"complete"`
	AssumeCut  int64          `json:"assume_cut"`
	Asserts    int64          `json:"asserts"`
	Branches   int64          `json:"branch_queries"`
	SchedPts   int64          `json:"schedule_choice_points"`
	Queries    int            `json:"solver_queries"`
	SolverMs   int64          `json:"solver_ms"`
	WallMs     int64          `json:"wall_ms"`
	Unknowns   int64          `json:"unknowns"`
	TimedOut   bool           `json:"timed_out"`
	Pending    int            `json:"pending_nodes"`
	Cuts       map[string]int `json:"cuts"`
	Unsup      map[string]int `json:"unsupported"`
	Covers     map[string]int `json:"covers"`
	Funcs      map[string]int `json:"functions"`
	Steps      int64          `json:"instructions"`
	MaxPC      int            `json:"max_path_condition"`
	Violations []violation    `json:"violations"`
	Samples    []sample       `json:"samples"`
	Doc        string         `json:"doc"`
}

type groupReport struct {
	Group   string        `json:"group"`
	LoadMs  int64         `json:"load_ms"`
	Error   string        `json:"error,omitempty"`
	Entries []entryReport `json:"entries"`
}

func main() {
	verif := flag.String("verif", "/verif", "")
	repo := flag.String("repo", "/repo", "")
	group := flag.String("group", "", "harness group directory")
	entries := flag.String("entries", "", "comma separated entry prefixes")
	models := flag.String("models", "", "packages replaced by models")
	out := flag.String("out", "", "report file")
	budget := flag.Duration("budget", 30*time.Second, "time for all entries")
	workers := flag.Int("workers", 8, "")
	tier := flag.String("tier", "quick", "")
	z3 := flag.String("z3", "", "solver binary")
	steps := flag.Int("steps", 3000000, "")
	samples := flag.Int("samples", 6, "")
	maxViol := flag.Int("maxviol", 12, "")
	verbose := flag.Bool("v", false, "")
	races := flag.Bool("races", false, "unordered conflicting accesses are violations")
	flag.Func("replace", "DST=SRC: read the repository file DST from SRC", func(v string) error {
		dst, src, ok := strings.Cut(v, "=")
		if !ok {
			return fmt.Errorf("want DST=SRC")
		}
		replaced[dst] = src
		return nil
	})
	flag.Parse()
	if *z3 == "" {
		*z3 = "z3"
		if p, err := exec.LookPath("z3-new"); err == nil {
			*z3 = p
		}
	}
	rep := groupReport{Group: *group}
	write := func() {
		b, _ := json.MarshalIndent(rep, "", " ")
		if *out == "" {
			os.Stdout.Write(b)
		} else {
			os.WriteFile(*out, b, 0644)
		}
	}
	t0 := time.Now()
	var ms []string
	if *models != "" {
		ms = strings.Split(*models, ",")
	}
	prog, err := loadProgram(*verif, *repo, *group, ms, os.Environ())
	rep.LoadMs = time.Since(t0).Milliseconds()
	if err != nil {
		rep.Error = err.Error()
		write()
		fmt.Fprintln(os.Stderr, "load failed:", err)
		os.Exit(3)
	}
	pkg := prog.byPath[modPath+"/vvh/"+*group]
	var fns []*ssa.Function
	for n, m := range pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(n, "VH_") {
			continue
		}
		sel := *entries == ""
		for _, e := range strings.Split(*entries, ",") {
			if e != "" && strings.HasPrefix(n, e) {
				sel = true
			}
		}
		if sel {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	deadline := time.Now().Add(*budget)
	prog.buildPkg(pkg)
	// first pass: an equal share each, all entries; entries run one after another with all workers,
	// unused time flows to later ones.
	for i, f := range fns {
		left := time.Until(deadline)
		share := left / time.Duration(len(fns)-i)
		// let an entry use up to three shares; the rest is kept for the others
		if len(fns)-i > 1 {
			share = share * 2
		}
		if share < time.Second {
			share = time.Second
		}
		e := &engine{prog: prog, entry: f, name: f.Name(), opts: options{Workers: *workers, Budget: share, MaxSteps: *steps, AllocLimit: 40,
			SolverMs: 10000, MaxViol: *maxViol, Samples: *samples, Tier: *tier, Z3: *z3, Races: *races},
			cuts: map[string]int{}, unsup: map[string]int{}, covers: map[string]int{}, funcs: map[string]int{}, violKeys: map[string]bool{}}
		s := time.Now()
		e.explore()
		pend := 0
		for _, q := range e.queues {
			pend += len(q)
		}
		r := entryReport{Entry: f.Name(), Paths: e.paths, Complete: e.complete, AssumeCut: e.assumeCut, Asserts: e.asserts, Branches: e.branches,
			SchedPts: e.schedPts, Queries: e.queries, SolverMs: e.solverTime.Milliseconds(), WallMs: time.Since(s).Milliseconds(), Unknowns: e.unknowns,
			TimedOut: e.timedOut, Pending: pend, Cuts: e.cuts, Unsup: e.unsup, Covers: e.covers, Funcs: e.funcs, Steps: e.steps, MaxPC: e.maxPC,
			Violations: e.viols, Samples: e.samples}
		rep.Entries = append(rep.Entries, r)
		if *verbose {
			fmt.Fprintf(os.Stderr, "%-40s paths=%d complete=%d asserts=%d queries=%d solver=%dms wall=%dms viol=%d unk=%d timeout=%v pending=%d cuts=%v unsup=%v covers=%v\n", r.Entry, r.Paths, r.Complete, r.Asserts, r.Queries, r.SolverMs, r.WallMs, len(r.Violations), r.Unknowns, r.TimedOut, r.Pending, r.Cuts, r.Unsup, r.Covers)
			for _, v := range r.Violations {
				fmt.Fprintf(os.Stderr, "   VIOL %s: %s @ %s inputs=%v notes=%v\n%s", v.Kind, v.Msg, v.Where, v.Inputs, v.Notes, v.Stack)
			}
		}
		write()
	}
	write()
	if f := os.Getenv("VENGINE_COV"); f != "" {
		writeCover(f, *repo)
	}
}

var _ sync.Mutex
