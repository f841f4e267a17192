package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var (
	coverMu   sync.Mutex
	coverHits = map[*ssa.BasicBlock]bool{}
)

// coverBlock records that the block was executed on some path.
func coverBlock(b *ssa.BasicBlock) {
	coverMu.Lock()
	coverHits[b] = true
	coverMu.Unlock()
}

// writeCover appends one line per basic block of every entered function of the repository:
// "H|M file:first-last function", to find code a harness never reaches.
func writeCover(file, repo string) {
	fns := map[*ssa.Function]bool{}
	for b := range coverHits {
		fns[b.Parent()] = true
	}
	var out []string
	for fn := range fns {
		for _, b := range fn.Blocks {
			lo, hi, f := 0, 0, ""
			for _, in := range b.Instrs {
				if !in.Pos().IsValid() {
					continue
				}
				p := fn.Prog.Fset.Position(in.Pos())
				f = p.Filename
				if lo == 0 || p.Line < lo {
					lo = p.Line
				}
				if p.Line > hi {
					hi = p.Line
				}
			}
			if f == "" || !strings.HasPrefix(f, repo+"/") || strings.HasSuffix(f, "_gen.go") || strings.Contains(f, "/vvh/") {
				continue
			}
			h := "M"
			if coverHits[b] {
				h = "H"
			}
			out = append(out, fmt.Sprintf("%s %s:%d-%d %s", h, strings.TrimPrefix(f, repo+"/"), lo, hi, fn.String()))
		}
	}
	sort.Strings(out)
	fd, err := os.OpenFile(file, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		return
	}
	defer fd.Close()
	fd.WriteString(strings.Join(out, "\n") + "\n")
}
