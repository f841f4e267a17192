package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/Vivino/rankdb"
const vvPath = modPath + "/vv"

type program struct {
	mu     sync.Mutex
	fset   *token.FileSet
	ssa    *ssa.Program
	pkgs   []*packages.Package
	built  map[*ssa.Package]bool
	rtErrT types.Type
	byPath map[string]*ssa.Package
}

func isRepoPkg(p string) bool {
	return (p == modPath || strings.HasPrefix(p, modPath+"/")) && !strings.HasPrefix(p, modPath+"/vv")
}

// replaced holds files of the repository that are replaced by a copy with changed constants.
var replaced = map[string]string{}

// overlayFiles collects vv, the harness group and (optionally) package models.
func overlayFiles(verif, repo, group string, models []string, forInterp bool, modCache func(string) string) (map[string]string, error) {
	ov := map[string]string{}
	add := func(srcDir, dstDir string) error {
		es, err := os.ReadDir(srcDir)
		if err != nil {
			return err
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				ov[filepath.Join(dstDir, e.Name())] = filepath.Join(srcDir, e.Name())
			}
		}
		return nil
	}
	if err := add(filepath.Join(verif, "harness", "vv"), filepath.Join(repo, "vv")); err != nil {
		return nil, err
	}
	if err := add(filepath.Join(verif, "harness", "vvlib"), filepath.Join(repo, "vvlib")); err != nil && !os.IsNotExist(err) {
		return nil, err
	}
	if err := add(filepath.Join(verif, "harness", group), filepath.Join(repo, "vvh", group)); err != nil {
		return nil, err
	}
	// in/<package dir>: files added to packages of the repository
	in := filepath.Join(verif, "harness", group, "in")
	err := filepath.Walk(in, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(in, p)
		ov[filepath.Join(repo, rel)] = p
		return nil
	})
	if err != nil && !os.IsNotExist(err) {
		return nil, err
	}
	return ov, nil
}

func loadProgram(verif, repo, group string, models []string, env []string) (*program, error) {
	ovf, err := overlayFiles(verif, repo, group, models, true, nil)
	if err != nil {
		return nil, err
	}
	for dst, src := range replaced {
		ovf[dst] = src
	}
	ov := map[string][]byte{}
	for dst, src := range ovf {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repo,
		Env:        env,
		Overlay:    ov,
		BuildFlags: []string{"-tags=math_big_pure_go,purego"},
		Fset:       token.NewFileSet(),
	}
	// models: replace the sources of whole packages in scratch copies of their modules
	if len(models) > 0 {
		tmp, err := os.MkdirTemp("", "vvmodel")
		if err != nil {
			return nil, err
		}
		defer os.RemoveAll(tmp)
		if cfg.Env, err = modelModules(tmp, verif, repo, env, models); err != nil {
			return nil, err
		}
	}
	pkgs, err := packages.Load(cfg, modPath+"/vvh/"+group)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	pr := &program{fset: cfg.Fset, ssa: prog, pkgs: pkgs, built: map[*ssa.Package]bool{}, byPath: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		pr.byPath[p.Pkg.Path()] = p
	}
	rt := pr.byPath["runtime"]
	if rt == nil {
		return nil, fmt.Errorf("no runtime package")
	}
	pr.rtErrT = rt.Type("plainError").Type()
	return pr, nil
}

func (pr *program) buildPkg(p *ssa.Package) {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	if !pr.built[p] {
		pr.built[p] = true
		p.Build()
	}
}

func (pr *program) ensureBuilt(fn *ssa.Function) {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	build := func(p *ssa.Package) {
		if p != nil && !pr.built[p] {
			pr.built[p] = true
			p.Build()
		}
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	build(f.Pkg)
	if o := f.Origin(); o != nil {
		build(o.Pkg)
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		build(pr.ssa.Package(f.Object().Pkg()))
	}
}

func (pr *program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	pkg := m.Pkg()
	ms := pr.ssa.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, m.Name())
	if sel == nil {
		return nil
	}
	return pr.ssa.MethodValue(sel)
}

var skipInitExact = map[string]bool{"runtime": true, "reflect": true, "syscall": true, "os": true, "unicode": true, "sync": true, "sync/atomic": true,
	"fmt": true, "log": true, "testing": true, "math/rand": true, "encoding/json": true, "regexp": true, "errors": true, "iter": true, "encoding/binary": true,
	"encoding/gob": true, "crypto/rand": true, "net/http": true, "github.com/ugorji/go/codec": true, "net": true, "unsafe": true, "strconv": true, "flag": true, "io/ioutil": true, "text/template": true, "runtime/debug": true, "math/bits": true,
	modPath + "/log": true}

func skipInit(p string) bool {
	if skipInitExact[p] {
		return true
	}
	if p == "encoding/base64" || p == "net/url" || p == "vendor/golang.org/x/net/http/httpguts" || p == "internal/strconv" || p == "github.com/goadesign/goa" || p == "github.com/goadesign/goa/middleware/security/jwt" {
		return false
	}
	for _, pre := range []string{"internal/", "runtime/", "crypto/", "net/", "os/", "vendor/", "golang.org/x/", "google.golang.org", "hash/", "regexp/", "text/", "html/", "go/", "debug/", "encoding/", "github.com/goadesign", "github.com/newrelic", "github.com/aws", "github.com/dgrijalva", "github.com/mattn", "github.com/BurntSushi", "github.com/klauspost/shutdown2"} {
		if strings.HasPrefix(p, pre) {
			return true
		}
	}
	return false
}

// modelModules copies the modules of the modelled packages, replaces these
// packages by their models and returns an environment that uses the copies.
func modelModules(tmp, verif, repo string, env []string, models []string) ([]string, error) {
	mod, flags := filepath.Join(repo, "go.mod"), ""
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") {
			for _, f := range strings.Fields(e[8:]) {
				if strings.HasPrefix(f, "-modfile=") {
					mod = f[9:]
				} else {
					flags += " " + f
				}
			}
		}
	}
	mb, err := os.ReadFile(mod)
	if err != nil {
		return nil, err
	}
	done := map[string]string{}
	for i, m := range models {
		cmd := exec.Command("go", "list", "-f", "{{.Dir}}\n{{.Module.Path}}\n{{.Module.Dir}}\n{{range .GoFiles}}{{.}}\n{{end}}{{range .SFiles}}{{.}}\n{{end}}", m)
		cmd.Dir, cmd.Env = repo, env
		out, err := cmd.Output()
		if err != nil {
			return nil, fmt.Errorf("model %s: %v", m, err)
		}
		l := strings.Split(strings.TrimSpace(string(out)), "\n")
		dir, mpath, mdir := l[0], l[1], l[2]
		cp := done[mpath]
		if cp == "" {
			cp = filepath.Join(tmp, fmt.Sprint("m", i))
			if err := copyGo(mdir, cp); err != nil {
				return nil, err
			}
			if _, err := os.Stat(filepath.Join(cp, "go.mod")); err != nil {
				os.WriteFile(filepath.Join(cp, "go.mod"), []byte("module "+mpath+"\n"), 0644)
			}
			done[mpath] = cp
			mb = append(mb, []byte("\nreplace "+mpath+" => "+cp+"\n")...)
		}
		rel, err := filepath.Rel(mdir, dir)
		if err != nil {
			return nil, err
		}
		pd := filepath.Join(cp, rel)
		es, err := os.ReadDir(pd)
		if err != nil {
			return nil, err
		}
		for _, e := range es {
			if !e.IsDir() && e.Name() != "go.mod" {
				os.Remove(filepath.Join(pd, e.Name()))
			}
		}
		src := filepath.Join(verif, "models", filepath.Base(m))
		if err := copyGo(src, pd); err != nil {
			return nil, err
		}
		os.WriteFile(filepath.Join(pd, "empty.s"), nil, 0644)
	}
	nm := filepath.Join(tmp, "model.mod")
	if err := os.WriteFile(nm, mb, 0644); err != nil {
		return nil, err
	}
	if b, err := os.ReadFile(strings.TrimSuffix(mod, ".mod") + ".sum"); err == nil {
		os.WriteFile(filepath.Join(tmp, "model.sum"), b, 0644)
	}
	r := append([]string{}, env...)
	return append(r, "GOFLAGS="+strings.TrimSpace(flags)+" -modfile="+nm), nil
}

func copyGo(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		t := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(t, 0755)
		}
		n := fi.Name()
		if n != "go.mod" && !strings.HasSuffix(n, ".s") && (!strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go")) {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(t, b, 0644)
	})
}
