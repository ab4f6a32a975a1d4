// Command inst copies the packages of a Go module into a new module, optionally rewriting
// them for the controlled runtime (see rewrite.go).
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
)

type pkg struct {
	path  string // import path
	dir   string // source directory
	out   string // relative output directory
	names []string
	files []*ast.File
	types *types.Package
	info  *types.Info
	inst  bool
}

var fset = token.NewFileSet()

const zz = "zz_verif"

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "inst:", err)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "module to copy")
	mc := flag.String("mc", "/verif/mc", "machinery sources")
	out := flag.String("out", "", "output directory")
	mode := flag.String("mode", "ctl", "ctl (instrumented) or nat (verbatim)")
	flag.Parse()
	ctl := *mode == "ctl"

	gomod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		fatal(err)
	}
	module, goVersion := "", "1.20"
	for _, l := range strings.Split(string(gomod), "\n") {
		f := strings.Fields(l)
		if len(f) >= 2 && f[0] == "module" {
			module = strings.Trim(f[1], `"`)
		}
		if len(f) >= 2 && f[0] == "go" {
			var a, b int
			fmt.Sscanf(f[1], "%d.%d", &a, &b)
			if a == 1 && b > 20 {
				goVersion = f[1]
			}
		}
	}
	var pkgs []*pkg
	add := func(dir, ipath, rel string, inst bool) {
		bp, err := build.ImportDir(dir, 0)
		if err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				return
			}
			fatal(err)
		}
		if bp.Name == "main" && inst && !strings.HasPrefix(rel, zz) {
			return
		}
		if len(bp.GoFiles) == 0 {
			return
		}
		p := &pkg{path: ipath, dir: dir, out: rel, inst: inst}
		p.names = append(p.names, bp.GoFiles...)
		sort.Strings(p.names)
		pkgs = append(pkgs, p)
	}
	filepath.Walk(*repo, func(pth string, fi os.FileInfo, err error) error {
		if err != nil {
			fatal(err)
		}
		if !fi.IsDir() {
			return nil
		}
		base := fi.Name()
		if pth != *repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor") {
			return filepath.SkipDir
		}
		if pth != *repo {
			if _, err := os.Stat(filepath.Join(pth, "go.mod")); err == nil {
				return filepath.SkipDir
			}
		}
		rel, _ := filepath.Rel(*repo, pth)
		ip := module
		if rel != "." {
			ip = path.Join(module, filepath.ToSlash(rel))
		}
		add(pth, ip, rel, ctl)
		return nil
	})
	zp := module + "/" + zz
	vhdir := filepath.Join(*mc, "vhnat")
	add(vhdir, zp+"/vh", zz+"/vh", false)
	add(filepath.Join(*mc, "harness"), zp+"/harness", zz+"/harness", ctl)

	must := func(err error) {
		if err != nil {
			fatal(err)
		}
	}
	must(os.MkdirAll(*out, 0o755))
	must(os.WriteFile(filepath.Join(*out, "go.mod"), []byte("module "+module+"\n\ngo "+goVersion+"\n"), 0o644))

	if ctl {
		load(pkgs)
		loadShims(filepath.Join(*mc, "rt"))
		for _, p := range pkgs {
			if !p.inst {
				continue
			}
			rw := newRewriter(p, zp)
			for i, f := range p.files {
				rw.file(f)
				var buf bytes.Buffer
				if err := format.Node(&buf, fset, f); err != nil {
					fatal(fmt.Errorf("%s: %v", p.names[i], err))
				}
				if ex := rw.trailer(); ex != "" {
					buf.WriteString(ex)
				}
				dst := filepath.Join(*out, p.out)
				must(os.MkdirAll(dst, 0o755))
				must(os.WriteFile(filepath.Join(dst, p.names[i]), buf.Bytes(), 0o644))
			}
		}
		ents, err := os.ReadDir(filepath.Join(*mc, "rt"))
		must(err)
		for _, e := range ents {
			if e.IsDir() {
				copyDir(filepath.Join(*mc, "rt", e.Name()), filepath.Join(*out, zz, e.Name()))
			}
		}
		if usesTryLock {
			must(os.WriteFile(filepath.Join(*out, zz, "vrt", "flags.go"), []byte("package vrt\n\nfunc init() { UnlockPoints = true }\n"), 0o644))
		}
		copyDir(filepath.Join(*mc, "vhctl"), filepath.Join(*out, zz, "vh"))
		copyDir(filepath.Join(*mc, "ctl"), filepath.Join(*out, zz, "ctl"))
	} else {
		for _, p := range pkgs {
			dst := filepath.Join(*out, p.out)
			must(os.MkdirAll(dst, 0o755))
			for _, n := range p.names {
				b, err := os.ReadFile(filepath.Join(p.dir, n))
				must(err)
				must(os.WriteFile(filepath.Join(dst, n), b, 0o644))
			}
		}
		copyDir(filepath.Join(*mc, "nat"), filepath.Join(*out, zz, "nat"))
	}
}

func copyDir(src, dst string) {
	ents, err := os.ReadDir(src)
	if err != nil {
		fatal(err)
	}
	if err := os.MkdirAll(dst, 0o755); err != nil {
		fatal(err)
	}
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, e.Name()))
		if err != nil {
			fatal(err)
		}
		if err := os.WriteFile(filepath.Join(dst, e.Name()), b, 0o644); err != nil {
			fatal(err)
		}
	}
}

// load parses and type-checks all packages.
func load(pkgs []*pkg) {
	byPath := map[string]*pkg{}
	std := map[string]bool{}
	for _, p := range pkgs {
		byPath[p.path] = p
		for _, n := range p.names {
			f, err := parser.ParseFile(fset, filepath.Join(p.dir, n), nil, parser.SkipObjectResolution)
			if err != nil {
				fatal(err)
			}
			p.files = append(p.files, f)
		}
	}
	for _, p := range pkgs {
		for _, f := range p.files {
			for _, im := range f.Imports {
				ip := strings.Trim(im.Path.Value, `"`)
				if byPath[ip] == nil && ip != "unsafe" {
					std[ip] = true
				}
			}
		}
	}
	exports := map[string]string{}
	if len(std) > 0 {
		args := []string{"list", "-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}"}
		for ip := range std {
			args = append(args, ip)
		}
		cmd := exec.Command("go", args...)
		cmd.Dir = os.TempDir()
		cmd.Env = append(os.Environ(), "GO111MODULE=off")
		cmd.Stderr = os.Stderr
		b, err := cmd.Output()
		if err != nil {
			fatal(fmt.Errorf("go list -export: %v", err))
		}
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Fields(l); len(f) == 2 {
				exports[f[0]] = f[1]
			}
		}
	}
	gc := importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		f, ok := exports[p]
		if !ok {
			return nil, fmt.Errorf("no export data for %q", p)
		}
		return os.Open(f)
	})
	var check func(p *pkg) (*types.Package, error)
	var imp importFunc
	imp = func(ip string) (*types.Package, error) {
		if q := byPath[ip]; q != nil {
			return check(q)
		}
		if ip == "unsafe" {
			return types.Unsafe, nil
		}
		return gc.Import(ip)
	}
	check = func(p *pkg) (*types.Package, error) {
		if p.types != nil {
			return p.types, nil
		}
		p.info = &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits:  map[ast.Node]types.Object{},
			Scopes:     map[ast.Node]*types.Scope{},
		}
		conf := types.Config{Importer: imp}
		t, err := conf.Check(p.path, fset, p.files, p.info)
		if err != nil {
			return nil, err
		}
		p.types = t
		return t, nil
	}
	for _, p := range pkgs {
		if _, err := check(p); err != nil {
			fatal(err)
		}
	}
}

type importFunc func(string) (*types.Package, error)

func (f importFunc) Import(p string) (*types.Package, error) { return f(p) }
