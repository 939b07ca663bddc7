package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modulePath = "github.com/flu-network/client"

var repoDir = envOr("VERIF_REPO", "/repo")
var verifDir = envOr("VERIF_DIR", "/verif")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// imports of the code under test that are redirected to modelled packages
var fakes = map[string]string{
	"os":            "vos",
	"io/ioutil":     "vioutil",
	"net":           "vnet",
	"net/rpc":       "vrpc",
	"net/http":      "vhttp",
	"time":          "vtime",
	"log":           "vlog",
	"crypto/sha1":   "vsha1",
	"path/filepath": "vfilepath",
	"fmt":           "vfmt",
	"flag":          "vflag",
}

// buildOverlay returns virtual path -> contents.
func buildOverlay() (map[string][]byte, error) {
	ov := map[string][]byte{}
	err := filepath.Walk(repoDir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if b := filepath.Base(path); path != repoDir && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		out, changed, err := rewriteImports(path, src)
		if err != nil {
			return nil // let the loader report syntax errors
		}
		if changed {
			ov[path] = out
		}
		if filepath.Dir(path) == repoDir {
			copyMain(ov, filepath.Base(path), out)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	add := func(from, to string) error {
		return filepath.Walk(from, func(path string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() || !strings.HasSuffix(path, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(from, path)
			b, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			ov[filepath.Join(repoDir, "zzverif", to, rel)] = b
			return nil
		})
	}
	for _, x := range [][2]string{{"env", "env"}, {"sym", "sym"}, {"harness", "h"}} {
		if err := add(filepath.Join(verifDir, x[0]), x[1]); err != nil {
			return nil, err
		}
	}
	return ov, nil
}

// copyMain makes the files of package main available as package zzmain, which can be imported.
func copyMain(ov map[string][]byte, base string, src []byte) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, base, src, parser.PackageClauseOnly)
	if err != nil || f.Name.Name != "main" {
		return
	}
	from, to := fset.Position(f.Name.Pos()).Offset, fset.Position(f.Name.End()).Offset
	out := append([]byte(nil), src[:from]...)
	out = append(append(out, "zzmain"...), src[to:]...)
	ov[filepath.Join(repoDir, "zzmain", base)] = out
	ov[filepath.Join(repoDir, "zzmain", "zzexport.go")] = []byte("package zzmain\n\nfunc Main() { main() }\n")
}

func rewriteImports(path string, src []byte) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ImportsOnly)
	if err != nil {
		return nil, false, err
	}
	type edit struct {
		from, to int
		text     string
	}
	var edits []edit
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		fk, ok := fakes[p]
		if p == "net/http/pprof" {
			if im.Name != nil && im.Name.Name == "_" {
				edits = append(edits, edit{fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset, `"unsafe"`})
			}
			continue
		}
		if !ok {
			continue
		}
		name := filepath.Base(p)
		text := strconv.Quote(modulePath + "/zzverif/env/" + fk)
		if im.Name == nil {
			text = name + " " + text
		}
		edits = append(edits, edit{fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset, text})
	}
	if len(edits) == 0 {
		return src, false, nil
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var b bytes.Buffer
	last := 0
	for _, e := range edits {
		b.Write(src[last:e.from])
		b.WriteString(e.text)
		last = e.to
	}
	b.Write(src[last:])
	return b.Bytes(), true, nil
}

// load builds the SSA program for the given harness package.
func load(hpkg string, ov map[string][]byte) (*Engine, *ssa.Package, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Overlay: ov,
		Env:     append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./zzverif/h/"+hpkg)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, nil, fmt.Errorf("cannot load the code under test:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	eng := &Engine{prog: prog, user: map[*ssa.Package]bool{}, params: map[string]int{}, funcHits: &hitSet{m: map[*ssa.Function]int{}},
		maxSteps: 20_000_000, symIdx: 80, allocCut: 1 << 16}
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), modulePath) {
			eng.user[p] = true
		}
	}
	return eng, spkgs[0], nil
}

// writeOverlayDir materialises the overlay for the go command; returns the overlay JSON path.
func writeOverlayDir(dir string, ov map[string][]byte) (string, error) {
	rep := map[string]string{}
	i := 0
	for p, b := range ov {
		i++
		f := filepath.Join(dir, fmt.Sprintf("ov%d.go", i))
		if err := os.WriteFile(f, b, 0644); err != nil {
			return "", err
		}
		rep[p] = f
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	jf := filepath.Join(dir, "overlay.json")
	return jf, os.WriteFile(jf, js, 0644)
}

var _ = ast.NewIdent
var _ = types.Typ
