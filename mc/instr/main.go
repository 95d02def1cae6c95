// Command instr instruments the Go module in -repo for model checking. It writes transformed copies of the module's
// non-test files to -out and an overlay file for `go build -overlay`; the module itself is never modified.
//
// Transformations (decided on the type-checked syntax tree, applied as text edits):
//   - imports "sync" and "sync/atomic" become the controlled runtime (verifmc/rt, verifmc/rtatomic);
//   - `for k, v := range m` over a map m, and maps.Keys/Values/All, take their order from the runtime;
//   - `go f(x)` creates a scheduler-owned thread; time.Sleep and runtime.Gosched become scheduling points;
//   - every package-level variable is registered, so that state snapshots include it.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Module     *struct {
		Path string
		Main bool
	}
	Error *struct{ Err string }
}

type edit struct {
	from, to int
	text     string
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory")
	src := flag.String("src", "", "directory holding rt, rtatomic and h")
	modfile := flag.String("modfile", "", "go.mod copy to use")
	flag.Parse()

	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,Module,Error"}
	if *modfile != "" {
		args = append(args, "-modfile="+*modfile)
	}
	args = append(args, "./pkg/...")
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	pkgs := map[string]*pkg{}
	var mods []*pkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := &pkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil {
			die("package %s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs[p.ImportPath] = p
		if p.Module != nil && p.Module.Main {
			mods = append(mods, p)
		}
	}
	if len(mods) == 0 {
		die("no packages of the main module found")
	}
	modPath := mods[0].Module.Path
	rtPath := modPath + "/verifmc/rt"
	atPath := modPath + "/verifmc/rtatomic"

	overlay := map[string]string{}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(p.Export)
	})

	stats := map[string]int{}
	for _, p := range mods {
		if p.Name == "main" {
			continue
		}
		var files []*ast.File
		var names []string
		var srcs [][]byte
		for _, f := range p.GoFiles {
			fn := filepath.Join(p.Dir, f)
			b, err := os.ReadFile(fn)
			if err != nil {
				die("%v", err)
			}
			af, err := parser.ParseFile(fset, fn, b, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files, names, srcs = append(files, af), append(names, fn), append(srcs, b)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, FakeImportC: true}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		var globals []string
		for i, f := range files {
			edits, needRT, tail := transform(fset, f, srcs[i], info, rtPath, atPath, stats)
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							globals = append(globals, n.Name)
						}
					}
				}
			}
			if len(edits) == 0 {
				continue
			}
			if needRT {
				off := fset.Position(f.Name.End()).Offset
				edits = append(edits, edit{off, off, fmt.Sprintf("; import verifrt %q", rtPath)})
			}
			b := apply(srcs[i], edits) + tail
			rel, err := filepath.Rel(*repo, names[i])
			if err != nil {
				die("%v", err)
			}
			dst := filepath.Join(*out, "src", rel)
			write(dst, []byte(b))
			overlay[names[i]] = dst
		}
		if len(globals) > 0 {
			sort.Strings(globals)
			var b strings.Builder
			fmt.Fprintf(&b, "package %s\n\nimport verifrt %q\n\nfunc init() {\n", p.Name, rtPath)
			for _, g := range globals {
				fmt.Fprintf(&b, "\tverifrt.RegisterGlobal(%q, &%s)\n", p.ImportPath+"."+g, g)
				stats["globals"]++
			}
			b.WriteString("}\n")
			dst := filepath.Join(*out, "src", strings.ReplaceAll(p.ImportPath, "/", "_")+"_globals.go")
			write(dst, []byte(b.String()))
			overlay[filepath.Join(p.Dir, "zz_verif_globals.go")] = dst
		}
	}
	for _, d := range []string{"rt", "rtatomic", "h"} {
		ms, _ := filepath.Glob(filepath.Join(*src, d, "*.go"))
		for _, m := range ms {
			overlay[filepath.Join(*repo, "verifmc", d, filepath.Base(m))] = m
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	write(filepath.Join(*out, "overlay.json"), b)
	// In the race build the pools of the standard library (those of fmt, for one) never give anything back, which they are
	// free not to: an object handed from one thread to the other would order the two, and hide a race between them or not
	// as the dice fall (under the race detector a pool drops every fourth object at random).
	if goroot, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
		pool := filepath.Join(strings.TrimSpace(string(goroot)), "src", "sync", "pool.go")
		if b, err := os.ReadFile(pool); err == nil && bytes.Count(b, []byte("runtime_randn(4) == 0")) == 1 {
			dst := filepath.Join(*out, "syncpool.go.txt")
			write(dst, bytes.Replace(b, []byte("runtime_randn(4) == 0"), []byte("true"), 1))
			overlay[pool] = dst
		}
	}
	b, _ = json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	write(filepath.Join(*out, "overlay_race.json"), b)
	b, _ = json.Marshal(stats)
	write(filepath.Join(*out, "instr.json"), b)
}

func write(fn string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(fn), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(fn, b, 0o644); err != nil {
		die("%v", err)
	}
}

func apply(src []byte, edits []edit) string {
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		if e.from < pos {
			die("overlapping edits")
		}
		b.Write(src[pos:e.from])
		b.WriteString(e.text)
		pos = e.to
	}
	b.Write(src[pos:])
	return b.String()
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		// core type of a type parameter constrained by a single (approximated) map type
		if it, ok := tp.Constraint().Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumEmbeddeds(); i++ {
				switch e := it.EmbeddedType(i).(type) {
				case *types.Union:
					for j := 0; j < e.Len(); j++ {
						if _, ok := e.Term(j).Type().Underlying().(*types.Map); ok {
							return true
						}
					}
				default:
					if _, ok := e.Underlying().(*types.Map); ok {
						return true
					}
				}
			}
		}
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func transform(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, rtPath, atPath string, stats map[string]int) (edits []edit, needRT bool, tail string) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		}
		switch path {
		case "sync":
			if name == "" {
				name = "sync"
			}
			edits = append(edits, edit{off(im.Pos()), off(im.End()), fmt.Sprintf("%s %q", name, rtPath)})
			stats["sync_imports"]++
		case "sync/atomic":
			if name == "" {
				name = "atomic"
			}
			edits = append(edits, edit{off(im.Pos()), off(im.End()), fmt.Sprintf("%s %q", name, atPath)})
			stats["atomic_imports"]++
		}
	}
	pkgOf := func(sel *ast.SelectorExpr) string {
		id, ok := sel.X.(*ast.Ident)
		if !ok {
			return ""
		}
		pn, ok := info.Uses[id].(*types.PkgName)
		if !ok {
			return ""
		}
		return pn.Imported().Path()
	}
	keep := map[string]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.RangeStmt:
			if n.Key == nil || !isMap(info.TypeOf(n.X)) {
				return true
			}
			fn := "MapAll"
			if n.Value == nil {
				fn = "MapKeys"
			}
			edits = append(edits, edit{off(n.X.Pos()), off(n.X.Pos()), "verifrt." + fn + "("}, edit{off(n.X.End()), off(n.X.End()), ")"})
			needRT = true
			stats["map_ranges"]++
		case *ast.SelectorExpr:
			repl, ok := map[string]string{
				"maps.Keys": "MapKeys", "maps.Values": "MapValues", "maps.All": "MapAll",
				"time.Sleep": "Sleep", "runtime.Gosched": "Gosched",
			}[pkgOf(n)+"."+n.Sel.Name]
			if !ok {
				return true
			}
			id := n.X.(*ast.Ident).Name
			switch pkgOf(n) {
			case "maps":
				keep[id] = "var _ = " + id + ".Equal[map[int]int, map[int]int]\n"
			case "time":
				keep[id] = "var _ " + id + ".Duration\n"
			case "runtime":
				keep[id] = "var _ = " + id + ".GC\n"
			}
			edits = append(edits, edit{off(n.Pos()), off(n.End()), "verifrt." + repl})
			needRT = true
			stats["call_rewrites"]++
		case *ast.GoStmt:
			c := n.Call
			stats["go_stmts"]++
			needRT = true
			// evaluate the arguments now, run the call in a scheduler-owned thread
			edits = append(edits, edit{off(n.Go), off(n.Go) + 2, "{"})
			if len(c.Args) > 0 {
				var ns []string
				for i := range c.Args {
					ns = append(ns, fmt.Sprintf("verifarg%d", i))
				}
				edits = append(edits, edit{off(c.Pos()), off(c.Pos()), strings.Join(ns, ", ") + " := " + argText(c, text) + "; verifrt.Go(func() { "})
				dots := ""
				if c.Ellipsis.IsValid() {
					dots = "..."
				}
				edits = append(edits, edit{off(c.Lparen) + 1, off(c.Rparen), strings.Join(ns, ", ") + dots})
			} else {
				edits = append(edits, edit{off(c.Pos()), off(c.Pos()), "verifrt.Go(func() { "})
			}
			edits = append(edits, edit{off(c.End()), off(c.End()), " })}"})
			if len(c.Args) > 0 {
				// arguments are copied as text; do not descend into them a second time
				ast.Inspect(c.Fun, func(ast.Node) bool { return true })
				return false
			}
		}
		return true
	})
	if len(keep) > 0 {
		tail = "\n"
		var ks []string
		for k := range keep {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			tail += keep[k]
		}
	}
	return edits, needRT, tail
}

func argText(c *ast.CallExpr, text func(ast.Node) string) string {
	var as []string
	for _, a := range c.Args {
		as = append(as, text(a))
	}
	return strings.Join(as, ", ")
}
