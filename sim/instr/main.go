// Command instr writes the -overlay file the simulator is built with: the
// standard-library seams (std.go) and, for every non-test package of the
// repository's current working tree, an instrumented copy of each source file
// in which
//
//   - every statement is preceded by a scheduling point (simrt__.Yield), so that
//     the simulator can preempt a task between any two statements, and
//   - package-level state can be re-initialised, so that one process can host
//     many simulated processes one after another.
//
// The text between insertions is byte for byte the repository's. Instances:
// the whole repository can be instantiated several times under distinct import
// paths (simN/...), which gives simulated processes that share no package state.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modpath = "github.com/mmcloughlin/ssarules"
const rtpath = "verif.local/sim/simrt"

type edit struct {
	off  int // insertion point
	end  int // bytes [off,end) are replaced
	text string
}

type srcFile struct {
	path  string
	src   []byte
	ast   *ast.File
	edits []edit
	tail  string
}

type pkg struct {
	dir, path string
	files     []*srcFile
	tpkg      *types.Package
	info      *types.Info
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	goroot := flag.String("goroot", "", "GOROOT")
	out := flag.String("out", "", "output directory")
	copies := flag.Int("copies", 2, "number of instances of the repository")
	flag.Parse()
	if err := run(*repo, *goroot, *out, *copies); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func run(repo, goroot, out string, copies int) error {
	repl := map[string]string{}
	if err := stdOverlay(goroot, out, repl); err != nil {
		return err
	}
	fset := token.NewFileSet()
	pkgs, err := load(repo, fset)
	if err != nil {
		return err
	}
	ps := 0
	for _, p := range pkgs {
		check(fset, p, pkgs)
		for _, f := range p.files {
			instrument(fset, f)
			ps += len(f.edits)
		}
	}
	for _, p := range pkgs {
		resets(fset, p)
	}
	for c := 1; c <= copies; c++ {
		prefix := ""
		if c > 1 {
			prefix = fmt.Sprintf("sim%d/", c)
		}
		for _, p := range pkgs {
			rel, _ := filepath.Rel(repo, p.dir)
			// Declared first, so that it runs before the package's own
			// initialisers: instances must not share the flag registry.
			head := "package " + pkgName(p) + "\n\nimport simrt__ \"" + rtpath + "\"\n\nvar _ = simrt__.Fresh()\n"
			dst := filepath.Join(out, "repo", strconv.Itoa(c), rel, "00sim.go")
			if err := write(dst, head); err != nil {
				return err
			}
			repl[filepath.Join(repo, prefix, rel, "00sim.go")] = dst
			for _, f := range p.files {
				text := render(f, 0, len(f.src)) + f.tail
				if prefix != "" {
					text = retarget(fset, f, text, prefix)
				}
				text = strings.ReplaceAll(text, instanceMark, strconv.Itoa(c))
				dst := filepath.Join(out, "repo", strconv.Itoa(c), rel, filepath.Base(f.path))
				if err := write(dst, text); err != nil {
					return err
				}
				repl[filepath.Join(repo, prefix, rel, filepath.Base(f.path))] = dst
				if prefix != "" && strings.Contains(text, "//go:embed") {
					if err := embedded(repo, prefix, p.dir, repl); err != nil {
						return err
					}
				}
			}
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		return err
	}
	fmt.Printf("{\"packages\":%d,\"points\":%d}\n", len(pkgs), ps)
	return nil
}

// embedded makes the files beside a package available to its copy.
func embedded(repo, prefix, dir string, repl map[string]string) error {
	return filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() && !strings.HasSuffix(path, ".go") {
			rel, _ := filepath.Rel(repo, path)
			repl[filepath.Join(repo, prefix, rel)] = path
		}
		return err
	})
}

const instanceMark = "SIM_INSTANCE_NUMBER"

func load(repo string, fset *token.FileSet) (map[string]*pkg, error) {
	pkgs := map[string]*pkg{}
	ctx := build.Default
	err := filepath.WalkDir(repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() {
			return nil
		}
		name := d.Name()
		if path != repo && (name == "testdata" || name == "vendor" || strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_")) {
			return filepath.SkipDir
		}
		ents, err := os.ReadDir(path)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		p := &pkg{dir: path, path: modpath}
		if rel != "." {
			p.path = modpath + "/" + filepath.ToSlash(rel)
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if ok, err := ctx.MatchFile(path, n); err != nil || !ok {
				continue
			}
			full := filepath.Join(path, n)
			b, err := os.ReadFile(full)
			if err != nil {
				return err
			}
			f, err := parser.ParseFile(fset, full, b, parser.ParseComments)
			if err != nil {
				return err
			}
			p.files = append(p.files, &srcFile{path: full, src: b, ast: f})
		}
		if len(p.files) == 0 {
			return nil
		}
		for _, f := range p.files {
			for _, im := range f.ast.Imports {
				if im.Path.Value == `"testing"` || im.Path.Value == `"C"` {
					return nil // test support, not part of the system
				}
			}
		}
		pkgs[p.path] = p
		return nil
	})
	return pkgs, err
}

// check type-checks a package well enough to order its initialisers: standard
// library imports are stand-ins, and the errors that causes are ignored.
func check(fset *token.FileSet, p *pkg, pkgs map[string]*pkg) {
	if p.info != nil {
		return
	}
	p.info = &types.Info{Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{
		Error:            func(error) {},
		IgnoreFuncBodies: false,
		Importer: importerFunc(func(path string) (*types.Package, error) {
			if q, ok := pkgs[path]; ok {
				check(fset, q, pkgs)
				return q.tpkg, nil
			}
			t := types.NewPackage(path, filepath.Base(path))
			t.MarkComplete()
			return t, nil
		}),
	}
	var files []*ast.File
	for _, f := range p.files {
		files = append(files, f.ast)
	}
	p.tpkg, _ = conf.Check(p.path, fset, files, p.info)
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

// instrument records the scheduling-point insertions for one file.
func instrument(fset *token.FileSet, f *srcFile) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	ins := func(p int, text string) { f.edits = append(f.edits, edit{p, p, text}) }
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			if _, ok := s.(*ast.GoStmt); ok {
				ins(off(s.Pos()), "simrt__.Spawn(); ")
				continue
			}
			ins(off(s.Pos()), "simrt__.Yield(); ")
		}
	}
	ast.Inspect(f.ast, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.FuncDecl:
			if b.Body == nil {
				return false
			}
		case *ast.SwitchStmt:
			for _, s := range b.Body.List {
				stmts(s.(*ast.CaseClause).Body)
			}
		case *ast.TypeSwitchStmt:
			for _, s := range b.Body.List {
				stmts(s.(*ast.CaseClause).Body)
			}
		case *ast.SelectStmt:
			for _, s := range b.Body.List {
				stmts(s.(*ast.CommClause).Body)
			}
		case *ast.ForStmt:
			ins(off(b.Body.Lbrace)+1, " simrt__.Yield(); ")
		case *ast.RangeStmt:
			ins(off(b.Body.Lbrace)+1, " simrt__.Yield(); ")
		case *ast.BlockStmt:
			if len(b.List) > 0 {
				switch b.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true // handled by the enclosing switch
				}
			}
			stmts(b.List)
		}
		return true
	})
	// Package clause: commands become importable; the runtime is imported.
	name := f.ast.Name
	text := name.Name
	if text == "main" {
		text = "simmain"
	}
	f.edits = append(f.edits, edit{off(name.Pos()), off(name.End()), text + "; import simrt__ \"" + rtpath + "\""})
	f.tail = "\nvar _ = simrt__.Yield\n"
	if name.Name == "main" {
		for _, d := range f.ast.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				f.tail += "\nfunc SimMain() { main() }\n"
			}
		}
	}
}

// render returns the instrumented text of src[lo:hi].
func render(f *srcFile, lo, hi int) string {
	sort.SliceStable(f.edits, func(i, j int) bool { return f.edits[i].off < f.edits[j].off })
	var sb strings.Builder
	at := lo
	for _, e := range f.edits {
		if e.off < lo || e.off > hi || e.end > hi || (e.off == hi && e.off == e.end && lo != 0) {
			continue
		}
		sb.Write(f.src[at:e.off])
		sb.WriteString(e.text)
		at = e.end
	}
	sb.Write(f.src[at:hi])
	return sb.String()
}

// resets appends to each file functions that re-run its package-level
// initialisers, in initialisation order, and registers the whole with simrt.
func resets(fset *token.FileSet, p *pkg) {
	off := func(pos token.Pos) int { return fset.Position(pos).Offset }
	fileOf := func(pos token.Pos) *srcFile {
		name := fset.Position(pos).Filename
		for _, f := range p.files {
			if f.path == name {
				return f
			}
		}
		return nil
	}
	var order []string
	n := 0
	add := func(f *srcFile, body string) {
		fn := fmt.Sprintf("simReset%d", n)
		n++
		f.tail += fmt.Sprintf("\nfunc %s() { %s }\n", fn, body)
		order = append(order, fn)
	}
	// Variables without an initialiser.
	for _, f := range p.files {
		for _, d := range f.ast.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) > 0 {
					continue
				}
				for _, nm := range vs.Names {
					if nm.Name != "_" {
						add(f, "simrt__.Zero(&"+nm.Name+")")
					}
				}
			}
		}
	}
	for _, in := range p.info.InitOrder {
		f := fileOf(in.Rhs.Pos())
		if f == nil {
			continue
		}
		var lhs []string
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
		}
		if len(lhs) == 0 {
			lhs = []string{"_"}
		}
		blank := true
		for _, l := range lhs {
			blank = blank && l == "_"
		}
		if blank {
			if _, isCall := in.Rhs.(*ast.CallExpr); !isCall {
				continue // interface satisfaction checks and the like
			}
		}
		add(f, strings.Join(lhs, ", ")+" = "+render(f, off(in.Rhs.Pos()), off(in.Rhs.End())))
	}
	// init functions.
	for _, f := range p.files {
		for _, d := range f.ast.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				fn := fmt.Sprintf("simInit%d", n)
				n++
				f.edits = append(f.edits, edit{off(fd.Name.Pos()), off(fd.Name.End()), fn})
				f.tail += "\nfunc init() { " + fn + "() }\n"
				order = append(order, fn)
			}
		}
	}
	f := p.files[0]
	f.tail += "\nfunc simResetAll() {\n"
	for _, fn := range order {
		f.tail += "\t" + fn + "()\n"
	}
	f.tail += "}\n\nfunc init() { simrt__.Register(" + instanceMark + ", " + strconv.Quote(p.path) + ", simResetAll) }\n"
}

func pkgName(p *pkg) string {
	if n := p.files[0].ast.Name.Name; n != "main" {
		return n
	}
	return "simmain"
}

// retarget rewrites imports of repository packages to another instance.
func retarget(fset *token.FileSet, f *srcFile, text, prefix string) string {
	for _, im := range f.ast.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if path == modpath || strings.HasPrefix(path, modpath+"/") {
			text = strings.ReplaceAll(text, im.Path.Value, strconv.Quote(modpath+"/"+prefix+strings.TrimPrefix(strings.TrimPrefix(path, modpath), "/")))
		}
	}
	return text
}
