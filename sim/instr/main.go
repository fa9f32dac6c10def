// Command instr prepares a build overlay that puts neilotoole/jsoncolor under
// the simulator. It never writes below the repository: every rewritten file is
// placed in -out and referenced from an overlay.json used with
// "go build -overlay".
//
// What it does, for every non-test Go file of the instrumented packages:
//   - inserts a yield call (simrt.Y / simrt.H) in front of every statement, on
//     the same line, so that the simulator decides every preemption;
//   - rewrites the import of "sync" to the simulator's implementation;
//   - registers all package level variables with the simulator, so that one
//     process can execute many runs, each from the pristine package state.
//
// It also patches a few functions of the standard library in the overlay
// (map hashing randomness, file descriptor system calls).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/neilotoole/jsoncolor"

type site struct {
	ID   uint32
	File string
	Line int
}

var (
	repo    = flag.String("repo", "/repo", "repository")
	verif   = flag.String("verif", "/verif/sim", "directory of simulator sources")
	out     = flag.String("out", "", "output directory")
	goroot  = flag.String("goroot", "", "GOROOT whose std is patched")
	race    = flag.Bool("race", false, "prepare for the race detector")
	overlay = map[string]string{}
	nextID  uint32
	sites   []site
)

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(3)
}

func main() {
	flag.Parse()
	if *out == "" || *goroot == "" {
		die("missing -out or -goroot")
	}
	must(os.MkdirAll(*out, 0o755))

	// The library, and whatever packages of the module it is made of.
	for todo, seen := []string{"", "helper/fatihcolor"}, map[string]bool{}; len(todo) > 0; todo = todo[1:] {
		if p := todo[0]; !seen[p] {
			seen[p] = true
			todo = append(todo, instrument(filepath.Join(*repo, p), strings.ReplaceAll(p, "/", "_"), true)...)
		}
	}

	addDir("zz_simrt", filepath.Join(*verif, "simrt"))
	addDir("zz_simsync", filepath.Join(*verif, "simsync"))
	addDir("zz_sim", filepath.Join(*verif, "harness"))

	// site table, compiled into the simulator for readable traces
	var sb bytes.Buffer
	sb.WriteString("package simrt\n\nfunc init() { siteTable = siteText }\n\nconst siteText = \"")
	for _, s := range sites {
		fmt.Fprintf(&sb, "%s:%d\\n", s.File, s.Line)
	}
	sb.WriteString("\"\n")
	put(filepath.Join(*repo, "zz_simrt", "zz_sites.go"), "zz_sites.go", sb.Bytes())

	// jc: the real command, plus one file arming the simulated descriptors.
	jcDir := filepath.Join(*repo, "cmd/jc")
	src, err := os.ReadFile(filepath.Join(*verif, "jc", "zz_simjc.go"))
	must(err)
	put(filepath.Join(jcDir, "zz_simjc.go"), "zz_simjc.go", src)

	patchStd()

	b, err := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func put(target, name string, data []byte) {
	p := filepath.Join(*out, name)
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	must(os.WriteFile(p, data, 0o644))
	overlay[target] = p
}

func addDir(virtual, dir string) {
	ents, err := os.ReadDir(dir)
	must(err)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			overlay[filepath.Join(*repo, virtual, e.Name())] = filepath.Join(dir, e.Name())
		}
	}
}

// instrument rewrites all non-test files of one package directory. It returns
// the packages of the module that they import.
func instrument(dir, prefix string, globals bool) (imports []string) {
	ents, err := os.ReadDir(dir)
	must(err)
	ctx := build.Default
	ctx.CgoEnabled = false
	if *race {
		ctx.BuildTags = append(ctx.BuildTags, "race")
	}
	type pf struct {
		name string
		src  []byte
		f    *ast.File
		on   bool
	}
	var files []pf
	fset := token.NewFileSet()
	pkgVars := map[string]bool{}
	names := map[string]bool{}
	var regVars []string
	pkgName := ""
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		must(err)
		on, err := ctx.MatchFile(dir, n)
		if err != nil {
			// leave files alone that we cannot judge; the compiler will
			continue
		}
		if !on {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err) // does not compile: an error of the build, not a violation
		}
		pkgName = f.Name.Name
		files = append(files, pf{n, src, f, on})
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if rel, ok := strings.CutPrefix(path, modPath+"/"); ok {
				imports = append(imports, rel)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			// declared names, whatever they are
			var ids []*ast.Ident
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Recv == nil {
					ids = append(ids, n.Name)
				}
			case *ast.TypeSpec:
				ids = append(ids, n.Name)
			case *ast.ValueSpec:
				ids = n.Names
			case *ast.Field:
				ids = n.Names
			case *ast.AssignStmt:
				for _, x := range n.Lhs {
					if id, ok := x.(*ast.Ident); ok {
						ids = append(ids, id)
					}
				}
			case *ast.RangeStmt:
				for _, x := range []ast.Expr{n.Key, n.Value} {
					if id, ok := x.(*ast.Ident); ok {
						ids = append(ids, id)
					}
				}
			}
			for _, id := range ids {
				if id.Name == "copy" || id.Name == "append" || id.Name == "clear" {
					names[id.Name] = true
				}
			}
			return true
		})
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, id := range s.(*ast.ValueSpec).Names {
					if id.Name != "_" {
						pkgVars[id.Name] = true
						regVars = append(regVars, id.Name)
					}
				}
			}
		}
	}
	if len(files) == 0 {
		die("no Go files in %s", dir)
	}
	for _, p := range files {
		res := rewrite(fset, p.f, p.src, p.name, pkgVars, names)
		put(filepath.Join(dir, p.name), filepath.Join("src"+prefix, p.name), res)
	}
	if globals {
		sort.Strings(regVars)
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\nimport zzsimrt \"%s/zz_simrt\"\n\nvar _ = zzsimrt.Y\n\nfunc init() {\n", pkgName, modPath)
		for _, v := range regVars {
			fmt.Fprintf(&b, "\tzzsimrt.Global(%q, &%s)\n", pkgName+"."+v, v)
		}
		b.WriteString("}\n")
		put(filepath.Join(dir, "zz_simglobals.go"), filepath.Join("src"+prefix, "zz_simglobals.go"), b.Bytes())
	}
	return imports
}

type edit struct {
	off  int
	del  int
	text string
}

type rewriter struct {
	fset    *token.FileSet
	name    string
	edits   []edit
	pkgVars map[string]bool
	names   map[string]bool // "copy", "append" and "clear", if the package gives them a meaning of its own
	n       int
}

func rewrite(fset *token.FileSet, f *ast.File, src []byte, name string, pkgVars, names map[string]bool) []byte {
	r := &rewriter{fset: fset, name: name, pkgVars: pkgVars, names: names}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	hdr := off(f.Name.End())
	r.edits = append(r.edits, edit{hdr, 0, `; import zzsimrt "` + modPath + `/zz_simrt"`})
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if path == "sync" {
			o := off(im.Path.Pos())
			txt := `"` + modPath + `/zz_simsync"`
			if im.Name == nil {
				txt = "sync " + txt
			}
			r.edits = append(r.edits, edit{o, len(im.Path.Value), txt})
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body == nil || nosplit(d) {
				continue
			}
			r.walk(d.Body)
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				r.walk(d) // function literals in package level variables
			}
		}
	}
	r.edits = append(r.edits, edit{len(src), 0, "\nvar _ = zzsimrt.Y\n"})
	sort.SliceStable(r.edits, func(i, j int) bool { return r.edits[i].off < r.edits[j].off })
	var b bytes.Buffer
	pos := 0
	for _, e := range r.edits {
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.off + e.del
	}
	b.Write(src[pos:])
	return b.Bytes()
}

func nosplit(d *ast.FuncDecl) bool {
	if d.Doc == nil {
		return false
	}
	for _, c := range d.Doc.List {
		if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:norace") || strings.HasPrefix(c.Text, "//go:nowritebarrier") {
			return true
		}
	}
	return false
}

func (r *rewriter) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			r.list(n.List)
			if len(n.List) == 0 {
				r.yield(n.Lbrace+1, nil)
			}
		case *ast.CaseClause:
			r.list(n.Body)
		case *ast.CommClause:
			r.list(n.Body)
		case *ast.SwitchStmt:
			r.clauses(n.Body)
			if n.Init != nil {
				r.walk(n.Init)
			}
			if n.Tag != nil {
				r.walk(n.Tag)
			}
			return false
		case *ast.TypeSwitchStmt:
			r.clauses(n.Body)
			return false
		case *ast.SelectStmt:
			r.clauses(n.Body)
			return false
		case *ast.CallExpr:
			r.moves(n)
		}
		return true
	})
}

// moves makes the builtins copy, append and clear count the elements they move.
func (r *rewriter) moves(n *ast.CallExpr) {
	id, ok := n.Fun.(*ast.Ident)
	if !ok || *race || len(n.Args) == 0 || r.names[id.Name] {
		return
	}
	off := func(p token.Pos) int { return r.fset.Position(p).Offset }
	around := func(x ast.Expr, f string) {
		r.edits = append(r.edits, edit{off(x.Pos()), 0, "zzsimrt." + f + "("}, edit{off(x.End()), 0, ")"})
	}
	switch {
	case id.Name == "copy":
		around(n, "Moved")
	case id.Name == "clear":
		around(n.Args[0], "Moves")
	case id.Name == "append" && n.Ellipsis.IsValid():
		if x, ok := n.Args[1].(*ast.Ident); !ok || x.Name != "nil" {
			around(n.Args[1], "Moves")
		}
	}
}

func (r *rewriter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		r.walk(c)
	}
}

func (r *rewriter) list(l []ast.Stmt) {
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		r.yield(s.Pos(), s)
	}
}

func (r *rewriter) yield(p token.Pos, s ast.Stmt) {
	pos := r.fset.Position(p)
	fn := "Y"
	if s != nil && r.shared(s) {
		fn = "H"
	}
	sites = append(sites, site{nextID, r.name, pos.Line})
	r.edits = append(r.edits, edit{pos.Offset, 0, fmt.Sprintf("zzsimrt.%s(%d);", fn, nextID)})
	nextID++
	r.n++
}

// shared reports whether the statement itself (not its nested blocks)
// mentions a package level variable or an atomic operation: places where
// preemption is interesting.
func (r *rewriter) shared(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.Ident:
			if r.pkgVars[n.Name] || n.Name == "atomic" {
				found = true
			}
		case *ast.SelectorExpr:
			switch n.Sel.Name {
			case "Get", "Put", "Lock", "Unlock", "RLock", "RUnlock", "Load", "Store", "CompareAndSwap", "Swap", "LoadOrStore", "Do":
				found = true
			}
			ast.Inspect(n.X, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok && (r.pkgVars[id.Name] || id.Name == "atomic") {
					found = true
				}
				return !found
			})
			return false
		}
		return !found
	})
	return found
}

// patchStd adds the standard library patches to the overlay.
func patchStd() {
	p := func(file string, reps ...[2]string) {
		full := filepath.Join(*goroot, "src", file)
		b, err := os.ReadFile(full)
		must(err)
		s := string(b)
		for _, r := range reps {
			if strings.Count(s, r[0]) != 1 {
				die("std patch: %q occurs %d times in %s", r[0], strings.Count(s, r[0]), file)
			}
			s = strings.Replace(s, r[0], r[1], 1)
		}
		put(full, filepath.Join("std", strings.ReplaceAll(file, "/", "_")), []byte(s))
	}
	// Map seeds, and everything else drawn from the runtime's generator,
	// come from the simulator while a run is active.
	p("runtime/rand.go",
		[2]string{"\nfunc rand() uint64 {\n", `
func rand() uint64 {
	if simRandOn {
		simRandState += 0x9e3779b97f4a7c15
		z := simRandState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	return simRealRand()
}

var simRandOn bool
var simRandState uint64

//go:nosplit
func simRealRand() uint64 {
`},
		[2]string{"mp.cheaprand = rand()", "mp.cheaprand = simRealRand()"},
		// in race builds the Go scheduler itself draws from randn
		[2]string{"return uint32((uint64(uint32(rand())) * uint64(n)) >> 32)", "return uint32((uint64(uint32(simRealRand())) * uint64(n)) >> 32)"})
	p("runtime/alg.go",
		[2]string{"hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(uint64(0x9e3779b97f4a7c15*uint64(i+1)))"},
		[2]string{"key[i] = bootstrapRand()", "key[i] = uint64(0x9e3779b97f4a7c15*uint64(i+1))"})
	// The standard library's sync.Map draws its seed at its first use, which
	// may fall into any run: it must not take part in the run's randomness.
	p("internal/sync/hashtriemap.go",
		[2]string{"ht.seed = uintptr(runtime_rand())", "ht.seed = 0x51ed27"})
	// Scans of the standard library are counted.
	if !*race {
		put(filepath.Join(*goroot, "src/internal/bytealg/zz_sim.go"), "std/internal_bytealg_zz_sim.go", []byte(`package bytealg

var SimWork int64

// SimScan is told where a search through n bytes ended.
func SimScan(i, n int) int {
	if i < 0 {
		SimWork += int64(n)
	} else {
		SimWork += int64(i) + 1
	}
	return i
}

// SimAll is told about a pass over n bytes.
func SimAll[T any](n int, x T) T {
	SimWork += int64(n)
	return x
}
`))
		scan := func(file string, funcs ...string) {
			full := filepath.Join(*goroot, "src", file)
			b, err := os.ReadFile(full)
			must(err)
			s := string(b)
			for _, fn := range funcs {
				all := strings.HasPrefix(fn, "*")
				fn = strings.TrimPrefix(fn, "*")
				i := strings.Index(s, "\nfunc "+fn+"(")
				if i < 0 {
					die("std patch: no function %s in %s", fn, file)
				}
				i++
				j := i + strings.Index(s[i:], " {\n")
				sig := s[i:j] // func Index(s, sep []byte) int
				sig = strings.TrimPrefix(sig, "func "+fn)
				k := strings.LastIndex(sig, ")")
				var args []string
				for _, a := range strings.Split(sig[1:k], ", ") {
					args = append(args, strings.Fields(a)[0])
				}
				if strings.Contains(fn, "Func") || strings.Contains(fn, "Func") {
					args = []string{"s", "f", "truth"}
				}
				call := "sim" + fn + "(" + strings.Join(args, ", ") + ")"
				if all {
					call = "bytealg.SimAll(len(" + args[0] + "), " + call + ")"
				} else {
					call = "bytealg.SimScan(" + call + ", len(" + args[0] + "))"
				}
				s = s[:i] + "func " + fn + sig + " { return " + call + " }\n\nfunc sim" + fn + s[i+len("func "+fn):]
			}
			if !strings.Contains(s, `"internal/bytealg"`) {
				s = strings.Replace(s, "\npackage utf8\n", "\npackage utf8\n\nimport \"internal/bytealg\"\n", 1)
			}
			put(full, filepath.Join("std", strings.ReplaceAll(file, "/", "_")), []byte(s))
		}
		scan("bytes/bytes.go", "IndexByte", "*Count", "*Equal", "*Compare", "Index", "IndexAny", "IndexRune", "indexFunc", "*LastIndexByte", "*LastIndex")
		scan("strings/strings.go", "IndexByte", "*Count", "Index", "IndexAny", "IndexRune", "indexFunc", "*LastIndexByte", "*LastIndex")
		scan("unicode/utf8/utf8.go", "*Valid", "*ValidString", "*RuneCount", "*RuneCountInString")
	}
	// File descriptor reads and writes go through hooks.
	p("internal/poll/fd_unix.go",
		[2]string{"n, err := ignoringEINTRIO(syscall.Read, fd.Sysfd, p)\n", "n, err := ignoringEINTRIO(simRead, fd.Sysfd, p)\n"},
		[2]string{"n, err := ignoringEINTRIO(syscall.Write, fd.Sysfd, p[nn:max])\n", "n, err := ignoringEINTRIO(simWrite, fd.Sysfd, p[nn:max])\n"})
	put(filepath.Join(*goroot, "src/internal/poll/zz_sim.go"), "std/internal_poll_zz_sim.go", []byte(`package poll

import "syscall"

// Set by the simulator (through go:linkname); nil leaves the real calls.
var simReadHook, simWriteHook func(fd int, p []byte) (int, error)

func simRead(fd int, p []byte) (int, error) {
	if simReadHook != nil {
		return simReadHook(fd, p)
	}
	return syscall.Read(fd, p)
}

func simWrite(fd int, p []byte) (int, error) {
	if simWriteHook != nil {
		return simWriteHook(fd, p)
	}
	return syscall.Write(fd, p)
}
`))
}
