// Command instr rewrites the non-test Go files of the packages under test into
// a scratch directory and writes an overlay file for the go command, so that
// /repo itself is never touched. Rewrites: a scheduler yield before every
// statement, seeded map iteration, and (unless -nogo) go statements and package
// sync routed to the simulator's cooperative scheduler. Package-level variables
// can be put back to how a process starts with them (simrt.Reset).
//
//	instr -mod DIR -out DIR [-nogo] importpath...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off, end int // replace src[off:end]
	text     string
	seq      int
}

type listed struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	DepOnly    bool
}

var (
	noGo    = flag.Bool("nogo", false, "do not rewrite go statements and package sync")
	out     = flag.String("out", "", "output directory")
	tap     = flag.Bool("tap", false, "report every decrypted message to simrt.Tap")
	dep     = flag.String("dep", "", "files of lattigo to rewrite as well, by base name")
	mod     = flag.String("mod", "", "module directory to run the go command in")
	siteTab []string
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	flag.Parse()
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,DepOnly"}, flag.Args()...)...)
	cmd.Dir = *mod
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []listed
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var l listed
		if err := dec.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		exports[l.ImportPath] = l.Export
		// any package of the module under test, also one a change has added
		if !l.DepOnly || strings.HasPrefix(l.ImportPath, "mk-lr/") || strings.HasPrefix(l.ImportPath, "lrm/") {
			pkgs = append(pkgs, l)
		}
	}
	depth := map[string]int{} // go list -deps: dependencies first
	for i, p := range pkgs {
		depth[p.ImportPath] = i
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].ImportPath < pkgs[j].ImportPath })
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	replace := map[string]string{}
	info := struct{ Go, Chan, Sync, Vars int }{}
	for _, p := range pkgs {
		var files []*ast.File
		srcs := map[*ast.File][]byte{}
		names := map[*ast.File]string{}
		for _, g := range p.GoFiles {
			fn := filepath.Join(p.Dir, g)
			src, err := os.ReadFile(fn)
			if err != nil {
				die("%v", err)
			}
			f, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
			srcs[f], names[f] = src, fn
		}
		ti := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}} // and InitOrder
		conf := types.Config{Importer: imp}
		if _, err := conf.Check(p.ImportPath, fset, files, ti); err != nil {
			die("type check: %v", err)
		}
		lattigo := strings.HasPrefix(p.ImportPath, "github.com/")
		lines, vars := map[*ast.File]string{}, 0
		if !lattigo {
			lines, vars = resets(p.ImportPath, depth[p.ImportPath], fset, files, srcs, ti)
		}
		info.Vars += vars
		for _, f := range files {
			if filepath.Base(names[f]) == "mksim_setup.go" {
				continue // the simulator's own
			}
			if lattigo && !strings.Contains(","+*dep+",", ","+filepath.Base(names[f])+",") {
				continue
			}
			y := "Y"
			if lattigo {
				y = "D"
			}
			r := &rewriter{y: y, fset: fset, src: srcs[f], ti: ti, file: f, name: names[f], tail: lines[f]}
			res := r.run()
			info.Go += r.goStmts
			info.Chan += r.chans
			info.Sync += r.syncs
			dst := filepath.Join(*out, strings.ReplaceAll(p.ImportPath, "/", "_")+"__"+filepath.Base(names[f]))
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				die("%v", err)
			}
			replace[names[f]] = dst
		}
	}
	ov, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), ov, 0o644); err != nil {
		die("%v", err)
	}
	st, _ := json.Marshal(map[string]any{"sites": siteTab, "go": info.Go, "chan": info.Chan, "sync": info.Sync})
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), st, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("sites=%d go=%d chan=%d sync=%d vars=%d\n", len(siteTab), info.Go, info.Chan, info.Sync, info.Vars)
}

// resets writes, per file, the code that puts the package-level variables of a
// library package back to what they are when a process starts: everything to
// zero, then the initialisers in the order of the language, then every init.
func resets(path string, depth int, fset *token.FileSet, files []*ast.File, srcs map[*ast.File][]byte, ti *types.Info) (map[*ast.File]string, int) {
	tail := map[*ast.File]string{}
	vars := 0
	if files[0].Name.Name == "main" {
		return tail, 0
	}
	fileOf := func(pos token.Pos) *ast.File {
		for _, f := range files {
			if f.FileStart <= pos && pos < f.FileEnd {
				return f
			}
		}
		return nil
	}
	code := map[*ast.File][]string{}
	for _, f := range files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, sp := range d.Specs {
					for _, id := range sp.(*ast.ValueSpec).Names {
						if id.Name != "_" {
							vars++
							code[f] = append(code[f], fmt.Sprintf("simrt.OnZero(func() { simrt.Zero(&%s) })", id.Name))
						}
					}
				}
			}
		}
	}
	seq := 0
	for _, in := range ti.InitOrder {
		f := fileOf(in.Rhs.Pos())
		if f == nil {
			continue
		}
		var lhs []string
		all := true
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			all = all && v.Name() == "_"
		}
		if all {
			continue
		}
		o := func(p token.Pos) int { return fset.Position(p).Offset }
		seq++
		code[f] = append(code[f], fmt.Sprintf("simrt.OnInit(%d, %d, func() { %s = %s })", depth, seq, strings.Join(lhs, ", "), srcs[f][o(in.Rhs.Pos()):o(in.Rhs.End())]))
	}
	for _, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
				seq++
				code[f] = append(code[f], fmt.Sprintf("simrt.OnInit(%d, %d, simInit%d)", depth, seq, fset.Position(fd.Name.Pos()).Offset))
				tail[f] += fmt.Sprintf("\nfunc init() { simInit%d() }\n", fset.Position(fd.Name.Pos()).Offset)
			}
		}
	}
	for f, c := range code {
		tail[f] += "\nfunc init() {\n\t" + strings.Join(c, "\n\t") + "\n}\n"
	}
	return tail, vars
}

type rewriter struct {
	fset  *token.FileSet
	src   []byte
	ti    *types.Info
	file  *ast.File
	name  string
	y     string // what is called before a statement
	tail  string
	edits []edit
	n     int

	goStmts, chans, syncs int
	uses                  bool
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func (r *rewriter) add(off, end int, s string) {
	r.n++
	r.edits = append(r.edits, edit{off, end, s, r.n})
}

func (r *rewriter) yields(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		pos := r.fset.Position(s.Pos())
		id := len(siteTab)
		siteTab = append(siteTab, fmt.Sprintf("%s:%d", filepath.Base(filepath.Dir(r.name))+"/"+filepath.Base(r.name), pos.Line))
		r.add(pos.Offset, pos.Offset, fmt.Sprintf("simrt.%s(%d); ", r.y, id))
		r.uses = true
	}
}

func (r *rewriter) isMap(e ast.Expr) bool {
	t := r.ti.Types[e].Type
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) rangeMap(s *ast.RangeStmt) {
	m := r.text(s.X)
	r.uses = true
	var h string
	kb, vb := blank(s.Key), blank(s.Value)
	arg := func(e ast.Expr, b bool) string {
		if b {
			return "nil"
		}
		return "&" + r.text(e)
	}
	next := fmt.Sprintf("simIt.Next(%s, %s)", arg(s.Key, kb), arg(s.Value, vb))
	if s.Tok == token.DEFINE {
		switch {
		case !kb && !vb:
			h = fmt.Sprintf("for simIt, %s, %s := simrt.IterKV(%s); %s; ", r.text(s.Key), r.text(s.Value), m, next)
		case !kb:
			h = fmt.Sprintf("for simIt, %s := simrt.IterK(%s); %s; ", r.text(s.Key), m, next)
		case !vb:
			h = fmt.Sprintf("for simIt, %s := simrt.IterV(%s); %s; ", r.text(s.Value), m, next)
		default:
			h = fmt.Sprintf("for simIt := simrt.Iter0(%s); %s; ", m, next)
		}
	} else {
		h = fmt.Sprintf("for simIt := simrt.Iter0(%s); %s; ", m, next)
	}
	r.add(r.off(s.For), r.off(s.Body.Lbrace), h)
}

func (r *rewriter) goStmt(s *ast.GoStmt) {
	r.goStmts++
	if *noGo {
		return
	}
	r.uses = true
	c := s.Call
	if _, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		// go func() {...}()  ->  simrt.Go(func() {...})
		r.add(r.off(s.Go), r.off(c.Fun.Pos()), "simrt.Go(")
		r.add(r.off(c.Lparen), r.off(c.Rparen)+1, ")")
		return
	}
	// { f, a0 := F, A0; simrt.Go(func() { f(a0) }) } with constants left in place
	r.add(r.off(s.Go), r.off(c.Fun.Pos()), "{ simF := ")
	var pre, args []string
	last := r.off(c.Fun.End())
	for i, a := range c.Args {
		tv := r.ti.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, r.text(a))
			continue
		}
		v := fmt.Sprintf("simA%d", i)
		pre = append(pre, fmt.Sprintf("; %s := %s", v, r.text(a)))
		args = append(args, v)
	}
	call := strings.Join(args, ", ")
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	r.add(last, r.off(c.Rparen)+1, strings.Join(pre, "")+"; simrt.Go(func() { simF("+call+") }) }")
}

func (r *rewriter) visit(root ast.Node) {
	ast.Inspect(root, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.FuncDecl:
			if s.Recv == nil && s.Name.Name == "init" && s.Body != nil && r.file.Name.Name != "main" {
				r.add(r.off(s.Name.Pos()), r.off(s.Name.End()), fmt.Sprintf("simInit%d", r.off(s.Name.Pos())))
			}
			if *tap && s.Name.Name == "Decrypt" && s.Recv != nil && s.Body != nil && s.Type.Results != nil && len(s.Type.Results.List) == 1 {
				res := s.Type.Results.List[0]
				name := "simRes"
				if len(res.Names) == 1 {
					name = res.Names[0].Name
				} else {
					r.add(r.off(res.Type.Pos()), r.off(res.Type.End()), "("+name+" "+r.text(res.Type)+")")
				}
				o := r.off(s.Body.Lbrace) + 1
				r.add(o, o, " defer func() { simrt.Tap("+name+") }(); ")
				r.uses = true
			}
		case *ast.ForStmt:
			if len(s.Body.List) == 0 { // an empty loop must remain interruptible
				o := r.off(s.Body.Lbrace) + 1
				r.add(o, o, fmt.Sprintf(" simrt.%s(%d); ", r.y, len(siteTab)))
				siteTab = append(siteTab, fmt.Sprintf("%s:%d", filepath.Base(filepath.Dir(r.name))+"/"+filepath.Base(r.name), r.fset.Position(s.Pos()).Line))
				r.uses = true
			}
		case *ast.BlockStmt:
			r.yields(s.List)
		case *ast.CaseClause:
			r.yields(s.Body)
		case *ast.CommClause:
			r.yields(s.Body)
		case *ast.SendStmt, *ast.SelectStmt, *ast.ChanType:
			r.chans++
		case *ast.UnaryExpr:
			if s.Op == token.ARROW {
				r.chans++
			}
		case *ast.GoStmt:
			r.goStmt(s)
			if _, ok := s.Call.Fun.(*ast.FuncLit); (!ok || len(s.Call.Args) > 0) && !*noGo {
				// the arguments were moved as text
				r.visit(s.Call.Fun)
				return false
			}
		case *ast.RangeStmt:
			if r.isMap(s.X) {
				// the header was replaced as text
				r.rangeMap(s)
				r.visit(s.Body)
				return false
			}
		}
		return true
	})
}

func (r *rewriter) run() []byte {
	r.visit(r.file)
	if r.tail != "" {
		r.uses = true
	}
	for _, im := range r.file.Imports {
		if im.Path.Value == `"sync"` {
			r.syncs++
			if !*noGo {
				name := "sync"
				if im.Name != nil {
					name = im.Name.Name
				}
				r.add(r.off(im.Pos()), r.off(im.End()), name+` "vsim/simrt/simsync"`)
			}
		}
	}
	if r.uses {
		o := r.off(r.file.Name.End())
		r.add(o, o, `; import simrt "vsim/simrt"`)
	}
	// language version for the generic helpers; keeps pre-1.22 loop variables
	tag := "//go:build go1.21\n\n"
	for _, g := range r.file.Comments {
		if g.Pos() > r.file.Package {
			break
		}
		for _, c := range g.List {
			if constraint.IsGoBuild(c.Text) {
				x, err := constraint.Parse(c.Text)
				if err == nil {
					r.add(r.off(c.Pos()), r.off(c.End()), "//go:build go1.21 && ("+x.String()+")")
					tag = ""
				}
			}
		}
	}
	sort.SliceStable(r.edits, func(i, j int) bool {
		if r.edits[i].off != r.edits[j].off {
			return r.edits[i].off < r.edits[j].off
		}
		// insertions before replacements at the same offset
		li, lj := r.edits[i].end-r.edits[i].off, r.edits[j].end-r.edits[j].off
		if (li == 0) != (lj == 0) {
			return li == 0
		}
		return r.edits[i].seq < r.edits[j].seq
	})
	var b bytes.Buffer
	b.WriteString(tag)
	pos := 0
	for _, e := range r.edits {
		if e.off < pos {
			continue // inside text already replaced
		}
		b.Write(r.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(r.src[pos:])
	b.WriteString(r.tail)
	return b.Bytes()
}
