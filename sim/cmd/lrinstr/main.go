// Command lrinstr prepares one program of /repo/lr for simulation: it writes a
// rewritten copy, a generated set-up file and an overlay file for the go command.
//
//	lrinstr -src FILE -out DIR [-noopen] [-nogamma]
//
// Seams: the size variables of the program are set from MKSIM_SET before main
// runs, the scheduler and map order, the system's entropy and the data file are served by the simulator, and
// every message the program decrypts is reported.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var names = []string{"numData", "numFeature", "numCompany", "numIter", "numTrain", "batchSize", "gamma", "slotNum", "numSlots"}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "lrinstr: "+f+"\n", a...)
	os.Exit(3)
}

type edit struct {
	off, end int
	text     string
}

func apply(src []byte, ed []edit) []byte {
	sort.SliceStable(ed, func(i, j int) bool { return ed[i].off < ed[j].off })
	var b []byte
	pos := 0
	for _, e := range ed {
		if e.off < pos {
			continue
		}
		b = append(b, src[pos:e.off]...)
		b = append(b, e.text...)
		pos = e.end
	}
	return append(b, src[pos:]...)
}

func main() {
	src := flag.String("src", "", "")
	out := flag.String("out", "", "")
	noOpen := flag.Bool("noopen", false, "")
	noGamma := flag.Bool("nogamma", false, "")
	flag.Parse()
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	fset := token.NewFileSet()
	b, err := os.ReadFile(*src)
	if err != nil {
		die("%v", err)
	}
	f, err := parser.ParseFile(fset, *src, b, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var ed []edit
	have := map[string]bool{}
	literal := ""
	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
	}
	numBatch := false
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
			ed = append(ed, edit{off(fd.Name.Pos()), off(fd.Name.End()), "mksimMain"})
		}
		g, ok := d.(*ast.GenDecl)
		if !ok || (g.Tok != token.VAR && g.Tok != token.CONST) {
			continue
		}
		for _, s := range g.Specs {
			v := s.(*ast.ValueSpec)
			for i, id := range v.Names {
				if id.Name == "numBatch" && g.Tok == token.VAR {
					numBatch = true
				}
				if want[id.Name] {
					have[id.Name] = true
					if g.Tok == token.CONST {
						ed = append(ed, edit{off(g.Pos()), off(g.Pos()) + len("const"), "var"})
					}
					if id.Name == "gamma" && i < len(v.Values) && !*noGamma {
						if l, ok := v.Values[i].(*ast.BasicLit); ok && l.Kind == token.INT {
							ed = append(ed, edit{off(l.Pos()), off(l.End()), "float64(" + l.Value + ")"})
						}
					}
				}
				if i < len(v.Values) {
					if c, ok := v.Values[i].(*ast.CompositeLit); ok {
						if se, ok := c.Type.(*ast.SelectorExpr); ok && se.Sel.Name == "ParametersLiteral" {
							literal = id.Name
						}
					}
				}
			}
		}
	}
	tail := ""
	if !*noOpen {
		ast.Inspect(f, func(n ast.Node) bool {
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return true
			}
			se, ok := c.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			x, ok := se.X.(*ast.Ident)
			if !ok || (x.Name != "os" && x.Name != "ioutil") {
				return true
			}
			use := "\nvar _ = " + map[string]string{"os": "os.Args", "ioutil": "ioutil.Discard"}[x.Name] + "\n"
			if !strings.Contains(tail, use) && (se.Sel.Name == "ReadFile" || x.Name == "os" && strings.HasPrefix(se.Sel.Name, "Open")) {
				tail += use
			}
			switch se.Sel.Name {
			case "Open":
				ed = append(ed, edit{off(se.Pos()), off(se.End()), "mksimOpen"})
			case "OpenFile":
				ed = append(ed, edit{off(se.Pos()), off(se.End()), "mksimOpenFile"})
			case "ReadFile":
				ed = append(ed, edit{off(se.Pos()), off(se.End()), "mksimReadFile"})
			}
			return true
		})
	}
	prog := append(apply(b, ed), tail...)
	var set strings.Builder
	for _, n := range names {
		if have[n] {
			fmt.Fprintf(&set, "\tmksimSet(&%s, %q)\n", n, n)
		}
	}
	if literal != "" {
		fmt.Fprintf(&set, "\tmksimSet(&%s.LogN, \"LogN\")\n\tmksimSet(&%s.LogSlots, \"LogSlots\")\n", literal, literal)
		have["LogN"] = true
	}
	if numBatch && have["numTrain"] && have["batchSize"] {
		set.WriteString("\tnumBatch = numTrain / batchSize\n")
	}
	extra := strings.Replace(setup, "//SET", set.String(), 1)
	write := func(name, text string) {
		p := filepath.Join(*out, name)
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			die("%v", err)
		}
	}
	write("main.go", string(prog))
	write("mksim_setup.go", extra)
	hs := []string{}
	for n := range have {
		hs = append(hs, n)
	}
	sort.Strings(hs)
	fmt.Println(strings.Join(hs, " "))
}

const setup = `package main

import (
	crand "crypto/rand"
	"errors"
	"io"
	"io/ioutil"
	"os"
	"strconv"
	"strings"

	"mk-lr/mkckks"
	"vsim/simrt"
)

func main() {
	simrt.SetMapOrder(2, mksimSeed)
	simrt.TapFn = mksimTap
	simrt.Run(mksimMain)
}

var mksimSeed uint64

func mksimTap(x interface{}) {
	m, ok := x.(*mkckks.Message)
	if !ok || m == nil {
		return
	}
	b := []byte("\x01TAP")
	for i, v := range m.Value {
		if i >= 256 {
			break
		}
		b = append(b, ' ')
		b = strconv.AppendFloat(b, real(v), 'g', 12, 64)
	}
	os.Stdout.Write(append(b, '\n'))
}

var mksimVals = map[string]float64{}

func mksimSet(p interface{}, name string) {
	v, ok := mksimVals[name]
	switch x := p.(type) {
	case *int:
		if ok {
			*x = int(v)
		}
		os.Stdout.WriteString("\x01SET " + name + " " + strconv.Itoa(*x) + "\n")
	case *float64:
		if ok {
			*x = v
		}
		os.Stdout.WriteString("\x01SET " + name + " " + strconv.FormatFloat(*x, 'g', -1, 64) + "\n")
	}
}

// the operating system's entropy, seeded
type mksimEnt struct {
	s, short uint64
	n, fail  int64
}

func (e *mksimEnt) next() uint64 {
	e.s += 0x9e3779b97f4a7c15
	z := e.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (e *mksimEnt) Read(p []byte) (int, error) {
	e.n++
	if e.fail > 0 && e.n >= e.fail {
		return 0, errors.New("mksim: no entropy")
	}
	n := len(p)
	if e.short > 0 && n > 1 {
		e.short = e.short*6364136223846793005 + 1442695040888963407
		n = 1 + int(e.short>>33)%n
	}
	for i := 0; i < n; i++ {
		p[i] = byte(e.next() >> 24)
	}
	return n, nil
}

// the data file
type mksimFile struct {
	*os.File
	pos, eio int64
	short    uint64
}

var mksimDisk struct {
	eio   int64
	short uint64
}

func mksimOpen(name string) (*mksimFile, error) {
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	return &mksimFile{f, 0, mksimDisk.eio, mksimDisk.short}, nil
}

func mksimOpenFile(name string, _ int, _ os.FileMode) (*mksimFile, error) { return mksimOpen(name) }

func (f *mksimFile) Read(p []byte) (int, error) {
	if f.eio > 0 && f.pos >= f.eio {
		os.Stdout.WriteString("\x01EIO\n")
		return 0, &os.PathError{Op: "read", Path: f.Name(), Err: errors.New("input/output error")}
	}
	n := len(p)
	if f.eio > 0 && int64(n) > f.eio-f.pos {
		n = int(f.eio - f.pos)
	}
	if f.short > 0 && n > 1 {
		f.short = f.short*6364136223846793005 + 1442695040888963407
		k := 1 + int(f.short>>33)%997
		if k < n {
			n = k
		}
	}
	n, err := f.File.Read(p[:n])
	f.pos += int64(n)
	return n, err
}

func mksimReadFile(name string) ([]byte, error) {
	f, err := mksimOpen(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return ioutil.ReadAll(struct{ io.Reader }{f})
}

func init() {
	if os.Getenv("MKSIM_SET") == "" {
		os.Exit(97)
	}
	for _, kv := range strings.Fields(os.Getenv("MKSIM_SET")) {
		i := strings.IndexByte(kv, '=')
		v, err := strconv.ParseFloat(kv[i+1:], 64)
		if err != nil {
			os.Exit(97)
		}
		mksimVals[kv[:i]] = v
	}
//SET
	e := &mksimEnt{}
	mksimSeed, _ = strconv.ParseUint(os.Getenv("MKSIM_SEED"), 10, 64)
	e.s = mksimSeed
	e.short = uint64(mksimVals["!entshort"])
	e.fail = int64(mksimVals["!entfail"])
	crand.Reader = e
	mksimDisk.eio = int64(mksimVals["!eio"])
	mksimDisk.short = uint64(mksimVals["!short"])
}
`
