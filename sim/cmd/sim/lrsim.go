package main

import (
	"bytes"
	"context"
	"encoding/csv"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"vsim/simrt"
)

// C13: the four training programs, whole, as child processes whose entropy and
// data file the simulator serves, against training on the clear data.

type lrProg struct {
	name     string
	csv      string
	features int
	width    int // slots per row
	mini     bool
	toy      bool
	testRow  int // -1: all rows
	printsBV bool
	printsZ  bool
	eta      [4]float64
	iters    int // >0: fixed by the program
	classes  int
}

var (
	etaFull = [4]float64{1, 1.61803, 2.193527, 2.74979}
	etaToy  = [4]float64{1, 0, -0.28175, -0.43404}
	lrProgs = []lrProg{
		{"lr", "data.csv", 7, 8, false, false, 1935, true, false, etaFull, 0, 2},
		{"lr_toy", "toyData.csv", 20, 32, false, true, 1935, false, true, etaToy, 0, 4},
		{"lr_minibatch", "data.csv", 7, 8, true, false, 1950, true, false, etaFull, 0, 2},
		{"lr_minibatch_toy", "toyData.csv", 20, 32, true, true, -1, true, false, etaToy, 3, 4},
	}
)

const lrC3, lrC1, lrC0 = -0.0015, 0.15, 0.5

type lrCase struct {
	pg                                              lrProg
	logN, slots, rows, companies, iters, batch, trn int
	nfeat                                           int
	gammaEff                                        float64
	file                                            []byte
	fault                                           string
	set                                             map[string]float64
	disk                                            string // "", missing, dir
	strict                                          bool   // the fault must end in a failure
}

func lrOut() []string {
	b, _ := os.ReadFile(filepath.Join(os.Getenv("SIM_BUILD"), "lr.progs"))
	return strings.Fields(string(b))
}

func lrAvailable(name string) bool {
	for _, n := range lrOut() {
		if n == name {
			return true
		}
	}
	return false
}

func gauss(r *simrt.RNG) float64 {
	return math.Sqrt(-2*math.Log(1-r.Float())) * math.Cos(2*math.Pi*r.Float())
}

func lrNum(r *simrt.RNG, x float64) string {
	switch r.Intn(8) {
	case 0:
		return strconv.FormatFloat(x, 'e', 5, 64)
	case 1:
		return strconv.FormatFloat(x, 'f', 2, 64)
	case 2:
		return strconv.FormatFloat(x, 'f', -1, 64)
	default:
		return strconv.FormatFloat(x, 'f', 6, 64)
	}
}

// lrMake builds the data file and the settings of one run of a program.
func lrMake(p *Plan, fault *Step) *lrCase {
	c := &lrCase{set: map[string]float64{}}
	var train *Step
	for i := range p.Steps {
		if p.Steps[i].Op == "train" {
			train = &p.Steps[i]
		}
	}
	if train == nil {
		train = &Step{Op: "train", S: 1}
	}
	c.pg = lrProgs[p.Cfg.X%len(lrProgs)]
	pg := c.pg
	c.logN = p.Cfg.LogN
	c.slots = 1 << (c.logN - 1)
	perCt := c.slots / pg.width
	c.nfeat = pg.features
	if pg.mini {
		// any feature count that fills the same number of slots per row
		lo, hi := pg.width/2+1, pg.width
		if pg.toy {
			lo = 20
		}
		if train.a(5)%3 == 0 {
			c.nfeat = lo + train.sel(6, hi-lo+1)
		}
	}
	c.companies = 1 + train.sel(0, 4)
	c.iters = 1 + train.sel(1, 4)
	if pg.iters > 0 {
		c.iters = pg.iters
	}
	c.trn = 0
	if pg.mini {
		nb := 1 + train.sel(3, 5)
		if train.a(2)%3 == 0 { // several ciphertexts per batch
			c.batch = perCt * (2 + train.sel(4, 2))
			nb = 1 + nb%3
		} else {
			c.batch = 2 + train.sel(4, perCt-1)
		}
		c.trn = nb * c.batch
	} else {
		c.batch = perCt // the shipped geometry: one full ciphertext
	}
	need := c.batch
	if c.trn > need {
		need = c.trn
	}
	if pg.testRow >= 0 {
		need = maxi(need, pg.testRow+1)
	}
	c.rows = need + train.sel(7, 20)
	r := simrt.NewRNG(simrt.Mix(train.S, 0x1a7a))
	// classes differ in their mean, so that there is something to learn
	means := make([][]float64, pg.classes)
	sep := []float64{0.1, 0.4, 0.9}[r.Intn(3)]
	for k := range means {
		means[k] = make([]float64, c.nfeat)
		for j := range means[k] {
			means[k][j] = sep * gauss(r)
		}
	}
	label := make([]string, pg.classes)
	for k := range label {
		label[k] = strconv.Itoa(k)
		if k > 0 && r.Intn(4) == 0 {
			label[k] = []string{"-1", "2", "7", "-0.5", "0.5", "1e-3", "10", "-3"}[r.Intn(8)]
		}
	}
	if r.Intn(4) == 0 {
		label[0] = []string{"0.0", "-0", "0e5", "+0"}[r.Intn(4)]
	}
	eol := "\n"
	if r.Intn(6) == 0 {
		eol = "\r\n"
	}
	constant := -1 // a feature that has the same value everywhere
	if r.Intn(3) == 0 {
		constant = r.Intn(c.nfeat)
	}
	var b bytes.Buffer
	for j := 0; j < c.nfeat; j++ {
		fmt.Fprintf(&b, "f%d,", j)
	}
	b.WriteString("target" + eol)
	for i := 0; i < c.rows; i++ {
		k := r.Intn(pg.classes)
		if i < 2 { // both kinds of labels occur
			k = i
		}
		for j := 0; j < c.nfeat; j++ {
			x := means[k][j] + gauss(r)
			if pg.toy && !(j == 1 || j == 3 || j == 5 || j >= 17) {
				x = float64(int(400+90*x)) / float64(1+j%3)
			} else if pg.toy {
				x = float64(r.Intn(2))
			} else {
				x = math.Max(-2, math.Min(2, x*0.7))
			}
			if j == constant {
				x = float64(j % 3)
			}
			b.WriteString(lrNum(r, x))
			b.WriteByte(',')
		}
		b.WriteString(label[k])
		if i < c.rows-1 || r.Intn(3) > 0 {
			b.WriteString(eol)
		}
	}
	c.file = b.Bytes()
	F := 1.0
	if !pg.mini {
		F = float64(1<<14) / float64(c.slots)
	}
	c.gammaEff = []float64{0.3, 0.8, 2}[r.Intn(3)]
	if pg.toy {
		c.gammaEff = []float64{0.3, 0.8, 1.5}[r.Intn(3)]
	}
	for k, v := range map[string]float64{
		"LogN": float64(c.logN), "LogSlots": float64(c.logN - 1), "slotNum": float64(c.slots), "numSlots": float64(c.slots),
		"numData": float64(c.rows), "numFeature": float64(c.nfeat), "numCompany": float64(c.companies), "numIter": float64(c.iters),
		"batchSize": float64(c.batch), "gamma": c.gammaEff / F} {
		c.set[k] = v
	}
	if pg.iters > 0 && train.a(1)%2 == 0 {
		c.set["numIter"] = 4
	}
	if pg.mini {
		c.set["numTrain"] = float64(c.trn)
	}
	if fault != nil {
		c.damage(fault, eol)
	}
	return c
}

// damage applies one fault to the data file or to the system below the program.
func (c *lrCase) damage(s *Step, eol string) {
	r := simrt.NewRNG(simrt.Mix(s.S, 0xda))
	c.fault = s.Fault
	lines := strings.SplitAfter(string(c.file), eol)
	// a row of the first, of the last, of those trained on or of the others
	pickLine := func() int {
		used := maxi(c.trn, c.batch)
		switch k := r.Intn(5); {
		case k == 0:
			return 1
		case k == 1:
			return c.rows
		case k == 2 && c.rows > used:
			return used + 1 + r.Intn(c.rows-used)
		case k == 3:
			return 1 + r.Intn(used)
		}
		return 1 + r.Intn(c.rows)
	}
	switch s.Fault {
	case "missing", "dir":
		c.disk, c.strict = s.Fault, true
	case "cut": // anywhere
		c.file = c.file[:r.Intn(len(c.file))]
	case "boundary": // at the end of a row
		n := 0
		for i := r.Intn(len(lines)); i >= 0; i-- {
			n += len(lines[i])
		}
		c.file = c.file[:maxi(0, n-len(eol)*r.Intn(2))]
	case "lostrow":
		i := pickLine()
		c.file = []byte(strings.Join(append(lines[:i:i], lines[i+1:]...), ""))
	case "extrarow":
		i := pickLine()
		c.file = []byte(strings.Join(lines[:i+1], "") + strings.TrimRight(lines[1], "\r\n") + eol + strings.Join(lines[i+1:], ""))
	case "blank": // csv readers skip empty lines
		i := pickLine()
		c.file = []byte(strings.Join(lines[:i], "") + eol + strings.Join(lines[i:], ""))
	case "columns": // the same column is missing, or there twice, in every line
		k, twice := r.Intn(c.nfeat+1), r.Intn(2) == 0
		for i := range lines {
			f := strings.Split(strings.TrimRight(lines[i], "\r\n"), ",")
			if len(f) <= k {
				continue
			}
			g := append([]string(nil), f[:k]...)
			if twice {
				g = append(g, f[k], f[k])
			}
			lines[i] = strings.Join(append(g, f[k+1:]...), ",") + eol
		}
		c.file = []byte(strings.Join(lines, ""))
	case "garbage":
		i := pickLine()
		f := strings.Split(strings.TrimRight(lines[i], "\r\n"), ",")
		k := r.Intn(len(f))
		switch r.Intn(4) {
		case 0:
			k = 0
		case 1:
			k = len(f) - 1
		}
		f[k] = []string{"", "", "abc", "1.2.3", "--5", "1e", "NA", "?", "12a", "0,0", "\"", " 1", "1 ", "1;2", "x", "1e999", "7_", "NaN", "nan", "Inf", "-inf", "+Infinity"}[r.Intn(22)]
		lines[i] = strings.Join(f, ",") + eol
		c.file = []byte(strings.Join(lines, ""))
	case "shortrow", "longrow":
		i := pickLine()
		f := strings.Split(strings.TrimRight(lines[i], "\r\n"), ",")
		k := r.Intn(len(f))
		if s.Fault == "longrow" {
			f = append(append(append([]string(nil), f[:k]...), f[k]), f[k:]...)
		} else {
			f = append(f[:k:k], f[k+1:]...)
		}
		lines[i] = strings.Join(f, ",") + eol
		c.file = []byte(strings.Join(lines, ""))
	case "flip":
		k := r.Intn(len(c.file))
		c.file[k] ^= byte(1 << r.Intn(8))
	case "eio":
		c.set["!eio"] = float64(1 + r.Intn(len(c.file)-1))
	case "short":
		c.set["!short"] = float64(1 + r.Intn(1<<30))
	case "entshort":
		c.set["!entshort"] = float64(1 + r.Intn(1<<30))
	case "entfail":
		c.set["!entfail"] = float64(1 + r.Intn(60))
	}
}

// lrParse reads the data file as the programs are documented to.
func lrParse(b []byte, nfeat int) (z [][]float64, y []float64, err error) {
	rows, err := csv.NewReader(bytes.NewReader(b)).ReadAll()
	if err != nil {
		return nil, nil, err
	}
	for i, row := range rows {
		if i == 0 {
			continue
		}
		if len(row) != nfeat+1 {
			return nil, nil, errors.New("column count")
		}
		v := make([]float64, nfeat)
		for j := range row {
			x, err := strconv.ParseFloat(row[j], 64)
			if err != nil {
				return nil, nil, err
			}
			if math.IsNaN(x) || math.IsInf(x, 0) {
				return nil, nil, errors.New("not a finite number")
			}
			if j < nfeat {
				v[j] = x
			} else {
				y = append(y, x)
			}
		}
		z = append(z, v)
	}
	return
}

type lrRef struct {
	beta, v [][]float64 // per iteration
	z       [][]float64
	sig     []float64 // per row
	y       []float64
	big     float64
	maxM    float64
}

// lrTrain is the reference: accelerated gradient descent on the clear data.
// fg and fu are how often the programs' fixed-size row sums of the two gradients
// wrap around the reduced number of slots.
func lrTrain(c *lrCase, z [][]float64, y []float64, gamma, fg, fu float64) *lrRef {
	pg := c.pg
	ref := &lrRef{}
	nf := c.nfeat
	for i := range y {
		l := y[i]
		if pg.mini && pg.toy {
			l = math.Trunc(l)
		}
		if l == 0 {
			ref.y = append(ref.y, 1)
		} else {
			ref.y = append(ref.y, 0)
		}
	}
	zz := make([][]float64, len(z))
	for i := range z {
		zz[i] = append([]float64(nil), z[i]...)
	}
	if pg.toy {
		n := c.batch
		div := float64(n)
		if pg.mini {
			n = c.trn
			div = float64(n - 1)
		}
		for j := 0; j < nf; j++ {
			if j == 1 || j == 3 || j == 5 || j >= 17 {
				continue
			}
			m, s := 0.0, 0.0
			for i := 0; i < n; i++ {
				m += z[i][j]
			}
			m /= float64(n)
			for i := 0; i < n; i++ {
				s += (z[i][j] - m) * (z[i][j] - m)
			}
			s = math.Sqrt(s / div)
			if s == 0 { // a feature that never varies says nothing
				s = 1
			}
			for i := range zz {
				zz[i][j] = (z[i][j] - m) / s
			}
		}
	}
	ref.z = zz
	beta, v := make([]float64, nf), make([]float64, nf)
	for a := 0; a < c.iters; a++ {
		lo := 0
		if pg.mini {
			lo = (a % (c.trn / c.batch)) * c.batch
		}
		G := make([]float64, nf)
		for i := lo; i < lo+c.batch; i++ {
			M := 0.0
			for j := 0; j < nf; j++ {
				M += zz[i][j] * v[j]
			}
			ref.maxM = math.Max(ref.maxM, math.Abs(M))
			s := lrC0 + lrC1*M + lrC3*M*M*M - ref.y[i]
			for j := 0; j < nf; j++ {
				G[j] -= gamma / float64(c.batch) * s * zz[i][j]
			}
		}
		nb, nv := make([]float64, nf), make([]float64, nf)
		for j := 0; j < nf; j++ {
			nb[j] = v[j] + fg*G[j]
			nv[j] = (1-pg.eta[a])*v[j] + pg.eta[a]*beta[j] + (1-pg.eta[a])*fu*G[j]
			ref.big = math.Max(ref.big, math.Max(math.Abs(nb[j]), math.Abs(nv[j])))
		}
		beta, v = nb, nv
		ref.beta, ref.v = append(ref.beta, beta), append(ref.v, v)
	}
	for i := range zz {
		M := 0.0
		for j := 0; j < nf; j++ {
			M += zz[i][j] * beta[j]
		}
		ref.sig = append(ref.sig, lrC0+lrC1*M+lrC3*M*M*M)
	}
	return ref
}

type lrResult struct {
	code         int
	timeout, eio bool
	text         []string // lines printed by the program
	taps         [][]float64
	set          map[string]float64
	raw          string
}

func lrExec(c *lrCase, seed uint64) (res lrResult, err error) {
	dir, err := os.MkdirTemp(os.Getenv("SIM_BUILD"), "lrrun")
	if err != nil {
		return res, err
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, c.pg.csv)
	switch c.disk {
	case "missing":
	case "dir":
		err = os.Mkdir(f, 0o755)
	default:
		err = os.WriteFile(f, c.file, 0o644)
	}
	if err != nil {
		return res, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("SIM_BUILD"), "prog_"+c.pg.name))
	cmd.Dir = dir
	var ks []string
	for k, v := range c.set {
		ks = append(ks, fmt.Sprintf("%s=%s", k, strconv.FormatFloat(v, 'g', -1, 64)))
	}
	sort.Strings(ks)
	cmd.Env = append(os.Environ(), "MKSIM_SET="+strings.Join(ks, " "), fmt.Sprintf("MKSIM_SEED=%d", seed), "GOMAXPROCS=2", "GOMEMLIMIT=1500MiB")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &limitedBuf{b: &errb}
	cmd.WaitDelay = 5 * time.Second
	rerr := cmd.Run()
	if ctx.Err() != nil {
		res.timeout = true
		return res, nil
	}
	res.code = cmd.ProcessState.ExitCode()
	if res.code == 97 || (rerr != nil && res.code == 0) {
		return res, fmt.Errorf("child: %v", rerr)
	}
	res.set = map[string]float64{}
	res.raw = errb.String()
	var rest strings.Builder
	for i, part := range strings.Split(out.String(), "\x01") {
		if i > 0 {
			nl := strings.IndexByte(part, '\n')
			if nl < 0 {
				nl = len(part) - 1
			}
			f := strings.Fields(part[:nl])
			part = part[nl+1:]
			if len(f) == 1 && f[0] == "EIO" {
				res.eio = true
			} else if len(f) == 3 && f[0] == "SET" {
				res.set[f[1]], _ = strconv.ParseFloat(f[2], 64)
			} else if len(f) > 0 && f[0] == "TAP" {
				v := make([]float64, len(f)-1)
				for k := range v {
					v[k], _ = strconv.ParseFloat(f[k+1], 64)
				}
				res.taps = append(res.taps, v)
			}
		}
		rest.WriteString(part)
	}
	res.text = strings.Split(rest.String(), "\n")
	return res, nil
}

type limitedBuf struct{ b *bytes.Buffer }

func (l *limitedBuf) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

// parseVec reads "[(a+bi) (c+di)]".
func parseVec(s string) (v []complex128, ok bool) {
	i, j := strings.IndexByte(s, '['), strings.LastIndexByte(s, ']')
	if i < 0 || j < i {
		return nil, false
	}
	for _, f := range strings.Fields(s[i+1 : j]) {
		x, err := strconv.ParseComplex(f, 128)
		if err != nil {
			return nil, false
		}
		v = append(v, x)
	}
	return v, len(v) > 0
}

func lrRun(p *Plan, st *Stats, tracing bool) (res Result) {
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(*Violation); ok {
				res.V = v
				return
			}
			panic(e)
		}
	}()
	if len(lrOut()) == 0 {
		res.Err = "none of the training programs could be built for simulation"
		return
	}
	var faults []*Step
	for i := range p.Steps {
		if p.Steps[i].Op == "fault" {
			faults = append(faults, &p.Steps[i])
		}
	}
	if len(faults) == 0 {
		faults = []*Step{nil}
	}
	for _, f := range faults {
		if lrOnce(p, f, st, tracing, &res); res.Err != "" {
			break
		}
	}
	return
}

// lrOnce runs the program once, with at most one fault.
func lrOnce(p *Plan, fault *Step, st *Stats, tracing bool, res *Result) {
	c := lrMake(p, fault)
	pg := c.pg
	if !lrAvailable(pg.name) {
		st.add("not-simulated:" + pg.name)
		return
	}
	tr := func(f string, a ...any) {
		s := fmt.Sprintf(f, a...)
		res.Digest = simrt.Mix(res.Digest, strHash(s))
		if tracing {
			res.Trace = append(res.Trace, s)
		}
	}
	tr("%s: 2^%d slots, %d companies, %d iterations, batches of %d of %d training rows, %d rows, fault %q", pg.name, c.logN-1, c.companies, c.iters, c.batch, maxi(c.trn, c.batch), c.rows, c.fault)
	out, err := lrExec(c, p.Seed)
	if err != nil {
		res.Err = err.Error()
		return
	}
	st.Steps++
	if out.timeout {
		fail("hang:"+pg.name, "%s does not end within 120 s on a %d-row data set (fault %q)", pg.name, c.rows, c.fault)
	}
	z, y, perr := lrParse(c.file, c.nfeat)
	finished := out.code == 0
	var correct = -1
	trained := false
	for _, l := range out.text {
		if strings.HasPrefix(l, "Correct") {
			f := strings.Fields(l)
			correct, _ = strconv.Atoi(f[len(f)-1])
		}
		if strings.Contains(l, "-th Iteration") {
			trained = true
		}
	}
	for _, l := range out.text {
		if !strings.Contains(l, "Time") {
			tr("%s", l)
		}
	}
	for _, t := range out.taps {
		res.Digest = simrt.Mix(res.Digest, math.Float64bits(t[0]), uint64(len(t)))
	}
	st.add(pg.name)
	if c.fault != "" {
		st.fault("lr-" + c.fault)
	}
	h := strHash(fmt.Sprint(pg.name, c.logN, c.companies, c.iters, c.batch, c.trn, c.nfeat, c.fault, c.gammaEff))
	bad := c.strict || out.eio || perr != nil || len(z) != c.rows
	if c.fault == "entfail" {
		if !finished {
			st.seen(h)
			if correct >= 0 {
				fail("prediction-after-failure:"+pg.name, "%s prints a prediction and then fails", pg.name)
			}
			return
		}
	}
	if bad {
		st.seen(h)
		if finished || correct >= 0 {
			fail("bad-data-accepted:"+pg.name, "%s ends with exit code %d and prints %d predictions although its data file is damaged (%s: %d of %d rows, %v)", pg.name, out.code, correct, c.fault, len(z), c.rows, perr)
		}
		if trained {
			fail("bad-data-trained:"+pg.name, "%s starts training although its data file is damaged (%s: %d of %d rows, %v)", pg.name, c.fault, len(z), c.rows, perr)
		}
		return
	}
	if !finished {
		if c.fault == "cut" || c.fault == "boundary" || c.fault == "flip" || c.fault == "garbage" || c.fault == "blank" {
			st.seen(h)
			if correct >= 0 {
				fail("prediction-after-failure:"+pg.name, "%s prints a prediction and then fails", pg.name)
			}
			return // refusing damaged data is always right
		}
		fail("crash:"+pg.name, "%s fails (exit code %d) on a well-formed data set: %.600s", pg.name, out.code, out.raw)
	}
	F := 1.0
	if !pg.mini {
		F = float64(1<<14) / float64(c.slots)
	}
	v := c.judge(out, z, y, F, F, 1, st, h)
	if v != nil && F > 1 {
		// A program whose row sums follow the number of slots instead of the
		// shipped constant is the same program at the shipped size.
		if c.judge(out, z, y, F, 1, 0.25, newStats(), h) == nil || c.judge(out, z, y, 1, F, 0.25, newStats(), h) == nil {
			st.add("geometry-variant")
			v = nil
		} else if c.judge(out, z, y, 1, 1, 0.25, newStats(), h) == nil {
			c.set["gamma"] *= F
			out2, err := lrExec(c, p.Seed)
			if err != nil {
				res.Err = err.Error()
				return
			}
			if out2.code == 0 && c.judge(out2, z, y, 1, 1, 1, st, h) == nil {
				st.add("geometry-variant")
				v = nil
			}
		}
	}
	if v != nil {
		panic(v)
	}
}

// judge compares what a completed program printed with training on the clear data.
func (c *lrCase) judge(out lrResult, z [][]float64, y []float64, fg, fu, strict float64, st *Stats, h uint64) (v *Violation) {
	defer func() {
		if e := recover(); e != nil {
			x, ok := e.(*Violation)
			if !ok {
				panic(e)
			}
			v = x
		}
	}()
	pg := c.pg
	correct := -1
	for _, l := range out.text {
		if strings.HasPrefix(l, "Correct") {
			f := strings.Fields(l)
			correct, _ = strconv.Atoi(f[len(f)-1])
		}
	}
	gamma, ok := out.set["gamma"]
	if !ok {
		st.add("not-simulated:" + pg.name)
		return
	}
	ref := lrTrain(c, z, y, gamma, fg, fu)
	if !(ref.big < 60 && ref.maxM < 25) {
		st.Trivial++
		st.add("diverged")
		return
	}
	st.seen(h)
	tol := strict * 0.0015 * (1 + ref.big)
	near := func(what string, got, want, tol float64) {
		d := math.Abs(got - want)
		if !(d <= tol) {
			fail("wrong-"+strings.Fields(what)[0]+":"+pg.name, "%s: %s is %.6g, training on the clear data gives %.6g (tolerance %.2g)", pg.name, what, got, want, tol)
		}
		st.ratio(pg.name+":"+strings.Fields(what)[0], d/tol)
	}
	if pg.printsBV {
		var bs, vs [][]complex128
		for _, l := range out.text {
			for k, pre := range []string{"beta:", "v:"} {
				if strings.HasPrefix(l, pre) {
					if v, ok := parseVec(l); ok {
						if k == 0 {
							bs = append(bs, v)
						} else {
							vs = append(vs, v)
						}
					}
				}
			}
		}
		for k, set := range [][][]complex128{bs, vs} {
			what, want := "beta", ref.beta
			if k == 1 {
				what, want = "v", ref.v
			}
			if len(set) != c.iters {
				fail("iterations:"+pg.name, "%s reports %d values of %s for %d iterations", pg.name, len(set), what, c.iters)
			}
			for a := range set {
				for j := range set[a] {
					if j < c.nfeat {
						near(fmt.Sprintf("%s feature %d after iteration %d", what, j, a), real(set[a][j]), want[a][j], tol)
						near(fmt.Sprintf("%s (imaginary part) feature %d after iteration %d", what, j, a), imag(set[a][j]), 0, tol)
					}
				}
				// the whole vector, when the message behind the line is known
				for _, t := range out.taps {
					if len(t) >= c.nfeat && len(set[a]) >= 2 && math.Abs(t[0]-real(set[a][0])) < 1e-9*(1+math.Abs(t[0])) && math.Abs(t[1]-real(set[a][1])) < 1e-9*(1+math.Abs(t[1])) {
						for j := 0; j < c.nfeat; j++ {
							near(fmt.Sprintf("%s feature %d after iteration %d", what, j, a), t[j], want[a][j], tol)
						}
						st.add("full-vectors")
						break
					}
				}
			}
		}
	}
	if pg.printsZ {
		for i, l := range out.text {
			if !strings.HasPrefix(l, "z:") {
				continue
			}
			k := 0
			for _, m := range out.text[i:] {
				v, ok := parseVec(m)
				if !ok {
					continue
				}
				if k >= 5 {
					break
				}
				o := []int{0, 5, 10, 15, 200}[k]
				k++
				for j := range v {
					row, col := (o+j)/pg.width, (o+j)%pg.width
					want := 0.0
					if row < c.batch && col < c.nfeat {
						want = ref.z[row][col]
					}
					near(fmt.Sprintf("z slot %d", o+j), real(v[j]), want, 1e-3*(1+math.Abs(want)))
				}
			}
			break
		}
	}
	// predictions
	rows := []int{pg.testRow}
	if pg.testRow < 0 {
		rows = rows[:0]
		for i := 0; i < c.rows; i++ {
			rows = append(rows, i)
		}
	}
	lo, hi := 0, 0
	for _, i := range rows {
		// error of the score: the model's error times the row, through the cubic
		norm, M := 0.0, 0.0
		for j := range ref.z[i] {
			norm += math.Abs(ref.z[i][j])
			M += ref.z[i][j] * ref.beta[len(ref.beta)-1][j]
		}
		if math.Abs(M) > 25 {
			hi++ // outside the range the programs are made for
			continue
		}
		slack := 0.002 + 0.25*tol*norm*(lrC1+3*math.Abs(lrC3)*M*M)
		s := ref.sig[i]
		up := s >= lrC0
		if (up && ref.y[i] == 1) || (!up && ref.y[i] == 0) {
			hi++
			if math.Abs(s-lrC0) > slack {
				lo++
			}
		} else if math.Abs(s-lrC0) <= slack {
			hi++
		}
		if len(out.taps) > 0 {
			best := math.Inf(1)
			for _, t := range out.taps {
				best = math.Min(best, math.Abs(t[0]-s))
			}
			if best > slack {
				fail("wrong-score:"+pg.name, "%s: the score of row %d should be %.6g; the closest decrypted value is off by %.3g (tolerance %.2g)", pg.name, i, s, best, slack)
			}
			st.ratio(pg.name+":score", best/slack)
		}
	}
	if correct < 0 {
		fail("no-prediction:"+pg.name, "%s ends successfully without reporting its predictions", pg.name)
	}
	if correct < lo || correct > hi {
		fail("wrong-prediction:"+pg.name, "%s reports %d correct predictions, the clear-text model gives between %d and %d", pg.name, correct, lo, hi)
	}
	return
}

func init() {
	register(&Prop{ID: "C13", Quick: 800, Thorough: 24000, Level: "exploration", Custom: lrRun,
		Gen: func(r *simrt.RNG, p *Plan) {
			c := &p.Cfg
			c.X = r.Intn(len(lrProgs))
			pg := lrProgs[c.X]
			c.LogN = 6 + r.Intn(3)
			if pg.toy {
				c.LogN = 7 + r.Intn(3)
			}
			if pg.name == "lr_toy" {
				c.LogN = 9
			}
			if r.Intn(40) == 0 {
				c.LogN++
			}
			s := Step{Op: "train", S: r.Next() >> 12}
			for i := 0; i < 8; i++ {
				s.A = append(s.A, int64(r.Intn(1<<16)))
			}
			p.Steps = []Step{s}
			kinds := []string{"missing", "dir", "cut", "cut", "boundary", "boundary", "lostrow", "extrarow", "columns", "columns", "garbage", "garbage", "garbage", "garbage", "garbage", "shortrow", "shortrow", "longrow", "flip", "eio", "eio"}
			if r.Intn(5) == 0 {
				kinds = []string{"blank", "short", "entshort", "entfail"} // training goes on, or fails later
			}
			if r.Intn(7) < 5 { // refused early, so these runs cost little
				n := 1
				if len(kinds) > 4 {
					n = 1 + r.Intn(10)
				}
				for i := 0; i < n; i++ {
					p.Steps = append(p.Steps, Step{Op: "fault", Fault: kinds[r.Intn(len(kinds))], S: r.Next() >> 12})
				}
			}
		},
		Rule: "one run = one training program, whole, as a process over a generated data set, with the simulator serving its entropy and its data file (most runs with one fault, or several executions with one fault of the data file each); counted once per distinct (program, ring, companies, iterations, batch layout, features, fault) tuple that trained to the end or had to refuse",
		Real: []string{"lr/*.go (complete programs)", "mkckks", "mkrlwe", "lattigo v2.3.0"},
		Stub: []string{"operating-system entropy (seeded stream, short reads, failure)", "data file (read errors, short reads, truncation, corruption, absence)", "sizes (ring degree, batch, rows) reduced from the shipped ones"}})
}
