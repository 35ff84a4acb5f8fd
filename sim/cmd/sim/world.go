package main

import (
	crand "crypto/rand"
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"os"
	"sort"
	"strings"
	"syscall"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"vsim/simrt"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

// ------------------------------------------------------------------ entropy

// entropy is the operating system's randomness as the simulator provides it: a
// stream of bytes, the same however it is portioned.
type entropy struct {
	rng    simrt.RNG
	srng   simrt.RNG
	buf    uint64
	left   int
	reads  int
	bytes  int
	short  bool // deliver fewer bytes than asked
	shorts int
}

func (e *entropy) Read(p []byte) (int, error) {
	e.reads++
	n := len(p)
	if e.short && n > 1 {
		n = 1 + e.srng.Intn(n)
		if n < len(p) {
			e.shorts++
		}
	}
	for i := 0; i < n; i++ {
		if e.left == 0 {
			e.buf, e.left = e.rng.Next(), 8
		}
		p[i] = byte(e.buf)
		e.buf >>= 8
		e.left--
	}
	e.bytes += n
	return n, nil
}

// ------------------------------------------------------------------- world

// Obj is a ciphertext together with what the reference model knows about it.
type Obj struct {
	ct   *mkckks.Ciphertext
	v    []complex128
	e    float64 // bound on the slot error
	ids  []string
	name int
	h    uint64             // content hash (C06)
	ver  map[string]int     // C10: generation of each party's key
	via  *job               // C09: produced by this job of the same worker
	twin *mkckks.Ciphertext // C05: what a partial decryption should have made of it
}

func (o *Obj) vmax() float64 {
	m := 0.0
	for _, x := range o.v {
		if a := cmplx.Abs(x); a > m {
			m = a
		}
	}
	return m
}

// Party is a data owner: its keys are durable, its generators are not.
type Party struct {
	id  string
	sk  *mkrlwe.SecretKey
	r   *mkrlwe.SecretKey
	pk  *mkrlwe.PublicKey
	rlk *mkrlwe.RelinearizationKey
	rtk map[uint]*mkrlwe.RotationKey
	own *mkrlwe.RotationKeySet // the set it keeps its rotation keys in
	cjk *mkrlwe.ConjugationKey
	ver int

	kg  *mkrlwe.KeyGenerator
	enc *mkckks.Encryptor
	dec *mkckks.Decryptor

	inbox map[string]*ring.Poly // storage it receives ciphertexts into
	asked int
}

type World struct {
	kept []keptMsg // messages of decryptions that are still in use

	plan *Plan
	st   *Stats
	cfg  Cfg
	ent  *entropy

	ckp    ckks.Parameters
	params mkckks.Parameters
	ringQ  *ring.Ring
	coder  ckks.Encoder

	parties []*Party
	byID    map[string]*Party
	skSet   *mkrlwe.SecretKeySet
	pkSet   *mkrlwe.PublicKeySet
	rlkSet  *mkrlwe.RelinearizationKeySet
	rtkSet  *mkrlwe.RotationKeySet
	cjkSet  *mkrlwe.ConjugationKeySet

	evs   []*evaluator
	hist  []uint64 // per evaluator: rolling signature of what ran on it
	objs  []*Obj
	hs    []*Hoist
	pts   []*Ptxt
	names int
	mbuf  *mkckks.Message

	retire  func(*Obj) // C06: told of every ciphertext that goes out of use
	lastV   []complex128
	alone   *ghost // C09: prepare from what a twin world computed
	kinds   int    // key material the parties publish
	step    int
	log     uint64
	obs     uint64 // hash of everything generated (C11)
	trace   []string
	tracing bool
	aborted bool

	picked, forced, lastPicks [2]*Obj
	lastStep                  Step
}

type Hoist struct {
	h   *mkrlwe.HoistedCiphertext
	o   *Obj
	hsh uint64
}

type Ptxt struct {
	pt *ckks.Plaintext
	v  []complex128
	h  uint64
}

func (w *World) logf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for i := 0; i < len(s); i++ {
		w.log = (w.log ^ uint64(s[i])) * 0x100000001b3
	}
	if w.tracing {
		w.trace = append(w.trace, s)
	}
}

var primeCache = map[string][]uint64{}

func primes(bits, logN, k int) []uint64 {
	key := fmt.Sprintf("%d/%d", bits, logN)
	if c := primeCache[key]; len(c) >= k {
		return c[:k]
	}
	c := ring.GenerateNTTPrimes(bits, 2<<uint(logN), k)
	primeCache[key] = c
	return c
}

// Parameter shapes used by the repository itself (tests and lr programs): the
// same prime chains, at a smaller ring degree.
var shapes = map[string]ckks.ParametersLiteral{
	"PN15QP880": {Q: []uint64{0xfffffffff6a0001, 0x3fffffffd60001, 0x3fffffffca0001, 0x3fffffff6d0001, 0x3fffffff5d0001,
		0x3fffffff550001, 0x3fffffff390001, 0x3fffffff360001, 0x3fffffff2a0001, 0x3fffffff000001, 0x3ffffffefa0001,
		0x3ffffffef40001, 0x3ffffffed70001, 0x3ffffffed30001}, P: []uint64{0x7ffffffffe70001, 0x7ffffffffe10001}, Scale: 1 << 54},
	"PN14QP439": {Q: []uint64{0x7ffffffffe70001, 0xffffffff00001, 0xfffffffe40001, 0xfffffffe20001, 0xfffffffbe0001, 0xfffffffa60001},
		P: []uint64{0xffffffffffc0001, 0xfffffffff840001}, Scale: 1 << 52},
	"LR": {Q: []uint64{0x80000000080001, 0x4000170001, 0x40002f0001, 0x3fffe80001, 0x4000300001, 0x40003f0001, 0x3fffcf0001,
		0x4000450001, 0x3fffc10001, 0x40004a0001, 0x3fffb80001, 0x3fffb70001, 0x4000510001, 0x3fffb20001, 0x4000540001,
		0x3fffaf0001, 0x4000560001, 0x4000590001, 0x3fff810001, 0x40006b0001, 0x4000720001},
		P: []uint64{0x40000001b0001, 0x4000000270001}, Scale: 1 << 38},
}

// sigma is the width of the error distribution.
func (c Cfg) sigma() float64 {
	if c.Sigma > 0 {
		return c.Sigma
	}
	return rlwe.DefaultSigma
}

func literal(c Cfg) ckks.ParametersLiteral {
	if s, ok := shapes[c.Shape]; ok {
		s.LogN, s.LogSlots, s.Sigma = c.LogN, c.LogSlots, c.sigma()
		if c.QCount > 0 && c.QCount < len(s.Q) {
			s.Q = s.Q[:c.QCount]
		}
		return s
	}
	q0, qs, ps := []uint64{}, []uint64{}, []uint64{}
	n := c.LogN
	// bits can coincide: carve disjoint ranges out of one generated list
	need := map[int]int{}
	need[c.Q0]++
	need[c.QBits] += c.QCount - 1
	need[c.PBits] += c.PCount
	pool := map[int][]uint64{}
	for b, k := range need {
		if k > 0 {
			pool[b] = primes(b, n, k+24)[:k]
		}
	}
	take := func(b, k int) (r []uint64) {
		r = append(r, pool[b][:k]...)
		pool[b] = pool[b][k:]
		return
	}
	q0 = take(c.Q0, 1)
	if c.QCount > 1 {
		qs = take(c.QBits, c.QCount-1)
	}
	ps = take(c.PBits, c.PCount)
	return ckks.ParametersLiteral{LogN: n, LogSlots: c.LogSlots, Q: append(q0, qs...), P: ps, Scale: c.Scale, Sigma: c.sigma()}
}

// renew puts the packages under test back to how they start, except in one of
// four runs, which go on with what earlier runs of the process left in their
// variables.
func (w *World) renew() { renew(w.plan) }

func renew(p *Plan) {
	if simrt.Mix(p.Seed, 0x4e57)%4 != 0 {
		reset()
	}
}

func reset() {
	crand.Reader = &entropy{rng: simrt.RNG{S: 0x4e57}}
	simrt.SetMapOrder(0, 0)
	simrt.Reset()
}

// startReset makes the start of the process itself repeatable. An initialiser
// that works only once makes that impossible: the process then starts again and
// leaves the variables alone.
func startReset() {
	if os.Getenv("SIM_NORESET") != "" {
		simrt.NoReset()
		return
	}
	defer func() {
		if e := recover(); e != nil {
			self, err := os.Executable()
			if err == nil {
				err = syscall.Exec(self, os.Args, append(os.Environ(), "SIM_NORESET=1"))
			}
			panic(fmt.Sprintf("harness: %v %v", e, err))
		}
	}()
	reset()
}

func newWorld(p *Plan, st *Stats, tracing bool) *World {
	w := &World{plan: p, st: st, cfg: p.Cfg, byID: map[string]*Party{}, log: 0xcbf29ce484222325, tracing: tracing}
	w.ent = &entropy{rng: simrt.RNG{S: simrt.Mix(p.Seed, 0xe47)}, srng: simrt.RNG{S: simrt.Mix(p.Seed, 0x54)}}
	crand.Reader = w.ent
	simrt.SetMapOrder(p.Cfg.MapMode, simrt.Mix(p.Seed, 0x3a9))
	lit := literal(p.Cfg)
	var err error
	w.ckp, err = ckks.NewParametersFromLiteral(lit)
	if err != nil {
		panic(fmt.Sprintf("harness: parameters: %v", err))
	}
	w.coder = ckks.NewEncoder(w.ckp)
	w.params = mkckks.NewParameters(w.ckp)
	w.ringQ = w.ckp.RingQ()
	w.skSet = mkrlwe.NewSecretKeySet()
	w.pkSet = mkrlwe.NewPublicKeyKeySet()
	w.rlkSet = mkrlwe.NewRelinearizationKeyKeySet(w.params.Parameters)
	w.rtkSet = mkrlwe.NewRotationKeySet()
	w.cjkSet = mkrlwe.NewConjugationKeySet()
	return w
}

const (
	kPK = 1 << iota
	kRLK
	kRTK
	kCJK
)

func (w *World) genSK(kg *mkrlwe.KeyGenerator, id string) *mkrlwe.SecretKey {
	switch w.cfg.SK {
	case 1:
		return kg.GenSecretKeySparse(w.params.N()/4, id)
	case 2:
		return kg.GenSecretKeyWithDistrib(1.0/3, id)
	case 3:
		return kg.GenSecretKeyGaussian(id)
	}
	return kg.GenSecretKey(id)
}

func (w *World) addParty(id string, kinds int) *Party {
	p := &Party{id: id, rtk: map[uint]*mkrlwe.RotationKey{}}
	w.parties = append(w.parties, p)
	w.byID[id] = p
	w.boot(p)
	w.rekey(p, kinds)
	return p
}

// boot (re)creates everything of a party that does not survive a crash.
func (w *World) boot(p *Party) {
	p.kg = mkckks.NewKeyGenerator(w.params)
	p.enc = mkckks.NewEncryptor(w.params)
	p.dec = mkckks.NewDecryptor(w.params)
}

func (w *World) rekey(p *Party, kinds int) {
	p.ver++
	p.sk = w.genSK(p.kg, p.id)
	p.r = w.genSK(p.kg, p.id)
	p.pk = p.kg.GenPublicKey(p.sk)
	w.skSet.AddSecretKey(p.sk)
	w.pkSet.AddPublicKey(p.pk)
	if kinds&kRLK != 0 {
		p.rlk = p.kg.GenRelinearizationKey(p.sk, p.r)
		w.rlkSet.AddRelinearizationKey(p.rlk)
	}
	if kinds&kRTK != 0 {
		p.kg.GenDefaultRotationKeys(p.sk, w.rtkSet)
		for k, rk := range w.rtkSet.Value[p.id] {
			p.rtk[k] = rk
		}
	}
	if kinds&kCJK != 0 {
		p.cjk = p.kg.GenConjugationKey(p.sk)
		w.cjkSet.AddConjugationKey(p.cjk)
	}
}

func (w *World) setup(kinds int, parties bool) {
	w.kinds = kinds
	if parties {
		for _, id := range w.cfg.IDs {
			w.addParty(id, kinds)
		}
	}
	n := w.cfg.Evals
	if n < 1 {
		n = 1
	}
	for i := 0; i < n; i++ {
		w.evs = append(w.evs, w.newEv())
		w.hist = append(w.hist, 0)
	}
}

// ------------------------------------------------------------------- oracle

// s2 is the expected square of a secret key coefficient.
func (w *World) s2() float64 {
	switch w.cfg.SK {
	case 1:
		return 0.25
	case 2:
		return 0.67
	case 3:
		return w.cfg.sigma()*w.cfg.sigma() + 0.1
	}
	return 0.5
}

const sigmas = 40.0 // every bound is this many standard deviations

func (w *World) n() float64 { return float64(w.params.N()) }

// freshErr bounds the slot error of a fresh encryption at the given scale.
func (w *World) freshErr(scale float64) float64 {
	n := w.n()
	sd := w.cfg.sigma() * math.Sqrt(1+n/2+n*w.s2())
	return sigmas*math.Sqrt(n)*(sd+0.5)/scale + 1e-10
}

// roundErr bounds the slot error of dividing k+1 components with rounding.
func (w *World) roundErr(k int, scale float64) float64 {
	n := w.n()
	sd := 0.5 * math.Sqrt(1+float64(k)*n*w.s2())
	return sigmas * math.Sqrt(n) * sd / scale
}

// ksErr bounds the slot error of key switching k components (relative to scale).
func (w *World) ksErr(k, level int, scale float64) float64 {
	n := w.n()
	Q, P := w.ringQ.Modulus, w.ckp.RingP().Modulus
	alpha := len(P) / 2
	logP := 0.0
	for _, p := range P {
		logP += math.Log2(float64(p))
	}
	logD := 0.0
	beta := 0
	for i := 0; i <= level; i += alpha {
		d := 0.0
		for j := i; j < i+alpha && j <= level; j++ {
			d += math.Log2(float64(Q[j]))
		}
		if d > logD {
			logD = d
		}
		beta++
	}
	// gadget noise of a single product, and the rounding of the division by P
	g := math.Exp2(logD-logP) * w.cfg.sigma() * n * float64(beta*len(P))
	sd := float64(len(P)+1) * math.Sqrt(1+n*w.s2())
	return sigmas * math.Sqrt(n) * float64(k) * (sd + g) / scale
}

// mulErr bounds the relinearization noise of a product over k components.
func (w *World) mulErr(k, level int, scale float64) float64 {
	n := w.n()
	Q, P := w.ringQ.Modulus, w.ckp.RingP().Modulus
	alpha := len(P) / 2
	logP := 0.0
	for _, p := range P {
		logP += math.Log2(float64(p))
	}
	logD := 0.0
	beta := 0
	for i := 0; i <= level; i += alpha {
		d := 0.0
		for j := i; j < i+alpha && j <= level; j++ {
			d += math.Log2(float64(Q[j]))
		}
		if d > logD {
			logD = d
		}
		beta++
	}
	kb := float64(k * beta * len(P))
	g := math.Exp2(2*logD-logP) * w.cfg.sigma() * n * n * kb * kb * (1 + w.s2())
	sd := kb * float64(len(P)+1) * n * (1 + w.s2())
	return sigmas * math.Sqrt(n) * (g + sd) / scale
}

func (w *World) logQ(level int) float64 {
	s := 0.0
	for i := 0; i <= level; i++ {
		s += math.Log2(float64(w.ringQ.Modulus[i]))
	}
	return s
}

// fits reports whether values of magnitude v survive at this scale and level.
func (w *World) fits(v, scale float64, level int) bool {
	if level < 0 {
		return false
	}
	return math.Log2(maxf(v, 1))+math.Log2(scale)+4 < w.logQ(level)
}

// phase computes c0 + sum c_i s_i in the coefficient domain, independently of
// the library's decryptor.
func (w *World) phase(ct *mkrlwe.Ciphertext, sks map[string]*mkrlwe.SecretKey) (*ring.Poly, error) {
	c0, ok := ct.Value["0"]
	if !ok {
		return nil, fmt.Errorf("component 0 is missing")
	}
	level := len(c0.Coeffs) - 1
	if level < 0 {
		return nil, fmt.Errorf("no residues left")
	}
	rq := w.ringQ
	toCoef := func(p *ring.Poly) (*ring.Poly, error) {
		if len(p.Coeffs) < level+1 {
			return nil, fmt.Errorf("component has %d residues, component 0 has %d", len(p.Coeffs), level+1)
		}
		q := ring.NewPoly(rq.N, level+1)
		for i := 0; i <= level; i++ {
			copy(q.Coeffs[i], p.Coeffs[i])
		}
		rq.ReduceLvl(level, q, q)
		if p.IsNTT {
			rq.InvNTTLvl(level, q, q)
		}
		return q, nil
	}
	acc, err := toCoef(c0)
	if err != nil {
		return nil, err
	}
	ids := make([]string, 0, len(ct.Value))
	for id := range ct.Value {
		if id != "0" {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		sk := sks[id]
		if sk == nil {
			return nil, fmt.Errorf("unknown party %q", id)
		}
		c, err := toCoef(ct.Value[id])
		if err != nil {
			return nil, err
		}
		rq.NTTLvl(level, c, c)
		rq.MulCoeffsMontgomeryLvl(level, c, sk.Value.Q, c)
		rq.InvNTTLvl(level, c, c)
		rq.AddLvl(level, acc, c, acc)
	}
	rq.ReduceLvl(level, acc, acc)
	return acc, nil
}

func (w *World) sks() map[string]*mkrlwe.SecretKey {
	m := map[string]*mkrlwe.SecretKey{}
	for _, p := range w.parties {
		m[p.id] = p.sk
	}
	return m
}

// open decrypts with the oracle.
func (w *World) open(ct *mkckks.Ciphertext, sks map[string]*mkrlwe.SecretKey) (v []complex128, err error) {
	ph, err := w.phase(ct.Ciphertext, sks)
	if err != nil {
		return nil, err
	}
	return w.decode(ph, ct.Scale), nil
}

func (w *World) decode(ph *ring.Poly, scale float64) []complex128 {
	pt := &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: ph}, Scale: scale}
	ph.IsNTT = false
	return w.coder.Decode(pt, w.cfg.LogSlots)
}

func diff(a, b []complex128) float64 {
	if len(a) != len(b) {
		return math.Inf(1)
	}
	m := 0.0
	for i := range a {
		d := cmplx.Abs(a[i] - b[i])
		if math.IsNaN(d) {
			return math.Inf(1)
		}
		if d > m {
			m = d
		}
	}
	return m
}

// centered returns the signed integer coefficients of a coefficient-domain poly.
func (w *World) centered(p *ring.Poly) []*big.Int {
	level := len(p.Coeffs) - 1
	Q := big.NewInt(1)
	for i := 0; i <= level; i++ {
		Q.Mul(Q, new(big.Int).SetUint64(w.ringQ.Modulus[i]))
	}
	half := new(big.Int).Rsh(Q, 1)
	out := make([]*big.Int, w.ringQ.N)
	for i := range out {
		out[i] = new(big.Int)
	}
	w.ringQ.PolyToBigintLvl(level, p, out)
	for _, x := range out {
		if x.Cmp(half) > 0 {
			x.Sub(x, Q)
		}
	}
	return out
}

// ------------------------------------------------------------------- hashes

func hashPoly(h uint64, p *ring.Poly) uint64 {
	if p == nil {
		return simrt.Mix(h, 0xdead)
	}
	f := uint64(0)
	if p.IsNTT {
		f = 1
	}
	h = (h ^ uint64(len(p.Coeffs)) ^ f<<32) * 0x9e3779b97f4a7c15
	for _, c := range p.Coeffs {
		for _, x := range c {
			h = (h ^ x) * 0xff51afd7ed558ccd
			h ^= h >> 29
		}
	}
	return h
}

func hashCt(ct *mkckks.Ciphertext) uint64 {
	h := hashRCt(ct.Ciphertext)
	return simrt.Mix(h, math.Float64bits(ct.Scale))
}

func hashRCt(ct *mkrlwe.Ciphertext) uint64 {
	ids := make([]string, 0, len(ct.Value))
	for id := range ct.Value {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	h := uint64(len(ids))
	for _, id := range ids {
		for i := 0; i < len(id); i++ {
			h = (h ^ uint64(id[i])) * 0x100000001b3
		}
		h = hashPoly(h, ct.Value[id])
	}
	return h
}

func hashSwk(h uint64, s *mkrlwe.SwitchingKey) uint64 {
	if s == nil {
		return simrt.Mix(h, 0xbeef)
	}
	for i := range s.Value {
		h = hashPoly(h, s.Value[i].Q)
		h = hashPoly(h, s.Value[i].P)
	}
	return h
}

// sameRing compares two ciphertexts as ring elements (residues modulo q).
func (w *World) sameRing(a, b *mkckks.Ciphertext) string {
	if a.Scale != b.Scale {
		return fmt.Sprintf("scale %g vs %g", a.Scale, b.Scale)
	}
	return w.sameRingR(a.Ciphertext, b.Ciphertext)
}

func (w *World) sameRingR(a, b *mkrlwe.Ciphertext) string {
	if len(a.Value) != len(b.Value) {
		return fmt.Sprintf("%d components vs %d", len(a.Value), len(b.Value))
	}
	for id, p := range a.Value {
		q, ok := b.Value[id]
		if !ok {
			return fmt.Sprintf("component %q missing", id)
		}
		if len(p.Coeffs) != len(q.Coeffs) {
			return fmt.Sprintf("component %q: level %d vs %d", id, len(p.Coeffs)-1, len(q.Coeffs)-1)
		}
		if p.IsNTT != q.IsNTT {
			return fmt.Sprintf("component %q: domain flag differs", id)
		}
		for i := range p.Coeffs {
			qi := w.ringQ.Modulus[i]
			for j := range p.Coeffs[i] {
				if p.Coeffs[i][j]%qi != q.Coeffs[i][j]%qi {
					return fmt.Sprintf("component %q residue %d coefficient %d differs", id, i, j)
				}
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- operations

// attempt runs f as one operation of the system under test. Injected aborts and
// panics of the library are separated; anything else propagates.
const stepBudget = 400_000_000

type outcome struct {
	ok      bool
	aborted bool
	site    int // statement at which an injected abort hit
	panicV  any // what the library panicked with
}

func (o outcome) String() string {
	switch {
	case o.ok:
		return "ok"
	case o.aborted:
		return "aborted"
	}
	s := fmt.Sprint(o.panicV)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return "panic: " + s
}

func (w *World) attempt(abort uint64, f func()) (out outcome) {
	defer func() {
		simrt.ArmCrash(0)
		simrt.ArmLimit(0)
		if e := recover(); e != nil {
			switch x := e.(type) {
			case simrt.Crash:
				out = outcome{aborted: true, site: x.Site}
				w.st.fault("abort-mid-operation")
			case *Violation:
				panic(x)
			default:
				out = outcome{panicV: e}
			}
		}
	}()
	if abort > 0 {
		simrt.ArmCrash(abort)
	}
	simrt.ArmLimit(stepBudget)
	f()
	return outcome{ok: true}
}

func (w *World) idset(ids []string) *mkrlwe.IDSet {
	s := mkrlwe.NewIDSet()
	for _, id := range ids {
		s.Add(id)
	}
	return s
}

func union(a, b []string) []string {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	r := make([]string, 0, len(m))
	for x := range m {
		r = append(r, x)
	}
	sort.Strings(r)
	return r
}

// values generates a message.
func (w *World) values(seed uint64, class int) []complex128 {
	r := simrt.NewRNG(seed)
	n := 1 << uint(w.cfg.LogSlots)
	v := make([]complex128, n)
	f := func() float64 { return 2*r.Float() - 1 }
	switch ((class % 12) + 12) % 12 {
	case 0, 1, 2, 3:
		for i := range v {
			v[i] = complex(f(), f())
		}
	case 4: // real
		for i := range v {
			v[i] = complex(f(), 0)
		}
	case 5: // one non-zero slot
		v[r.Intn(n)] = complex(f(), f())
	case 6: // small integers
		for i := range v {
			v[i] = complex(float64(r.Intn(7)-3), float64(r.Intn(7)-3))
		}
	case 8: // large
		for i := range v {
			v[i] = complex(1000*f(), 1000*f())
		}
	case 9: // small
		for i := range v {
			v[i] = complex(1e-3*f(), 1e-3*f())
		}
	case 10: // one slot far above the others
		for i := range v {
			v[i] = complex(f()/64, f()/64)
		}
		v[r.Intn(n)] = complex(500*f(), 500*f())
	case 11: // zero
	case 7: // constant
		c := complex(f(), f())
		if r.Intn(2) == 0 {
			c = []complex128{1, -1, 0.5, 2, 1i}[r.Intn(5)]
		}
		for i := range v {
			v[i] = c
		}
	}
	return v
}

func (w *World) msg(v []complex128) *mkckks.Message {
	m := mkckks.NewMessage(w.params)
	copy(m.Value, v)
	return m
}

// msgOf is msg, but may hand out the same message object again and again, with
// new content each time, as clients do.
func (w *World) msgOf(v []complex128, s Step) *mkckks.Message {
	if s.S&3 == 0 {
		return w.msg(v)
	}
	if w.mbuf == nil {
		w.mbuf = w.msg(v)
	}
	copy(w.mbuf.Value, v)
	return w.mbuf
}

func (w *World) push(o *Obj) *Obj {
	o.name = w.names
	w.names++
	w.objs = append(w.objs, o)
	if len(w.objs) > 14 {
		if w.retire != nil {
			w.retire(w.objs[0])
		}
		w.objs = w.objs[1:]
	}
	return o
}

func (w *World) pick(s Step, i int) *Obj {
	if len(w.objs) == 0 {
		return nil
	}
	if i < len(w.forced) && w.forced[i] != nil {
		return w.forced[i]
	}
	o := w.objs[s.sel(i, len(w.objs))]
	if i < len(w.picked) {
		w.picked[i] = o
	}
	return o
}

// again is build, which also understands the step "redo": the operation built
// last is asked for once more with the same objects, after one of them has been
// filled with something else or a key has been replaced.
func (w *World) again(s Step) *call {
	if s.Op != "redo" {
		w.picked = [2]*Obj{}
		c := w.build(s)
		w.lastStep = Step{}
		if c != nil && !c.inplace {
			w.lastStep, w.lastPicks = s, w.picked
		}
		return c
	}
	l := w.lastStep
	if l.Op == "" {
		return nil
	}
	for _, o := range w.lastPicks {
		if o != nil && !w.has(o) {
			return nil
		}
	}
	t := s
	if o := w.lastPicks[s.sel(0, 2)]; o != nil {
		w.forced[0] = o
		switch s.sel(1, 4) {
		case 0:
			w.overwriteStep(t)
		case 1:
			t.Abort = 0
			w.encintoStep(t)
		case 2:
			w.republish(s, o)
		}
		if !w.has(o) {
			w.forced = [2]*Obj{}
			return nil
		}
	}
	w.forced = w.lastPicks
	c := w.build(l)
	w.forced = [2]*Obj{}
	if c != nil {
		w.st.add("redone")
	}
	return c
}

func (w *World) has(o *Obj) bool {
	for _, x := range w.objs {
		if x == o {
			return true
		}
	}
	return false
}

// republish replaces a key of a party by another one for the same secret.
func (w *World) republish(s Step, o *Obj) {
	if len(o.ids) == 0 {
		return
	}
	p := w.byID[o.ids[s.sel(2, len(o.ids))]]
	if p == nil {
		return
	}
	out := w.attempt(0, func() {
		if w.kinds&kRLK != 0 {
			rlk := p.kg.GenRelinearizationKey(p.sk, p.r)
			w.rlkSet.AddRelinearizationKey(rlk)
			p.rlk = rlk
		}
		if w.kinds&kRTK != 0 {
			p.kg.GenDefaultRotationKeys(p.sk, w.rtkSet)
			for k, rk := range w.rtkSet.Value[p.id] {
				p.rtk[k] = rk
			}
		}
		if w.kinds&kCJK != 0 {
			cjk := p.kg.GenConjugationKey(p.sk)
			w.cjkSet.AddConjugationKey(cjk)
			p.cjk = cjk
		}
	})
	w.logf("republish %q %v", p.id, out)
	w.st.add("republish")
}

// pickMulti is pick, but favours ciphertexts of several parties.
func maxf(a, b float64) float64 {
	if a > b {
		return a
	}
	return b
}

func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}
