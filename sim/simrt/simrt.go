// Package simrt is the runtime of the deterministic simulator. The code under
// test is compiled from /repo's current tree with three mechanical rewrites
// (cmd/instr): a call Y(site) before every statement, seeded iteration order
// for every range over a map, and go statements / package sync routed to the
// cooperative scheduler below. Nothing in this package reads a real clock or a
// real random source: who runs next, where an operation is aborted and in
// which order a map is walked are all functions of the plan being executed.
package simrt

import (
	"fmt"
	"sort"
)

// ---------------------------------------------------------------- randomness

// RNG is splitmix64.
type RNG struct{ S uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{S: seed} }

func (r *RNG) Next() uint64 {
	r.S += 0x9e3779b97f4a7c15
	z := r.S
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *RNG) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

func (r *RNG) Float() float64 { return float64(r.Next()>>11) / (1 << 53) }

func (r *RNG) P(p float64) bool { return r.Float() < p }

// Mix derives an independent seed.
func Mix(a uint64, bs ...uint64) uint64 {
	r := RNG{S: a}
	h := r.Next()
	for _, b := range bs {
		r.S = h ^ (b * 0xff51afd7ed558ccd) ^ 0x2545f4914f6cdd1d
		h = r.Next()
	}
	return h
}

// ------------------------------------------------------------------ map order

var mapRNG = RNG{S: 1}
var mapMode int // 0 sorted, 1 reverse, 2 shuffled

// SetMapOrder fixes how every instrumented map iteration is ordered from now on.
func SetMapOrder(mode int, seed uint64) { mapMode, mapRNG.S = mode, seed }

// MapRanges counts instrumented map iterations over maps with two or more keys.
var MapRanges uint64

// Iter walks the keys a map had when the loop started, in an order decided by
// the simulator; entries deleted meanwhile are skipped, values are read late.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func (it *Iter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func Iter0[M ~map[K]V, K comparable, V any](m M) *Iter[K, V] {
	n := len(m)
	es := make([]K, 0, n)
	for k := range m {
		es = append(es, k)
	}
	it := &Iter[K, V]{m: m, keys: es}
	if n < 2 {
		return it
	}
	MapRanges++
	sort.Slice(es, func(i, j int) bool { return less(any(es[i]), any(es[j])) })
	switch mapMode {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			es[i], es[j] = es[j], es[i]
		}
	case 2:
		for i := n - 1; i > 0; i-- {
			j := mapRNG.Intn(i + 1)
			es[i], es[j] = es[j], es[i]
		}
	}
	return it
}

func IterKV[M ~map[K]V, K comparable, V any](m M) (it *Iter[K, V], k K, v V) {
	return Iter0(m), k, v
}
func IterK[M ~map[K]V, K comparable, V any](m M) (it *Iter[K, V], k K) { return Iter0(m), k }
func IterV[M ~map[K]V, K comparable, V any](m M) (it *Iter[K, V], v V) { return Iter0(m), v }

func less(a, b any) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case int:
		return x < b.(int)
	case uint:
		return x < b.(uint)
	case uint64:
		return x < b.(uint64)
	case int64:
		return x < b.(int64)
	case uint32:
		return x < b.(uint32)
	case int32:
		return x < b.(int32)
	}
	return fmt.Sprintf("%v", a) < fmt.Sprintf("%v", b)
}

// ------------------------------------------------------------------ scheduler

// Crash is the panic value of an injected abort.
type Crash struct{ Site int }

func (c Crash) Error() string { return fmt.Sprintf("simulated abort at site %d", c.Site) }

// Runaway is raised when one step executes more yields than any legal step can.
type Runaway struct{}

func (Runaway) Error() string { return "operation exceeded its step budget" }

// Deadlock is raised when every task is blocked.
type Deadlock struct{}

func (Deadlock) Error() string { return "all tasks are blocked" }

// TaskPanic wraps a panic of a task the code under test started itself.
type TaskPanic struct{ V any }

func (t TaskPanic) Error() string {
	return fmt.Sprintf("goroutine started by the library panicked: %v", t.V)
}

type task struct {
	id   int
	ch   chan struct{}
	done bool
	g    uintptr
}

// Switch is one scheduling decision: at global yield N run task To.
type Switch struct {
	N  uint64 `json:"n"`
	To int    `json:"to"`
}

const never = ^uint64(0)

var (
	n       uint64         // yields so far
	next    uint64 = never // next yield at which slow() has something to do
	crashAt uint64 = never
	limitAt uint64 = never
	schedAt uint64 = never

	tasks   []*task
	cur     *task
	inSched bool

	// random schedule
	sRNG    RNG
	meanGap int
	novelty int // preempt before one in so many first executions
	// fixed schedule
	fixed    []Switch
	fixedPos int
	useFixed bool
	// recording
	Recorded   []Switch
	SwitchHash uint64
	Switches   uint64
	pendPanic  any

	siteHits [1 << 15]bool
	siteLast [1 << 15]uint64
	siteFrst [1 << 15]uint64 // first execution since mark
	mark     uint64
	NSites   int
)

// Y is called before every statement of the code under test.
func Y(site int) {
	n++
	siteHits[site&(1<<15-1)] = true
	if siteLast[site&(1<<15-1)] <= mark {
		siteFrst[site&(1<<15-1)] = n
		if novelty > 0 {
			siteLast[site&(1<<15-1)] = n
			novel(site)
		}
	}
	siteLast[site&(1<<15-1)] = n
	if n >= next {
		slow(site)
	}
}

// Deps makes the statements of lattigo that were instrumented count as well.
var Deps bool

// D is called before every instrumented statement of lattigo.
func D(site int) {
	if Deps {
		Y(site)
	}
}

// Sites returns how many distinct statements have executed in this process.
func Sites() (c int) {
	for _, b := range siteHits {
		if b {
			c++
		}
	}
	return
}

func SiteBits() []int {
	var out []int
	for i, b := range siteHits {
		if b {
			out = append(out, i)
		}
	}
	return out
}

func Yields() uint64 { return n }

// Mark starts an observation; Hits lists, for every statement executed since,
// when it executed first and when it executed last.
func Mark() { mark = n }

func Hits() (r []uint64) {
	for i, x := range siteLast {
		if x > mark && x <= n {
			r = append(r, x-mark)
			if f := siteFrst[i]; f != x {
				r = append(r, f-mark)
			}
		}
	}
	return
}

func rearm() {
	next = crashAt
	if limitAt < next {
		next = limitAt
	}
	if schedAt < next {
		next = schedAt
	}
}

// ArmCrash aborts the code under test after k more yields (0: disarm).
func ArmCrash(k uint64) {
	if k == 0 {
		crashAt = never
	} else {
		crashAt = n + k
	}
	rearm()
}

// CrashArmed reports whether the armed abort has not fired yet.
func CrashArmed() bool { return crashAt != never }

// ArmLimit raises Runaway after k more yields.
func ArmLimit(k uint64) {
	if k == 0 {
		limitAt = never
	} else {
		limitAt = n + k
	}
	rearm()
}

func slow(site int) {
	if inSched && cur != nil && cur.g != 0 && cur.g != getg() {
		return // a goroutine the simulator does not own (fallback build only)
	}
	if n >= crashAt {
		crashAt = never
		rearm()
		panic(Crash{site})
	}
	if n >= limitAt {
		limitAt = never
		rearm()
		panic(Runaway{})
	}
	if n >= schedAt {
		decide(site)
	}
}

// novel is called when a statement executes for the first time since Mark.
func novel(site int) {
	if !inSched || useFixed || len(tasks) < 2 || cur == nil || cur.g != 0 && cur.g != getg() {
		return
	}
	if sRNG.Intn(novelty) == 0 {
		decide(site)
	}
}

func armSched() {
	schedAt = never
	if inSched && len(tasks) > 1 {
		if useFixed {
			if fixedPos < len(fixed) {
				schedAt = fixed[fixedPos].N
			}
		} else {
			schedAt = n + 1 + uint64(gap())
		}
	}
	rearm()
}

func gap() int {
	// geometric-ish with the chosen mean, heavy at small values
	g := sRNG.Intn(2*meanGap + 1)
	if novelty == 0 && sRNG.Intn(4) == 0 {
		g = sRNG.Intn(4)
	}
	return g
}

func runnable() (rs []*task) {
	for _, t := range tasks {
		if !t.done {
			rs = append(rs, t)
		}
	}
	return
}

func decide(site int) {
	var to *task
	if useFixed {
		for fixedPos < len(fixed) && fixed[fixedPos].N <= n {
			id := fixed[fixedPos].To
			fixedPos++
			for _, t := range tasks {
				if t.id == id && !t.done {
					to = t
				}
			}
		}
	} else {
		rs := runnable()
		to = rs[sRNG.Intn(len(rs))]
	}
	if to != nil && to != cur {
		if !useFixed {
			Recorded = append(Recorded, Switch{n, to.id})
		}
		SwitchHash = Mix(SwitchHash, uint64(site), uint64(cur.id), uint64(to.id))
		Switches++
		armSched()
		handoff(to)
		return
	}
	armSched()
}

func handoff(to *task) {
	me := cur
	cur = to
	to.ch <- struct{}{}
	if me != nil && !me.done {
		<-me.ch
	}
	if pendPanic != nil && cur != nil && cur.id == 0 {
		p := pendPanic
		pendPanic = nil
		panic(TaskPanic{p})
	}
}

// Block is called by a task that cannot proceed; it runs somebody else.
func Block() {
	if !inSched {
		panic(Deadlock{})
	}
	var rs []*task
	for _, t := range tasks {
		if !t.done && t != cur {
			rs = append(rs, t)
		}
	}
	if len(rs) == 0 {
		panic(Deadlock{})
	}
	n++
	if n >= limitAt {
		limitAt = never
		rearm()
		panic(Runaway{})
	}
	to := rs[int(Mix(n, uint64(cur.id))%uint64(len(rs)))]
	armSched()
	handoff(to)
}

// Go starts a task under the scheduler.
func Go(f func()) {
	if !inSched {
		panic("simrt.Go outside a simulated run")
	}
	t := &task{id: len(tasks), ch: make(chan struct{})}
	tasks = append(tasks, t)
	go func() {
		<-t.ch
		t.g = getg()
		defer func() {
			if e := recover(); e != nil && pendPanic == nil {
				pendPanic = e
			}
			t.done = true
			finish(t)
		}()
		if aborting {
			return
		}
		f()
	}()
	armSched()
}

var aborting bool

func finish(t *task) {
	// hand the baton on; task 0 (the driver) is always there
	rs := runnable()
	if len(rs) == 0 {
		return
	}
	var to *task
	if pendPanic != nil || aborting {
		to = tasks[0]
	} else {
		to = rs[int(Mix(n, uint64(t.id), 7)%uint64(len(rs)))]
	}
	armSched()
	cur = to
	to.ch <- struct{}{}
}

// Alive returns the number of unfinished tasks other than the driver.
func Alive() (c int) {
	for _, t := range tasks[1:] {
		if !t.done {
			c++
		}
	}
	return
}

// Join runs the other tasks until all have finished.
func Join() {
	for Alive() > 0 {
		Block()
	}
}

// Run executes f as task 0 of a fresh scheduler.
func Run(f func()) {
	tasks = []*task{{id: 0, ch: make(chan struct{}), g: getg()}}
	cur = tasks[0]
	n = 0
	siteLast = [1 << 15]uint64{}
	mark = 0
	inSched = true
	pendPanic = nil
	aborting = false
	Recorded = nil
	SwitchHash = 0
	Switches = 0
	crashAt, limitAt, schedAt = never, never, never
	useFixed, fixed, fixedPos = false, nil, 0
	meanGap, novelty = 200, 0
	sRNG.S = 1
	rearm()
	defer func() {
		// abandon tasks the code under test left behind (they stay parked)
		inSched = false
		crashAt, limitAt, schedAt = never, never, never
		rearm()
	}()
	f()
}

// RandomSchedule makes the scheduler choose switches from a seed.
func RandomSchedule(seed uint64, mean int) {
	sRNG.S = seed
	if mean < 1 {
		mean = 1
	}
	meanGap = mean
	useFixed = false
	Recorded = nil
	armSched()
}

// NovelSchedule makes the scheduler preempt mostly where a statement is about to
// execute for the first time (one in k of them), and then for long.
func NovelSchedule(seed uint64, mean, k int) {
	RandomSchedule(seed, mean)
	novelty = k
	armSched()
	Mark()
}

// FixedSchedule makes the scheduler follow the listed switches exactly.
func FixedSchedule(s []Switch) {
	fixed, fixedPos, useFixed = s, 0, true
	armSched()
}

// TapFn, when set, is shown every message the code under test decrypts.
var TapFn func(x interface{})

func Tap(x interface{}) {
	if TapFn != nil {
		TapFn(x)
	}
}

// ------------------------------------------------- package-level variables

// A package under test registers how its variables are put back to zero and how
// they are initialised, in the order the language prescribes.
type initialiser struct {
	pkg, seq int
	f        func()
}

var zeros []func()
var inits []initialiser
var initsSorted, noReset bool

// Renewed counts the resets that had something to reset.
var Renewed uint64

// Zero sets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

func OnZero(f func()) { zeros = append(zeros, f) }

func OnInit(pkg, seq int, f func()) { inits = append(inits, initialiser{pkg, seq, f}) }

// NoReset switches Reset off.
func NoReset() { noReset = true }

// Reset puts the package-level variables of the code under test back to what
// they are when a process starts.
func Reset() {
	if noReset || len(zeros) == 0 {
		return
	}
	if !initsSorted {
		sort.SliceStable(inits, func(i, j int) bool {
			if inits[i].pkg != inits[j].pkg {
				return inits[i].pkg < inits[j].pkg
			}
			return inits[i].seq < inits[j].seq
		})
		initsSorted = true
	}
	for _, f := range zeros {
		f()
	}
	for _, i := range inits {
		i.f()
	}
	Renewed++
}
