package main

import (
	"fmt"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"vsim/simrt"
)

// ---------------------------------------------- C09: concurrent workers

// job is one operation of a worker, prepared sequentially so that the
// concurrent phase runs library code only.
type job struct {
	desc string
	run  func(t *tools, in []*mkckks.Ciphertext) *mkckks.Ciphertext
	in   []*Obj
	out  *Obj // reference result; nil for decryptions

	// encryption, decryption and key generation are judged by value
	v       []complex128
	e       float64
	decrypt *Obj
	pv      []complex128
	aux     *mkckks.Ciphertext
	at      int // step of the plan

	// filled by the concurrent phase
	res *mkckks.Ciphertext
	msg *mkckks.Message
	bad any
}

// tools are what every worker owns alone.
type tools struct {
	ev  *evaluator
	enc *mkckks.Encryptor
	dec *mkckks.Decryptor
	kg  *mkrlwe.KeyGenerator
}

func (w *World) newTools() *tools {
	return &tools{w.newEv(), mkckks.NewEncryptor(w.params), mkckks.NewDecryptor(w.params), mkckks.NewKeyGenerator(w.params)}
}

func (w *World) concBase(k int, bare bool) {
	r := simrt.NewRNG(simrt.Mix(w.plan.Seed, 0xba5e))
	for i := 0; i < k; i++ {
		w.encStep(Step{A: []int64{int64(i), int64(r.Intn(8))}, S: r.Next()})
	}
	w.ptencStep(Step{A: []int64{0, 1}, S: r.Next()})
	if bare {
		return
	}
	// multi-party, lower-level and hoisted material to share
	for i := 0; i < 3 && len(w.objs) > 1; i++ {
		a, b := w.objs[r.Intn(len(w.objs))], w.objs[r.Intn(len(w.objs))]
		if o := w.hsum(a, b); o != nil {
			w.push(o)
		}
	}
	if len(w.objs) > 0 {
		a := w.objs[r.Intn(len(w.objs))]
		if a.ct.Level() > 1 {
			if o := w.hdrop(a, 1); o != nil {
				w.push(o)
			}
		}
	}
	for i := 0; i < 2; i++ {
		w.hoistStep(Step{A: []int64{0, int64(r.Intn(100))}}, w.evs[0])
	}
}

func concExec(w *World) {
	r := simrt.NewRNG(simrt.Mix(w.plan.Seed, 0xc09))
	n := 2 + r.Intn(3)
	// What the library works out on first use and keeps in shared objects is
	// ready after phase 1. So that the workers can also be the first users, they
	// get in two of three runs a second world, made in the same way from the
	// same entropy, in which (almost) nothing has been computed yet.
	mode := int(simrt.Mix(w.plan.Seed, 0xc01d) % 3)
	w.concBase(n, mode == 2)
	if len(w.objs) == 0 {
		return
	}
	base := w.snapshot()
	// phase 1: every worker's programme alone, one after the other
	prog := w.programme(nil)
	if mode > 0 {
		if b := w.twin(n, mode == 2); base.changed(b.snapshot()) == "" {
			ref := prog
			prog = b.programme(ref)
			b.log, b.trace = w.log, w.trace
			b.tracing = w.tracing
			defer func() { w.log, w.trace, w.step = b.log, b.trace, b.step }()
			w = b
			w.st.add("fresh-world")
		} else {
			w.st.add("skip:fresh-world")
		}
	}
	K := w.cfg.Workers
	// phase 2: all of them at once, on fresh private tools
	before := w.snapshot()
	own := make([]*tools, K)
	late := simrt.Mix(w.plan.Seed, 0x1a7e)%2 == 0 // made by the worker itself
	for k := range own {
		if !late {
			own[k] = w.newTools()
		}
	}
	if w.plan.Fixed {
		simrt.FixedSchedule(w.plan.Sched)
	} else if w.cfg.Novel > 0 {
		simrt.NovelSchedule(simrt.Mix(w.plan.Seed, 0x5c4ed), w.cfg.Gap, w.cfg.Novel)
	} else {
		simrt.RandomSchedule(simrt.Mix(w.plan.Seed, 0x5c4ed), w.cfg.Gap)
	}
	simrt.ArmLimit(stepBudget)
	simrt.Deps = w.cfg.Deps
	defer func() { simrt.Deps = false }()
	for k := 0; k < K; k++ {
		k := k
		simrt.Go(func() {
			if late {
				own[k] = w.newTools()
			}
			for _, j := range prog[k] {
				j.exec(own[k], w)
			}
		})
	}
	var stuck any
	func() {
		defer func() { stuck = recover() }()
		simrt.Join()
	}()
	simrt.ArmLimit(0)
	simrt.Deps = false
	w.st.Switches += simrt.Switches
	w.st.seen(simrt.SwitchHash)
	w.st.fault2("preemption", int64(simrt.Switches))
	if stuck != nil {
		fail("concurrent-stuck", "%d workers with private evaluators do not finish: %v", K, stuck)
	}
	if l := before.changed(w.snapshot()); l != "" {
		fail("concurrent-mutation", "concurrent read-only use by %d workers changed the shared %s", K, l)
	}
	// phase 3: same results as alone
	for k := 0; k < K; k++ {
		for i, j := range prog[k] {
			w.step++
			if j.bad != nil {
				fail("concurrent-panic", "worker %d operation %d, %s, succeeds alone but fails next to %d other workers: %v", k, i, j.desc, K-1, j.bad)
			}
			switch {
			case j.decrypt != nil:
				if d := diff(j.msg.Value, j.pv); !(d <= tiny(vmax(j.pv))) {
					fail("concurrent-decrypt", "worker %d operation %d: decryption of #%d next to %d other workers is off by %.3g from the same decryption alone", k, i, j.decrypt.name, K-1, d)
				}
			case j.v != nil:
				got, err := w.open(j.res, w.sks())
				if err != nil || !(diff(got, j.v) <= j.e) {
					fail("concurrent-encrypt", "worker %d operation %d, %s, next to %d other workers: wrong by %.3g (bound %.3g) %v", k, i, j.desc, K-1, diff(got, j.v), j.e, err)
				}
			default:
				if d := w.sameRing(j.res, j.out.ct); d != "" {
					fail("concurrent-result", "worker %d operation %d, %s, gives another result next to %d other workers than alone: %s", k, i, j.desc, K-1, d)
				}
			}
			w.st.add(j.desc[:idx(j.desc)])
			w.logf("worker %d: %s", k, j.desc)
		}
	}
}

// programme prepares what every worker does: by running it alone, or, given the
// jobs of a twin world, by taking over what was computed there.
func (w *World) programme(ref [][]*job) [][]*job {
	K := w.cfg.Workers
	prog := make([][]*job, K)
	for k := 0; k < K; k++ {
		ww := *w
		ww.objs = append([]*Obj(nil), w.objs...)
		var t *tools
		if ref == nil {
			t = w.newTools()
		}
		n := 0
		for i, s := range w.plan.Steps {
			if int(s.a(5))%K != k {
				continue
			}
			ww.step = i + 1
			if ref != nil {
				ww.alone = &ghost{}
				if n < len(ref[k]) && ref[k][n].at == i {
					ww.alone.j = ref[k][n]
					n++
				}
				if ww.alone.j == nil {
					continue
				}
			}
			if j := ww.prepare(s, t); j != nil {
				j.at = i
				prog[k] = append(prog[k], j)
			}
		}
	}
	return prog
}

// ghost is the job of the twin world that corresponds to the one being prepared.
type ghost struct{ j *job }

// twin makes the world again.
func (w *World) twin(n int, bare bool) *World {
	w.renew()
	b := newWorld(w.plan, newStats(), false)
	for _, id := range w.cfg.IDs {
		b.addParty(id, w.kinds)
	}
	b.kinds = w.kinds
	if !bare {
		b.evs = append(b.evs, b.newEv())
	}
	b.concBase(n, bare)
	b.st = w.st
	return b
}

func idx(s string) int {
	for i := range s {
		if s[i] == '(' {
			return i
		}
	}
	return len(s)
}

func (s *Stats) fault2(k string, n int64) {
	if n > 0 {
		s.Faults[k] += n
	}
}

// exec runs one prepared operation. Operands that are earlier results of the
// same worker are taken from the concurrent run.
func (j *job) exec(t *tools, w *World) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(simrt.Runaway); is {
				panic(e)
			}
			j.bad = e
		}
	}()
	in := make([]*mkckks.Ciphertext, len(j.in))
	for i, o := range j.in {
		in[i] = o.ct
		if o.via != nil {
			if o.via.res == nil {
				return // the producer failed; reported there
			}
			in[i] = o.via.res
		}
	}
	if j.decrypt != nil {
		ct := j.decrypt.ct
		if v := j.decrypt.via; v != nil {
			if v.res == nil {
				return
			}
			ct = v.res
		}
		j.msg = t.dec.Decrypt(ct, w.skSet)
		return
	}
	j.res = j.run(t, in)
}

// prepare runs the step alone and keeps what is needed to run it again.
func (w *World) prepare(s Step, t *tools) *job {
	switch s.Op {
	case "enc":
		p := w.parties[s.sel(0, len(w.parties))]
		v := w.values(s.S, s.a(1))
		m := w.msg(v)
		j := &job{desc: "enc()", v: v, e: w.freshErr(w.params.Scale())}
		j.run = func(t *tools, in []*mkckks.Ciphertext) *mkckks.Ciphertext { return t.enc.EncryptMsgNew(m, p.pk) }
		switch level := s.sel(4, w.params.MaxLevel()+1); s.sel(3, 4) {
		case 1: // into a ciphertext of lower level
			if w.fits(vmax(v)+1e-3, w.params.Scale(), level) {
				j.desc = "enclow()"
				j.run = func(t *tools, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
					ct := mkckks.NewCiphertext(w.params, w.idset([]string{p.id}), level, 1)
					t.enc.EncryptMsg(m, p.pk, ct)
					return ct
				}
			}
		case 2: // for everybody
			j.desc = "encall()"
			j.run = func(t *tools, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
				return t.enc.EncryptMsgNewExpand(m, p.pk, w.idset(w.cfg.IDs))
			}
		}
		return j
	case "ptenc":
		return nil
	case "dec":
		o := w.pick(s, 0)
		j := &job{desc: "dec()", decrypt: o}
		if w.alone != nil {
			j.pv = w.alone.j.pv
			return j
		}
		var m *mkckks.Message
		if out := w.attempt(0, func() { m = t.dec.Decrypt(o.ct, w.skSet) }); !out.ok {
			w.foreign("dec", out)
			return nil
		}
		j.pv = m.Value
		return j
	case "keygen": // a fresh key pair, used at once
		p := w.parties[s.sel(0, len(w.parties))]
		v := w.values(s.S, s.a(1))
		m := w.msg(v)
		kind := s.sel(2, 4)
		j := &job{desc: fmt.Sprintf("keygen%d()", kind), v: v, e: w.freshErr(w.params.Scale())}
		j.run = func(t *tools, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
			return t.enc.EncryptMsgNew(m, t.kg.GenPublicKey(p.sk))
		}
		if kind == 1 {
			j.v = mapv(v, func(x complex128) complex128 { return complex(real(x), -imag(x)) })
			j.e += w.ksErr(1, w.params.MaxLevel(), w.params.Scale()) + tiny(vmax(v))
			j.run = func(t *tools, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
				set := mkrlwe.NewConjugationKeySet()
				set.AddConjugationKey(t.kg.GenConjugationKey(p.sk))
				return t.ev.ev.ConjugateNew(t.enc.EncryptMsgNew(m, p.pk), set)
			}
		}
		if kind == 2 {
			k := 1 << uint(s.sel(3, w.params.LogN()-1))
			j.v = rotv(v, k)
			j.e += w.ksErr(1, w.params.MaxLevel(), w.params.Scale()) + tiny(vmax(v))
			j.run = func(t *tools, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
				set := mkrlwe.NewRotationKeySet()
				set.AddRotationKey(t.kg.GenRotationKey(k, p.sk))
				return t.ev.ev.RotateNew(t.enc.EncryptMsgNew(m, p.pk), k, set)
			}
		}
		if kind == 3 { // from secrets that other workers use too
			var ct *mkckks.Ciphertext
			if w.alone != nil {
				ct = w.alone.j.aux
			} else {
				ct = t.enc.EncryptMsgNew(m, p.pk)
			}
			j.aux = ct
			o := &Obj{ct: ct, v: v, e: j.e, ids: []string{p.id}}
			c := &call{}
			if !w.mulModel(c, o, o) {
				return nil
			}
			j.v, j.e = c.v, c.e
			j.run = func(t *tools, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
				set := mkrlwe.NewRelinearizationKeyKeySet(w.params.Parameters)
				set.AddRelinearizationKey(t.kg.GenRelinearizationKey(p.sk, p.r))
				return t.ev.ev.MulRelinNew(ct, ct, set)
			}
		}
		return j
	case "hoist":
		o := w.pick(s, 0)
		// hoisting is observed through a hoisted square right after it
		c := &call{}
		if !w.mulModel(c, o, o) {
			return nil
		}
		j := &job{desc: "hoist+square()", in: []*Obj{o}}
		j.run = func(t *tools, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
			h := t.ev.ev.HoistedForm(in[0])
			return t.ev.ev.MulRelinHoistedNew(in[0], in[0], h, h, w.rlkSet)
		}
		return w.reference(j, c, t)
	}
	c := w.build(s)
	if c == nil || c.inplace {
		w.st.add("skip:" + s.Op)
		return nil
	}
	run := c.run
	j := &job{desc: w.describe(c), in: c.in}
	j.run = func(t *tools, in []*mkckks.Ciphertext) *mkckks.Ciphertext { return run(t.ev, in) }
	return w.reference(j, c, t)
}

func (w *World) reference(j *job, c *call, t *tools) *job {
	ids := c.ids
	if ids == nil {
		ids = j.in[0].ids
	}
	if w.alone != nil {
		if w.alone.j.desc != j.desc || w.alone.j.out == nil {
			panic("harness: twin worlds differ: " + j.desc)
		}
		j.out = w.push(&Obj{ct: w.alone.j.out.ct, v: c.v, e: c.e, ids: ids, via: j})
		return j
	}
	ins := make([]*mkckks.Ciphertext, len(j.in))
	for i, o := range j.in {
		ins[i] = o.ct
	}
	var res *mkckks.Ciphertext
	out := w.attempt(0, func() { res = j.run(t, ins) })
	if !out.ok || res == nil {
		w.foreign(j.desc[:idx(j.desc)], out)
		return nil
	}
	j.out = w.push(&Obj{ct: res, v: c.v, e: c.e, ids: ids, via: j})
	return j
}

func init() {
	mix := []weighted{{"enc", 1}, {"dec", 2}, {"keygen", 2}, {"hoist", 2}, {"add", 3}, {"sub", 2}, {"mul", 4}, {"sq", 2}, {"mulks", 1}, {"ptmul", 2}, {"const", 2}, {"rescale", 2}, {"drop", 1}, {"rot", 4}, {"rotks", 1}, {"conj", 2}, {"hmul", 3}, {"hrot", 3}}
	register(&Prop{ID: "C09", Quick: 18000, Thorough: 600000, Kinds: kRLK | kRTK | kCJK, Level: "exploration",
		Gen: func(r *simrt.RNG, p *Plan) {
			swarm(r, p, 3)
			if p.Cfg.LogN > 6 {
				p.Cfg.LogN = 6
				p.Cfg.LogSlots = mini(p.Cfg.LogSlots, 5)
			}
			p.Cfg.Workers = 2 + r.Intn(3)
			p.Cfg.Gap = []int{1, 3, 10, 40, 200, 1500, 10000}[r.Intn(7)]
			p.Cfg.Deps = r.Intn(4) == 0
			if r.Intn(3) == 0 {
				p.Cfg.Gap = []int{10000, 100000}[r.Intn(2)]
				p.Cfg.Novel = []int{2, 6, 20}[r.Intn(3)]
			}
			history(r, p, 6+r.Intn(16), mix, false)
			if r.Intn(3) == 0 { // everybody does much the same with the same things
				op, a := mix[1+r.Intn(len(mix)-1)].op, [4]int64{}
				if r.Intn(4) == 0 {
					op = "keygen"
				}
				for i := range a {
					a[i] = int64(r.Intn(1 << 16))
				}
				for i := range p.Steps {
					if s := &p.Steps[i]; s.Op != "ptenc" && r.Intn(4) > 0 {
						s.Op = op
						for k := range a {
							if r.Intn(4) > 0 {
								s.A[k] = a[k]
							}
						}
					}
				}
			}
			if r.Intn(4) == 0 { // keys of some kinds are first made by the workers
				p.Cfg.X = []int{kRLK, kRTK, kCJK, kRLK | kRTK | kCJK}[r.Intn(4)]
				if r.Intn(2) == 0 {
					p.Cfg.Gap, p.Cfg.Novel = 100000, 1+r.Intn(8)
				}
				if only := map[int]int64{kCJK: 1, kRTK: 2, kRLK: 3}[p.Cfg.X]; only > 0 && r.Intn(2) == 0 {
					for i := range p.Steps {
						if s := &p.Steps[i]; r.Intn(3) > 0 {
							s.Op, s.A[2] = "keygen", only
						}
					}
				}
				for i := range p.Steps {
					s := &p.Steps[i]
					kind := map[string]int64{"mul": 3, "sq": 3, "mulks": 3, "hmul": 3, "rot": 2, "rotks": 2, "hrot": 2, "conj": 1}[s.Op]
					if kind > 0 && p.Cfg.X&[]int{0, kCJK, kRTK, kRLK}[kind] != 0 {
						s.Op, s.A[2] = "keygen", kind
					}
				}
			}
		}, Exec: concExec,
		Rule: "one run = two to four workers, each with private evaluator, encryptor, decryptor and key generator, sharing parameters, keys, key sets, ciphertexts, plaintexts and hoisted forms; the seeded scheduler preempts between any two statements; interleavings are counted by the hash of all (statement, from, to) switches",
		Real: realAll, Stub: append([]string{"goroutine scheduling (cooperative, seeded, statement granularity)"}, stubAll[:2]...)})
}
