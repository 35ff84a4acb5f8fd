package main

import (
	"math"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"vsim/simrt"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

// ---- ciphertexts made by the harness itself, so that C04 and C05 do not
// depend on the evaluator being right

func (w *World) coefCopy(p *ring.Poly, level int) *ring.Poly {
	q := ring.NewPoly(w.ringQ.N, level+1)
	for i := 0; i <= level; i++ {
		copy(q.Coeffs[i], p.Coeffs[i])
	}
	w.ringQ.ReduceLvl(level, q, q)
	if p.IsNTT {
		w.ringQ.InvNTTLvl(level, q, q)
	}
	return q
}

// hsum adds two ciphertexts component by component.
func (w *World) hsum(a, b *Obj) *Obj {
	if math.Abs(a.ct.Scale-b.ct.Scale) > 1e-9*a.ct.Scale {
		return nil
	}
	level := mini(a.ct.Level(), b.ct.Level())
	ct := &mkckks.Ciphertext{Ciphertext: &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}, Scale: a.ct.Scale}
	for _, o := range []*Obj{a, b} {
		for id, p := range o.ct.Value {
			c := w.coefCopy(p, level)
			if x, ok := ct.Value[id]; ok {
				w.ringQ.AddLvl(level, x, c, x)
			} else {
				ct.Value[id] = c
			}
		}
	}
	v := zip(a.v, b.v, func(x, y complex128) complex128 { return x + y })
	if vmax(v) > maxVal || !w.fits(vmax(v)+a.e+b.e, ct.Scale, level) {
		return nil
	}
	return &Obj{ct: ct, v: v, e: a.e + b.e + tiny(vmax(v)) + 2*vmax(b.v)*math.Abs(a.ct.Scale/b.ct.Scale-1), ids: union(a.ids, b.ids)}
}

// hdrop lowers the level of a copy, hntt moves a copy to the other domain.
func (w *World) hdrop(a *Obj, d int) *Obj {
	level := a.ct.Level() - d
	if level < 0 || !w.fits(vmax(a.v)+a.e, a.ct.Scale, level) {
		return nil
	}
	ct := a.ct.CopyNew()
	for _, p := range ct.Value {
		p.Coeffs = p.Coeffs[:level+1]
	}
	return &Obj{ct: ct, v: a.v, e: a.e, ids: a.ids}
}

func (w *World) hntt(a *Obj) *Obj {
	ct := a.ct.CopyNew()
	level := ct.Level()
	for _, p := range ct.Value {
		if p.IsNTT {
			w.ringQ.InvNTTLvl(level, p, p)
		} else {
			w.ringQ.ReduceLvl(level, p, p)
			w.ringQ.NTTLvl(level, p, p)
		}
		p.IsNTT = !p.IsNTT
	}
	return &Obj{ct: ct, v: a.v, e: a.e, ids: a.ids}
}

// hscale reinterprets a ciphertext at another scale (values shrink or grow).
func (w *World) hscale(a *Obj, f float64) *Obj {
	ct := a.ct.CopyNew()
	ct.Scale *= f
	v := mapv(a.v, func(x complex128) complex128 { return x / complex(f, 0) })
	if vmax(v) > maxVal {
		return nil
	}
	return &Obj{ct: ct, v: v, e: a.e/f + tiny(vmax(v)), ids: a.ids}
}

func (w *World) anyIDs(r *simrt.RNG, must string) []string {
	ids := []string{must}
	for _, p := range w.parties {
		if p.id != must && r.Intn(2) == 0 {
			ids = append(ids, p.id)
		}
	}
	return union(ids, nil)
}

// encVariant performs one encryption in one of the ways the API offers.
func (w *World) encVariant(s Step) {
	r := simrt.NewRNG(simrt.Mix(s.S, 77))
	p := w.parties[s.sel(0, len(w.parties))]
	user := w.parties[s.sel(2, len(w.parties))] // any encryptor can encrypt for any key
	v := w.values(s.S, s.a(1))
	if r.Intn(4) == 0 && w.lastV != nil { // the same message as before
		v = w.lastV
	}
	w.lastV = v
	msg := func() *mkckks.Message { return w.msgOf(v, s) }
	if len(v) > 1 && r.Intn(6) == 0 { // fewer values than slots: the rest is zero
		n := 1 + r.Intn(len(v)-1)
		short := append([]complex128(nil), v[:n]...)
		v = append(append([]complex128(nil), short...), make([]complex128, len(v)-n)...)
		msg = func() *mkckks.Message { return &mkckks.Message{Value: append([]complex128(nil), short...)} }
		w.st.add("short-message")
	}
	max := w.params.MaxLevel()
	scale := w.params.Scale()
	var ct *mkckks.Ciphertext
	wantLevel := max
	var ids []string
	var target *Obj
	var f func()
	variant := s.sel(3, 10)
	newCt := func(ids []string, level int, ntt bool) *mkckks.Ciphertext {
		c := mkckks.NewCiphertext(w.params, w.idset(ids), level, 1+99*r.Float())
		if ntt {
			c.Ciphertext = mkrlwe.NewCiphertextNTT(w.params.Parameters, w.idset(ids), level)
		}
		return c
	}
	switch variant {
	case 0:
		ids = []string{p.id}
		f = func() { ct = user.enc.EncryptMsgNew(msg(), p.pk) }
	case 1:
		ids = w.anyIDs(r, p.id)
		f = func() { ct = user.enc.EncryptMsgNewExpand(msg(), p.pk, w.idset(ids)) }
	case 2: // into a prepared ciphertext of a lower level
		ids = w.anyIDs(r, p.id)
		wantLevel = r.Intn(max + 1)
		c := newCt(ids, wantLevel, r.Intn(4) == 0)
		f = func() { user.enc.EncryptMsg(msg(), p.pk, c); ct = c }
	case 3, 4: // over an older ciphertext that has a component for this party
		for i := range w.objs {
			o := w.objs[(i+s.sel(4, len(w.objs)))%len(w.objs)]
			for _, id := range o.ids {
				if id == p.id {
					target = o
				}
			}
		}
		if target == nil {
			return
		}
		ids = target.ids
		wantLevel = target.ct.Level()
		c := target.ct
		f = func() { user.enc.EncryptMsg(msg(), p.pk, c); ct = c }
	case 9: // encoded first
		ids = w.anyIDs(r, p.id)
		cl := max - r.Intn(2)*r.Intn(max+1)
		wantLevel = cl
		c := newCt(ids, cl, r.Intn(2) == 0)
		coder := w.parties[r.Intn(len(w.parties))].enc
		f = func() {
			pt := coder.EncodeMsgNew(msg())
			if pt.Scale != scale || pt.Level() != max {
				w.mine("enc", "encoding", "step %d: the encoded message has scale %g and level %d, expected %g and %d", w.step, pt.Scale, pt.Level(), scale, max)
			}
			user.enc.EncryptPtxt(pt, p.pk, c)
			ct = c
			if r.Intn(2) == 0 { // the plaintext belongs to the caller, who uses it for something else
				scribblePoly(pt.Value, r)
				pt.Scale *= 2
			}
		}
	default: // a plaintext of some level and domain into a ciphertext of some level and domain
		ids = w.anyIDs(r, p.id)
		pl, cl := max-r.Intn(2)*r.Intn(max+1), max-r.Intn(2)*r.Intn(max+1)
		wantLevel = mini(pl, cl)
		pt := ckks.NewPlaintext(w.ckp, pl, scale)
		if r.Intn(3) == 0 {
			scale *= []float64{0.5, 4, 1.37}[r.Intn(3)]
			pt.Scale = scale
		}
		w.coder.Encode(pt, v, w.cfg.LogSlots)
		if r.Intn(2) == 0 {
			w.ringQ.NTTLvl(pl, pt.Value, pt.Value)
			pt.Value.IsNTT = true
		}
		c := newCt(ids, cl, r.Intn(2) == 0)
		if variant < 7 {
			f = func() { user.enc.EncryptPtxt(pt, p.pk, c); ct = c }
		} else {
			f = func() { user.enc.Encryptor.Encrypt(pt.Plaintext, p.pk, c.Ciphertext); c.Scale = pt.Scale; ct = c }
		}
	}
	if !w.fits(vmax(v)+1e-3, scale, wantLevel) {
		w.st.add("skip:enc")
		return
	}
	out := w.attempt(s.Abort, f)
	if !out.ok {
		w.logf("%d: enc v%d party=%q %v", w.step, variant, p.id, out)
		if target != nil {
			w.remove(target)
		}
		if out.aborted {
			if s.Fault == "" {
				return
			}
			if target != nil || variant != 0 {
				return
			}
			w.st.fault("retry-after-abort")
			if out = w.attempt(0, f); out.ok {
				goto done
			}
		}
		w.opPanic("enc", out)
		return
	}
done:
	w.st.add("enc")
	o := target
	if o == nil {
		o = &Obj{}
		w.push(o)
	}
	o.ct, o.v, o.e, o.ids = ct, v, w.freshErr(scale)+tiny(vmax(v)), ids
	w.st.seen(simrt.Mix(uint64(variant), uint64(wantLevel), uint64(len(ids)), uint64(max), uint64(w.cfg.SK)))
	if ct.Scale != scale {
		w.mine("enc", "scale", "step %d: encryption v%d: the ciphertext claims scale %g, the plaintext has %g", w.step, variant, ct.Scale, scale)
	}
	if ct.Level() != wantLevel {
		w.mine("enc", "level", "step %d: encryption v%d: level %d, expected %d", w.step, variant, ct.Level(), wantLevel)
	}
	got, err := w.open(ct, w.sks())
	if err != nil {
		w.mine("enc", "undecryptable", "step %d: encryption v%d for %q cannot be decrypted: %v", w.step, variant, p.id, err)
		w.remove(o)
		return
	}
	d := diff(got, v)
	w.st.ratio("enc", d/o.e)
	if !(d <= o.e) {
		w.mine("enc", "wrong", "step %d: encryption v%d for party %q at level %d: the message is off by %.3g (bound %.3g)", w.step, variant, p.id, wantLevel, d, o.e)
		w.remove(o)
		return
	}
	// the owner alone must be able to read it when the others contributed nothing
	w.logf("%d: enc v%d #%d party=%q lvl=%d %x", w.step, variant, o.name, p.id, wantLevel, hashCt(ct))
}

// mine raises a violation when the running property owns op.
func (w *World) mine(op, class, f string, a ...any) {
	if ownOps[op] {
		fail(class+":"+op, f, a...)
	}
	w.foreign(op, outcome{panicV: class})
}

// keySet builds a secret key set holding exactly the listed parties, in an
// order of insertion that varies.
func (w *World) keySet(ids []string, r *simrt.RNG) *mkrlwe.SecretKeySet {
	s := mkrlwe.NewSecretKeySet()
	l := append([]string(nil), ids...)
	for i := len(l) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	for _, id := range l {
		s.AddSecretKey(w.byID[id].sk)
	}
	return s
}

func (w *World) decVariant(s Step) {
	o := w.pick(s, 0)
	if o == nil {
		return
	}
	r := simrt.NewRNG(simrt.Mix(s.S, 78))
	user := w.parties[s.sel(1, len(w.parties))]
	ids := o.ids
	if r.Intn(2) == 0 { // keys of parties that are not involved must not matter
		for _, p := range w.parties {
			ids = union(ids, []string{p.id})
		}
	}
	set := w.keySet(ids, r)
	level := o.ct.Level()
	e := o.e + tiny(vmax(o.v))
	variant := s.sel(2, 4)
	var msg *mkckks.Message
	var pt *rlwe.Plaintext
	ntt := r.Intn(2) == 0
	pl := mini(w.params.MaxLevel(), maxi(0, level-1+r.Intn(3)))
	if r.Intn(4) == 0 {
		pl = r.Intn(w.params.MaxLevel() + 1)
	}
	f := func() { msg = user.dec.Decrypt(o.ct, set) }
	if variant == 3 {
		if !w.fits(vmax(o.v)+e, o.ct.Scale, mini(pl, level)) {
			return
		}
		f = func() {
			pt = rlwe.NewPlaintext(w.params.Parameters.Parameters, pl)
			pt.Value.IsNTT = ntt
			user.dec.Decryptor.Decrypt(o.ct.Ciphertext, set, pt)
		}
	}
	out := w.attempt(s.Abort, f)
	if out.aborted {
		w.logf("%d: dec #%d aborted", w.step, o.name)
		if s.Fault == "" {
			return
		}
		w.st.fault("retry-after-abort")
		out = w.attempt(0, f)
	}
	if !out.ok {
		w.logf("%d: dec #%d %v", w.step, o.name, out)
		w.opPanic("dec", out)
		return
	}
	w.st.add("dec")
	w.st.seen(simrt.Mix(0xd, uint64(variant), uint64(level), uint64(len(o.ids)), uint64(len(ids)), uint64(w.cfg.SK), boolBit(o.ct.Value["0"].IsNTT)))
	var got []complex128
	if variant == 3 {
		if pt.Level() != mini(pl, level) {
			w.mine("dec", "level", "step %d: decryption into a plaintext of level %d: result has level %d, ciphertext %d", w.step, pl, pt.Level(), level)
			return
		}
		if pt.Value.IsNTT != ntt {
			w.mine("dec", "domain", "step %d: decryption changed the domain of the output plaintext", w.step)
			return
		}
		got = w.decode(w.coefCopy(pt.Value, pt.Level()), o.ct.Scale)
	} else {
		got = msg.Value
		if m := simrt.Mix(s.S, 0x4e9); m%2 == 0 { // the caller keeps the message
			w.kept = append(w.kept, keptMsg{msg.Value, append([]complex128(nil), msg.Value...), w.step})
			if len(w.kept) > 4 {
				w.kept = w.kept[1:]
			}
		} else if m%8 == 1 { // or uses its storage for something else
			defer func() {
				for i := range msg.Value {
					msg.Value[i] = complex(float64(i), 1e3)
				}
			}()
		}
	}
	d := diff(got, o.v)
	w.st.ratio("dec", d/e)
	if !(d <= e) {
		w.mine("dec", "wrong", "step %d: decryption of #%d (level %d, %d parties, ntt=%v): the message is off by %.3g (bound %.3g)", w.step, o.name, level, len(o.ids), o.ct.Value["0"].IsNTT, d, e)
		return
	}
	w.logf("%d: dec #%d -> %.6g", w.step, o.name, got[0])
}

func boolBit(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// harnessStep covers sum, lower, domain, rescaled views; true when handled.
func (w *World) harnessStep(s Step) bool {
	var o *Obj
	a, b := w.pick(s, 0), w.pick(s, 1)
	switch s.Op {
	case "hsum":
		if a != nil {
			o = w.hsum(a, b)
		}
	case "hdrop":
		if a != nil && a.ct.Level() > 0 {
			o = w.hdrop(a, 1+s.sel(1, a.ct.Level()))
		}
	case "hntt":
		if a != nil {
			o = w.hntt(a)
		}
	case "hscale":
		if a != nil {
			o = w.hscale(a, []float64{2, 0.5, 3.7, 0.1}[s.sel(1, 4)])
		}
	default:
		return false
	}
	if o != nil {
		w.push(o)
		w.logf("%d: %s -> #%d", w.step, s.Op, o.name)
	}
	return true
}

type keptMsg struct {
	now, then []complex128
	step      int
}

// keptMsgs checks that the messages the callers keep are what they were.
func (w *World) keptMsgs() {
	for _, k := range w.kept {
		if len(k.now) != len(k.then) || diff(k.now, k.then) != 0 {
			w.mine("dec", "message-changed", "step %d: the message decrypted in step %d is another one now", w.step, k.step)
		}
	}
}

func encdecExec(w *World) {
	for i, s := range w.plan.Steps {
		w.step = i + 1
		switch s.Op {
		case "enc":
			w.encVariant(s)
		case "dec":
			w.decVariant(s)
		case "rekey": // the owner replaces its key: what it encrypted before is gone
			p := w.parties[s.sel(0, len(w.parties))]
			out := w.attempt(0, func() { w.rekey(p, 0) })
			if !out.ok {
				w.opPanic("enc", out)
				return
			}
			w.dropOf(p.id)
			w.logf("%d: rekey %q", w.step, p.id)
		default:
			if !w.harnessStep(s) {
				w.common(s, 0)
			}
		}
		w.keptMsgs()
	}
	// every ciphertext still held decrypts, with a fresh and with a used decryptor
	for i := range w.objs {
		w.step++
		w.decVariant(Step{A: []int64{int64(i), int64(i), 0}, S: uint64(i)})
		w.keptMsgs()
	}
}

// dropOf forgets the ciphertexts a party's old key was involved in.
func (w *World) dropOf(id string) {
	for i := 0; i < len(w.objs); {
		hit := false
		for _, x := range w.objs[i].ids {
			hit = hit || x == id
		}
		if hit {
			w.remove(w.objs[i])
		} else {
			i++
		}
	}
	keep := w.hs[:0]
	for _, h := range w.hs {
		if len(union(h.o.ids, []string{id})) != len(h.o.ids) {
			keep = append(keep, h)
		}
	}
	w.hs = keep
}

func init() {
	mix := []weighted{{"enc", 6}, {"dec", 6}, {"hsum", 3}, {"hdrop", 2}, {"hntt", 2}, {"hscale", 1}, {"pcrash", 1}, {"rekey", 1}, {"forget", 1}}
	register(&Prop{ID: "C04", Setup: true, Quick: 24000, Thorough: 4000000, Level: "exploration", Own: []string{"enc", "dec"},
		Gen: func(r *simrt.RNG, p *Plan) {
			swarm(r, p, 5)
			history(r, p, 12+r.Intn(40), mix, true)
		}, Exec: encdecExec,
		Rule: "one run = one history of encryptions, harness-made multi-party sums and decryptions over a random ring, modulus chain and party set; a case is counted once per distinct (operation variant, level, party count, key distribution, domain) tuple executed",
		Real: realAll, Stub: stubAll})
}
