package main

import (
	"fmt"
	"math"
	"sort"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"vsim/simrt"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

// ------------------------------------------------------------- watched state

// watch is a fingerprint of everything a user still holds.
type watch struct {
	label []string
	h     []uint64
}

func (w *watch) add(l string, h uint64) { w.label = append(w.label, l); w.h = append(w.h, h) }

func hashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

func hashSK(sk *mkrlwe.SecretKey) uint64 {
	return hashStr(hashPoly(hashPoly(1, sk.Value.Q), sk.Value.P), sk.ID)
}

func hashPK(pk *mkrlwe.PublicKey) uint64 {
	h := uint64(2)
	for i := range pk.Value {
		h = hashPoly(hashPoly(h, pk.Value[i].Q), pk.Value[i].P)
	}
	return hashStr(h, pk.ID)
}

func hashRLK(k *mkrlwe.RelinearizationKey) uint64 {
	return hashStr(hashSwk(hashSwk(hashSwk(3, k.Value[0]), k.Value[1]), k.Value[2]), k.ID)
}

func hashRTK(k *mkrlwe.RotationKey) uint64 {
	return simrt.Mix(hashStr(hashSwk(4, k.Value), k.ID), uint64(k.RotIdx))
}

func hashCJK(k *mkrlwe.ConjugationKey) uint64 { return hashStr(hashSwk(5, k.Value), k.ID) }

func hashIDs(s *mkrlwe.IDSet) uint64 {
	l := make([]string, 0, len(s.Value))
	for id := range s.Value {
		l = append(l, id)
	}
	sort.Strings(l)
	h := uint64(len(l))
	for _, id := range l {
		h = hashStr(simrt.Mix(h, 9), id)
	}
	return h
}

func hashHoist(c *mkrlwe.HoistedCiphertext) uint64 {
	l := make([]string, 0, len(c.Value))
	for id := range c.Value {
		l = append(l, id)
	}
	sort.Strings(l)
	h := uint64(len(l))
	for _, id := range l {
		h = hashSwk(hashStr(h, id), c.Value[id])
	}
	return h
}

func hashVals(v []complex128) uint64 {
	h := uint64(len(v))
	for _, x := range v {
		h = (h ^ math.Float64bits(real(x))) * 0xff51afd7ed558ccd
		h = (h ^ math.Float64bits(imag(x))) * 0x9e3779b97f4a7c15
	}
	return h
}

func (w *World) hashCRS() uint64 {
	ks := make([]int, 0, len(w.params.CRS))
	for k := range w.params.CRS {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	h := uint64(len(ks))
	for _, k := range ks {
		h = hashSwk(simrt.Mix(h, uint64(k)), w.params.CRS[k])
	}
	return h
}

// snapshot fingerprints all live objects except the listed ones.
func (w *World) snapshot(except ...*Obj) *watch {
	s := &watch{}
next:
	for _, o := range w.objs {
		for _, x := range except {
			if o == x {
				continue next
			}
		}
		s.add(fmt.Sprintf("ciphertext #%d", o.name), hashCt(o.ct))
	}
	for i, p := range w.pts {
		s.add(fmt.Sprintf("plaintext %d", i), simrt.Mix(hashPoly(1, p.pt.Value), math.Float64bits(p.pt.Scale)))
	}
	for i, h := range w.hs {
		s.add(fmt.Sprintf("hoisted form %d", i), hashHoist(h.h))
	}
	for _, p := range w.parties {
		s.add("secret key of "+p.id, hashSK(p.sk))
		s.add("public key of "+p.id, hashPK(p.pk))
		if p.rlk != nil {
			s.add("relinearization key of "+p.id, hashRLK(p.rlk))
		}
		if p.cjk != nil {
			s.add("conjugation key of "+p.id, hashCJK(p.cjk))
		}
		ks := make([]int, 0, len(p.rtk))
		for k := range p.rtk {
			ks = append(ks, int(k))
		}
		sort.Ints(ks)
		h := uint64(7)
		for _, k := range ks {
			h = simrt.Mix(h, hashRTK(p.rtk[uint(k)]))
		}
		s.add("rotation keys of "+p.id, h)
	}
	s.add("common reference string", w.hashCRS())
	s.add("membership of the key sets", w.hashSets())
	return s
}

// hashSets fingerprints which keys the shared key sets hold (by identity of
// the contents, not of the pointers).
func (w *World) hashSets() uint64 {
	h := uint64(1)
	mem := func(ids []string, f func(id string) uint64) {
		sort.Strings(ids)
		h = simrt.Mix(h, uint64(len(ids)))
		for _, id := range ids {
			h = simrt.Mix(hashStr(h, id), f(id))
		}
	}
	var a, b, c, d, e []string
	for id := range w.skSet.Value {
		a = append(a, id)
	}
	for id := range w.pkSet.Value {
		b = append(b, id)
	}
	for id := range w.rlkSet.Value {
		c = append(c, id)
	}
	for id := range w.cjkSet.Value {
		d = append(d, id)
	}
	for id, m := range w.rtkSet.Value {
		if len(m) > 0 {
			e = append(e, id)
		}
	}
	mem(a, func(id string) uint64 { return strHash(w.skSet.Value[id].ID) })
	mem(b, func(id string) uint64 { return strHash(w.pkSet.Value[id].ID) })
	mem(c, func(id string) uint64 { return strHash(w.rlkSet.Value[id].ID) })
	mem(d, func(id string) uint64 { return strHash(w.cjkSet.Value[id].ID) })
	mem(e, func(id string) uint64 {
		x := uint64(0)
		for k, rk := range w.rtkSet.Value[id] {
			x += simrt.Mix(uint64(k), uint64(rk.RotIdx), strHash(rk.ID))
		}
		return x
	})
	return h
}

// changed returns the first thing whose fingerprint differs.
func (s *watch) changed(t *watch) string {
	for i := range s.h {
		if i >= len(t.h) || s.label[i] != t.label[i] {
			return "harness: snapshots differ in shape"
		}
		if s.h[i] != t.h[i] {
			return s.label[i]
		}
	}
	return ""
}

// scribble overwrites every residue of a ciphertext the caller owns.
func scribble(ct *mkckks.Ciphertext, r *simrt.RNG) {
	ids := make([]string, 0, len(ct.Value))
	for id := range ct.Value {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		scribblePoly(ct.Value[id], r)
	}
}

func scribblePoly(p *ring.Poly, r *simrt.RNG) {
	full := p.Coeffs[:cap(p.Coeffs)] // also what a dropped level left behind
	for i := range full {
		c := full[i]
		for j := range c {
			c[j] = r.Next() >> 20
		}
	}
	p.IsNTT = !p.IsNTT
}

// apart checks that the parts of one object lie in different places, so that filling
// one leaves the others alone.
func (w *World) apart(what string, polys ...*ring.Poly) {
	seen := map[*uint64]bool{}
	for _, p := range polys {
		for _, c := range p.Coeffs {
			if len(c) == 0 {
				continue
			}
			if seen[&c[0]] {
				fail("aliased", "step %d: two parts of %s share storage: filling one changes the other", w.step, what)
			}
			seen[&c[0]] = true
		}
	}
}

func ctPolys(ct *mkckks.Ciphertext) (l []*ring.Poly) {
	for _, p := range ct.Value {
		l = append(l, p)
	}
	return
}

func swkPolys(ks ...*mkrlwe.SwitchingKey) (l []*ring.Poly) {
	for _, k := range ks {
		for _, x := range k.Value {
			l = append(l, x.Q, x.P)
		}
	}
	return
}

func scribbleSwk(s *mkrlwe.SwitchingKey, r *simrt.RNG) {
	for i := range s.Value {
		scribblePoly(s.Value[i].Q, r)
		scribblePoly(s.Value[i].P, r)
	}
}

// ------------------------------------------------------- C06: nothing mutates

func (w *World) unchanged(before, after *watch, what string) {
	if l := before.changed(after); l != "" {
		fail("mutated", "step %d: %s changed the %s, which the caller still holds", w.step, what, l)
	}
}

func immExec(w *World) {
	// what is no longer used as an operand still belongs to the caller
	type old struct {
		o *Obj
		h uint64
	}
	var olds []old
	w.retire = func(o *Obj) { olds = append(olds, old{o, hashCt(o.ct)}) }
	defer func() {
		if e := recover(); e != nil {
			panic(e)
		}
		for _, x := range olds {
			if hashCt(x.o.ct) != x.h {
				fail("mutated", "ciphertext #%d, returned long ago and not used since, was changed by a later operation", x.o.name)
			}
		}
		w.st.Counts["retired"] += int64(len(olds))
	}()
	for i, s := range w.plan.Steps {
		w.step = i + 1
		e := s.sel(4, len(w.evs))
		r := simrt.NewRNG(simrt.Mix(s.S, 0xc06))
		switch s.Op {
		case "enc":
			w.immEnc(s, r)
			continue
		case "dec":
			w.immDec(s, r)
			continue
		case "ptenc":
			before := w.snapshot()
			n := len(w.pts)
			var drop *Ptxt
			if n == 4 {
				drop = w.pts[0]
			}
			_ = drop
			v := w.values(s.S, s.a(1))
			if n > 0 && r.Intn(3) == 0 { // the same message once more
				v = w.pts[r.Intn(n)].v
			}
			m := w.msg(v)
			hv := hashVals(m.Value)
			var pt *ckks.Plaintext
			out := w.attempt(0, func() { pt = w.parties[s.sel(0, len(w.parties))].enc.EncodeMsgNew(m) })
			w.unchanged(before, w.snapshot(), "encoding a message")
			if hashVals(m.Value) != hv {
				fail("mutated", "step %d: encoding changed the message", w.step)
			}
			if out.ok {
				h := hashPoly(1, pt.Value)
				for j := range m.Value {
					m.Value[j] = complex(r.Float(), r.Float())
				}
				if hashPoly(1, pt.Value) != h {
					fail("aliased", "step %d: the encoded plaintext shares storage with the message", w.step)
				}
				w.logf("encoded %x", h)
				if r.Intn(4) == 0 { // the plaintext belongs to the caller alone
					scribblePoly(pt.Value, r)
					pt.Scale *= 2
					w.unchanged(before, w.snapshot(), "overwriting an encoded plaintext")
					w.st.add("scribble:ptxt")
					continue
				}
				w.pts = append(w.pts, &Ptxt{pt: pt, v: v})
				if len(w.pts) > 4 {
					w.pts = w.pts[1:]
				}
			} else {
				w.foreign("ptenc", out)
			}
			continue
		case "hoist":
			before := w.snapshot()
			keep := append([]*Hoist(nil), w.hs...)
			x := w.hoistStep(s, w.evs[e])
			now := w.hs
			w.hs = keep
			w.unchanged(before, w.snapshot(), "hoisting")
			w.hs = now
			if x != nil {
				w.st.add("hoist")
				if r.Intn(4) == 0 { // the hoisted form belongs to the caller alone
					before = w.snapshot()
					hid := x
					w.hs = keep
					before = w.snapshot()
					for _, k := range hid.h.Value {
						scribbleSwk(k, r)
					}
					w.unchanged(before, w.snapshot(), "overwriting a hoisted form")
					w.st.add("scribble:hoist")
				}
			}
			continue
		case "keygen":
			w.immKeygen(s, r)
			continue
		case "elem":
			w.immElem(s, r)
			continue
		}
		if w.common(s, e) {
			continue
		}
		c := w.build(s)
		if c == nil {
			w.st.add("skip:" + s.Op)
			continue
		}
		desc := w.describe(c)
		ins := make([]*mkckks.Ciphertext, len(c.in))
		reverse := false
		for j, o := range c.in {
			ins[j] = o.ct
		}
		if !c.inplace && c.name != "hmul" && c.name != "hrot" && r.Intn(4) == 0 {
			// run on private copies, overwrite them afterwards
			reverse = true
			for j := range ins {
				ins[j] = ins[j].CopyNew()
				if j > 0 && c.in[j] == c.in[0] {
					ins[j] = ins[0]
				}
			}
		}
		var ex []*Obj
		if c.inplace {
			ex = append(ex, c.in[0])
			w.dropHoists(c.in[0])
		}
		before := w.snapshot(ex...)
		var res *mkckks.Ciphertext
		out := w.attempt(0, func() { res = c.run(w.evs[e], ins) })
		w.st.add(c.name)
		w.unchanged(before, w.snapshot(ex...), desc)
		if !out.ok || res == nil {
			w.foreign(c.name, out)
			if c.inplace {
				w.remove(c.in[0])
			}
			continue
		}
		w.sig(c, e, s)
		w.apart("the result of "+desc, ctPolys(res)...)
		h := hashCt(res)
		w.logf("%d: %s on ev%d -> %x", i, desc, e, h)
		if reverse {
			for _, x := range ins {
				scribble(x, r)
			}
			if hashCt(res) != h {
				fail("aliased", "step %d: the result of %s shares storage with its operands: overwriting the operands afterwards changes it", w.step, desc)
			}
			w.st.add("scribble:operands")
		}
		if c.inplace {
			o := c.in[0]
			o.ct, o.v, o.e, o.ids = res, c.v, c.e, c.ids
			continue
		}
		if r.Intn(4) == 0 { // the result belongs to the caller alone
			before := w.snapshot()
			scribble(res, r)
			w.unchanged(before, w.snapshot(), "overwriting the result of "+desc)
			w.st.add("scribble:result")
			continue
		}
		w.push(&Obj{ct: res, v: c.v, e: c.e, ids: c.ids})
	}
}

func (w *World) immEnc(s Step, r *simrt.RNG) {
	p := w.parties[s.sel(0, len(w.parties))]
	v := w.values(s.S, s.a(1))
	m := w.msg(v)
	hv := hashVals(m.Value)
	ids := []string{p.id}
	var set *mkrlwe.IDSet
	var hset uint64
	var ct *mkckks.Ciphertext
	var pt *ckks.Plaintext
	var hpt uint64
	f := func() { ct = p.enc.EncryptMsgNew(m, p.pk) }
	variant := s.sel(3, 4)
	switch variant {
	case 1, 2:
		ids = w.anyIDs(r, p.id)
		set = w.idset(ids)
		if s.sel(4, 6) == 0 { // not a set the encryption can be made for
			set.Remove(p.id)
		}
		hset = hashIDs(set)
		if variant == 1 {
			f = func() { ct = p.enc.EncryptMsgNewExpand(m, p.pk, set) }
		} else {
			f = func() {
				ct = mkckks.NewCiphertext(w.params, set, r.Intn(w.params.MaxLevel()+1), 1)
				p.enc.EncryptMsg(m, p.pk, ct)
			}
		}
	case 3:
		lv := w.params.MaxLevel()
		pt = ckks.NewPlaintext(w.ckp, lv, w.params.Scale())
		w.coder.Encode(pt, v, w.cfg.LogSlots)
		ntt := r.Intn(2) == 0
		if r.Intn(2) == 0 {
			w.ringQ.NTTLvl(lv, pt.Value, pt.Value)
			pt.Value.IsNTT = true
		}
		hpt = hashPoly(3, pt.Value)
		f = func() {
			c := mkckks.NewCiphertext(w.params, w.idset(ids), lv, 1)
			if ntt {
				c.Ciphertext = mkrlwe.NewCiphertextNTT(w.params.Parameters, w.idset(ids), lv)
			}
			p.enc.EncryptPtxt(pt, p.pk, c)
			ct = c
		}
	}
	before := w.snapshot()
	out := w.attempt(0, f)
	w.unchanged(before, w.snapshot(), "an encryption")
	if hashVals(m.Value) != hv {
		fail("mutated", "step %d: encryption changed the message it was given", w.step)
	}
	if set != nil && hashIDs(set) != hset {
		fail("mutated", "step %d: encryption changed the party set it was given", w.step)
	}
	if pt != nil && hashPoly(3, pt.Value) != hpt {
		fail("mutated", "step %d: encryption changed the plaintext it was given", w.step)
	}
	if !out.ok && set != nil && !set.Has(p.id) {
		w.st.fault("set-without-the-owner")
		return
	}
	if !out.ok {
		w.foreign("enc", out)
		return
	}
	h := hashCt(ct)
	for j := range m.Value {
		m.Value[j] = complex(r.Float(), r.Float())
	}
	if set != nil {
		set.Add("somebody else")
		set.Remove(p.id)
	}
	if pt != nil {
		scribblePoly(pt.Value, r)
	}
	if hashCt(ct) != h {
		fail("aliased", "step %d: a fresh ciphertext shares storage with the message, plaintext or party set it was made from", w.step)
	}
	w.st.add("enc")
	w.logf("%d: enc %x", w.step, h)
	if r.Intn(6) == 0 {
		before := w.snapshot()
		scribble(ct, r)
		w.unchanged(before, w.snapshot(), "overwriting a fresh ciphertext")
		return
	}
	if pt == nil || !ct.Value["0"].IsNTT { // the evaluator works on coefficients
		if w.fits(vmax(v)+1e-3, ct.Scale, ct.Level()) {
			w.push(&Obj{ct: ct, v: v, e: w.freshErr(ct.Scale), ids: union(ids, nil)})
		}
	}
}

func (w *World) immDec(s Step, r *simrt.RNG) {
	o := w.pick(s, 0)
	if o == nil {
		return
	}
	p := w.parties[s.sel(1, len(w.parties))]
	before := w.snapshot()
	switch s.sel(2, 4) {
	case 0, 1:
		var m *mkckks.Message
		out := w.attempt(0, func() { m = p.dec.Decrypt(o.ct, w.skSet) })
		w.unchanged(before, w.snapshot(), "decryption")
		if out.ok && m != nil {
			hm := hashVals(m.Value)
			// a later decryption on the same object must not reach back
			if q := w.pick(s, 3); q != nil {
				w.attempt(0, func() { p.dec.Decrypt(q.ct, w.skSet) })
			}
			if hashVals(m.Value) != hm {
				fail("mutated", "step %d: a later decryption changed a message returned earlier", w.step)
			}
			for j := range m.Value {
				m.Value[j] = 1e9
			}
			w.unchanged(before, w.snapshot(), "overwriting a decrypted message")
		} else {
			w.foreign("dec", out)
		}
	case 2:
		pt := rlwe.NewPlaintext(w.params.Parameters.Parameters, o.ct.Level())
		pt.Value.IsNTT = r.Intn(2) == 0
		out := w.attempt(0, func() { p.dec.Decryptor.Decrypt(o.ct.Ciphertext, w.skSet, pt) })
		w.unchanged(before, w.snapshot(), "decryption into a plaintext")
		if out.ok {
			h := hashPoly(1, pt.Value)
			if q := w.pick(s, 3); q != nil {
				w.attempt(0, func() { p.dec.Decrypt(q.ct, w.skSet) })
			}
			if hashPoly(1, pt.Value) != h {
				fail("mutated", "step %d: a later decryption changed a plaintext returned earlier", w.step)
			}
			scribblePoly(pt.Value, r)
			w.unchanged(before, w.snapshot(), "overwriting a decrypted plaintext")
		}
	case 3:
		if len(o.ids) == 0 {
			return
		}
		c := o.ct.CopyNew()
		q := w.byID[o.ids[r.Intn(len(o.ids))]]
		w.attempt(0, func() { p.dec.PartialDecrypt(c, q.sk) })
		w.unchanged(before, w.snapshot(), "partial decryption of a copy")
		scribble(c, r)
		w.unchanged(before, w.snapshot(), "overwriting a partially decrypted copy")
	}
	w.st.add("dec")
}

// immKeygen generates keys that are thrown away.
func (w *World) immKeygen(s Step, r *simrt.RNG) {
	p := w.parties[s.sel(0, len(w.parties))]
	before := w.snapshot()
	kind := s.sel(1, 7)
	var keys []func() uint64
	var wreck []func()
	out := w.attempt(0, func() {
		switch kind {
		case 0:
			sk := w.genSK(p.kg, p.id)
			keys = append(keys, func() uint64 { return hashSK(sk) })
			wreck = append(wreck, func() { scribblePoly(sk.Value.Q, r); scribblePoly(sk.Value.P, r) })
		case 1:
			pk := p.kg.GenPublicKey(p.sk)
			keys = append(keys, func() uint64 { return hashPK(pk) })
			wreck = append(wreck, func() {
				for i := range pk.Value {
					scribblePoly(pk.Value[i].Q, r)
					scribblePoly(pk.Value[i].P, r)
				}
			})
		case 2:
			k := p.kg.GenRelinearizationKey(p.sk, p.r)
			w.apart("a relinearization key", swkPolys(k.Value[:]...)...)
			keys = append(keys, func() uint64 { return hashRLK(k) })
			wreck = append(wreck, func() {
				for _, x := range k.Value {
					scribbleSwk(x, r)
				}
			})
		case 3:
			k := p.kg.GenRotationKey(1<<uint(r.Intn(w.params.LogN()-1)), p.sk)
			w.apart("a rotation key", swkPolys(k.Value)...)
			keys = append(keys, func() uint64 { return hashRTK(k) })
			wreck = append(wreck, func() { scribbleSwk(k.Value, r) })
		case 4:
			k := p.kg.GenConjugationKey(p.sk)
			w.apart("a conjugation key", swkPolys(k.Value)...)
			keys = append(keys, func() uint64 { return hashCJK(k) })
			wreck = append(wreck, func() { scribbleSwk(k.Value, r) })
		case 5:
			set := mkrlwe.NewRotationKeySet()
			p.kg.GenDefaultRotationKeys(p.sk, set)
			for _, k := range set.Value[p.id] {
				k := k
				keys = append(keys, func() uint64 { return hashRTK(k) })
				wreck = append(wreck, func() { scribbleSwk(k.Value, r) })
			}
		case 6:
			sk, pk := p.sk.CopyNew(), p.pk.CopyNew()
			if hashSK(sk) != hashSK(p.sk) || hashPK(pk) != hashPK(p.pk) {
				fail("copy", "step %d: a copied key differs from the original", w.step)
			}
			keys = append(keys, func() uint64 { return hashSK(sk) ^ hashPK(pk) })
			wreck = append(wreck, func() {
				scribblePoly(sk.Value.Q, r)
				scribblePoly(sk.Value.P, r)
				for i := range pk.Value {
					scribblePoly(pk.Value[i].Q, r)
					scribblePoly(pk.Value[i].P, r)
				}
			})
		}
	})
	w.unchanged(before, w.snapshot(), "key generation")
	if !out.ok {
		w.foreign("keygen", out)
		return
	}
	w.st.add(fmt.Sprintf("keygen:%d", kind))
	var hs []uint64
	for _, k := range keys {
		hs = append(hs, k())
	}
	// more work on the same generator must not reach back into earlier keys
	w.attempt(0, func() { p.kg.GenPublicKey(p.sk); p.kg.GenConjugationKey(p.sk) })
	for i, k := range keys {
		if k() != hs[i] {
			fail("mutated", "step %d: generating another key changed a key returned earlier", w.step)
		}
	}
	for _, x := range wreck {
		x()
	}
	w.unchanged(before, w.snapshot(), "overwriting a generated key")
}

// immElem exercises the copy and set operations of ciphertexts and party sets.
func (w *World) immElem(s Step, r *simrt.RNG) {
	o := w.pick(s, 0)
	if o == nil {
		return
	}
	before := w.snapshot()
	var all []string
	for _, p := range w.parties {
		all = append(all, p.id)
	}
	out := w.attempt(0, func() {
		switch s.sel(2, 5) {
		case 0:
			c := o.ct.CopyNew()
			if hashCt(c) != hashCt(o.ct) {
				fail("copy", "step %d: a copied ciphertext differs from the original", w.step)
			}
			w.apart("a copied ciphertext", ctPolys(c)...)
			scribble(c, r)
		case 1:
			ids := o.ct.IDSet()
			ids.Add("somebody else")
			for _, id := range o.ids {
				ids.Remove(id)
			}
		case 2:
			c := o.ct.CopyNew()
			ids := w.idset(w.anyIDs(r, all[0]))
			h := hashIDs(ids)
			c.PadCiphertext(ids)
			if hashIDs(ids) != h {
				fail("mutated", "step %d: padding changed the party set it was given", w.step)
			}
			w.apart("a padded ciphertext", ctPolys(c)...)
			w.apart("a copied padded ciphertext", ctPolys(c.CopyNew())...)
			scribble(c, r)
		case 3:
			a, b := w.idset(o.ids), w.idset(w.anyIDs(r, all[0]))
			ha, hb := hashIDs(a), hashIDs(b)
			u, n, cp := a.Union(b), a.Intersection(b), a.CopyNew()
			if hashIDs(a) != ha || hashIDs(b) != hb {
				fail("mutated", "step %d: a party-set operation changed its operand", w.step)
			}
			for _, x := range []*mkrlwe.IDSet{u, n, cp} {
				x.Add("somebody else")
				for _, id := range all {
					x.Remove(id)
				}
			}
			if hashIDs(a) != ha || hashIDs(b) != hb {
				fail("aliased", "step %d: the result of a party-set operation shares storage with its operand", w.step)
			}
		case 4:
			c := mkrlwe.NewCiphertext(w.params.Parameters, w.idset(o.ids), o.ct.Level())
			c.Copy(o.ct.Ciphertext)
			x := &mkckks.Ciphertext{Ciphertext: c, Scale: o.ct.Scale}
			if d := w.sameRing(x, o.ct); d != "" {
				fail("copy", "step %d: copying into a prepared ciphertext differs: %s", w.step, d)
			}
			scribble(x, r)
		}
	})
	w.unchanged(before, w.snapshot(), "working on copies")
	if !out.ok {
		w.foreign("elem", out)
	}
	w.st.add("elem")
}

// ------------------------------------- C07: failures leave everything intact

// length of an operation: how many statements it executes, and when each
// distinct statement executes first and last.
type length struct {
	n    uint64
	hits []uint64
}

// at picks where to abort: any moment, or any statement of the source (so that
// the few statements outside the inner loops get their share).
func (l length) at(r *simrt.RNG) uint64 {
	if len(l.hits) > 0 && r.Intn(3) > 0 {
		return l.hits[r.Intn(len(l.hits))]
	}
	return 1 + uint64(r.Intn(int(l.n)))
}

// trial runs the operation on throw-away state to learn how long it is.
func (w *World) trial(f func()) (length, outcome) {
	n := simrt.Yields()
	simrt.Mark()
	out := w.attempt(0, f)
	return length{simrt.Yields() - n, simrt.Hits()}, out
}

func copies(in []*mkckks.Ciphertext) []*mkckks.Ciphertext {
	r := make([]*mkckks.Ciphertext, len(in))
	for i := range in {
		r[i] = in[i].CopyNew()
		if i > 0 && in[i] == in[0] {
			r[i] = r[0]
		}
	}
	return r
}

func failExec(w *World) {
	for i, s := range w.plan.Steps {
		w.step = i + 1
		e := s.sel(4, len(w.evs))
		r := simrt.NewRNG(simrt.Mix(s.S, 0xc07))
		switch s.Op {
		case "enc":
			w.failEnc(s, r)
			continue
		case "dec":
			w.failDec(s, r)
			continue
		case "keygen":
			w.failKeygen(s, r)
			continue
		case "misuse":
			w.failMisuse(s, r, e)
			continue
		case "hoist":
			w.failHoist(s, r, e)
			continue
		}
		s.Abort = 0
		if w.common(s, e) {
			continue
		}
		w.picked = [2]*Obj{}
		c := w.build(s)
		picks := w.picked
		if c == nil {
			w.st.add("skip:" + s.Op)
			continue
		}
		desc := w.describe(c)
		ins := make([]*mkckks.Ciphertext, len(c.in))
		for j, o := range c.in {
			ins[j] = o.ct
		}
		var want *mkckks.Ciphertext
		tev, tin := w.newEv(), copies(ins)
		n, out := w.trial(func() { want = c.run(tev, tin) })
		if !out.ok || want == nil {
			w.foreign(c.name, out)
			continue
		}
		w.st.add(c.name)
		var ex []*Obj
		if c.inplace {
			ex = append(ex, c.in[0])
			w.dropHoists(c.in[0])
		}
		// one to five failing attempts, of either kind, on the long-lived evaluator
		before := w.snapshot(ex...)
		last := ""
		for k := 1 + r.Intn(5); k > 0; k-- {
			use := ins
			if c.inplace {
				use = copies(ins) // the declared target of a failed operation is forfeit
			}
			how := ""
			if miss := c.in[0].ids; r.Intn(3) == 0 && len(miss) > 0 && w.withoutKey(c.name, c.ids[r.Intn(len(c.ids))], r, func() {
				var res *mkckks.Ciphertext
				o := w.attempt(0, func() { res = c.run(w.evs[e], use) })
				how = "refused " + o.String()
				if o.ok {
					how = ""
					if d := w.offBy(res, want, c); d != "" {
						fail("not-refused", "step %d: %s lacks a key of one of its parties and returns a wrong value instead of being refused: %s", w.step, desc, d)
					}
				} else {
					w.st.fault("evaluation-key-missing")
					w.st.seen(simrt.Mix(strHash(c.name), 2, c.key))
				}
			}) {
			} else {
				at := n.at(r)
				o := w.attempt(at, func() { c.run(w.evs[e], use) })
				if !o.aborted {
					if !o.ok {
						w.foreign(c.name, o)
					}
				} else {
					w.st.seen(simrt.Mix(strHash(c.name), 1, uint64(o.site)))
					how = fmt.Sprintf("aborted after %d of %d statements", at, n.n)
				}
			}
			if how != "" {
				w.logf("%d: %s %s", i, desc, how)
				last = how
			}
		}
		w.unchanged2(before, w.snapshot(ex...), desc, last)
		if !c.inplace && r.Intn(4) == 0 { // by then an operand may hold something else
			c2 := w.refilled(s, r, picks)
			if c2 == nil {
				continue
			}
			c, desc = c2, w.describe(c2)
			ins = make([]*mkckks.Ciphertext, len(c.in))
			for j, o := range c.in {
				ins[j] = o.ct
			}
			want, tev, tin = nil, w.newEv(), copies(ins)
			if out := w.attempt(0, func() { want = c.run(tev, tin) }); !out.ok || want == nil {
				w.foreign(c.name, out)
				continue
			}
			w.st.add("refilled")
		}
		// the same evaluator now gives what a fresh one gives
		var res *mkckks.Ciphertext
		out = w.attempt(0, func() { res = c.run(w.evs[e], ins) })
		if !out.ok || res == nil {
			fail("unusable", "step %d: after a failed attempt, %s on the same evaluator fails: %v", w.step, desc, out)
		}
		if d := w.sameRing(res, want); d != "" {
			fail("poisoned", "step %d: after a failed attempt, %s on the same evaluator differs from a fresh evaluator: %s", w.step, desc, d)
		}
		if c.inplace {
			o := c.in[0]
			o.ct, o.v, o.e, o.ids = res, c.v, c.e, c.ids
			continue
		}
		w.push(&Obj{ct: res, v: c.v, e: c.e, ids: c.ids})
	}
}

// refilled gives an operand of the last operation another value, in place, and
// prepares the operation anew.
func (w *World) refilled(s Step, r *simrt.RNG, picks [2]*Obj) *call {
	o := picks[r.Intn(2)]
	if o == nil {
		o = picks[0]
	}
	if o == nil || !w.has(o) {
		return nil
	}
	t := s
	t.Abort = 0
	w.forced = [2]*Obj{o}
	if r.Intn(2) == 0 {
		w.overwriteStep(t)
	} else {
		w.encintoStep(t)
	}
	w.forced = [2]*Obj{}
	for _, x := range picks {
		if x != nil && !w.has(x) {
			return nil
		}
	}
	w.forced = picks
	c := w.build(s)
	w.forced = [2]*Obj{}
	return c
}

func (w *World) unchanged2(before, after *watch, what, how string) {
	if l := before.changed(after); l != "" {
		fail("damaged", "step %d: %s, %s, left the %s altered", w.step, what, how, l)
	}
}

// offBy compares a result obtained without some key with what is right; "" when
// it is right all the same (the key was not needed after all).
func (w *World) offBy(res, want *mkckks.Ciphertext, c *call) string {
	if res == nil || res.Ciphertext == nil {
		return "no ciphertext"
	}
	if w.sameRing(res, want) == "" {
		return ""
	}
	got, err := w.open(res, w.sks())
	if err != nil {
		return err.Error()
	}
	if d := diff(got, c.v); !(d <= c.e) {
		return fmt.Sprintf("off by %.3g (bound %.3g)", d, c.e)
	}
	return ""
}

// withoutKey runs f with the evaluation key of one party missing; false when
// the operation needs no key.
func (w *World) withoutKey(op, id string, r *simrt.RNG, f func()) bool {
	switch op {
	case "mul", "mulks", "hmul":
		old := w.rlkSet
		w.rlkSet = mkrlwe.NewRelinearizationKeyKeySet(w.params.Parameters)
		for x, k := range old.Value {
			if x != id {
				w.rlkSet.AddRelinearizationKey(k)
			}
		}
		defer func() { w.rlkSet = old }()
	case "rot", "rotks", "hrot":
		old := w.rtkSet
		w.rtkSet = mkrlwe.NewRotationKeySet()
		one := -1 // all keys of the party, or a single one
		if r.Intn(2) == 0 {
			one = 1 << uint(r.Intn(w.params.LogN()-1))
		}
		for x, m := range old.Value {
			for i, k := range m {
				if x != id || one >= 0 && int(i) != one {
					w.rtkSet.AddRotationKey(k)
				}
			}
		}
		defer func() { w.rtkSet = old }()
	case "conj":
		old := w.cjkSet
		w.cjkSet = mkrlwe.NewConjugationKeySet()
		for x, k := range old.Value {
			if x != id {
				w.cjkSet.AddConjugationKey(k)
			}
		}
		defer func() { w.cjkSet = old }()
	default:
		return false
	}
	f()
	return true
}

func (w *World) failEnc(s Step, r *simrt.RNG) {
	p := w.parties[s.sel(0, len(w.parties))]
	v := w.values(s.S, s.a(1))
	m := w.msg(v)
	hm := hashVals(m.Value)
	ids := w.anyIDs(r, p.id)
	enc := func(x *mkckks.Encryptor) *mkckks.Ciphertext {
		if s.sel(3, 2) == 0 {
			return x.EncryptMsgNew(m, p.pk)
		}
		return x.EncryptMsgNewExpand(m, p.pk, w.idset(ids))
	}
	tenc := mkckks.NewEncryptor(w.params)
	n, out := w.trial(func() { enc(tenc) })
	if !out.ok {
		w.foreign("enc", out)
		return
	}
	for k := r.Intn(3); k > 0; k-- {
		before := w.snapshot()
		at := n.at(r)
		o := w.attempt(at, func() { enc(p.enc) })
		w.st.seen(simrt.Mix(3, uint64(o.site)))
		w.unchanged2(before, w.snapshot(), "an encryption", fmt.Sprintf("aborted after %d of %d statements", at, n.n))
		if hashVals(m.Value) != hm {
			fail("damaged", "step %d: an aborted encryption altered the message", w.step)
		}
		w.logf("%d: enc %v", w.step, o)
	}
	var ct *mkckks.Ciphertext
	out = w.attempt(0, func() { ct = enc(p.enc) })
	if !out.ok {
		fail("unusable", "step %d: encryption after an aborted one fails: %v", w.step, out)
	}
	e := w.freshErr(ct.Scale)
	got, err := w.open(ct, w.sks())
	if err != nil || !(diff(got, v) <= e) {
		fail("poisoned", "step %d: encryption on an encryptor that was aborted before gives a wrong ciphertext (error %.3g, bound %.3g) %v", w.step, diff(got, v), e, err)
	}
	w.st.add("enc")
	var l []string
	for id := range ct.Value {
		if id != "0" {
			l = append(l, id)
		}
	}
	w.push(&Obj{ct: ct, v: v, e: e, ids: union(l, nil)})
}

func (w *World) failDec(s Step, r *simrt.RNG) {
	o := w.pick(s, 0)
	if o == nil || len(o.ids) == 0 {
		return
	}
	p := w.parties[s.sel(1, len(w.parties))]
	tdec := mkckks.NewDecryptor(w.params)
	n, out := w.trial(func() { tdec.Decrypt(o.ct, w.skSet) })
	if !out.ok {
		w.foreign("dec", out)
		return
	}
	for k := r.Intn(3); k > 0; k-- {
		before := w.snapshot()
		how := ""
		if r.Intn(2) == 0 {
			miss := o.ids[r.Intn(len(o.ids))]
			var have []string
			for _, id := range o.ids {
				if id != miss {
					have = append(have, id)
				}
			}
			set := w.keySet(have, r)
			var m *mkckks.Message
			x := w.attempt(0, func() { m = p.dec.Decrypt(o.ct, set) })
			if x.ok && (m == nil || !(diff(m.Value, o.v) <= o.e+tiny(vmax(o.v)))) {
				fail("not-refused", "step %d: decryption of #%d without the key of %q returns a wrong message instead of being refused", w.step, o.name, miss)
			}
			w.st.fault("secret-key-missing")
			how = "refused for a missing key"
		} else {
			at := n.at(r)
			if r.Intn(3) == 0 {
				c := o.ct.CopyNew()
				w.attempt(at, func() { p.dec.PartialDecrypt(c, w.byID[o.ids[0]].sk) })
			} else {
				w.attempt(at, func() { p.dec.Decrypt(o.ct, w.skSet) })
			}
			how = fmt.Sprintf("aborted after %d of %d statements", at, n.n)
		}
		w.unchanged2(before, w.snapshot(), "a decryption", how)
		w.logf("%d: dec %s", w.step, how)
	}
	var m *mkckks.Message
	out = w.attempt(0, func() { m = p.dec.Decrypt(o.ct, w.skSet) })
	if !out.ok {
		fail("unusable", "step %d: decryption after a failed one fails: %v", w.step, out)
	}
	var f *mkckks.Message
	out = w.attempt(0, func() { f = mkckks.NewDecryptor(w.params).Decrypt(o.ct, w.skSet) })
	if !out.ok {
		w.foreign("dec", out)
		return
	}
	if d := diff(m.Value, f.Value); !(d <= tiny(vmax(o.v))) {
		fail("poisoned", "step %d: a decryptor that failed before gives a result off by %.3g from a fresh one", w.step, d)
	}
	w.st.add("dec")
}

func (w *World) failHoist(s Step, r *simrt.RNG, e int) {
	a := w.pick(s, 1)
	if a == nil {
		return
	}
	tev, tct := w.newEv(), a.ct.CopyNew()
	n, out := w.trial(func() { tev.ev.HoistedForm(tct) })
	if !out.ok || n.n == 0 {
		w.foreign("hoist", out)
		return
	}
	before := w.snapshot()
	at := n.at(r)
	w.attempt(at, func() { w.evs[e].ev.HoistedForm(a.ct) })
	w.unchanged2(before, w.snapshot(), "hoisting", fmt.Sprintf("aborted after %d of %d statements", at, n.n))
	w.hoistStep(Step{A: s.A}, w.evs[e])
	w.st.add("hoist")
}

// failKeygen aborts a key generation, then checks that the same generator still
// produces keys that work and that no half-made key was registered.
func (w *World) failKeygen(s Step, r *simrt.RNG) {
	for k := 1 + r.Intn(5); k > 0; k-- {
		w.failKeygen1(s, r)
	}
}

func (w *World) failKeygen1(s Step, r *simrt.RNG) {
	p := w.parties[s.sel(0, len(w.parties))]
	kind := s.sel(1, 4)
	if s.sel(2, 4) == 0 {
		w.failCRS(s, r, p)
		return
	}
	gen := func(kg *mkrlwe.KeyGenerator, set *mkrlwe.RotationKeySet) {
		switch kind {
		case 0:
			kg.GenPublicKey(p.sk)
		case 1:
			kg.GenRelinearizationKey(p.sk, p.r)
		case 2:
			kg.GenDefaultRotationKeys(p.sk, set)
		case 3:
			kg.GenConjugationKey(p.sk)
		}
	}
	tkg, tset := mkckks.NewKeyGenerator(w.params), mkrlwe.NewRotationKeySet()
	n, out := w.trial(func() { gen(tkg, tset) })
	if !out.ok {
		w.foreign("keygen", out)
		return
	}
	// the generator: the party's own, another party's, or a new one
	kg := p.kg
	switch r.Intn(3) {
	case 0:
		kg = mkckks.NewKeyGenerator(w.params)
	case 1:
		kg = w.parties[r.Intn(len(w.parties))].kg
	}
	set := mkrlwe.NewRotationKeySet()
	before := w.snapshot()
	at := n.at(r)
	o1 := w.attempt(at, func() { gen(kg, set) })
	w.st.seen(simrt.Mix(4, uint64(kind), uint64(o1.site)))
	w.unchanged2(before, w.snapshot(), "a key generation", fmt.Sprintf("aborted after %d of %d statements", at, n.n))
	w.logf("%d: keygen %d aborted at %d/%d", w.step, kind, at, n.n)
	w.st.add(fmt.Sprintf("keygen:%d", kind))
	if r.Intn(3) == 0 { // what is generated next is something else
		kind = r.Intn(4)
	}
	// what got registered before the abort must work; everything else is made anew
	v := w.values(s.S, 0)
	var ct *mkckks.Ciphertext
	sks := w.sks()
	out = w.attempt(0, func() {
		pk := p.pk
		if kind == 0 {
			pk = kg.GenPublicKey(p.sk)
		}
		ct = p.enc.EncryptMsgNew(w.msg(v), pk)
	})
	if !out.ok {
		fail("unusable", "step %d: generating keys after an aborted generation fails: %v", w.step, out)
	}
	o := &Obj{ct: ct, v: v, e: w.freshErr(ct.Scale), ids: []string{p.id}}
	check := func(res *mkckks.Ciphertext, want []complex128, e float64, what string) {
		got, err := w.open(res, sks)
		if err != nil || !(diff(got, want) <= e) {
			fail("poisoned", "step %d: %s made after an aborted key generation does not work: error %.3g (bound %.3g) %v", w.step, what, diff(got, want), e, err)
		}
	}
	ev := w.newEv()
	switch kind {
	case 0:
		check(ct, v, o.e, "a public key")
	case 1:
		c := &call{}
		if !w.mulModel(c, o, o) {
			return
		}
		var res *mkckks.Ciphertext
		rs := mkrlwe.NewRelinearizationKeyKeySet(w.params.Parameters)
		out = w.attempt(0, func() {
			rs.AddRelinearizationKey(kg.GenRelinearizationKey(p.sk, p.r))
			res = ev.ev.MulRelinNew(ct, ct, rs)
		})
		if !out.ok {
			fail("unusable", "step %d: relinearization key after an aborted generation: %v", w.step, out)
		}
		check(res, c.v, c.e, "a relinearization key")
	case 2:
		for pass := 0; pass < 2; pass++ {
			ks := []int{}
			for k := range set.Value[p.id] {
				ks = append(ks, int(k))
			}
			sort.Ints(ks)
			for _, k := range ks {
				var res *mkckks.Ciphertext
				out = w.attempt(0, func() { res = ev.ev.RotateNew(ct, k, set) })
				if !out.ok {
					fail("unusable", "step %d: rotation by %d with a key registered by an aborted generation: %v", w.step, k, out)
				}
				check(res, rotv(v, k), o.e+w.ksErr(1, ct.Level(), ct.Scale)+tiny(vmax(v)), fmt.Sprintf("the rotation key %d registered", k))
			}
			if pass == 0 {
				out = w.attempt(0, func() { kg.GenDefaultRotationKeys(p.sk, set) })
				if !out.ok {
					fail("unusable", "step %d: rotation keys after an aborted generation: %v", w.step, out)
				}
			}
		}
	case 3:
		var res *mkckks.Ciphertext
		cs := mkrlwe.NewConjugationKeySet()
		out = w.attempt(0, func() {
			cs.AddConjugationKey(kg.GenConjugationKey(p.sk))
			res = ev.ev.ConjugateNew(ct, cs)
		})
		if !out.ok {
			fail("unusable", "step %d: conjugation key after an aborted generation: %v", w.step, out)
		}
		want := mapv(v, func(x complex128) complex128 { return complex(real(x), -imag(x)) })
		check(res, want, o.e+w.ksErr(1, ct.Level(), ct.Scale)+tiny(vmax(v)), "a conjugation key")
	}
}

// failCRS interrupts the addition of a reference string.
func (w *World) failCRS(s Step, r *simrt.RNG, p *Party) {
	half := w.params.N() / 2
	k := 3 + r.Intn(half-3)
	if _, in := w.params.CRS[k]; in || hamming(k) < 2 || len(w.dedicated()) >= 4 {
		return
	}
	tp := w.params
	tp.CRS = map[int]*mkrlwe.SwitchingKey{}
	n, out := w.trial(func() { tp.AddCRS(k) })
	if !out.ok {
		w.foreign("keygen", out)
		return
	}
	before := w.snapshot()
	at := n.at(r)
	o1 := w.attempt(at, func() { w.params.AddCRS(k) })
	w.st.seen(simrt.Mix(5, uint64(o1.site)))
	how := fmt.Sprintf("aborted after %d of %d statements", at, n.n)
	if !o1.ok {
		w.unchanged2(before, w.snapshot(), "adding a reference string", how)
	}
	w.logf("%d: AddCRS(%d) %s", w.step, k, how)
	var keys []*mkrlwe.RotationKey
	v := w.values(s.S, 0)
	var ct, res *mkckks.Ciphertext
	out = w.attempt(0, func() {
		w.params.AddCRS(k)
		for _, q := range w.parties {
			keys = append(keys, q.kg.GenRotationKey(k, q.sk))
		}
		for _, rk := range keys {
			w.rtkSet.AddRotationKey(rk)
			w.byID[rk.ID].rtk[rk.RotIdx] = rk
		}
		ct = p.enc.EncryptMsgNew(w.msg(v), p.pk)
		res = w.evs[0].ev.RotateNew(ct, k, w.rtkSet)
	})
	if !out.ok {
		fail("unusable", "step %d: rotation index %d, %s, cannot be added and used afterwards: %v", w.step, k, how, out)
	}
	e := w.freshErr(ct.Scale) + w.ksErr(1, ct.Level(), ct.Scale) + tiny(vmax(v))
	if got, err := w.open(res, w.sks()); err != nil || !(diff(got, rotv(v, k)) <= e) {
		fail("poisoned", "step %d: rotation by %d, whose reference string was %s before, is wrong: error %.3g (bound %.3g) %v", w.step, k, how, diff(got, rotv(v, k)), e, err)
	}
	w.st.add("keygen:crs")
}

// failMisuse makes requests that are refused and checks that nothing moved.
func (w *World) failMisuse(s Step, r *simrt.RNG, e int) {
	o := w.pick(s, 0)
	if o == nil {
		return
	}
	p := w.parties[s.sel(1, len(w.parties))]
	before := w.snapshot()
	kind := s.sel(2, 6)
	half := w.params.N() / 2
	out := w.attempt(0, func() {
		switch kind {
		case 0: // no common reference string for this index
			for k := 3; k < half; k++ {
				if _, ok := w.params.CRS[k]; !ok {
					p.kg.GenRotationKey(k, p.sk)
					break
				}
			}
		case 1: // hoisted rotation by an index without a key of its own
			for k := 3; k < half; k++ {
				if _, ok := w.params.CRS[k]; !ok {
					w.evs[e].ev.RotateHoistedNew(o.ct, k, w.evs[e].ev.HoistedForm(o.ct), w.rtkSet)
					break
				}
			}
		case 2:
			out := mkckks.NewCiphertext(w.params, w.idset(o.ids), o.ct.Level(), 1)
			w.evs[e].ev.MultByConst(o.ct, "not a number", out)
		case 3:
			w.rtkSet.GetRotationKey("nobody", 1)
		case 4:
			set := mkrlwe.NewIDSet()
			set.Add("0")
		case 5:
			ev := w.evs[e].ev
			if err := ev.Rescale(o.ct, -1, o.ct); err != nil {
				panic(err)
			}
		}
	})
	w.st.fault("illegal-request")
	w.logf("%d: misuse %d %v", w.step, kind, out)
	w.unchanged2(before, w.snapshot(), "an illegal request", out.String())
	w.st.add(fmt.Sprintf("misuse:%d", kind))
}

// -------------------------- C08: history and iteration order do not matter

func histExec(w *World) {
	mode := func(r *simrt.RNG) { simrt.SetMapOrder(r.Intn(3), r.Next()) }
	for i, s := range w.plan.Steps {
		w.step = i + 1
		e := s.sel(4, len(w.evs))
		if s.Op == "redo" && w.lastStep.Op != "" {
			e = w.lastStep.sel(4, len(w.evs))
		}
		r := simrt.NewRNG(simrt.Mix(s.S, 0xc08))
		if s.Op == "dec" {
			w.histDec(s, r)
			continue
		}
		if s.Op == "twin" {
			w.histTwin(s, r)
			continue
		}
		if s.Op == "near" {
			w.histNear(s, r, e)
			continue
		}
		if s.Op == "hoist" {
			a := w.pick(s, 1)
			mode(r)
			x := w.hoistStep(s, w.evs[e])
			w.st.add("hoist")
			if x == nil {
				continue
			}
			mode(r)
			var h *mkrlwe.HoistedCiphertext
			out := w.attempt(0, func() { h = w.newEv().ev.HoistedForm(a.ct) })
			if !out.ok {
				w.foreign("hoist", out)
				continue
			}
			if hashHoistMod(w, h, a.ct.Level()) != hashHoistMod(w, x.h, a.ct.Level()) {
				fail("history", "step %d: the hoisted form of #%d depends on what the evaluator did before", w.step, a.name)
			}
			continue
		}
		if w.common(s, e) {
			continue
		}
		c := w.again(s)
		if c == nil {
			w.st.add("skip:" + s.Op)
			continue
		}
		desc := w.describe(c)
		ins := make([]*mkckks.Ciphertext, len(c.in))
		for j, o := range c.in {
			ins[j] = o.ct
		}
		same := ins
		if c.inplace {
			same = copies(ins)
		}
		var a, b *mkckks.Ciphertext
		mode(r)
		out := w.attempt(s.Abort, func() { a = c.run(w.evs[e], ins) })
		w.st.add(c.name)
		if out.aborted {
			if c.inplace {
				w.remove(c.in[0])
			}
			continue
		}
		mode(r)
		how := "a fresh evaluator"
		var out2 outcome
		switch k := r.Intn(4); {
		case k == 0 && len(w.evs) > 1:
			how = "another evaluator"
			out2 = w.attempt(0, func() { b = c.run(w.evs[(e+1)%len(w.evs)], same) })
		case k == 1 && !c.inplace:
			how = "the same evaluator again"
			out2 = w.attempt(0, func() { b = c.run(w.evs[e], same) })
		case k == 2:
			how = "a fresh evaluator given only the keys involved"
			w.onlyKeys(c.ids, func() { out2 = w.attempt(0, func() { b = c.run(w.newEv(), same) }) })
		default:
			out2 = w.attempt(0, func() { b = c.run(w.newEv(), same) })
		}
		if out.ok != out2.ok {
			fail("history", "step %d: %s: %v on a long-lived evaluator but %v on %s", w.step, desc, out, out2, how)
		}
		if !out.ok {
			w.foreign(c.name, out)
			if c.inplace {
				w.remove(c.in[0])
			}
			continue
		}
		w.sig(c, e, s)
		if d := w.sameRing(a, b); d != "" {
			fail("history", "step %d: %s on a long-lived evaluator differs from %s: %s", w.step, desc, how, d)
		}
		w.logf("%d: %s on ev%d = %s", i, desc, e, how)
		if c.inplace {
			o := c.in[0]
			o.ct, o.v, o.e, o.ids = a, c.v, c.e, c.ids
			if c.name != "drop" {
				w.dropHoists(o)
			}
			continue
		}
		w.push(&Obj{ct: a, v: c.v, e: c.e, ids: c.ids})
	}
}

// hashHoistMod hashes the meaningful part of a hoisted form modulo the primes.
func hashHoistMod(w *World, c *mkrlwe.HoistedCiphertext, level int) uint64 {
	l := make([]string, 0, len(c.Value))
	for id := range c.Value {
		l = append(l, id)
	}
	sort.Strings(l)
	h := uint64(len(l))
	beta := w.params.Beta(level)
	P := w.ckp.RingP().Modulus
	for _, id := range l {
		h = hashStr(h, id)
		for i := 0; i < beta && i < len(c.Value[id].Value); i++ {
			x := c.Value[id].Value[i]
			for j := 0; j <= level; j++ {
				for _, y := range x.Q.Coeffs[j] {
					h = (h ^ y%w.ringQ.Modulus[j]) * 0xff51afd7ed558ccd
				}
			}
			for j := range P {
				for _, y := range x.P.Coeffs[j] {
					h = (h ^ y%P[j]) * 0xff51afd7ed558ccd
				}
			}
		}
	}
	return h
}

// onlyKeys runs f while the key sets hold the keys of the listed parties only.
func (w *World) onlyKeys(ids []string, f func()) {
	a, b, c := w.rlkSet, w.rtkSet, w.cjkSet
	defer func() { w.rlkSet, w.rtkSet, w.cjkSet = a, b, c }()
	w.rlkSet = mkrlwe.NewRelinearizationKeyKeySet(w.params.Parameters)
	w.rtkSet = mkrlwe.NewRotationKeySet()
	w.cjkSet = mkrlwe.NewConjugationKeySet()
	for _, id := range ids {
		if k := a.Value[id]; k != nil {
			w.rlkSet.AddRelinearizationKey(k)
		}
		for _, k := range b.Value[id] {
			w.rtkSet.AddRotationKey(k)
		}
		if k := c.Value[id]; k != nil {
			w.cjkSet.AddConjugationKey(k)
		}
	}
	f()
}

func (w *World) histDec(s Step, r *simrt.RNG) {
	o := w.pick(s, 0)
	if o == nil {
		return
	}
	p := w.parties[s.sel(1, len(w.parties))]
	run := func(d *mkckks.Decryptor) (*ring.Poly, outcome) {
		simrt.SetMapOrder(r.Intn(3), r.Next())
		pt := rlwe.NewPlaintext(w.params.Parameters.Parameters, o.ct.Level())
		out := w.attempt(0, func() { d.Decryptor.Decrypt(o.ct.Ciphertext, w.skSet, pt) })
		return pt.Value, out
	}
	a, oa := run(p.dec)
	b, ob := run(mkckks.NewDecryptor(w.params))
	if oa.ok != ob.ok {
		fail("history", "step %d: decryption of #%d: %v on a used decryptor, %v on a fresh one", w.step, o.name, oa, ob)
	}
	if !oa.ok {
		w.foreign("dec", oa)
		return
	}
	if d := w.samePoly(a, b); d != "" {
		fail("history", "step %d: decryption of #%d depends on what the decryptor did before: %s", w.step, o.name, d)
	}
	w.st.add("dec")
}

// histTwin lets two new key generators and encryptors draw the same entropy and
// do the same work, once undisturbed and once while other tools are in use and
// the parties are enumerated in another order.
func (w *World) histTwin(s Step, r *simrt.RNG) {
	p := w.parties[s.sel(0, len(w.parties))]
	seed, work := r.Next(), r.Next()
	kinds := make([]int, 1+r.Intn(4))
	for i := range kinds {
		kinds[i] = r.Intn(9)
	}
	saved, other := w.ent.rng, simrt.NewRNG(r.Next())
	buf, left := w.ent.buf, w.ent.left
	run := func(disturb bool) (h []uint64, cts []*mkckks.Ciphertext, out outcome) {
		simrt.SetMapOrder(r.Intn(3), r.Next())
		w.ent.rng, w.ent.buf, w.ent.left = simrt.RNG{S: seed}, 0, 0
		out = w.attempt(0, func() {
			kg, enc := mkckks.NewKeyGenerator(w.params), mkckks.NewEncryptor(w.params)
			for i, k := range kinds {
				if disturb {
					q := w.parties[other.Intn(len(w.parties))]
					switch other.Intn(5) {
					case 0:
						q.enc.EncryptMsgNew(w.msg(w.values(other.Next(), 0)), q.pk)
					case 1:
						q.kg.GenPublicKey(q.sk)
					case 2:
						q.kg.GenConjugationKey(q.sk)
					case 3:
						if o := w.pick(s, 1); o != nil {
							w.evs[0].ev.ConjugateNew(o.ct, w.cjkSet)
						}
					}
				}
				d := simrt.NewRNG(simrt.Mix(work, uint64(i)))
				switch k {
				case 0:
					h = append(h, hashSK(w.genSK(kg, p.id)))
				case 1:
					h = append(h, hashPK(kg.GenPublicKey(p.sk)))
				case 2:
					h = append(h, hashRLK(kg.GenRelinearizationKey(p.sk, p.r)))
				case 3:
					h = append(h, hashRTK(kg.GenRotationKey(1<<uint(d.Intn(w.params.LogN()-1)), p.sk)))
				case 4:
					h = append(h, hashCJK(kg.GenConjugationKey(p.sk)))
				case 5:
					cts = append(cts, enc.EncryptMsgNew(w.msg(w.values(d.Next(), 0)), p.pk))
				case 6:
					cts = append(cts, enc.EncryptMsgNewExpand(w.msg(w.values(d.Next(), 0)), p.pk, w.idset(w.anyIDs(d, p.id))))
				default:
					ct := mkckks.NewCiphertext(w.params, w.idset(w.anyIDs(d, p.id)), d.Intn(w.params.MaxLevel()+1), 1)
					if disturb { // what the target held before does not matter
						keep := *other
						for _, id := range append([]string{"0"}, w.cfg.IDs...) {
							if c := ct.Value[id]; c != nil {
								for _, x := range c.Coeffs {
									for j := range x {
										x[j] = keep.Next() >> 30
									}
								}
							}
						}
					}
					enc.EncryptMsg(w.msg(w.values(d.Next(), 0)), p.pk, ct)
					cts = append(cts, ct)
				}
			}
		})
		return
	}
	h1, c1, o1 := run(false)
	h2, c2, o2 := run(true)
	w.ent.rng, w.ent.buf, w.ent.left = saved, buf, left
	if !o1.ok || !o2.ok {
		if o1.ok != o2.ok {
			w.foreign("twin", o2)
		}
		return
	}
	for i := range h1 {
		if h1[i] != h2[i] {
			fail("twin", "step %d: two generators given the same inputs and the same entropy produced different keys (key %d of %d): generation depends on something else", w.step, i+1, len(h1))
		}
	}
	for i := range c1 {
		if d := w.sameRing(c1[i], c2[i]); d != "" {
			fail("twin", "step %d: two encryptors given the same inputs and the same entropy produced different ciphertexts: %s", w.step, d)
		}
	}
	w.st.add("twin")
	w.logf("%d: twin %v", w.step, kinds)
}

// histNear gives an evaluator two calls in a row that differ in one respect only
// (a scale or target on the other side of a threshold, a constant, an amount, a
// single residue, a level, the storage an operand lies in) and compares the second
// with the same call on a fresh evaluator.
func (w *World) histNear(s Step, r *simrt.RNG, e int) {
	o := w.pick(s, 0)
	if o == nil {
		return
	}
	type op func(ev *mkckks.Evaluator) *mkckks.Ciphertext
	must := func(ct *mkckks.Ciphertext, err error) *mkckks.Ciphertext {
		if err != nil {
			panic(err)
		}
		return ct
	}
	eps := func() float64 { return []float64{1e-9, 1e-4, 0.01, 0.04}[r.Intn(4)] }
	a := o.ct.CopyNew()
	lvl := a.Level()
	b := o
	if x := w.pick(s, 1); x != nil && r.Intn(3) != 0 {
		b = x
	}
	// nudge returns a copy with one residue changed, or the very same storage with it
	// changed only for the second call
	nudge := func(ct *mkckks.Ciphertext) (*mkckks.Ciphertext, *mkckks.Ciphertext, func()) {
		ids := append([]string{"0"}, w.cfg.IDs...)
		id := ids[r.Intn(len(ids))]
		if ct.Value[id] == nil {
			id = "0"
		}
		j, k := r.Intn(ct.Level()+1), r.Intn(w.ringQ.N)
		if r.Intn(3) == 0 {
			k = w.ringQ.N - 1
		}
		q := w.ringQ.Modulus[j]
		d := 1 + r.Next()%(q-1)
		second := ct
		if r.Intn(2) == 0 {
			second = ct.CopyNew()
		}
		return ct, second, func() { second.Value[id].Coeffs[j][k] = (second.Value[id].Coeffs[j][k] + d) % q }
	}
	between := func() {}
	var first, second op
	what := ""
	switch kind := r.Intn(9); kind {
	case 0, 1: // on either side of the threshold of a rescaling
		if lvl == 0 {
			return
		}
		min := w.params.Scale() * []float64{1, 1, 0.75, 1.5, 1.0 / 1024}[r.Intn(5)]
		edge := min / 2
		for i := 1 + r.Intn(mini(lvl, 2)); i > 0; i-- {
			edge *= float64(w.ringQ.Modulus[lvl-i+1])
		}
		x, y := edge*(1+eps()), edge*(1-eps())
		if r.Intn(2) == 0 {
			x, y = y, x
		}
		a2 := a
		if r.Intn(2) == 0 {
			a2 = a.CopyNew()
		}
		a.Scale, between = x, func() { a2.Scale = y }
		if kind == 1 { // the same operand, the target is what differs
			between = func() {}
			a2 = a
			min2 := min * (x / y)
			first = func(ev *mkckks.Evaluator) *mkckks.Ciphertext { return must(ev.RescaleNew(a, min)) }
			second = func(ev *mkckks.Evaluator) *mkckks.Ciphertext { return must(ev.RescaleNew(a2, min2)) }
		} else {
			first = func(ev *mkckks.Evaluator) *mkckks.Ciphertext { return must(ev.RescaleNew(a, min)) }
			second = func(ev *mkckks.Evaluator) *mkckks.Ciphertext { return must(ev.RescaleNew(a2, min)) }
		}
		what = fmt.Sprintf("rescaling from scale %g after one from %g at level %d", y, x, lvl)
	case 2: // another constant
		base := float64(r.Intn(9) - 4)
		ks := []interface{}{base, int(base), int64(base), base + 0.5, base + 1e-9, -base, complex(base, 0), complex(0, base), complex(base, 0.25), complex(0.25, base), complex(base, -base), 0.0, uint64(math.Abs(base))}
		x, y := ks[r.Intn(len(ks))], ks[r.Intn(len(ks))]
		l := lvl
		if r.Intn(3) == 0 {
			l = r.Intn(lvl + 1)
		}
		f := func(k interface{}, l int) op {
			return func(ev *mkckks.Evaluator) *mkckks.Ciphertext {
				out := mkckks.NewCiphertext(w.params, w.idset(o.ids), l, 1)
				ev.MultByConst(a, k, out)
				return out
			}
		}
		first, second = f(x, lvl), f(y, l)
		what = fmt.Sprintf("multiplying by %v after by %v", y, x)
	case 3: // scales that are no longer, or only now, an integer multiple apart
		c := b.ct.CopyNew()
		m := float64(1 + r.Intn(5))
		c.Scale = a.Scale * m
		if r.Intn(2) == 0 {
			c.Scale = a.Scale / m
		}
		x, y := c.Scale*(1+eps()), c.Scale*(1-eps())
		if r.Intn(2) == 0 {
			x, y = y, x
		}
		c.Scale, between = x, func() { c.Scale = y }
		neg, swap := r.Intn(2) == 0, r.Intn(2) == 0
		f := func(ev *mkckks.Evaluator) *mkckks.Ciphertext {
			p, q := a, c
			if swap {
				p, q = c, a
			}
			if neg {
				return ev.SubNew(p, q)
			}
			return ev.AddNew(p, q)
		}
		first, second = f, f
		what = fmt.Sprintf("adding at scales %g and %g after %g", a.Scale, y, x)
	case 4: // a related amount
		n := w.params.N() / 2
		k := w.amount(s, 1)
		k2 := []int{-k, k + 1, k - 1, k + n, n - k, k * 2, k / 2, k ^ 1}[r.Intn(8)]
		f := func(k int) op {
			return func(ev *mkckks.Evaluator) *mkckks.Ciphertext { return ev.RotateNew(a, k, w.rtkSet) }
		}
		first, second = f(k), f(k2)
		what = fmt.Sprintf("rotating by %d after %d", k2, k)
	case 5: // one residue
		x, y, g := nudge(a)
		between = g
		k := w.amount(s, 1)
		kind := r.Intn(4)
		c := b.ct
		f := func(ct *mkckks.Ciphertext) op {
			return func(ev *mkckks.Evaluator) *mkckks.Ciphertext {
				switch kind {
				case 0:
					return ev.MulRelinNew(ct, c, w.rlkSet)
				case 1:
					return ev.MulRelinNew(c, ct, w.rlkSet)
				case 2:
					return ev.ConjugateNew(ct, w.cjkSet)
				}
				return ev.RotateNew(ct, k, w.rtkSet)
			}
		}
		first, second = f(x), f(y)
		what = fmt.Sprintf("operation %d on a ciphertext of which one residue changed", kind)
	case 6: // the plaintext
		if len(w.pts) == 0 {
			return
		}
		p := w.pts[s.sel(2, len(w.pts))]
		if lvl > p.pt.Level() {
			return
		}
		pt := *p.pt
		pp := *p.pt.Plaintext
		pp.Value = p.pt.Value.CopyNew()
		pt.Plaintext = &pp
		j, k := r.Intn(lvl+1), r.Intn(w.ringQ.N)
		switch r.Intn(3) {
		case 0:
			between = func() { pt.Scale *= 1.5 }
		case 1:
			between = func() {
				pp.Value.Coeffs[j][k] = (pp.Value.Coeffs[j][k] + 1) % w.ringQ.Modulus[j]
			}
		default:
			between = func() { pp.Value = w.pts[r.Intn(len(w.pts))].pt.Value.CopyNew() }
		}
		f := func(ev *mkckks.Evaluator) *mkckks.Ciphertext { return ev.MulPtxtNew(a, &pt) }
		first, second = f, f
		what = "multiplying by a plaintext that changed"
	case 7: // the level
		l := r.Intn(lvl + 1)
		between = func() { w.dropTo(a, l) }
		kind := r.Intn(4)
		k := w.amount(s, 1)
		f := func(ev *mkckks.Evaluator) *mkckks.Ciphertext {
			switch kind {
			case 0:
				return ev.MulRelinNew(a, b.ct, w.rlkSet)
			case 1:
				return ev.ConjugateNew(a, w.cjkSet)
			case 2:
				return ev.AddNew(a, b.ct)
			}
			return ev.RotateNew(a, k, w.rtkSet)
		}
		first, second = f, f
		what = fmt.Sprintf("operation %d on a ciphertext dropped from level %d to %d", kind, lvl, l)
		if r.Intn(2) == 0 { // and back up
			top := lvl
			c := a.CopyNew()
			w.dropTo(a, l)
			between = func() {
				for id, p := range a.Value {
					p.Coeffs = c.Value[id].Coeffs[:top+1]
				}
			}
			what += ", the other way round"
		}
	default: // decomposed form of a ciphertext of which one residue changed
		x, y, g := nudge(a)
		between = g
		f := func(ct *mkckks.Ciphertext) op {
			return func(ev *mkckks.Evaluator) *mkckks.Ciphertext {
				h := ev.HoistedForm(ct)
				return ev.MulRelinHoistedNew(ct, b.ct, h, ev.HoistedForm(b.ct), w.rlkSet)
			}
		}
		first, second = f(x), f(y)
		what = "multiplying by hoisted forms after one residue changed"
	}
	mode := func() { simrt.SetMapOrder(r.Intn(3), r.Next()) }
	mode()
	if out := w.attempt(0, func() { first(w.evs[e].ev) }); !out.ok {
		w.foreign("near", out)
	}
	between()
	var x, y *mkckks.Ciphertext
	mode()
	ox := w.attempt(0, func() { x = second(w.evs[e].ev) })
	mode()
	oy := w.attempt(0, func() { y = second(w.newEv().ev) })
	if ox.ok != oy.ok {
		fail("history", "step %d: %s: %v on the same evaluator but %v on a fresh one", w.step, what, ox, oy)
	}
	if !ox.ok {
		w.foreign("near", ox)
		return
	}
	if d := w.sameRing(x, y); d != "" {
		fail("history", "step %d: %s differs from a fresh evaluator: %s", w.step, what, d)
	}
	w.st.add("near")
	w.logf("%d: near %s", w.step, what)
}

// ------------------------------------------------------ C12: bookkeeping

func (w *World) book(ct *mkckks.Ciphertext, ids []string, level int, scale float64, what string) {
	if ct == nil || ct.Ciphertext == nil || ct.Value["0"] == nil {
		fail("book", "step %d: %s returned no ciphertext", w.step, what)
	}
	if len(ct.Value) != len(ids)+1 {
		var l []string
		for id := range ct.Value {
			l = append(l, id)
		}
		sort.Strings(l)
		fail("book:parties", "step %d: %s involves %q, the operands involve %q", w.step, what, l, ids)
	}
	for _, id := range ids {
		if ct.Value[id] == nil {
			fail("book:parties", "step %d: %s lacks the component of %q", w.step, what, id)
		}
	}
	if set := ct.IDSet(); set.Size() != len(ids) {
		fail("book:parties", "step %d: %s reports %d parties, the operands involve %d", w.step, what, set.Size(), len(ids))
	}
	if ct.Level() != level {
		fail("book:level", "step %d: %s is at level %d, expected %d", w.step, what, ct.Level(), level)
	}
	dom := ct.Value["0"].IsNTT
	for id, p := range ct.Value {
		if len(p.Coeffs) != level+1 {
			fail("book:level", "step %d: %s: component %q has %d residues, the ciphertext claims level %d", w.step, what, id, len(p.Coeffs), level)
		}
		if p.IsNTT != dom {
			fail("book:domain", "step %d: %s: component %q is flagged as being in another domain than component 0", w.step, what, id)
		}
		for _, c := range p.Coeffs {
			if len(c) != w.params.N() {
				fail("book:size", "step %d: %s: a residue of %q has %d coefficients", w.step, what, id, len(c))
			}
		}
	}
	if !(math.Abs(ct.Scale-scale) <= 1e-9*scale) || ct.ScalingFactor() != ct.Scale {
		fail("book:scale", "step %d: %s claims scale %g, the operands give %g", w.step, what, ct.Scale, scale)
	}
}

func bookExec(w *World) {
	for i, s := range w.plan.Steps {
		w.step = i + 1
		e := s.sel(4, len(w.evs))
		r := simrt.NewRNG(simrt.Mix(s.S, 0xc12))
		switch s.Op {
		case "enc":
			w.bookEnc(s, r)
			continue
		case "dec":
			w.bookDec(s, r)
			continue
		case "reject":
			w.bookReject(s, r, e)
			continue
		case "elem":
			w.bookElem(s, r)
			continue
		case "odd":
			w.bookOdd(s, r, e)
			continue
		case "hoist":
			if x := w.hoistStep(s, w.evs[e]); x != nil {
				if len(x.h.Value) != len(x.o.ids) {
					fail("book:hoist", "step %d: the hoisted form of #%d covers %d parties, the ciphertext %d", w.step, x.o.name, len(x.h.Value), len(x.o.ids))
				}
				for _, id := range x.o.ids {
					if x.h.Value[id] == nil {
						fail("book:hoist", "step %d: the hoisted form of #%d lacks %q", w.step, x.o.name, id)
					}
				}
			}
			continue
		}
		if w.common(s, e) {
			continue
		}
		c := w.build(s)
		if c == nil {
			w.st.add("skip:" + s.Op)
			continue
		}
		desc := w.describe(c)
		ins := make([]*mkckks.Ciphertext, len(c.in))
		for j, o := range c.in {
			ins[j] = o.ct
		}
		dom := ins[0].Value["0"].IsNTT
		var res *mkckks.Ciphertext
		out := w.attempt(s.Abort, func() { res = c.run(w.evs[e], ins) })
		w.st.add(c.name)
		if !out.ok {
			w.logf("%d: %s %v", i, desc, out)
			if out.panicV != nil {
				w.foreign(c.name, out)
			}
			if c.inplace {
				w.remove(c.in[0])
			}
			continue
		}
		w.sig(c, e, s)
		w.book(res, c.ids, c.level, c.scale, desc)
		if res.Value["0"].IsNTT != dom {
			fail("book:domain", "step %d: %s changed the domain flag", w.step, desc)
		}
		w.logf("%d: %s lvl=%d scale=%g", i, desc, res.Level(), res.Scale)
		if c.inplace {
			o := c.in[0]
			o.ct, o.v, o.e, o.ids = res, c.v, c.e, c.ids
			if c.name != "drop" {
				w.dropHoists(o)
			}
			continue
		}
		w.push(&Obj{ct: res, v: c.v, e: c.e, ids: c.ids})
	}
}

var oddScales = []float64{1.0 / 4096, 0.25, 0.75, 1, 1.25, 1.5, 2, 3, 1000, 1 << 20, 12345678901, 1 << 40, 1 << 62, 1 << 80}

// bookOdd asks for operations on operands with scales nobody would choose: the
// values drown, the book-keeping must be right all the same.
func (w *World) bookOdd(s Step, r *simrt.RNG, e int) {
	a, b := w.pick(s, 0), w.pick(s, 1)
	if a == nil || b == nil {
		return
	}
	odd := func() float64 {
		if r.Intn(4) == 0 {
			return w.params.Scale()
		}
		return oddScales[r.Intn(len(oddScales))]
	}
	x, y := a.ct.CopyNew(), b.ct.CopyNew()
	x.Scale, y.Scale = odd(), odd()
	ev := w.evs[e].ev
	ids, lvl, scale := a.ids, x.Level(), x.Scale
	var f func() *mkckks.Ciphertext
	what := ""
	switch s.sel(2, 9) {
	case 0, 1, 2:
		pt := ckks.NewPlaintext(w.ckp, w.params.MaxLevel(), odd())
		w.coder.Encode(pt, w.values(s.S, 0), w.cfg.LogSlots)
		if r.Intn(2) == 0 {
			pt.Scale = odd()
		}
		what = fmt.Sprintf("the product of scale %g, level %d and a plaintext of scale %g", x.Scale, lvl, pt.Scale)
		scale, lvl = w.rescaled(x.Scale*pt.Scale, lvl, w.params.Scale())
		f = func() *mkckks.Ciphertext { return ev.MulPtxtNew(x, pt) }
	case 3, 4:
		what = fmt.Sprintf("the product of scale %g, level %d and scale %g, level %d", x.Scale, lvl, y.Scale, y.Level())
		ids, lvl = union(ids, b.ids), mini(lvl, y.Level())
		scale, lvl = w.rescaled(x.Scale*y.Scale, lvl, w.params.Scale())
		f = func() *mkckks.Ciphertext { return ev.MulRelinNew(x, y, w.rlkSet) }
	case 5:
		y.Scale = x.Scale * []float64{1, 1.0000001, 1.4, 1.99, 2, 2.01, 1000.5, 1 << 30}[r.Intn(8)]
		if r.Intn(2) == 0 {
			x.Scale, y.Scale = y.Scale, x.Scale
		}
		sub := r.Intn(2) == 0
		what = fmt.Sprintf("the sum or difference of scale %g, level %d and scale %g, level %d", x.Scale, lvl, y.Scale, y.Level())
		ids, lvl, scale = union(ids, b.ids), mini(lvl, y.Level()), math.Max(x.Scale, y.Scale)
		f = func() *mkckks.Ciphertext {
			if sub {
				return ev.SubNew(x, y)
			}
			return ev.AddNew(x, y)
		}
	case 6:
		d := r.Intn(lvl + 1)
		what = fmt.Sprintf("dropping %d levels of %d at scale %g", d, lvl, x.Scale)
		lvl -= d
		f = func() *mkckks.Ciphertext { return ev.DropLevelNew(x, d) }
	case 7:
		what = fmt.Sprintf("a copy at scale %g", x.Scale)
		f = func() *mkckks.Ciphertext { return x.CopyNew() }
	default:
		k := 1 + r.Intn(1000)
		what = fmt.Sprintf("a constant product at scale %g", x.Scale)
		f = func() *mkckks.Ciphertext {
			z := x.CopyNew()
			z.Scale = odd()
			ev.MultByConst(x, k, z)
			return z
		}
	}
	var res *mkckks.Ciphertext
	sx, sy := x.Scale, y.Scale
	if out := w.attempt(0, func() { res = f() }); !out.ok {
		fail("book:refused", "step %d: %s fails: %v", w.step, what, out)
	}
	w.book(res, ids, lvl, scale, what)
	if x.Scale != sx || y.Scale != sy {
		fail("book:scale", "step %d: %s changed the scale of an operand", w.step, what)
	}
	w.st.add("odd-scale")
}

func (w *World) bookEnc(s Step, r *simrt.RNG) {
	p := w.parties[s.sel(0, len(w.parties))]
	v := w.values(s.S, s.a(1))
	max := w.params.MaxLevel()
	ids := []string{p.id}
	var ct *mkckks.Ciphertext
	level, scale := max, w.params.Scale()
	f := func() { ct = p.enc.EncryptMsgNew(w.msg(v), p.pk) }
	variant := s.sel(3, 5)
	ntt := false
	switch variant {
	case 1:
		ids = w.anyIDs(r, p.id)
		f = func() { ct = p.enc.EncryptMsgNewExpand(w.msg(v), p.pk, w.idset(ids)) }
	case 2:
		ids = w.anyIDs(r, p.id)
		level = r.Intn(max + 1)
		f = func() {
			ct = mkckks.NewCiphertext(w.params, w.idset(ids), level, 3)
			p.enc.EncryptMsg(w.msg(v), p.pk, ct)
		}
	case 3, 4:
		ids = w.anyIDs(r, p.id)
		pl, cl := r.Intn(max+1), r.Intn(max+1)
		level = mini(pl, cl)
		ntt = r.Intn(2) == 0
		pt := ckks.NewPlaintext(w.ckp, pl, scale*[]float64{1, 0.5, 8}[r.Intn(3)])
		scale = pt.Scale
		w.coder.Encode(pt, v, w.cfg.LogSlots)
		f = func() {
			ct = mkckks.NewCiphertext(w.params, w.idset(ids), cl, 3)
			if ntt {
				ct.Ciphertext = mkrlwe.NewCiphertextNTT(w.params.Parameters, w.idset(ids), cl)
			}
			p.enc.EncryptPtxt(pt, p.pk, ct)
		}
	}
	out := w.attempt(s.Abort, f)
	if !out.ok {
		if out.panicV != nil {
			w.foreign("enc", out)
		}
		return
	}
	w.st.add("enc")
	w.st.seen(simrt.Mix(uint64(variant), uint64(level), uint64(len(ids)), uint64(max)))
	w.book(ct, ids, level, scale, fmt.Sprintf("encryption (variant %d)", variant))
	if ct.Value["0"].IsNTT != ntt {
		fail("book:domain", "step %d: encryption changed the domain of its target", w.step)
	}
	if !ntt && w.fits(vmax(v)+1e-3, scale, level) {
		w.push(&Obj{ct: ct, v: v, e: w.freshErr(scale), ids: union(ids, nil)})
	}
}

func (w *World) bookDec(s Step, r *simrt.RNG) {
	o := w.pick(s, 0)
	if o == nil {
		return
	}
	p := w.parties[s.sel(1, len(w.parties))]
	var m *mkckks.Message
	out := w.attempt(0, func() { m = p.dec.Decrypt(o.ct, w.skSet) })
	if !out.ok {
		w.foreign("dec", out)
		return
	}
	if m.Slots() != 1<<uint(w.cfg.LogSlots) || len(m.Value) != m.Slots() {
		fail("book:slots", "step %d: a decrypted message has %d slots, the parameters %d", w.step, m.Slots(), 1<<uint(w.cfg.LogSlots))
	}
	w.book(o.ct, o.ids, o.ct.Level(), o.ct.Scale, "a ciphertext after decryption")
	if len(o.ids) > 0 && r.Intn(2) == 0 {
		c := o.ct.CopyNew()
		id := o.ids[r.Intn(len(o.ids))]
		out = w.attempt(0, func() { p.dec.PartialDecrypt(c, w.byID[id].sk) })
		if out.ok {
			var rest []string
			for _, x := range o.ids {
				if x != id {
					rest = append(rest, x)
				}
			}
			w.book(c, rest, o.ct.Level(), o.ct.Scale, "a partially decrypted ciphertext")
		}
	}
	w.st.add("dec")
}

// bookReject: rescaling that cannot be done returns an error and alters nothing.
func (w *World) bookReject(s Step, r *simrt.RNG, e int) {
	o := w.pick(s, 0)
	if o == nil {
		return
	}
	in := o.ct.CopyNew()
	min := w.params.Scale()
	why := ""
	if s.sel(3, 3) == 0 {
		w.bookOverdrop(s, r, in, e)
		return
	}
	switch s.sel(1, 4) {
	case 0:
		min, why = 0, "a zero target scale"
	case 1:
		min, why = -min*r.Float()-1, "a negative target scale"
	case 2:
		in.Scale, why = 0, "a zero scale"
	case 3:
		w.dropTo(in, 0)
		in.Scale *= float64(w.ringQ.Modulus[0]) * 8
		why = "a ciphertext already at level 0"
	}
	out := in
	switch s.sel(2, 3) {
	case 1:
		out = mkckks.NewCiphertext(w.params, w.idset(o.ids), in.Level(), 7)
	}
	hi, ho := hashCt(in), hashCt(out)
	var err error
	x := w.attempt(0, func() {
		if s.sel(2, 3) == 2 {
			_, err = w.evs[e].ev.RescaleNew(in, min)
		} else {
			err = w.evs[e].ev.Rescale(in, min, out)
		}
	})
	if !x.ok {
		fail("reject", "step %d: rescaling with %s does not return an error but fails: %v", w.step, why, x)
	}
	if err == nil {
		fail("reject", "step %d: rescaling with %s is accepted", w.step, why)
	}
	if hashCt(in) != hi || (s.sel(2, 3) != 2 && hashCt(out) != ho) {
		fail("reject", "step %d: rescaling with %s returned an error but altered a ciphertext", w.step, why)
	}
	w.st.fault("rejected-rescale")
	w.st.add("reject")
}

// bookOverdrop asks for more levels to be dropped than there are.
func (w *World) bookOverdrop(s Step, r *simrt.RNG, in *mkckks.Ciphertext, e int) {
	if r.Intn(2) == 0 {
		w.dropTo(in, r.Intn(in.Level()+1))
	}
	k := in.Level() + 1 + []int{0, 0, 0, 1, 5}[r.Intn(5)]
	h := hashCt(in)
	out := w.attempt(0, func() {
		if s.sel(2, 2) == 0 {
			w.evs[e].ev.DropLevel(in, k)
		} else {
			w.evs[e].ev.DropLevelNew(in, k)
		}
	})
	if out.ok {
		fail("reject", "step %d: dropping %d levels from a ciphertext is accepted although it would end below level 0", w.step, k)
	}
	if hashCt(in) != h {
		fail("reject", "step %d: a refused level drop altered the ciphertext", w.step)
	}
	w.st.fault("rejected-drop")
	w.st.add("reject")
}

func (w *World) dropTo(ct *mkckks.Ciphertext, level int) {
	for _, p := range ct.Value {
		p.Coeffs = p.Coeffs[:level+1]
	}
}

// bookRescale rescales with an arbitrary scale and target: the chain of moduli
// ends at level 0 whatever was asked for.
func (w *World) bookRescale(r *simrt.RNG, ct *mkckks.Ciphertext, ids []string) {
	if ct.Level() == 0 {
		return
	}
	in := ct.CopyNew()
	in.Scale *= math.Exp2(float64(r.Intn(200) - 20))
	min := w.params.Scale() * math.Exp2(float64(r.Intn(120)-100))
	if r.Intn(3) == 0 { // close to what one or more moduli make the difference for
		in.Scale = min / 2 * nearOne(r.Intn(8))
		for l := in.Level() - r.Intn(in.Level()); l <= in.Level(); l++ {
			in.Scale *= float64(w.ringQ.Modulus[l])
		}
	}
	scale, lvl := w.rescaled(in.Scale, in.Level(), min)
	was, wasLvl, h := in.Scale, in.Level(), hashCt(in)
	var out *mkckks.Ciphertext
	var err error
	variant := r.Intn(3)
	x := w.attempt(0, func() {
		switch variant {
		case 0:
			out, err = w.evs[0].ev.RescaleNew(in, min)
		case 1:
			out = in
			err = w.evs[0].ev.Rescale(in, min, out)
		case 2:
			out = mkckks.NewCiphertext(w.params, w.idset(ids), in.Level(), 1)
			err = w.evs[0].ev.Rescale(in, min, out)
		}
	})
	what := fmt.Sprintf("rescaling from level %d and scale %g towards %g", wasLvl, was, min)
	if !x.ok {
		fail("book:rescale", "step %d: %s fails: %v", w.step, what, x)
	}
	if err != nil {
		fail("book:rescale", "step %d: %s returns an error: %v", w.step, what, err)
	}
	w.book(out, ids, lvl, scale, what)
	if variant != 1 && hashCt(in) != h {
		fail("book:rescale", "step %d: %s changed its operand", w.step, what)
	}
	w.st.add(fmt.Sprintf("rescale-any-%d", boolBit(lvl == 0)))
}

func (w *World) bookElem(s Step, r *simrt.RNG) {
	o := w.pick(s, 0)
	if o == nil {
		return
	}
	c := o.ct.CopyNew()
	w.book(c, o.ids, o.ct.Level(), o.ct.Scale, "a copy")
	ids := w.anyIDs(r, w.parties[0].id)
	lvl := o.ct.Level()
	ref := o.ct.CopyNew()
	if r.Intn(2) == 0 { // storage of the higher level is still behind it
		lvl = r.Intn(lvl + 1)
		w.dropTo(c, lvl)
		w.dropTo(ref, lvl)
	}
	out := w.attempt(0, func() { c.PadCiphertext(w.idset(ids)) })
	if !out.ok {
		w.foreign("elem", out)
		return
	}
	w.book(c, union(o.ids, ids), lvl, o.ct.Scale, "a padded ciphertext")
	w.bookRescale(r, ref, o.ids)
	if q := w.params; q.Slots() != 1<<uint(w.cfg.LogSlots) || q.LogSlots() != w.cfg.LogSlots || q.Scale() != w.ckp.Scale() || q.MaxLevel() != w.ckp.MaxLevel() {
		fail("book:params", "step %d: the parameters report %d slots (log %d), scale %g and level %d", w.step, q.Slots(), q.LogSlots(), q.Scale(), q.MaxLevel())
	}
	if m := mkckks.NewMessage(w.params); m.Slots() != 1<<uint(w.cfg.LogSlots) || len(m.Value) != m.Slots() || vmax(m.Value) != 0 {
		fail("book:message", "step %d: a new message has %d slots (%d values)", w.step, m.Slots(), len(m.Value))
	}
	c.SetScalingFactor(3 * o.ct.Scale)
	if c.ScalingFactor() != 3*o.ct.Scale || o.ct.ScalingFactor() != ref.Scale {
		fail("book:scale", "step %d: setting the scale of a copy to %g gave it %g and the original %g", w.step, 3*ref.Scale, c.ScalingFactor(), o.ct.ScalingFactor())
	}
	for id, p := range c.Value {
		if q, ok := ref.Value[id]; ok {
			if d := w.samePoly(p, q); d != "" {
				fail("book:pad", "step %d: padding changed the component of %q: %s", w.step, id, d)
			}
		} else if !w.zeroPoly(p) {
			fail("book:pad", "step %d: padding gave %q a component that is not zero", w.step, id)
		}
	}
	w.st.add("elem")
}

func init() {
	all := []weighted{{"add", 3}, {"sub", 2}, {"mul", 2}, {"sq", 1}, {"mulks", 1}, {"ptmul", 2}, {"const", 3}, {"rescale", 3}, {"drop", 2}, {"pad", 1}, {"rot", 3}, {"rotks", 1}, {"conj", 2}, {"hoist", 2}, {"hmul", 2}, {"hrot", 2}, {"rotkey", 1}, {"forget", 1}}
	with := func(extra ...weighted) []weighted { return append(append([]weighted(nil), extra...), all...) }
	kinds := kRLK | kRTK | kCJK
	small := func(p *Plan) { // these worlds fingerprint everything after every step
		if p.Cfg.LogN > 6 {
			p.Cfg.LogN = 6
			p.Cfg.LogSlots = mini(p.Cfg.LogSlots, 5)
		}
	}
	mixI := with(weighted{"enc", 2}, weighted{"dec", 2}, weighted{"ptenc", 1}, weighted{"keygen", 1}, weighted{"elem", 2}, weighted{"evcrash", 1}, weighted{"pcrash", 1}, weighted{"rekey", 1}, weighted{"crs", 1}, weighted{"encinto", 1}, weighted{"ptre", 1})
	register(&Prop{ID: "C06", Quick: 12000, Thorough: 800000, Kinds: kinds, Level: "exploration",
		Gen: func(r *simrt.RNG, p *Plan) {
			swarm(r, p, 3)
			small(p)
			if r.Intn(16) == 0 { // a long row of results of a few operations, all of them kept
				mix := []weighted{{"enc", 1}}
				for i := 1 + r.Intn(3); i > 0; i-- {
					mix = append(mix, all[r.Intn(len(all))])
				}
				mix[1+r.Intn(len(mix)-1)].w += 3
				p.Cfg.Evals = 1
				history(r, p, 50+r.Intn(70), mix, false)
				return
			}
			history(r, p, 14+r.Intn(30), mixI, false)
		}, Exec: immExec, Rule: worldRule + "; after every operation all ciphertexts, plaintexts, hoisted forms, keys, key sets and reference strings are fingerprinted, and results and operands are overwritten in turn to expose shared storage", Real: realAll, Stub: stubAll})
	mixF := with(weighted{"enc", 2}, weighted{"dec", 2}, weighted{"ptenc", 1}, weighted{"keygen", 2}, weighted{"misuse", 1}, weighted{"rekey", 1}, weighted{"crs", 1}, weighted{"encinto", 1}, weighted{"ptre", 1})
	register(&Prop{ID: "C07", Quick: 8000, Thorough: 500000, Kinds: kinds, Level: "exploration",
		Gen: func(r *simrt.RNG, p *Plan) {
			swarm(r, p, 3)
			small(p)
			history(r, p, 12+r.Intn(24), mixF, false)
		}, Exec: failExec, Rule: "one run = one history in which every operation is first made to fail (aborted before a uniformly chosen statement, or refused for a missing key) one to five times on a long-lived evaluator, encryptor, decryptor or key generator and then repeated; counted once per distinct (operation, source statement at which it was aborted) pair and once per distinct (operation, operand shape refused for a missing key) pair", Real: realAll, Stub: stubAll})
	mixH := with(weighted{"ptre", 1}, weighted{"encinto", 1}, weighted{"overwrite", 1}, weighted{"enc", 2}, weighted{"dec", 3}, weighted{"ptenc", 1}, weighted{"evcrash", 1}, weighted{"rekey", 1}, weighted{"redo", 3}, weighted{"near", 4}, weighted{"twin", 1}, weighted{"crs", 1})
	register(&Prop{ID: "C08", Quick: 12000, Thorough: 800000, Kinds: kinds, Level: "exploration",
		Gen: func(r *simrt.RNG, p *Plan) {
			swarm(r, p, 4)
			history(r, p, 16+r.Intn(34), mixH, false)
		}, Exec: histExec, Rule: worldRule + "; every operation is executed twice, on a long-lived and on another evaluator, under two different seeded map orders, and compared as ring elements", Real: realAll, Stub: stubAll})
	mixB := with(weighted{"enc", 3}, weighted{"dec", 1}, weighted{"ptenc", 1}, weighted{"reject", 2}, weighted{"odd", 2}, weighted{"elem", 1}, weighted{"evcrash", 1}, weighted{"rekey", 1}, weighted{"crs", 1}, weighted{"encinto", 1}, weighted{"ptre", 1})
	register(&Prop{ID: "C12", Quick: 20000, Thorough: 1200000, Kinds: kinds, Level: "exploration",
		Gen: func(r *simrt.RNG, p *Plan) {
			swarm(r, p, 4)
			history(r, p, 16+r.Intn(34), mixB, true)
		}, Exec: bookExec, Rule: worldRule, Real: realAll, Stub: stubAll})
}
