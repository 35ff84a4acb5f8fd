package main

import (
	"fmt"
	"math"
	"math/cmplx"
	"sort"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"vsim/simrt"

	"github.com/ldsec/lattigo/v2/ckks"
)

// call is one library operation with the reference model's view of it. run is
// given the operand ciphertexts, so that the executors can replay the same
// operation on copies or on another evaluator.
type call struct {
	name    string
	in      []*Obj
	inplace bool // in[0] is the declared target and is overwritten
	may     bool // a key it may need is missing: refusing is right, a wrong result is not
	run     func(ev *evaluator, in []*mkckks.Ciphertext) *mkckks.Ciphertext

	// model
	v     []complex128
	e     float64
	ids   []string
	level int
	scale float64
	key   uint64 // shape of the operation, for coverage
}

// evaluator is a server: the library's evaluator plus the lower-level key
// switcher some clients use directly.
type evaluator struct {
	ev *mkckks.Evaluator
	ks *mkrlwe.KeySwitcher
}

func (w *World) newEv() *evaluator {
	return &evaluator{mkckks.NewEvaluator(w.params), mkrlwe.NewKeySwitcher(w.params.Parameters)}
}

// rescaled models how far a scale comes down from a level.
func (w *World) rescaled(scale float64, level int, min float64) (float64, int) {
	if level == 0 {
		return scale, 0
	}
	l := level
	for l > 0 && scale/float64(w.ringQ.Modulus[l]) >= min/2 {
		scale /= float64(w.ringQ.Modulus[l])
		l--
	}
	return scale, l
}

func mapv(a []complex128, f func(complex128) complex128) []complex128 {
	r := make([]complex128, len(a))
	for i := range a {
		r[i] = f(a[i])
	}
	return r
}

func zip(a, b []complex128, f func(x, y complex128) complex128) []complex128 {
	r := make([]complex128, len(a))
	for i := range a {
		r[i] = f(a[i], b[i])
	}
	return r
}

func vmax(v []complex128) float64 {
	m := 0.0
	for _, x := range v {
		if a := cmplx.Abs(x); a > m {
			m = a
		}
	}
	return m
}

const maxVal = 1e20

func tiny(v float64) float64 { return 1e-11 * (v + 1e-3) }

// mismatch is the relative error of reading an operand of scale s at scale out.
func mismatch(s, out float64) float64 {
	r := out / s
	k := math.Floor(r)
	if k < 1 {
		k = 1
	}
	return math.Abs(1 - k/r)
}

func (w *World) addCall(s Step, sub bool) *call {
	a, b := w.pick(s, 0), w.pick(s, 1)
	if a == nil {
		return nil
	}
	lvl := mini(a.ct.Level(), b.ct.Level())
	sc := maxf(a.ct.Scale, b.ct.Scale)
	m := maxf(mismatch(a.ct.Scale, sc), mismatch(b.ct.Scale, sc))
	if m > 1e-4 {
		return nil
	}
	c := &call{name: "add", in: []*Obj{a, b}, ids: union(a.ids, b.ids), level: lvl, scale: sc}
	if sub {
		c.name = "sub"
		c.v = zip(a.v, b.v, func(x, y complex128) complex128 { return x - y })
		c.run = func(ev *evaluator, in []*mkckks.Ciphertext) *mkckks.Ciphertext { return ev.ev.SubNew(in[0], in[1]) }
	} else {
		c.v = zip(a.v, b.v, func(x, y complex128) complex128 { return x + y })
		c.run = func(ev *evaluator, in []*mkckks.Ciphertext) *mkckks.Ciphertext { return ev.ev.AddNew(in[0], in[1]) }
	}
	va, vb := vmax(a.v), vmax(b.v)
	c.e = a.e + b.e + 4*va*mismatch(a.ct.Scale, sc) + 4*vb*mismatch(b.ct.Scale, sc) + tiny(va+vb)
	// the operand of the smaller scale is multiplied up first
	if !w.fits(va+vb+c.e, sc, lvl) || vmax(c.v) > maxVal {
		return nil
	}
	c.key = uint64(a.ct.Level()-b.ct.Level()+50)<<8 | w.overlap(a, b)
	if a.ct.Scale/b.ct.Scale > 1.9 || b.ct.Scale/a.ct.Scale > 1.9 {
		c.key |= 1 << 20
	}
	return c
}

// overlap describes how the party sets of two operands relate.
func (w *World) overlap(a, b *Obj) uint64 {
	in := map[string]int{}
	for _, x := range a.ids {
		in[x] |= 1
	}
	for _, x := range b.ids {
		in[x] |= 2
	}
	var k [4]uint64
	for _, m := range in {
		k[m]++
	}
	f := uint64(0)
	if a == b {
		f = 1
	}
	return k[1]<<6 | k[2]<<4 | k[3]<<1 | f
}

func (w *World) mulModel(c *call, a, b *Obj) bool {
	lvl := mini(a.ct.Level(), b.ct.Level())
	sc := a.ct.Scale * b.ct.Scale
	va, vb := vmax(a.v), vmax(b.v)
	c.ids = union(a.ids, b.ids)
	c.v = zip(a.v, b.v, func(x, y complex128) complex128 { return x * y })
	e := va*b.e + vb*a.e + a.e*b.e
	if !w.fits(va*vb+e, sc, lvl) || vmax(c.v) > maxVal {
		return false
	}
	k := len(c.ids)
	c.scale, c.level = w.rescaled(sc, lvl, w.params.Scale())
	if c.level < 0 {
		return false
	}
	c.e = e + w.mulErr(k, lvl, sc) + tiny(va*vb)
	if c.level < lvl {
		c.e += 2 * w.roundErr(k, c.scale)
	}
	c.key = uint64(a.ct.Level()-b.ct.Level()+50)<<8 | w.overlap(a, b) | uint64(lvl)<<24
	return w.fits(vmax(c.v)+c.e, c.scale, c.level)
}

func (w *World) mulCall(s Step) *call {
	a, b := w.pick(s, 0), w.pick(s, 1)
	if a == nil {
		return nil
	}
	if s.Op == "sq" {
		b = a
	}
	c := &call{name: "mul", in: []*Obj{a, b}}
	if !w.mulModel(c, a, b) {
		return nil
	}
	c.run = func(ev *evaluator, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
		return ev.ev.MulRelinNew(in[0], in[1], w.rlkSet)
	}
	if s.Op == "mulks" { // the unhoisted lower-level path
		c.name = "mulks"
		ids, lvl, sc := c.ids, mini(a.ct.Level(), b.ct.Level()), a.ct.Scale*b.ct.Scale
		if lvl == 0 {
			return nil
		}
		if low := lvl - 1 - s.sel(3, lvl); low > 0 && s.sel(2, 4) == 1 { // into a lower level
			va, vb := vmax(a.v), vmax(b.v)
			c.scale, c.level = w.rescaled(sc, low, w.params.Scale())
			if !w.fits(va*vb+c.e, sc, low) || !w.fits(vmax(c.v)+c.e, c.scale, c.level) {
				return nil
			}
			c.e += w.mulErr(len(ids), low, sc) + 2*w.roundErr(len(ids), c.scale)
			lvl = low
		}
		c.run = func(ev *evaluator, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
			out := mkckks.NewCiphertext(w.params, w.idset(ids), lvl, sc)
			ev.ks.MulAndRelin(in[0].Ciphertext, in[1].Ciphertext, w.rlkSet, out.Ciphertext)
			if err := ev.ev.Rescale(out, w.params.Scale(), out); err != nil {
				panic(err)
			}
			return out
		}
	}
	return c
}

func (w *World) hmulCall(s Step) *call {
	if len(w.hs) == 0 {
		return nil
	}
	ha := w.hs[s.sel(0, len(w.hs))]
	hb := w.hs[s.sel(1, len(w.hs))]
	a, b := ha.o, hb.o
	xa, xb := ha.h, hb.h
	variant := s.sel(2, 6)
	if variant >= 4 { // neither
		a, b = w.pick(s, 0), w.pick(s, 1)
		if a == nil {
			return nil
		}
		if variant == 5 {
			b = a
		}
		xa, xb = nil, nil
	}
	if variant == 1 { // only the first operand is hoisted
		if b = w.pick(s, 1); b == nil {
			return nil
		}
		xb = nil
	}
	if variant == 2 { // only the second one
		if a = w.pick(s, 0); a == nil {
			return nil
		}
		xa = nil
	}
	if variant == 3 { // square from one hoisted form
		b, xb = a, xa
	}
	c := &call{name: "hmul", in: []*Obj{a, b}}
	if !w.mulModel(c, a, b) {
		return nil
	}
	c.key |= uint64(variant) << 40
	c.run = func(ev *evaluator, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
		return ev.ev.MulRelinHoistedNew(in[0], in[1], xa, xb, w.rlkSet)
	}
	return c
}

func (w *World) ptmulCall(s Step) *call {
	a := w.pick(s, 0)
	if a == nil || len(w.pts) == 0 {
		return nil
	}
	p := w.pts[s.sel(1, len(w.pts))]
	lvl := a.ct.Level()
	sc := a.ct.Scale * p.pt.Scale
	va, vp := vmax(a.v), vmax(p.v)
	if lvl > p.pt.Level() {
		return nil
	}
	c := &call{name: "ptmul", in: []*Obj{a}, ids: a.ids}
	c.v = zip(a.v, p.v, func(x, y complex128) complex128 { return x * y })
	ep := sigmas * math.Sqrt(w.n()) * 0.5 / p.pt.Scale
	e := vp*a.e + va*ep + a.e*ep
	if !w.fits(va*vp+e, sc, lvl) || vmax(c.v) > maxVal {
		return nil
	}
	c.scale, c.level = w.rescaled(sc, lvl, w.params.Scale())
	c.e = e + tiny(va*vp)
	if c.level < lvl {
		c.e += 2 * w.roundErr(len(a.ids), c.scale)
	}
	if !w.fits(vmax(c.v)+c.e, c.scale, c.level) {
		return nil
	}
	c.key = uint64(lvl)
	c.run = func(ev *evaluator, in []*mkckks.Ciphertext) *mkckks.Ciphertext { return ev.ev.MulPtxtNew(in[0], p.pt) }
	return c
}

func (w *World) constOf(s Step) (k any, kc complex128, integral bool) {
	r := simrt.NewRNG(s.S)
	f := 4*r.Float() - 2
	g := 4*r.Float() - 2
	n := int64(r.Intn(9) - 4)
	m := int64(r.Intn(9) - 4)
	switch r.Intn(8) { // now and then far from one
	case 0:
		n, f = int64(math.Exp2(62*r.Float()))*(1-2*int64(r.Intn(2))), f*math.Exp2(40*r.Float())
	case 1:
		m, g = int64(math.Exp2(40*r.Float()))*(1-2*int64(r.Intn(2))), g*math.Exp2(20*r.Float())
	case 2:
		f, g = f*math.Exp2(-12*r.Float()), g*math.Exp2(-12*r.Float())
	}
	if x := r.Next(); x%5 == 0 { // next to an integer
		d := math.Exp2(-4 - 30*r.Float())
		f = math.Round(f) + d
		if x>>8%2 == 0 {
			g = math.Round(g) - d
		}
	}
	switch s.sel(2, 12) {
	case 0:
		return int(n), complex(float64(n), 0), true
	case 1:
		return n, complex(float64(n), 0), true
	case 2:
		if n < 0 {
			n = -n
		}
		u := uint64(n)
		if s.sel(3, 8) == 1 {
			u = 1<<63 | r.Next()>>1
		}
		return u, complex(float64(u), 0), true
	case 3:
		return float64(n), complex(float64(n), 0), true
	case 4, 5:
		return f, complex(f, 0), f == math.Trunc(f)
	case 6:
		return complex(float64(n), float64(m)), complex(float64(n), float64(m)), true
	case 7:
		return complex(f, g), complex(f, g), f == math.Trunc(f) && g == math.Trunc(g)
	case 8:
		return complex(0, g), complex(0, g), g == math.Trunc(g)
	case 9:
		return complex(float64(n), g), complex(float64(n), g), g == math.Trunc(g)
	case 10:
		return complex(f, float64(m)), complex(f, float64(m)), f == math.Trunc(f)
	}
	return complex(0, float64(m)), complex(0, float64(m)), true
}

func (w *World) constCall(s Step) *call {
	a := w.pick(s, 0)
	if a == nil {
		return nil
	}
	k, kc, integral := w.constOf(s)
	variant := s.sel(1, 6) // 0,1 fresh output; 2 in place; 3 output at a lower level; 4,5 on a copy in the NTT domain
	lvl := a.ct.Level()
	if variant == 3 && lvl > 0 {
		lvl -= s.sel(3, lvl) + 0
	}
	c := &call{name: "const", in: []*Obj{a}, ids: a.ids, level: lvl, inplace: variant == 2}
	c.scale = a.ct.Scale
	q := 1.0
	if !integral {
		q = float64(w.ringQ.Modulus[lvl])
		c.scale *= q
	}
	ka := cmplx.Abs(kc)
	va := vmax(a.v)
	c.v = mapv(a.v, func(x complex128) complex128 { return x * kc })
	c.e = a.e*(ka+2/q) + tiny(va*ka)
	if !integral {
		c.e += 4 * va / q
	}
	if !w.fits(2*va*(ka+1)+c.e, c.scale, lvl) || vmax(c.v) > maxVal {
		return nil
	}
	ids := a.ids
	c.key = uint64(variant) | uint64(s.sel(2, 12))<<4
	c.run = func(ev *evaluator, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
		out := in[0]
		if variant >= 4 {
			x := in[0].CopyNew()
			out = x
			if variant == 5 {
				out = mkckks.NewCiphertext(w.params, w.idset(ids), lvl, 1)
			}
			for id := range x.Value {
				w.ringQ.NTTLvl(lvl, x.Value[id], x.Value[id])
				x.Value[id].IsNTT = true
				out.Value[id].IsNTT = true
			}
			ev.ev.MultByConst(x, k, out)
			for id := range out.Value {
				w.ringQ.InvNTTLvl(out.Level(), out.Value[id], out.Value[id])
				out.Value[id].IsNTT = false
			}
			return out
		}
		if variant != 2 {
			out = mkckks.NewCiphertext(w.params, w.idset(ids), lvl, 1)
		}
		ev.ev.MultByConst(in[0], k, out)
		return out
	}
	return c
}

func nearOne(i int) float64 {
	return 1 + []float64{-0.3, -0.02, -1e-5, -1e-9, 1e-9, 1e-5, 0.02, 0.3}[i]
}

func (w *World) rescaleCall(s Step) *call {
	a := w.pick(s, 0)
	// prefer a ciphertext that has something to rescale
	if s.sel(1, 3) != 0 {
		for i := range w.objs {
			o := w.objs[(i+s.sel(0, len(w.objs)))%len(w.objs)]
			if o.ct.Scale > 4*w.params.Scale() {
				a = o
				break
			}
		}
	}
	if a == nil || a.ct.Level() == 0 {
		return nil
	}
	variant := s.sel(2, 3)
	min := w.params.Scale()
	switch s.sel(3, 6) {
	case 0:
		min *= 0.75
	case 1:
		min *= 1.5
	case 2: // down to what the values can bear
		if s.sel(4, 4) == 0 {
			min = math.Exp2(float64(s.sel(5, 36) - 10))
		} else { // just within or just beyond reach of one more modulus
			min = 2 * a.ct.Scale / float64(w.ringQ.Modulus[a.ct.Level()]) * nearOne(s.sel(5, 8))
		}
	}
	lvl := a.ct.Level()
	c := &call{name: "rescale", in: []*Obj{a}, ids: a.ids, v: a.v, inplace: variant == 1}
	c.scale, c.level = w.rescaled(a.ct.Scale, lvl, min)
	c.e = a.e
	if c.level < lvl {
		c.e += 2 * w.roundErr(len(a.ids), c.scale)
	}
	if !w.fits(vmax(a.v)+c.e, c.scale, c.level) || c.e > a.e+1e-2 {
		return nil
	}
	c.key = uint64(variant) | uint64(lvl-c.level)<<4 | uint64(lvl)<<8
	ids := a.ids
	c.run = func(ev *evaluator, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
		var err error
		out := in[0]
		switch variant {
		case 0:
			out, err = ev.ev.RescaleNew(in[0], min)
		case 1:
			err = ev.ev.Rescale(in[0], min, in[0])
		case 2:
			out = mkckks.NewCiphertext(w.params, w.idset(ids), lvl, 1)
			err = ev.ev.Rescale(in[0], min, out)
		}
		if err != nil {
			panic(err)
		}
		return out
	}
	return c
}

func (w *World) dropCall(s Step) *call {
	a := w.pick(s, 0)
	if a == nil {
		return nil
	}
	lvl := a.ct.Level()
	if lvl == 0 {
		return nil
	}
	d := 1 + s.sel(1, lvl)
	if s.sel(3, 3) != 0 {
		d = 1
	}
	if s.sel(3, 16) == 1 {
		d = 0
	}
	c := &call{name: "drop", in: []*Obj{a}, ids: a.ids, v: a.v, e: a.e, level: lvl - d, scale: a.ct.Scale, inplace: s.sel(2, 2) == 1}
	if !w.fits(vmax(a.v)+a.e, a.ct.Scale, lvl-d) {
		return nil
	}
	c.key = uint64(d) | uint64(lvl)<<8
	inplace := c.inplace
	c.run = func(ev *evaluator, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
		if inplace {
			ev.ev.DropLevel(in[0], d)
			return in[0]
		}
		return ev.ev.DropLevelNew(in[0], d)
	}
	return c
}

// padCall gives a ciphertext empty parts for parties that join its computation.
func (w *World) padCall(s Step) *call {
	a := w.pick(s, 0)
	if a == nil {
		return nil
	}
	var ids []string
	for i, q := range w.parties {
		if s.a(1)>>uint(i%16)&1 == 1 {
			ids = append(ids, q.id)
		}
	}
	c := &call{name: "pad", in: []*Obj{a}, ids: union(a.ids, ids), v: a.v, e: a.e, level: a.ct.Level(), scale: a.ct.Scale, inplace: true}
	c.key = uint64(len(a.ids)) | uint64(len(c.ids))<<4 | uint64(c.level)<<8
	c.run = func(ev *evaluator, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
		in[0].PadCiphertext(w.idset(ids))
		return in[0]
	}
	return c
}

func rotv(v []complex128, k int) []complex128 {
	n := len(v)
	r := make([]complex128, n)
	for i := range v {
		r[i] = v[(((i+k)%n)+n)%n]
	}
	return r
}

// amount turns an argument into a rotation amount with interesting values.
func (w *World) amount(s Step, i int) int {
	half := w.params.N() / 2
	a := s.a(i)
	switch s.sel(i+1, 10) {
	case 0:
		return 1 << uint(s.sel(i, w.params.LogN()-1))
	case 1:
		return -(1 << uint(s.sel(i, w.params.LogN()-1)))
	case 2:
		return half - 1 - s.sel(i, 3)
	case 3:
		return half + s.sel(i, half)
	case 4:
		return -half - s.sel(i, half)
	case 5:
		return half * (s.sel(i, 5) - 2)
	case 6:
		return (a%7 - 3) * (half/2 + 1)
	case 7: // any integer is an amount
		if s.sel(i, 4) == 0 {
			big := []int{math.MaxInt64, math.MinInt64, 1 << 40, -(1 << 40), math.MaxInt32, math.MinInt32, 1 << 62, math.MinInt64 + 1}[(a>>2)&7]
			if k := big - a%97; (k < 0) == (big < 0) {
				return k
			}
			return big
		}
	}
	return a % half
}

// norm is the slot-rotation index a rotation amount stands for.
func (w *World) norm(k int) int {
	half := w.params.N() / 2
	return ((k % half) + half) % half
}

func hamming(k int) (c int) {
	for ; k > 0; k &= k - 1 {
		c++
	}
	return
}

func (w *World) rotCall(s Step) *call {
	a := w.pick(s, 0)
	if a == nil {
		return nil
	}
	k := w.amount(s, 1)
	if s.Op == "rot" && s.sel(3, 4) == 0 { // favour indices with a dedicated key
		if ded := w.dedicated(); len(ded) > 0 {
			k = ded[s.sel(1, len(ded))]
		}
	}
	nk := w.norm(k)
	c := &call{name: "rot", in: []*Obj{a}, ids: a.ids, level: a.ct.Level(), scale: a.ct.Scale, v: rotv(a.v, k)}
	steps := hamming(nk)
	_, ded := w.params.CRS[nk]
	may := ded && nk != 0 && !w.hasRot(nk, a.ids)
	if ded && nk != 0 && !may || s.Op == "rotks" {
		steps = 1
	}
	if may && s.Op != "rot" {
		return nil
	}
	c.may = may
	kk := len(a.ids)
	c.e = a.e + float64(steps)*w.ksErr(kk, a.ct.Level(), a.ct.Scale) + tiny(vmax(a.v))
	if !w.fits(vmax(a.v)+c.e, c.scale, c.level) {
		return nil
	}
	c.key = uint64(nk) | uint64(a.ct.Level())<<16 | uint64(kk)<<32
	c.run = func(ev *evaluator, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
		return ev.ev.RotateNew(in[0], k, w.rtkSet)
	}
	if s.Op == "rotks" { // directly on the key switcher; negative amounts allowed
		if !ded || nk == 0 && !w.hasRot(0, a.ids) {
			return nil
		}
		if k >= w.params.N()/2 {
			k = nk
		}
		c.name = "rotks"
		ids, lvl, sc := a.ids, w.outLevel(s, c), a.ct.Scale
		c.run = func(ev *evaluator, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
			out := mkckks.NewCiphertext(w.params, w.idset(ids), lvl, sc)
			ev.ks.Rotate(in[0].Ciphertext, k, w.rtkSet, out.Ciphertext)
			return out
		}
	}
	return c
}

// dedicated lists rotation indices that are no power of two and have a key.
func (w *World) dedicated() (r []int) {
	for k := 1; k < w.params.N()/2; k++ {
		if _, ok := w.params.CRS[k]; ok && hamming(k) > 1 && w.hasRot(k, w.cfg.IDs) {
			r = append(r, k)
		}
	}
	return
}

// crsOwn lists rotation indices that are no power of two and have a reference string.
func (w *World) crsOwn() (r []int) {
	for k := 1; k < w.params.N()/2; k++ {
		if _, ok := w.params.CRS[k]; ok && hamming(k) > 1 {
			r = append(r, k)
		}
	}
	return
}

// hasRot tells whether all the listed parties published a key for an index.
func (w *World) hasRot(k int, ids []string) bool {
	if _, ok := w.params.CRS[k]; !ok {
		return false
	}
	for _, id := range ids {
		if p := w.byID[id]; p == nil || p.rtk[uint(k)] == nil {
			return false
		}
	}
	return true
}

func (w *World) hrotCall(s Step) *call {
	if len(w.hs) == 0 {
		return nil
	}
	h := w.hs[s.sel(0, len(w.hs))]
	a := h.o
	k := w.amount(s, 1)
	if ded := w.dedicated(); len(ded) > 0 && s.sel(3, 2) == 0 {
		k = ded[s.sel(1, len(ded))]
		if s.sel(4, 3) == 0 {
			k -= w.params.N() / 2
		}
	}
	nk := w.norm(k)
	lack := w.rtkSet
	if m := simrt.Mix(s.S, 0x1ac); m%6 == 0 && len(a.ids) > 0 && w.plan.Property == "C03" {
		// a key it needs is missing: from the beginning, or from the set that is handed in
		k, lack = w.lacking(m>>8, a.ids)
		nk = k
	} else if nk != 0 && !w.hasRot(nk, a.ids) {
		k = 1 << uint(s.sel(1, w.params.LogN()-1))
		nk = k
	}
	x := h.h
	c := &call{name: "hrot", in: []*Obj{a}, ids: a.ids, level: a.ct.Level(), scale: a.ct.Scale, v: rotv(a.v, k)}
	c.e = a.e + w.ksErr(len(a.ids), a.ct.Level(), a.ct.Scale) + tiny(vmax(a.v))
	if !w.fits(vmax(a.v)+c.e, c.scale, c.level) {
		return nil
	}
	c.key = uint64(nk) | uint64(a.ct.Level())<<16 | uint64(len(a.ids))<<32
	c.run = func(ev *evaluator, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
		return ev.ev.RotateHoistedNew(in[0], k, x, lack)
	}
	if lack != w.rtkSet || !w.hasRot(nk, a.ids) {
		c.may = nk != 0
		return c
	}
	if s.sel(2, 4) == 1 && (nk != 0 || w.hasRot(0, a.ids)) { // directly on the key switcher; negative amounts allowed
		if k >= w.params.N()/2 {
			k = nk
		}
		ids, lvl, sc := a.ids, w.outLevel(s, c), a.ct.Scale
		c.run = func(ev *evaluator, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
			out := mkckks.NewCiphertext(w.params, w.idset(ids), lvl, sc)
			ev.ks.RotateHoisted(in[0].Ciphertext, k, x, w.rtkSet, out.Ciphertext)
			return out
		}
	}
	return c
}

// lacking chooses an amount and a key set in which one of the parties has no key for it.
func (w *World) lacking(m uint64, ids []string) (int, *mkrlwe.RotationKeySet) {
	l := w.crsOwn()
	for i := 0; i < w.params.LogN()-1; i++ {
		l = append(l, 1<<uint(i))
	}
	k := l[m%uint64(len(l))]
	out := ids[m>>20%uint64(len(ids))]
	set := mkrlwe.NewRotationKeySet()
	for _, p := range w.parties {
		for _, i := range sortedIdx(p.rtk) {
			if p.id != out || int(i) != k {
				set.AddRotationKey(p.rtk[i])
			}
		}
	}
	return k, set
}

func sortedIdx(m map[uint]*mkrlwe.RotationKey) (l []uint) {
	for i := range m {
		l = append(l, i)
	}
	sort.Slice(l, func(a, b int) bool { return l[a] < l[b] })
	return
}

// outLevel chooses the level of the output of a key switch: that of the operand
// or a lower one that still holds the value.
func (w *World) outLevel(s Step, c *call) int {
	if low := s.sel(5, c.level+1); low < c.level && s.sel(4, 3) == 1 {
		e := c.e + w.ksErr(len(c.ids), low, c.scale)
		if w.fits(vmax(c.v)+e, c.scale, low) {
			c.e, c.level = e, low
			c.key |= 1 << 40
		}
	}
	return c.level
}

func (w *World) conjCall(s Step) *call {
	a := w.pick(s, 0)
	if a == nil {
		return nil
	}
	c := &call{name: "conj", in: []*Obj{a}, ids: a.ids, level: a.ct.Level(), scale: a.ct.Scale, v: mapv(a.v, cmplx.Conj)}
	c.e = a.e + w.ksErr(len(a.ids), a.ct.Level(), a.ct.Scale) + tiny(vmax(a.v))
	if !w.fits(vmax(a.v)+c.e, c.scale, c.level) {
		return nil
	}
	c.key = uint64(a.ct.Level())<<16 | uint64(len(a.ids))<<32
	c.run = func(ev *evaluator, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
		return ev.ev.ConjugateNew(in[0], w.cjkSet)
	}
	if s.sel(2, 4) == 1 { // directly on the key switcher
		ids, lvl, sc := a.ids, w.outLevel(s, c), a.ct.Scale
		c.run = func(ev *evaluator, in []*mkckks.Ciphertext) *mkckks.Ciphertext {
			out := mkckks.NewCiphertext(w.params, w.idset(ids), lvl, sc)
			ev.ks.Conjugate(in[0].Ciphertext, w.cjkSet, out.Ciphertext)
			return out
		}
	}
	return c
}

// build resolves a step into an operation, or nil when it does not apply now.
func (w *World) build(s Step) *call {
	switch s.Op {
	case "add":
		return w.addCall(s, false)
	case "sub":
		return w.addCall(s, true)
	case "mul", "sq", "mulks":
		return w.mulCall(s)
	case "hmul":
		return w.hmulCall(s)
	case "ptmul":
		return w.ptmulCall(s)
	case "const":
		return w.constCall(s)
	case "rescale":
		return w.rescaleCall(s)
	case "drop":
		return w.dropCall(s)
	case "pad":
		return w.padCall(s)
	case "rot", "rotks":
		return w.rotCall(s)
	case "hrot":
		return w.hrotCall(s)
	case "conj":
		return w.conjCall(s)
	}
	panic("harness: unknown operation " + s.Op)
}

// ------------------------------------------------- steps that are not calls

// encStep encrypts a new message under one party's key. It is set-up for most
// properties: errors here are reported by C04 only.
func (w *World) encStep(s Step) {
	p := w.parties[s.sel(0, len(w.parties))]
	v := w.values(s.S, s.a(1))
	ids := []string{p.id}
	if s.sel(2, 4) == 1 { // with empty parts for parties that join the computation later
		for i, q := range w.parties {
			if q != p && s.a(3)>>uint(i)&1 == 1 {
				ids = append(ids, q.id)
			}
		}
	}
	var ct *mkckks.Ciphertext
	m := w.msgOf(v, s)
	f := func() {
		if len(ids) > 1 {
			ct = p.enc.EncryptMsgNewExpand(m, p.pk, w.idset(ids))
		} else {
			ct = p.enc.EncryptMsgNew(m, p.pk)
		}
	}
	if s.sel(5, 4) == 0 { // at another level and scale
		lvl := w.params.MaxLevel() - s.sel(4, 2)*s.sel(3, w.params.MaxLevel()+1)
		sc := w.params.Scale() * scaleFactors[s.a(5)>>3%len(scaleFactors)]
		if !w.fits(vmax(v)+1, sc, lvl) {
			lvl = w.params.MaxLevel()
		}
		if w.fits(vmax(v)+1, sc, lvl) {
			pt := ckks.NewPlaintext(w.ckp, lvl, sc)
			w.coder.Encode(pt, v, w.cfg.LogSlots)
			c := mkckks.NewCiphertext(w.params, w.idset(ids), lvl, 1)
			f = func() { p.enc.EncryptPtxt(pt, p.pk, c); ct = c }
		}
	}
	out := w.attempt(s.Abort, f)
	if !out.ok {
		w.logf("enc %s %v", p.id, out)
		if out.panicV != nil {
			w.foreign("enc", out)
		}
		return
	}
	o := w.push(&Obj{ct: ct, v: v, e: w.freshErr(ct.Scale) + tiny(vmax(v)), ids: union(ids, nil)})
	if !w.sane(ct, o.v, o.e) {
		w.objs = w.objs[:len(w.objs)-1]
		w.foreign("enc", outcome{panicV: "wrong value"})
		return
	}
	w.logf("enc #%d party=%q -> %x", o.name, p.id, hashCt(ct))
}

var scaleFactors = []float64{1, 2, 2, 3, 4, 8, 0.5, 1024, 1.0000001, 1.5}

// sane tells whether a freshly encrypted input is usable at all.
func (w *World) sane(ct *mkckks.Ciphertext, v []complex128, e float64) bool {
	got, err := w.open(ct, w.sks())
	return err == nil && diff(got, v) <= e
}

// foreign counts trouble that belongs to another property.
func (w *World) foreign(op string, out outcome) {
	w.st.add("foreign-failure:" + op)
	w.logf("foreign failure %s: %v", op, out)
}

func (w *World) ptencStep(s Step) {
	p := w.parties[s.sel(0, len(w.parties))]
	v := w.values(s.S, s.a(1))
	var pt *ckks.Plaintext
	out := w.attempt(0, func() { pt = p.enc.EncodeMsgNew(w.msgOf(v, s)) })
	if out.ok && s.sel(5, 4) == 0 { // made elsewhere, with another scale or level
		lvl := w.params.MaxLevel() - s.sel(4, 2)*s.sel(3, w.params.MaxLevel()+1)
		sc := w.params.Scale() * scaleFactors[s.a(5)>>3%len(scaleFactors)]
		if w.fits(vmax(v)+1, sc, lvl) {
			pt = ckks.NewPlaintext(w.ckp, lvl, sc)
			w.coder.Encode(pt, v, w.cfg.LogSlots)
		}
	}
	if !out.ok {
		w.opPanic("ptmul", out)
		return
	}
	w.pts = append(w.pts, &Ptxt{pt: pt, v: v})
	if len(w.pts) > 4 {
		w.pts = w.pts[1:]
	}
	w.logf("ptenc")
}

func (w *World) hoistStep(s Step, ev *evaluator) *Hoist {
	a := w.pick(s, 1)
	if a == nil {
		return nil
	}
	var h *mkrlwe.HoistedCiphertext
	out := w.attempt(s.Abort, func() { h = ev.ev.HoistedForm(a.ct) })
	w.logf("hoist #%d %v", a.name, out)
	if !out.ok {
		if out.panicV != nil {
			w.opPanic("hoist", out)
		}
		return nil
	}
	x := &Hoist{h: h, o: a}
	w.hs = append(w.hs, x)
	if len(w.hs) > 5 {
		w.hs = w.hs[1:]
	}
	return x
}

// dropHoists forgets hoisted forms of a ciphertext that was overwritten.
func (w *World) dropHoists(o *Obj) {
	k := w.hs[:0]
	for _, h := range w.hs {
		if h.o != o {
			k = append(k, h)
		}
	}
	w.hs = k
}

// ptreStep encodes another message into a plaintext object that is in use.
func (w *World) ptreStep(s Step) {
	if len(w.pts) == 0 {
		return
	}
	p := w.pts[s.sel(0, len(w.pts))]
	v := w.values(s.S, s.a(1))
	p.pt.Value.Zero()
	w.coder.Encode(p.pt, v, w.cfg.LogSlots)
	p.v = v
	w.st.add("ptre")
	w.logf("ptre")
}

// encintoStep encrypts into a ciphertext object that is in use.
func (w *World) encintoStep(s Step) {
	o := w.pick(s, 0)
	if o == nil || len(o.ids) == 0 {
		return
	}
	p := w.byID[o.ids[s.sel(2, len(o.ids))]]
	if p == nil {
		return
	}
	v := w.values(s.S, s.a(1))
	if !w.fits(vmax(v)+1, w.params.Scale(), o.ct.Level()) {
		return
	}
	m := w.msgOf(v, s)
	out := w.attempt(s.Abort, func() { p.enc.EncryptMsg(m, p.pk, o.ct) })
	w.logf("encinto #%d %v", o.name, out)
	o.v, o.e = v, w.freshErr(o.ct.Scale)+tiny(vmax(v))
	if !out.ok || !w.sane(o.ct, o.v, o.e) {
		if !out.aborted {
			w.foreign("encinto", out)
		}
		w.remove(o)
		return
	}
	w.dropHoists(o)
	w.st.add("encinto")
}

// overwriteStep makes one ciphertext object hold another's content, as a buffer
// that is filled from the network again and again.
func (w *World) overwriteStep(s Step) {
	o := w.pick(s, 0)
	if o == nil {
		return
	}
	for i := range w.objs {
		x := w.objs[(i+s.sel(1, len(w.objs)))%len(w.objs)]
		if x == o || x.ct.Level() > o.ct.Level() || len(union(x.ids, o.ids)) != len(o.ids) || len(x.ids) != len(o.ids) || x.ct.Value["0"].IsNTT != o.ct.Value["0"].IsNTT {
			continue
		}
		for id, src := range x.ct.Value {
			dst := o.ct.Value[id]
			dst.Coeffs = dst.Coeffs[:len(src.Coeffs)]
			for j := range src.Coeffs {
				copy(dst.Coeffs[j], src.Coeffs[j])
			}
		}
		o.ct.Scale, o.v, o.e = x.ct.Scale, x.v, x.e
		w.dropHoists(o)
		w.st.add("overwrite")
		w.logf("overwrite #%d with #%d", o.name, x.name)
		return
	}
}

// crsStep registers a reference string for which only some parties have keys.
func (w *World) crsStep(s Step) {
	half := w.params.N() / 2
	k := w.opposite(s, 3+s.sel(0, half-3))
	if hamming(k) < 2 || k >= half {
		return
	}
	if _, ok := w.params.CRS[k]; ok || len(w.params.CRS) > w.params.LogN()+8 {
		return
	}
	var keys []*mkrlwe.RotationKey
	out := w.attempt(0, func() {
		w.params.AddCRS(k)
		for i, p := range w.parties {
			if s.a(1)>>uint(i)&1 == 1 {
				keys = append(keys, p.kg.GenRotationKey(k, p.sk))
			}
		}
	})
	w.logf("crs %d for %d parties %v", k, len(keys), out)
	if !out.ok {
		w.opPanic("rotkey", out)
		return
	}
	for _, rk := range keys {
		w.rtkSet.AddRotationKey(rk)
		w.byID[rk.ID].rtk[uint(k)] = rk
	}
	w.st.add("crs")
}

// rekeyStep replaces all keys of a party; what was encrypted before is gone. Any
// party's generator can serve.
func (w *World) rekeyStep(s Step) {
	p := w.parties[s.sel(0, len(w.parties))]
	g := w.parties[s.sel(1, len(w.parties))]
	var ded []int
	for k := range p.rtk {
		if hamming(int(k)) != 1 {
			ded = append(ded, int(k))
		}
	}
	sort.Ints(ded)
	kg := p.kg
	p.kg = g.kg
	out := w.attempt(0, func() {
		w.rekey(p, w.kinds)
		for _, k := range ded {
			rk := p.kg.GenRotationKey(k, p.sk)
			w.rtkSet.AddRotationKey(rk)
			p.rtk[uint(k)] = rk
		}
	})
	p.kg = kg
	w.dropOf(p.id)
	w.logf("%d: rekey %q %v", w.step, p.id, out)
	if !out.ok {
		w.opPanic("rotkey", out)
		return
	}
	w.st.add("rekey")
}

// rotkeyStep publishes a new rotation index at run time: a new common
// reference string, then one key per party.
// opposite sometimes replaces k by the opposite of an amount with keys.
func (w *World) opposite(s Step, k int) int {
	m := simrt.Mix(s.S, 0x0bb)
	if m%3 != 0 {
		return k
	}
	l := w.crsOwn()
	for i := 0; i < w.params.LogN()-1; i++ {
		l = append(l, 1<<uint(i))
	}
	return w.params.N()/2 - l[m>>8%uint64(len(l))]
}

func (w *World) rotkeyStep(s Step) {
	half := w.params.N() / 2
	k := 3 + s.sel(0, half-3)
	k = w.opposite(s, k)
	if hamming(k) < 2 {
		k++
	}
	if hamming(k) < 2 || k >= half {
		return
	}
	// some other index, which has its reference string already, is asked for again
	old := []int{1 << uint(s.sel(3, w.params.LogN()-1))}
	old = append(old, w.dedicated()...)
	again := old[s.sel(4, len(old))]
	if s.sel(2, 3) == 0 {
		if out := w.attempt(0, func() { w.params.AddCRS(again - half*s.sel(5, 3)) }); !out.ok {
			w.opPanic("rotkey", out)
			return
		}
		w.logf("crs %d again", again)
		w.st.add("crs-again")
	}
	if s.sel(5, 8) == 7 { // keys for no rotation at all, which only the key switcher asks for
		k = 0
	}
	if _, ok := w.params.CRS[k]; (ok || len(w.dedicated()) >= 4) && k != 0 {
		return
	}
	var keys []*mkrlwe.RotationKey
	out := w.attempt(0, func() {
		w.params.AddCRS(k - half*s.sel(3, 2)) // an index below zero is as good
		for _, p := range w.parties {
			kk := k
			switch s.sel(1, 4) {
			case 1:
				kk = k - half
			case 2:
				kk = k - half<<40
			case 3:
				kk = k + half*s.sel(4, 4)
			}
			keys = append(keys, p.kg.GenRotationKey(kk, p.sk))
		}
		for _, rk := range keys {
			w.rtkSet.AddRotationKey(rk)
			w.byID[rk.ID].rtk[uint(k)] = rk // a rotation by k is owed from now on, wherever the key was filed
		}
	})
	w.logf("rotkey %d %v", k, out)
	if !out.ok {
		w.opPanic("rotkey", out)
	}
}

var ownOps map[string]bool // operations whose failures the running property reports

// opPanic handles an operation within its contract that failed.
func (w *World) opPanic(op string, out outcome) {
	if ownOps[op] {
		fail("refused:"+op, "step %d: %s failed although its operands and keys are in order: %v", w.step, op, out)
	}
	w.foreign(op, out)
}

func (w *World) describe(c *call) string {
	s := c.name + "("
	for i, o := range c.in {
		if i > 0 {
			s += ","
		}
		s += fmt.Sprintf("#%d{lvl=%d ids=%d}", o.name, o.ct.Level(), len(o.ids))
	}
	return s + ")"
}
