package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"vsim/simrt"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

// C11: what is random really is. The oracle holds the secret keys, so it can
// recover the noise inside every published key and every encryption.

// noiseMax is where the error distribution is truncated: 6 sigma.
func (w *World) noiseMax() int64 { return int64(6*w.cfg.sigma()) + 1 }

type entWorld struct {
	lastPt *ckks.Plaintext // the one encrypted last, and its message
	lastV  []complex128
	*World
	probes  probeSums
	noises  map[uint64]string // fingerprint of every noise polynomial seen so far
	secrets map[uint64]string
	crs     map[uint64]string
	sum2    float64 // pooled second moment of key noise
	sum1    float64
	cnt     float64
	z2, zn  float64 // pooled, normalised encryption noise
	encs    []encRec
	masked  map[string]bool
	encdrs  []*mkckks.Encryptor
	extra   []mkckks.Parameters
	last    map[string]*mkckks.Ciphertext // the last encryption for a party
	shown   map[uint64]sample             // by secret and direction of the mask: what was published
}

// sample is one published pair (mask, body = noise - mask·secret + gadget), NTT
// domain, out of Montgomery form, modulo one prime.
type sample struct {
	mask, body []uint64
	label      string
}

type encRec struct {
	p    *Party
	ver  int
	c1   *ring.Poly // coefficient domain, component of the owner
	u    *ring.Poly // c1 / pk1
	name string
}

// small returns the centred coefficients if all of them are below the bound in
// every residue, consistently.
func small(p *ring.Poly, mods []uint64, bound int64) ([]int64, bool) {
	n := len(p.Coeffs[0])
	out := make([]int64, n)
	for j := 0; j < n; j++ {
		x := p.Coeffs[0][j] % mods[0]
		v := int64(x)
		if x > mods[0]/2 {
			v = int64(x) - int64(mods[0])
		}
		if v > bound || v < -bound {
			return nil, false
		}
		out[j] = v
		for i := 1; i < len(p.Coeffs); i++ {
			y := p.Coeffs[i][j] % mods[i]
			w := uint64(v)
			if v < 0 {
				w = mods[i] - uint64(-v)
			}
			if y != w {
				return nil, false
			}
		}
	}
	return out, true
}

func allZero(v []int64) bool {
	for _, x := range v {
		if x != 0 {
			return false
		}
	}
	return true
}

func hashInts(v []int64) uint64 {
	s := int64(1)
	for _, x := range v {
		if x != 0 {
			if x < 0 {
				s = -1
			}
			break
		}
	}
	h := uint64(len(v))
	for _, x := range v {
		h = simrt.Mix(h, uint64(s*x))
	}
	return h
}

// noise examines one recovered noise polynomial (NTT domain, over Q and P).
func (m *entWorld) noise(label string, e rlwe.PolyQP) {
	rq, rp := m.ringQ, m.ckp.RingP()
	lq, lp := len(rq.Modulus)-1, len(rp.Modulus)-1
	rq.InvNTTLvl(lq, e.Q, e.Q)
	rp.InvNTTLvl(lp, e.P, e.P)
	q, ok := small(e.Q, rq.Modulus, 1<<30)
	if !ok {
		m.st.add("foreign-failure:key-equation") // the key is wrong, not weak: C01/C02 report it
		return
	}
	p, ok := small(e.P, rp.Modulus, 1<<30)
	if !ok || fmt.Sprint(p) != fmt.Sprint(q) {
		if ok && allZero(p) && !allZero(q) {
			fail("no-noise", "step %d: %s carries no noise modulo the special primes: the secret can be solved for", m.step, label)
		}
		m.st.add("foreign-failure:key-equation")
		return
	}
	if allZero(q) {
		fail("no-noise", "step %d: %s carries no noise: the secret can be solved for", m.step, label)
	}
	noiseMax := m.noiseMax()
	for _, x := range q {
		if x > noiseMax || x < -noiseMax {
			fail("large-noise", "step %d: %s has a noise coefficient %d, the distribution ends at %d", m.step, label, x, noiseMax)
		}
		m.sum1 += float64(x)
		m.sum2 += float64(x * x)
		m.cnt++
	}
	h := hashInts(q)
	if old, dup := m.noises[h]; dup {
		fail("noise-reused", "step %d: %s has the same noise as %s", m.step, label, old)
	}
	m.noises[h] = label
	m.obs = simrt.Mix(m.obs, h)
	m.st.add("noise-recovered")
}

func (m *entWorld) copyQP(p rlwe.PolyQP) rlwe.PolyQP { return p.CopyNew() }

// gadget returns P·s on the primes of digit i, zero elsewhere (NTT, not Montgomery).
func (m *entWorld) gadget(i int, s rlwe.PolyQP) rlwe.PolyQP {
	rqp := m.params.RingQP()
	alpha := m.params.Alpha()
	g := rqp.NewPoly()
	P := m.ckp.RingP().ModulusBigint
	for j := i * alpha; j < (i+1)*alpha && j < len(m.ringQ.Modulus); j++ {
		q := m.ringQ.Modulus[j]
		k := new(big.Int).Mod(P, new(big.Int).SetUint64(q))
		kk := new(big.Int).SetUint64(k.Uint64())
		for x, y := range s.Q.Coeffs[j] {
			t := new(big.Int).SetUint64(y)
			t.Mul(t, kk).Mod(t, new(big.Int).SetUint64(q))
			g.Q.Coeffs[j][x] = t.Uint64()
		}
	}
	return g
}

// keyNoise recovers noise = sign*(key - g) + a·t with everything out of Montgomery form.
func (m *entWorld) keyNoise(label string, swk *mkrlwe.SwitchingKey, crs int, g func(i int) rlwe.PolyQP, t *mkrlwe.SecretKey) {
	a := m.maskOf(swk, crs, g, t)
	if a == nil {
		m.st.add("foreign-failure:key-equation") // the key is wrong, not weak: C01/C02 report it
		return
	}
	rqp := m.params.RingQP()
	lq, lp := m.params.QCount()-1, m.params.PCount()-1
	for i := range swk.Value {
		k := m.copyQP(swk.Value[i])
		rqp.InvMFormLvl(lq, lp, k, k)
		x := m.copyQP(a.Value[i])
		rqp.InvMFormLvl(lq, lp, x, x)
		m.related(fmt.Sprintf("%s digit %d", label, i), t, x, k)
		rqp.MulCoeffsMontgomeryLvl(lq, lp, x, t.Value, x) // t is in Montgomery form
		rqp.AddLvl(lq, lp, k, x, k)
		if g != nil {
			rqp.SubLvl(lq, lp, k, g(i), k)
		}
		m.noise(fmt.Sprintf("%s digit %d", label, i), k)
	}
}

// maskOf finds the reference string a key was made with: the expected one, or any
// other under which the key equation holds.
func (m *entWorld) maskOf(swk *mkrlwe.SwitchingKey, k int, g func(i int) rlwe.PolyQP, t *mkrlwe.SecretKey) *mkrlwe.SwitchingKey {
	rqp := m.params.RingQP()
	lq, lp := m.params.QCount()-1, m.params.PCount()-1
	holds := func(i int) bool {
		a, in := m.params.CRS[i]
		if !in {
			return false
		}
		e := m.copyQP(swk.Value[0])
		rqp.InvMFormLvl(lq, lp, e, e)
		x := m.copyQP(a.Value[0])
		rqp.InvMFormLvl(lq, lp, x, x)
		rqp.MulCoeffsMontgomeryLvl(lq, lp, x, t.Value, x)
		rqp.AddLvl(lq, lp, e, x, e)
		if g != nil {
			rqp.SubLvl(lq, lp, e, g(0), e)
		}
		m.ringQ.InvNTTLvl(lq, e.Q, e.Q)
		_, ok := small(e.Q, m.ringQ.Modulus, 1<<30)
		return ok
	}
	if holds(k) {
		return m.params.CRS[k]
	}
	for i := -16; i < m.params.N()/2; i++ {
		if i != k && holds(i) {
			return m.params.CRS[i]
		}
	}
	return nil
}

func (m *entWorld) plainSK(s *mkrlwe.SecretKey) rlwe.PolyQP {
	rqp := m.params.RingQP()
	x := m.copyQP(s.Value)
	rqp.InvMFormLvl(m.params.QCount()-1, m.params.PCount()-1, x, x)
	return x
}

func (m *entWorld) permuted(s *mkrlwe.SecretKey, gal uint64) *mkrlwe.SecretKey {
	out := mkrlwe.NewSecretKey(m.params.Parameters, s.ID)
	index := ring.PermuteNTTIndex(gal, uint64(m.params.N()))
	ring.PermuteNTTWithIndexLvl(m.params.QCount()-1, s.Value.Q, index, out.Value.Q)
	ring.PermuteNTTWithIndexLvl(m.params.PCount()-1, s.Value.P, index, out.Value.P)
	return out
}

// secretOf examines one secret: kind as in gen below.
func (m *entWorld) secretOf(label string, s *mkrlwe.SecretKey, kind int, par float64) {
	x := m.plainSK(s)
	m.ringQ.InvNTTLvl(len(m.ringQ.Modulus)-1, x.Q, x.Q)
	m.ckp.RingP().InvNTTLvl(m.params.PCount()-1, x.P, x.P)
	q, ok := small(x.Q, m.ringQ.Modulus, 1<<30)
	p, ok2 := small(x.P, m.ckp.RingP().Modulus, 1<<30)
	if !ok || !ok2 || fmt.Sprint(p) != fmt.Sprint(q) {
		m.st.add("foreign-failure:secret-form")
		return
	}
	n := 0
	top := int64(1)
	if kind == 3 {
		top = m.noiseMax()
	}
	for _, v := range q {
		if v > top || v < -top {
			fail("secret-range", "step %d: %s has a coefficient %d outside its distribution", m.step, label, v)
		}
		if v != 0 {
			n++
		}
	}
	if n == 0 && !(kind == 2 && par > 0.5) {
		fail("secret-zero", "step %d: %s is zero", m.step, label)
	}
	if kind == 1 && n != int(par) {
		fail("secret-weight", "step %d: %s was requested with weight %g and has %d", m.step, label, par, n)
	}
	if kind == 0 || kind == 2 {
		pz := 0.5
		if kind == 2 {
			pz = par
		}
		N := float64(len(q))
		if d := math.Abs(float64(n) - N*(1-pz)); d > 9*math.Sqrt(N*pz*(1-pz))+1 {
			fail("secret-density", "step %d: %s has %d non-zero coefficients of %d", m.step, label, n, len(q))
		}
	}
	h := hashInts(q)
	if old, dup := m.secrets[h]; dup {
		fail("secret-reused", "step %d: %s equals %s", m.step, label, old)
	}
	m.secrets[h] = label
	m.obs = simrt.Mix(m.obs, h)
	m.st.add("secret-checked")
}

// secretGen generates a secret; par is the weight or the density that was asked for.
func (m *entWorld) secretGen(p *Party, kind int, pick int) (_ *mkrlwe.SecretKey, par float64, pair *mkrlwe.PublicKey) {
	N := m.params.N()
	hw := []int{1 + N/4, N / 2, N/2 + 1, 3 * N / 4}[pick&3]
	pz := []float64{1.0 / 3, 0.2, 0.5, 0.65}[pick&3]
	switch kind {
	case 1:
		return p.kg.GenSecretKeySparse(hw, p.id), float64(hw), nil
	case 2:
		return p.kg.GenSecretKeyWithDistrib(pz, p.id), pz, nil
	case 3:
		return p.kg.GenSecretKeyGaussian(p.id), 0, nil
	case 4:
		sk, pk := p.kg.GenKeyPairSparse(hw, p.id)
		return sk, float64(hw), pk
	case 5:
		sk, pk := p.kg.GenKeyPair(p.id)
		return sk, 0, pk
	}
	return p.kg.GenSecretKey(p.id), 0, nil
}

// density generates a number of secrets of one distribution, usual or not, and counts.
func (m *entWorld) density(p *Party, x uint64) {
	N := m.params.N()
	if x%3 == 0 { // an exact weight
		hw := []int{1, 2, 3, 5, 7, 8, N/2 - 1, N - 1, N, 9, N/4 + 3, 15}[x>>8%12]
		var sk *mkrlwe.SecretKey
		if out := m.attempt(0, func() { sk = p.kg.GenSecretKeySparse(hw, p.id) }); !out.ok {
			m.foreign("secret", out)
			return
		}
		if n, _, ok := m.count(sk); ok && n != hw {
			fail("secret-weight", "step %d: a secret of weight %d was asked for, it has %d", m.step, hw, n)
		}
		m.st.add("secret-weight-checked")
		return
	}
	pz := []float64{0.02, 0.05, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.85, 0.95}[x>>8%10]
	const K = 24
	n, plus := 0, 0
	for i := 0; i < K; i++ {
		var sk *mkrlwe.SecretKey
		if out := m.attempt(0, func() { sk = p.kg.GenSecretKeyWithDistrib(pz, p.id) }); !out.ok {
			m.foreign("secret", out)
			return
		}
		a, b, ok := m.count(sk)
		if !ok {
			return
		}
		n, plus = n+a, plus+b
	}
	T := float64(K * N)
	if d := math.Abs(float64(n) - T*(1-pz)); d > 8*math.Sqrt(T*pz*(1-pz))+2 {
		fail("secret-density", "step %d: %d secrets with a share of zeros of %g were asked for, they have %d non-zero coefficients of %d", m.step, K, pz, n, K*N)
	}
	if d := math.Abs(2*float64(plus) - float64(n)); d > 8*math.Sqrt(float64(n))+2 {
		fail("secret-signs", "step %d: of the %d non-zero coefficients of %d secrets %d are positive", m.step, n, K, plus)
	}
	m.st.add("secret-density-checked")
}

// count counts the non-zero and the positive coefficients of a ternary secret.
func (m *entWorld) count(sk *mkrlwe.SecretKey) (n, plus int, ok bool) {
	x := m.plainSK(sk)
	m.ringQ.InvNTTLvl(len(m.ringQ.Modulus)-1, x.Q, x.Q)
	q, ok := small(x.Q, m.ringQ.Modulus, 1<<30)
	for _, v := range q {
		if v != 0 {
			n++
		}
		if v > 0 {
			plus++
		}
		if v > 1 || v < -1 {
			fail("secret-range", "step %d: a ternary secret has a coefficient %d", m.step, v)
		}
	}
	return n, plus, ok
}

// fresh (re)generates a party's secrets and public key.
func (m *entWorld) fresh(p *Party, s Step) {
	kind := s.sel(2, 6)
	var sk, r *mkrlwe.SecretKey
	var pk, pair *mkrlwe.PublicKey
	var par, par2 float64
	kind2 := s.sel(3, 4)
	out := m.attempt(s.Abort, func() {
		sk, par, pair = m.secretGen(p, kind, s.a(5))
		r, par2, _ = m.secretGen(p, kind2, s.a(5)>>2)
		pk = p.kg.GenPublicKey(sk)
	})
	m.logf("%d: keys of %q kind %d: %v", m.step, p.id, kind, out)
	if !out.ok {
		if out.panicV != nil {
			m.foreign("keygen", out)
		}
		return
	}
	cls := map[int]int{4: 1, 5: 0}
	if k, ok := cls[kind]; ok {
		kind = k
	}
	p.ver++
	m.secretOf(fmt.Sprintf("the secret key of %q (generation %d)", p.id, p.ver), sk, kind, par)
	m.secretOf(fmt.Sprintf("the relinearization secret of %q (generation %d)", p.id, p.ver), r, kind2, par2)
	p.sk, p.r, p.pk = sk, r, pk
	if pair != nil {
		m.pkNoise(p, pair)
	}
	m.pkNoise(p, pk)
	m.st.seen(simrt.Mix(1, uint64(kind), uint64(kind2), uint64(m.params.Beta(m.params.MaxLevel())), uint64(m.params.N())))
}

// mask checks that a polynomial meant to hide a secret can hide it: modulo every
// prime, in the NTT domain and in the coefficient domain, in Montgomery form and
// out of it, it takes many values and reaches over the whole range.
func (m *entWorld) mask(kind, label string, qp rlwe.PolyQP) {
	for part, p := range []*ring.Poly{qp.Q, qp.P} {
		r := m.ringQ
		if part == 1 {
			r = m.ckp.RingP()
		}
		lvl := len(p.Coeffs) - 1
		forms := []*ring.Poly{p, r.NewPolyLvl(lvl), r.NewPolyLvl(lvl), r.NewPolyLvl(lvl)}
		r.InvNTTLvl(lvl, p, forms[1])
		r.InvMFormLvl(lvl, p, forms[2])
		r.InvNTTLvl(lvl, forms[2], forms[3])
		for f, x := range forms {
			for j, row := range x.Coeffs {
				q := r.Modulus[j]
				seen := map[uint64]bool{}
				wide := false
				for _, c := range row {
					seen[c] = true
					if c > q/16 && c < q-q/16 {
						wide = true
					}
				}
				if len(seen) < len(row)/2 || !wide {
					fail(kind, "step %d: %s is not a mask modulo prime %d of part %d: %d different values in %d coefficients, wide %v (form %d)", m.step, label, j, part, len(seen), len(row), wide, f)
				}
			}
		}
	}
	m.st.add("mask-checked")
}

// related looks for two published samples under one secret whose masks are
// multiples of each other: everybody can cancel the mask, and what remains must
// be no more than a difference of noises. If it is not, it shows the secret
// itself or both noises, and with a noise the secret.
func (m *entWorld) related(label string, t *mkrlwe.SecretKey, mask, body rlwe.PolyQP) {
	if m.shown == nil {
		m.shown = map[uint64]sample{}
	}
	owner := uint64(7)
	for _, x := range t.Value.Q.Coeffs[0] {
		owner = simrt.Mix(owner, x)
	}
	for part, r := range []*ring.Ring{m.ringQ, m.ckp.RingP()} {
		mp, bp := mask.Q, body.Q
		if part == 1 {
			mp, bp = mask.P, body.P
		}
		for j, q := range r.Modulus {
			bred := r.BredParams[j]
			a, b := mp.Coeffs[j], bp.Coeffs[j]
			if a[0]%q == 0 {
				continue
			}
			inv := ring.ModExp(a[0]%q, q-2, q)
			h := simrt.Mix(owner, uint64(part), uint64(j))
			for k := 1; k < 4; k++ {
				h = simrt.Mix(h, ring.BRed(a[k], inv, q, bred))
			}
			old, hit := m.shown[h]
			if !hit {
				m.shown[h] = sample{append([]uint64(nil), a...), append([]uint64(nil), b...), label}
				continue
			}
			c := ring.BRed(old.mask[0]%q, inv, q, bred) // old.mask = c·mask
			same := true
			for k := range a {
				same = same && ring.BRed(a[k], c, q, bred) == old.mask[k]%q
			}
			if !same {
				continue
			}
			d := r.NewPolyLvl(j)
			for k := range b {
				d.Coeffs[j][k] = (old.body[k]%q + q - ring.BRed(b[k], c, q, bred)) % q
			}
			r.InvNTTLvl(j, d, d)
			for _, x := range d.Coeffs[j] {
				if x > q/2 {
					x = q - x
				}
				if x > 4*uint64(m.noiseMax()) {
					fail("mask-shared", "step %d: %s and %s have the same mask up to the factor %d modulo prime %d of part %d, and what remains without it is not just noise (%d): the secret can be solved for", m.step, label, old.label, c, j, part, x)
				}
			}
			m.st.add("mask-repeated")
		}
	}
	m.st.add("sample-published")
}

func (m *entWorld) pkNoise(p *Party, pk *mkrlwe.PublicKey) {
	rqp := m.params.RingQP()
	lq, lp := m.params.QCount()-1, m.params.PCount()-1
	m.mask("pk-mask", fmt.Sprintf("the random part of the public key of %q", p.id), pk.Value[1])
	e := m.copyQP(pk.Value[1])
	rqp.MulCoeffsMontgomeryLvl(lq, lp, e, p.sk.Value, e)
	rqp.AddLvl(lq, lp, e, pk.Value[0], e)
	label := fmt.Sprintf("the public key of %q (generation %d, #%d)", p.id, p.ver, m.names)
	m.noise(label, e)
	m.related(label, p.sk, pk.Value[1], pk.Value[0])
	m.names++
}

func (m *entWorld) genKey(p *Party, s Step) {
	what := s.sel(1, 5)
	if p.sk == nil {
		return
	}
	half := m.params.N() / 2
	var rlk *mkrlwe.RelinearizationKey
	var rtk *mkrlwe.RotationKey
	var cjk *mkrlwe.ConjugationKey
	var pk *mkrlwe.PublicKey
	k := 1 << uint(s.sel(2, m.params.LogN()-1))
	if ded := m.crsOwn(); len(ded) > 0 && s.sel(3, 2) == 0 {
		k = ded[s.sel(2, len(ded))]
	}
	kk := k
	if s.sel(4, 3) == 0 {
		kk -= half
	}
	if s.sel(2, 24) == 23 {
		k, kk = 0, half*(s.sel(3, 3)-1) // also asked for, by those who make keys for a whole range
	}
	out := m.attempt(s.Abort, func() {
		switch what {
		case 0:
			rlk = p.kg.GenRelinearizationKey(p.sk, p.r)
		case 1, 2:
			rtk = p.kg.GenRotationKey(kk, p.sk)
		case 3:
			cjk = p.kg.GenConjugationKey(p.sk)
		case 4:
			pk = p.kg.GenPublicKey(p.sk)
		}
	})
	m.logf("%d: key %d of %q: %v", m.step, what, p.id, out)
	if !out.ok {
		if out.panicV != nil {
			m.foreign("keygen", out)
		}
		return
	}
	m.names++
	tag := func(n string) string { return fmt.Sprintf("%s of %q (generation %d, #%d)", n, p.id, p.ver, m.names) }
	s0 := m.plainSK(p.sk)
	switch what {
	case 0:
		r0 := m.plainSK(p.r)
		m.keyNoise(tag("relinearization key b"), rlk.Value[0], 0, nil, p.sk)
		m.keyNoise(tag("relinearization key d"), rlk.Value[1], 0, func(i int) rlwe.PolyQP { return m.gadget(i, s0) }, p.r)
		rqp := m.params.RingQP()
		neg := rqp.NewPoly()
		rqp.SubLvl(m.params.QCount()-1, m.params.PCount()-1, neg, r0, neg)
		m.keyNoise(tag("relinearization key v"), rlk.Value[2], -1, func(i int) rlwe.PolyQP { return m.gadget(i, neg) }, p.sk)
	case 1, 2:
		gal := m.params.InverseGaloisElement(m.params.GaloisElementForColumnRotationBy(k))
		sk := m.permuted(p.sk, gal)
		m.keyNoise(tag(fmt.Sprintf("rotation key %d", k)), rtk.Value, k, func(i int) rlwe.PolyQP { return m.gadget(i, s0) }, sk)
	case 3:
		sp := m.plainSK(m.permuted(p.sk, m.params.GaloisElementForRowRotation()))
		m.keyNoise(tag("conjugation key"), cjk.Value, -2, func(i int) rlwe.PolyQP { return m.gadget(i, sp) }, p.sk)
	case 4:
		m.pkNoise(p, pk)
	}
	m.st.add(fmt.Sprintf("keygen-%d", what))
	m.st.seen(simrt.Mix(2, uint64(what), uint64(k), uint64(m.params.Beta(m.params.MaxLevel())), uint64(m.params.N()), boolBit(s.Abort > 0)))
}

// crsCheck looks for reference strings that coincide or differ by little.
func (m *entWorld) crsCheck(params mkckks.Parameters, world int) {
	ks := []int{}
	for k := -16; k < params.N()/2; k++ {
		if _, ok := params.CRS[k]; ok {
			ks = append(ks, k)
		}
	}
	for _, k := range ks {
		for i := range params.CRS[k].Value {
			if l := fmt.Sprintf("mask %d %d", k, i); world == 0 && !m.masked[l] {
				m.masked[l] = true
				m.mask("crs-mask", fmt.Sprintf("reference string %d digit %d", k, i), params.CRS[k].Value[i])
			}
			for part, p := range []*ring.Poly{params.CRS[k].Value[i].Q, params.CRS[k].Value[i].P} {
				label := fmt.Sprintf("reference string %d digit %d part %d of parameters %d", k, i, part, world)
				for j := range p.Coeffs {
					h := uint64(j)
					zero := true
					for _, x := range p.Coeffs[j] {
						h = simrt.Mix(h, x)
						zero = zero && x == 0
					}
					if zero {
						fail("crs-zero", "step %d: %s is zero modulo prime %d", m.step, label, j)
					}
					if old, dup := m.crs[h]; dup && old != label {
						fail("crs-reused", "step %d: %s equals %s modulo prime %d: keys made under them are related", m.step, label, old, j)
					}
					m.crs[h] = label
					m.obs = simrt.Mix(m.obs, h)
				}
			}
		}
	}
	m.st.add("crs-checked")
}

// encrypt produces an encryption of a message of the caller's choice and tests
// the randomness inside.
func (m *entWorld) encrypt(p *Party, s Step) {
	if p.pk == nil {
		return
	}
	enc := m.encdrs[s.sel(1, len(m.encdrs))]
	v := m.values(uint64(s.sel(2, 2)), s.a(3)) // few distinct messages: repeats are wanted
	level := m.params.MaxLevel()
	variant := s.sel(4, 9)
	ids := []string{p.id}
	ptxt := func(l int, ntt bool) *ckks.Plaintext {
		pt := ckks.NewPlaintext(m.ckp, l, m.params.Scale())
		m.coder.Encode(pt, append([]complex128(nil), v...), m.cfg.LogSlots)
		if ntt {
			m.ringQ.NTTLvl(l, pt.Value, pt.Value)
			pt.Value.IsNTT = true
		}
		return pt
	}
	var ct *mkckks.Ciphertext
	out := m.attempt(s.Abort, func() {
		switch variant {
		case 0:
			ct = enc.EncryptMsgNew(m.msg(v), p.pk)
		case 1:
			level = s.sel(5, level+1)
			ct = mkckks.NewCiphertext(m.params, m.idset(ids), level, 1)
			enc.EncryptMsg(m.msg(v), p.pk, ct)
		case 2:
			c := mkrlwe.NewCiphertextNTT(m.params.Parameters, m.idset(ids), level)
			ct = &mkckks.Ciphertext{Ciphertext: c, Scale: 1}
			pt := enc.EncodeMsgNew(m.msg(v))
			enc.EncryptPtxt(pt, p.pk, ct)
		case 3:
			for _, q := range m.parties {
				ids = union(ids, []string{q.id})
			}
			ct = enc.EncryptMsgNewExpand(m.msg(v), p.pk, m.idset(ids))
		case 4, 5, 6, 7: // every combination of domains, any level
			level = s.sel(5, level+1)
			c := mkrlwe.NewCiphertext(m.params.Parameters, m.idset(ids), level)
			if variant&1 != 0 {
				c = mkrlwe.NewCiphertextNTT(m.params.Parameters, m.idset(ids), level)
			}
			ct = &mkckks.Ciphertext{Ciphertext: c, Scale: 1}
			pt := m.lastPt
			if x := simrt.Mix(s.S, 0x9d); pt == nil || pt.Level() < level || x%3 > 0 {
				pt = ptxt(level, variant&2 != 0)
			} else { // the same plaintext again, perhaps for another party
				v = m.lastV
			}
			m.lastPt, m.lastV = pt, v
			enc.EncryptPtxt(pt, p.pk, ct)
		default: // over the last ciphertext of this party
			if ct = m.last[p.id]; ct == nil || ct.Value[p.id] == nil {
				ct = mkckks.NewCiphertext(m.params, m.idset(ids), level, 1)
			}
			enc.EncryptMsg(m.msg(v), p.pk, ct)
			for id := range ct.Value {
				if id != "0" {
					ids = union(ids, []string{id})
				}
			}
		}
	})
	m.logf("%d: enc for %q variant %d: %v", m.step, p.id, variant, out)
	if !out.ok {
		if out.panicV != nil {
			m.foreign("enc", out)
		}
		return
	}
	m.names++
	if m.last == nil {
		m.last = map[string]*mkckks.Ciphertext{}
	}
	m.last[p.id] = ct
	label := fmt.Sprintf("encryption #%d for %q (way %d)", m.names, p.id, variant)
	level = ct.Level()
	rq := m.ringQ
	coef := func(x *ring.Poly) *ring.Poly {
		q := m.coefCopy(x, level)
		return q
	}
	// the encoded message
	pt := ckks.NewPlaintext(m.ckp, level, ct.Scale)
	m.coder.Encode(pt, append([]complex128(nil), v...), m.cfg.LogSlots)
	mp := coef(pt.Value)
	c0, c1 := coef(ct.Value["0"]), coef(ct.Value[p.id])
	rq.SubLvl(level, c0, mp, c0)
	const leak = 1 << 20
	// u and the errors are invisible unless one of them is missing
	u, invertible := m.divide(c1, p.pk.Value[1].Q, level)
	if _, s1 := small(c1, rq.Modulus[:level+1], leak); s1 {
		fail("enc-weak", "step %d: %s: the owner's component is small: no masking", m.step, label)
	}
	if _, s1 := small(c0, rq.Modulus[:level+1], leak); s1 {
		fail("enc-weak", "step %d: %s: the message is not masked", m.step, label)
	}
	if invertible {
		if _, s1 := small(u, rq.Modulus[:level+1], leak); s1 {
			fail("enc-no-e1", "step %d: %s: the owner's component carries no noise, the encryption randomness can be solved for", m.step, label)
		}
	}
	if u0, inv := m.divide(c0, p.pk.Value[0].Q, level); inv {
		if _, s1 := small(u0, rq.Modulus[:level+1], leak); s1 {
			fail("enc-no-e0", "step %d: %s: the first component carries no noise, the message can be solved for", m.step, label)
		}
	}
	d := rq.NewPolyLvl(level)
	rq.SubLvl(level, c0, c1, d)
	kd := rq.NewPolyLvl(level)
	rq.SubLvl(level, p.pk.Value[0].Q, p.pk.Value[1].Q, kd)
	if ud, inv := m.divide(d, kd, level); inv {
		if _, s1 := small(ud, rq.Modulus[:level+1], leak); s1 {
			fail("enc-same-e", "step %d: %s: both components carry the same noise", m.step, label)
		}
	}
	for _, o := range m.encs {
		// all public keys have one mask: what two encryptions share shows across parties
		l := mini(level, o.c1.Level())
		rq.SubLvl(l, c1, o.c1, d)
		dd := &ring.Poly{Coeffs: d.Coeffs[:l+1]}
		if _, s1 := small(dd, rq.Modulus[:l+1], leak); s1 {
			fail("enc-reused", "step %d: %s uses the same masking as %s: the difference of the messages is public", m.step, label, o.name)
		}
		if invertible && o.u != nil && o.p == p && o.ver == p.ver {
			rq.SubLvl(l, u, o.u, d)
			if _, s1 := small(dd, rq.Modulus[:l+1], leak); s1 {
				fail("enc-reused-e", "step %d: %s uses the same noise as %s", m.step, label, o.name)
			}
		}
	}
	rec := encRec{p: p, ver: p.ver, c1: c1, name: label}
	if invertible {
		rec.u = u
	}
	m.encs = append(m.encs, rec)
	m.obs = simrt.Mix(m.obs, hashCt(ct))
	// total noise, normalised by what the keys at hand make it
	ph, err := m.phase(ct.Ciphertext, map[string]*mkrlwe.SecretKey{p.id: p.sk})
	if len(ids) > 1 {
		c := &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{"0": ct.Value["0"], p.id: ct.Value[p.id]}}
		ph, err = m.phase(c, map[string]*mkrlwe.SecretKey{p.id: p.sk})
	}
	if err != nil {
		m.foreign("enc", outcome{panicV: err})
		return
	}
	rq.SubLvl(level, ph, mp, ph)
	nu, ok := small(ph, rq.Modulus[:level+1], 1<<32)
	if !ok {
		m.foreign("enc", outcome{panicV: "wrong value"})
		return
	}
	es, ep := m.norms(p)
	if ep >= 0 {
		sigma := m.cfg.sigma()
		sd2 := (sigma*sigma+1.0/12)*(1+es) + 0.5*ep
		for _, x := range nu {
			m.z2 += float64(x) * float64(x) / sd2
			m.zn++
		}
	}
	m.st.add("enc-checked")
	m.st.seen(simrt.Mix(3, uint64(variant), uint64(level), uint64(m.params.N()), uint64(mini(len(m.encs), 6)), boolBit(s.Abort > 0)))
}

// norms returns the squared norms of a party's secret and public-key noise.
func (m *entWorld) norms(p *Party) (float64, float64) {
	x := m.plainSK(p.sk)
	m.ringQ.InvNTTLvl(len(m.ringQ.Modulus)-1, x.Q, x.Q)
	q, ok := small(x.Q, m.ringQ.Modulus, 1<<30)
	if !ok {
		return 0, -1
	}
	rqp := m.params.RingQP()
	lq, lp := m.params.QCount()-1, m.params.PCount()-1
	e := m.copyQP(p.pk.Value[1])
	rqp.MulCoeffsMontgomeryLvl(lq, lp, e, p.sk.Value, e)
	rqp.AddLvl(lq, lp, e, p.pk.Value[0], e)
	m.ringQ.InvNTTLvl(lq, e.Q, e.Q)
	f, ok := small(e.Q, m.ringQ.Modulus, 1<<30)
	if !ok {
		return 0, -1
	}
	return norm2(q), norm2(f)
}

func norm2(v []int64) (s float64) {
	for _, x := range v {
		s += float64(x) * float64(x)
	}
	return
}

// divide computes a/b for a coefficient-domain a and an NTT-domain b.
func (m *entWorld) divide(a, b *ring.Poly, level int) (*ring.Poly, bool) {
	rq := m.ringQ
	x := rq.NewPolyLvl(level)
	for i := 0; i <= level; i++ {
		copy(x.Coeffs[i], a.Coeffs[i])
	}
	rq.NTTLvl(level, x, x)
	for i := 0; i <= level; i++ {
		q := new(big.Int).SetUint64(rq.Modulus[i])
		for j := range x.Coeffs[i] {
			y := b.Coeffs[i][j] % rq.Modulus[i]
			if y == 0 {
				return nil, false
			}
			t := new(big.Int).ModInverse(new(big.Int).SetUint64(y), q)
			t.Mul(t, new(big.Int).SetUint64(x.Coeffs[i][j])).Mod(t, q)
			x.Coeffs[i][j] = t.Uint64()
		}
	}
	rq.InvNTTLvl(level, x, x)
	return x, true
}

// pooled tests the second moments collected over the run.
func (m *entWorld) pooled() {
	if m.cnt >= 256 {
		sd, sigma := math.Sqrt(m.sum2/m.cnt), m.cfg.sigma()
		sigma = math.Sqrt(sigma*sigma + 1.0/12) // rounded to integers
		if r := math.Abs(sd/sigma - 1); r > 9/math.Sqrt(2*m.cnt) {
			fail("noise-width", "step %d: key noise has standard deviation %.3f over %d coefficients, expected %.3f", m.step, sd, int(m.cnt), sigma)
		}
		if b := math.Abs(m.sum1 / m.cnt); b > 9*sigma/math.Sqrt(m.cnt) {
			fail("noise-bias", "step %d: key noise has mean %.3f over %d coefficients", m.step, m.sum1/m.cnt, int(m.cnt))
		}
		m.st.add("pooled-noise-tests")
	}
	if m.zn >= 256 {
		sd := math.Sqrt(m.z2 / m.zn)
		if r := math.Abs(sd - 1); r > 12/math.Sqrt(2*m.zn) {
			fail("enc-noise-width", "step %d: encryption noise is %.3f times what fresh errors give, over %d coefficients", m.step, sd, int(m.zn))
		}
		m.st.add("pooled-encryption-tests")
	}
	m.probed()
}

// A probe is an encryption under a key whose polynomials are the constants 0
// and 2^k, from which the mask and both errors can be read off.
type probeSums struct {
	off   bool
	full  bool
	u, e  [2]probeSum // below the top level, at the top level
	seen  map[uint64]string
	count int
}

type probeSum struct {
	n, sum, sq float64
	vals       [3]float64
}

func (m *entWorld) probe(enc *mkckks.Encryptor, s Step) {
	pr := &m.probes
	if pr.seen == nil {
		pr.seen = map[uint64]string{}
	}
	max := m.params.MaxLevel()
	k := uint(0)
	for int64(1)<<k < 4*m.noiseMax() {
		k++
	}
	id := m.parties[0].id
	pk := mkrlwe.NewPublicKey(m.params.Parameters, id)
	for j, q := range m.ringQ.Modulus {
		for i := range pk.Value[1].Q.Coeffs[j] {
			pk.Value[1].Q.Coeffs[j][i] = (uint64(1) << k) % q
		}
	}
	level := s.sel(1, max+1)
	if !pr.full {
		level = max // the first one tells whether keys are read as assumed
	}
	pt := ckks.NewPlaintext(m.ckp, level, m.params.Scale())
	c := mkrlwe.NewCiphertext(m.params.Parameters, m.idset([]string{id}), level)
	if s.sel(2, 2) == 0 {
		c = mkrlwe.NewCiphertextNTT(m.params.Parameters, m.idset([]string{id}), level)
	}
	pt.Value.IsNTT = s.sel(3, 2) == 0
	ct := &mkckks.Ciphertext{Ciphertext: c, Scale: 1}
	if out := m.attempt(0, func() { enc.EncryptPtxt(pt, pk, ct) }); !out.ok {
		m.foreign("enc", out)
		return
	}
	pr.count++
	mods := m.ringQ.Modulus[:level+1]
	c1, ok1 := small(m.coefCopy(ct.Value[id], level), mods, 1<<(k+1))
	e0, ok0 := small(m.coefCopy(ct.Value["0"], level), mods, m.noiseMax())
	u, e1 := make([]int64, len(c1)), make([]int64, len(c1))
	if ok1 {
		for i, x := range c1 {
			u[i] = (x + 1<<(k-1)) >> k
			e1[i] = x - u[i]<<k
			ok1 = ok1 && u[i] >= -1 && u[i] <= 1 && e1[i] <= m.noiseMax() && e1[i] >= -m.noiseMax()
		}
	}
	if !pr.full {
		pr.full, pr.off = true, !ok0 || !ok1
		if pr.off {
			m.st.add("probe-unreadable")
		}
	}
	if pr.off {
		return
	}
	name := fmt.Sprintf("probe #%d at level %d", pr.count, level)
	if !ok0 || !ok1 {
		fail("enc-noise-shape", "step %d: %s: the mask or the errors of the encryption are not small", m.step, name)
	}
	top := 0
	if level == max {
		top = 1
	}
	for i, v := range [][]int64{u, e0, e1} {
		what := []string{"mask", "first error", "second error"}[i]
		if allZero(v) {
			if len(v) >= 64 || i > 0 {
				fail("enc-zero", "step %d: %s: the %s is zero", m.step, name, what)
			}
			continue
		}
		t := &pr.e[top]
		if i == 0 {
			t = &pr.u[top]
		}
		for _, x := range v {
			t.n++
			t.sum += float64(x)
			t.sq += float64(x) * float64(x)
			if x >= -1 && x <= 1 {
				t.vals[x+1]++
			}
		}
		if len(v) < 64 && i == 0 {
			continue // short ternary vectors do repeat
		}
		h := hashInts(v)
		if o, in := pr.seen[h]; in {
			fail("enc-repeated", "step %d: %s: the %s is that of %s", m.step, name, what, o)
		}
		pr.seen[h] = name + ", " + what
	}
	m.st.add("probe-checked")
}

func (m *entWorld) probed() {
	pr := &m.probes
	sigma := m.cfg.sigma()
	sigma = math.Sqrt(sigma*sigma + 1.0/12)
	for top := range pr.u {
		where := []string{"below the top level", "at the top level"}[top]
		if t := pr.u[top]; t.n >= 128 {
			for v, want := range []float64{0.25, 0.5, 0.25} {
				got := t.vals[v] / t.n
				if math.Abs(got-want) > 9*math.Sqrt(want*(1-want)/t.n) {
					fail("mask-distribution", "step %d: %.3f of the %d coefficients of encryption masks %s are %d, expected %.2f", m.step, got, int(t.n), where, v-1, want)
				}
			}
			m.st.add("pooled-mask-tests")
		}
		if t := pr.e[top]; t.n >= 256 {
			if sd := math.Sqrt(t.sq / t.n); math.Abs(sd/sigma-1) > 9/math.Sqrt(2*t.n) {
				fail("enc-noise-width", "step %d: encryption errors %s have standard deviation %.3f over %d coefficients, expected %.3f", m.step, where, sd, int(t.n), sigma)
			}
			if b := math.Abs(t.sum / t.n); b > 9*sigma/math.Sqrt(t.n) {
				fail("enc-noise-bias", "step %d: encryption errors %s have mean %.3f over %d coefficients", m.step, where, b, int(t.n))
			}
			m.st.add("pooled-encryption-error-tests")
		}
	}
}

func entExec(w *World) {
	m := &entWorld{World: w, noises: map[uint64]string{}, secrets: map[uint64]string{}, crs: map[uint64]string{}, masked: map[string]bool{}}
	w.ent.short = w.cfg.X&1 != 0
	for _, id := range w.cfg.IDs {
		p := &Party{id: id, rtk: map[uint]*mkrlwe.RotationKey{}}
		w.parties = append(w.parties, p)
		w.byID[id] = p
		w.boot(p)
	}
	m.encdrs = append(m.encdrs, mkckks.NewEncryptor(w.params))
	for i, p := range w.parties {
		m.fresh(p, Step{A: []int64{0, 0, int64(w.plan.Seed>>uint(3*i)) & 7, int64(w.plan.Seed>>uint(20+2*i)) & 3}})
	}
	m.crsCheck(w.params, 0)
	for i, s := range w.plan.Steps {
		w.step = i + 1
		p := w.parties[s.sel(0, len(w.parties))]
		switch s.Op {
		case "fresh":
			m.fresh(p, s)
		case "key":
			m.genKey(p, s)
		case "enc":
			m.encrypt(p, s)
			if simrt.Mix(s.S, 0x960)%3 > 0 {
				m.probe(m.encdrs[s.sel(1, len(m.encdrs))], Step{Op: "probe", S: s.S, A: []int64{s.A[0], int64(s.S >> 9 & 255), int64(s.S >> 20 & 255), int64(s.S >> 30 & 255)}})
			}
		case "density":
			m.density(p, simrt.Mix(s.S, 0xde))
		case "kgcrash":
			w.st.fault("party-crash-restart")
			w.boot(p)
		case "enccrash":
			w.st.fault("encryptor-crash-restart")
			if s.sel(1, 2) == 0 {
				m.encdrs = append(m.encdrs, mkckks.NewEncryptor(w.params))
			} else {
				m.encdrs[s.sel(2, len(m.encdrs))] = mkckks.NewEncryptor(w.params)
			}
		case "crs":
			half := w.params.N() / 2
			k := 3 + s.sel(0, half-3)
			if _, in := w.params.CRS[k]; in || len(w.crsOwn()) > 3 {
				break
			}
			if out := w.attempt(0, func() { w.params.AddCRS(k) }); !out.ok {
				m.foreign("crs", out)
				break
			}
			m.crs = map[uint64]string{}
			m.crsCheck(w.params, 0)
		case "params":
			if len(m.extra) < 1 {
				m.extra = append(m.extra, mkckks.NewParameters(w.ckp))
				m.crsCheck(m.extra[0], 1)
			}
		}
	}
	m.pooled()
	if w.ent.shorts > 0 {
		w.st.Faults["entropy-short-read"] += int64(w.ent.shorts)
	}
}

// entRun executes a plan; some plans are executed twice with the same entropy,
// and some are repeated in a child process whose entropy source fails.
func entRun(p *Plan, st *Stats, tracing bool) (res Result) {
	res = worldRun(props[p.Property], p, st, tracing)
	if res.V != nil || res.Err != "" {
		return
	}
	if p.Cfg.X&6 == 6 {
		q := p.clone()
		q.Cfg.X ^= 1 // the same entropy, delivered in other portions
		st.add("same-entropy-again")
		r2 := worldRun(props[p.Property], q, newStats(), false)
		if r2.V != nil || r2.Err != "" || r2.Obs != res.Obs {
			res.V = &Violation{"not-from-entropy", fmt.Sprintf("two executions with the same entropy give different keys and ciphertexts (%v): randomness comes from somewhere else", r2.V)}
			return
		}
	}
	if p.Cfg.X&0xff8 == 8 {
		if v, err := entFail(p, st); err != "" {
			res.Err = err
		} else {
			res.V = v
		}
	}
	return
}

// entFail repeats the plan in a child whose entropy source fails at some read.
func entFail(p *Plan, st *Stats) (*Violation, string) {
	f, err := os.CreateTemp("", "entchild")
	if err != nil {
		return nil, err.Error()
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(p)
	f.Write(b)
	f.Close()
	self, _ := os.Executable()
	at := 1 + int(simrt.Mix(p.Seed, 0xfa11)%14)
	cmd := exec.Command(self, "entchild", f.Name(), fmt.Sprint(at))
	cmd.Env = append(os.Environ(), "GODEBUG=randautoseed=0", "GOTRACEBACK=none")
	var o bytes.Buffer
	cmd.Stdout = &o
	cmd.Stderr = &o
	if err := cmd.Start(); err != nil {
		return nil, err.Error()
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	cmd.Wait()
	t.Stop()
	st.fault("entropy-failure")
	st.add("entropy-failure-runs")
	if strings.Contains(o.String(), "PRODUCED") {
		return &Violation{"entropy-failure-ignored", fmt.Sprintf("the entropy source failed at read %d and the library went on to produce key material or ciphertexts", at)}, ""
	}
	return nil, ""
}

type failingEntropy struct {
	*entropy
	at     int
	failed bool
}

func (f *failingEntropy) Read(p []byte) (int, error) {
	if f.entropy.reads+1 >= f.at {
		f.failed = true
		f.entropy.reads++
		return 0, errors.New("simulated entropy failure")
	}
	return f.entropy.Read(p)
}

// entchild: args plan file, index of the failing read. Exits quietly or dies;
// prints PRODUCED when a tool built from failed entropy yields something.
func entchild(args []string) {
	p, err := loadPlan(args[0])
	if err != nil {
		os.Exit(3)
	}
	at := 1
	fmt.Sscan(args[1], &at)
	simrt.Run(func() {
		f := &failingEntropy{entropy: &entropy{rng: simrt.RNG{S: p.Seed}}, at: at}
		crand.Reader = f
		try := func(what string, g func() bool) (ok bool) {
			before := f.failed
			defer func() {
				recover()
			}()
			ok = g()
			if ok && f.failed && !before {
				fmt.Println("PRODUCED", what)
			}
			return
		}
		ckp, err := ckks.NewParametersFromLiteral(literal(p.Cfg))
		if err != nil {
			os.Exit(3)
		}
		var params mkckks.Parameters
		if !try("parameters", func() bool { params = mkckks.NewParameters(ckp); return true }) {
			return
		}
		for i := 0; i < 6; i++ {
			var kg *mkrlwe.KeyGenerator
			var enc *mkckks.Encryptor
			var sk *mkrlwe.SecretKey
			try("key generator", func() bool { kg = mkckks.NewKeyGenerator(params); return true })
			if kg == nil {
				return
			}
			if !try("secret key", func() bool { sk = kg.GenSecretKey("a"); return sk != nil }) {
				return
			}
			if !try("encryptor", func() bool { enc = mkckks.NewEncryptor(params); return enc != nil }) {
				return
			}
			if !try("reference string", func() bool { params.AddCRS(3 + 2*i); return true }) {
				return
			}
		}
	})
}

func init() {
	mix := []weighted{{"fresh", 2}, {"key", 6}, {"enc", 6}, {"kgcrash", 1}, {"enccrash", 2}, {"crs", 1}, {"params", 1}, {"density", 1}}
	register(&Prop{ID: "C11", Quick: 9000, Thorough: 600000, Level: "exploration", OwnSetup: true,
		Gen: func(r *simrt.RNG, p *Plan) {
			swarm(r, p, 3)
			c := &p.Cfg
			c.LogN = 5 + r.Intn(2)
			c.LogSlots = mini(c.LogSlots, c.LogN-1)
			c.Evals = 1
			c.X = r.Intn(1 << 12)
			if c.X&0xff8 == 8 && r.Intn(2) == 0 {
				c.X ^= 16
			}
			history(r, p, 14+r.Intn(30), mix, true)
			for i := range p.Steps {
				p.Steps[i].Fault = ""
			}
		}, Exec: entExec, Custom: entRun,
		Rule: "one run = one history of key generation, encryption, reference-string creation, tool restarts and mid-operation aborts fed from simulated operating-system entropy (short reads in half of the runs); every noise polynomial is recovered with the secret key; counted once per distinct (object kind, distribution or rotation index, digits, ring, history) tuple",
		Real: realAll, Stub: append([]string{"operating-system entropy (seeded stream; short reads; failures in a child process)"}, stubAll[1])})
}
