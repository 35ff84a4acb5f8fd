package main

import (
	"fmt"
	"sort"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"vsim/simrt"
)

// C10: parties join, publish keys over a faulty network, leave, return and
// re-key while the server computes. The reference model is a set of plain maps.

type registry struct {
	pk  map[string]*mkrlwe.PublicKey
	sk  map[string]*mkrlwe.SecretKey
	rlk map[string]*mkrlwe.RelinearizationKey
	cjk map[string]*mkrlwe.ConjugationKey
	rtk map[string]map[uint]*mkrlwe.RotationKey
}

func newRegistry() *registry {
	return &registry{map[string]*mkrlwe.PublicKey{}, map[string]*mkrlwe.SecretKey{}, map[string]*mkrlwe.RelinearizationKey{},
		map[string]*mkrlwe.ConjugationKey{}, map[string]map[uint]*mkrlwe.RotationKey{}}
}

type memberWorld struct {
	*World
	reg       *registry
	net       *simnet
	ver       map[any]int // key object -> version of the secret it was made for
	old       map[string]map[int]*mkrlwe.SecretKey
	away      map[string]bool
	crs       []int // rotation indices added at run time
	loss, dup float64
}

func (m *memberWorld) party(id string) *Party { return m.byID[id] }

func (m *memberWorld) joined() (r []*Party) {
	for _, p := range m.parties {
		if p.sk != nil && !m.away[p.id] {
			r = append(r, p)
		}
	}
	return
}

// create makes a party's secret and public material; a crash in the middle
// leaves the party without keys.
func (m *memberWorld) create(id string, s Step) *Party {
	p := m.byID[id]
	if p == nil {
		p = &Party{id: id, rtk: map[uint]*mkrlwe.RotationKey{}}
		m.parties = append(m.parties, p)
		m.byID[id] = p
		m.boot(p)
	}
	var sk, r *mkrlwe.SecretKey
	var pk *mkrlwe.PublicKey
	var rlk *mkrlwe.RelinearizationKey
	var cjk *mkrlwe.ConjugationKey
	// the party keeps one set of its own over the years, or takes a new one each time
	if p.own == nil || s.sel(4, 3) == 0 {
		p.own = mkrlwe.NewRotationKeySet()
	}
	set := p.own
	ded := map[int]*mkrlwe.RotationKey{}
	kind := s.sel(2, 5)
	first := s.sel(5, 2) == 0 // the dedicated keys go in before the default ones
	dedicated := func() {
		for _, k := range m.crs {
			ded[k] = p.kg.GenRotationKey(k-m.half()*s.sel(3, 2), sk)
			set.AddRotationKey(ded[k])
		}
	}
	hw := m.params.N() / 4
	out := m.attempt(s.Abort, func() {
		switch kind {
		case 0, 1:
			sk, pk = p.kg.GenKeyPair(id)
		case 2:
			sk, pk = p.kg.GenKeyPairSparse(hw, id)
		default:
			sk = m.genSK(p.kg, id)
			pk = p.kg.GenPublicKey(sk)
		}
		r = m.genSK(p.kg, id)
		rlk = p.kg.GenRelinearizationKey(sk, r)
		cjk = p.kg.GenConjugationKey(sk)
		if first {
			dedicated()
		}
		p.kg.GenDefaultRotationKeys(sk, set)
		if !first {
			dedicated()
		}
	})
	if out.aborted {
		m.st.fault("party-crash-restart")
		m.boot(p)
		return nil
	}
	if !out.ok {
		fail("refused:keygen", "step %d: key generation for %q (kind %d) failed: %v", m.step, id, kind, out)
	}
	if sk == nil || pk == nil || rlk == nil || cjk == nil || sk.ID != id || pk.ID != id || rlk.ID != id || cjk.ID != id {
		fail("keygen-id", "step %d: keys generated for %q are missing or carry another identity", m.step, id)
	}
	p.ver++
	p.sk, p.r, p.pk, p.rlk, p.cjk = sk, r, pk, rlk, cjk
	p.rtk = map[uint]*mkrlwe.RotationKey{}
	for k := 1; k < m.half(); k *= 2 {
		var rk *mkrlwe.RotationKey
		if out := m.attempt(0, func() { rk = set.GetRotationKey(id, uint(k)) }); !out.ok {
			fail("keygen-missing", "step %d: the default rotation keys of %q lack index %d: %v", m.step, id, k, out)
		}
		if m.ver[rk] != 0 {
			fail("keygen-stale", "step %d: the default rotation key of %q for index %d is the one of a former secret", m.step, id, k)
		}
		p.rtk[uint(k)] = rk
	}
	for k, rk := range ded {
		if set.Value[id][rk.RotIdx] != rk {
			fail("keygen-missing", "step %d: the dedicated rotation key of %q for %d is no longer in its set", m.step, id, k)
		}
		p.rtk[uint(k)] = rk
	}
	for k, rk := range p.rtk {
		if rk.ID != id || rk.RotIdx != k {
			fail("keygen-id", "step %d: the rotation key of %q for index %d is labelled %q/%d", m.step, id, k, rk.ID, rk.RotIdx)
		}
		m.ver[rk] = p.ver
	}
	m.ver[sk], m.ver[pk], m.ver[rlk], m.ver[cjk] = p.ver, p.ver, p.ver, p.ver
	if m.old[id] == nil {
		m.old[id] = map[int]*mkrlwe.SecretKey{}
	}
	m.old[id][p.ver] = sk
	delete(m.away, id)
	return p
}

func (m *memberWorld) half() int { return m.params.N() / 2 }

// add delivers one key to the server (or, for secrets, to the decryption service).
func (m *memberWorld) add(key any) {
	out := m.attempt(0, func() {
		switch k := key.(type) {
		case *mkrlwe.PublicKey:
			m.pkSet.AddPublicKey(k)
		case *mkrlwe.SecretKey:
			m.skSet.AddSecretKey(k)
		case *mkrlwe.RelinearizationKey:
			m.rlkSet.AddRelinearizationKey(k)
		case *mkrlwe.ConjugationKey:
			m.cjkSet.AddConjugationKey(k)
		case *mkrlwe.RotationKey:
			m.rtkSet.AddRotationKey(k)
		}
	})
	if !out.ok {
		fail("refused:add", "step %d: a key set refused a well-formed key: %v", m.step, out)
	}
	switch k := key.(type) {
	case *mkrlwe.PublicKey:
		m.reg.pk[k.ID] = k
	case *mkrlwe.SecretKey:
		m.reg.sk[k.ID] = k
	case *mkrlwe.RelinearizationKey:
		m.reg.rlk[k.ID] = k
	case *mkrlwe.ConjugationKey:
		m.reg.cjk[k.ID] = k
	case *mkrlwe.RotationKey:
		if m.reg.rtk[k.ID] == nil {
			m.reg.rtk[k.ID] = map[uint]*mkrlwe.RotationKey{}
		}
		m.reg.rtk[k.ID][k.RotIdx] = k
	}
	m.st.add("key-delivered")
}

// publish sends a party's current keys over the network, one message each.
func (m *memberWorld) publish(p *Party, what int) {
	send := func(key any) { m.net.send(p.id, "server", func() { m.add(key) }) }
	if what&1 != 0 {
		send(p.pk)
		send(p.sk)
	}
	if what&2 != 0 {
		send(p.rlk)
	}
	if what&4 != 0 {
		send(p.cjk)
	}
	if what&8 != 0 {
		ks := make([]int, 0, len(p.rtk))
		for k := range p.rtk {
			ks = append(ks, int(k))
		}
		sort.Ints(ks)
		for _, k := range ks {
			send(p.rtk[uint(k)])
		}
	}
}

func (m *memberWorld) pump(k int) {
	for i := 0; i < k && m.net.step(); i++ {
	}
}

// del removes keys; deleting what is absent must change nothing.
func (m *memberWorld) del(id string, s Step) {
	what := 1 << uint(s.sel(1, 5))
	if s.sel(2, 3) == 0 {
		what = 31
	}
	m.attempt(0, func() {
		if what&1 != 0 {
			m.pkSet.DelPublicKey(id)
		}
		if what&2 != 0 {
			m.rlkSet.DelRelinearizationKey(id)
		}
		if what&4 != 0 {
			m.cjkSet.DelConjugationKey(id)
		}
		if what&16 != 0 {
			m.skSet.DelSecretKey(id)
		}
	})
	if what&1 != 0 {
		delete(m.reg.pk, id)
	}
	if what&2 != 0 {
		delete(m.reg.rlk, id)
	}
	if what&4 != 0 {
		delete(m.reg.cjk, id)
	}
	if what&16 != 0 {
		delete(m.reg.sk, id)
	}
	if what&8 != 0 {
		var ks []int
		for k := range m.reg.rtk[id] {
			ks = append(ks, int(k))
		}
		sort.Ints(ks)
		if len(ks) == 0 {
			ks = []int{1}
		}
		if what != 31 { // only one index
			ks = []int{ks[s.sel(3, len(ks))]}
		}
		for _, k := range ks {
			m.attempt(0, func() { m.rtkSet.DelRotationKey(id, uint(k)) })
			delete(m.reg.rtk[id], uint(k))
		}
	}
	if what == 31 {
		m.away[id] = true
	}
	m.st.add("keys-deleted")
	m.logf("%d: delete %x of %q", m.step, what, id)
}

// audit compares every key set with the model.
func (m *memberWorld) audit() {
	ids := append([]string(nil), m.cfg.IDs...)
	ids = append(ids, "nobody")
	check := func(kind, id string, want, got any, h func() (uint64, uint64), out outcome, present bool) {
		switch {
		case present && !out.ok:
			fail("registry-lost", "step %d: the %s key of %q was added and not removed, but is not there: %v", m.step, kind, id, out)
		case present && want != got:
			a, b := h()
			if a != b {
				fail("registry-wrong", "step %d: the %s key set does not return the key last added for %q", m.step, kind, id)
			}
		case !present && out.ok:
			fail("registry-ghost", "step %d: the %s key set returns a key for %q, which has none", m.step, kind, id)
		}
	}
	for _, id := range ids {
		{
			want, ok := m.reg.pk[id]
			var got *mkrlwe.PublicKey
			out := m.attempt(0, func() { got = m.pkSet.GetPublicKey(id) })
			check("public", id, want, got, func() (uint64, uint64) { return hashPK(want), hashPK(got) }, out, ok)
		}
		{
			want, ok := m.reg.sk[id]
			var got *mkrlwe.SecretKey
			out := m.attempt(0, func() { got = m.skSet.GetSecretKey(id) })
			check("secret", id, want, got, func() (uint64, uint64) { return hashSK(want), hashSK(got) }, out, ok)
		}
		{
			want, ok := m.reg.rlk[id]
			var got *mkrlwe.RelinearizationKey
			out := m.attempt(0, func() { got = m.rlkSet.GetRelinearizationKey(id) })
			check("relinearization", id, want, got, func() (uint64, uint64) { return hashRLK(want), hashRLK(got) }, out, ok)
		}
		{
			want, ok := m.reg.cjk[id]
			var got *mkrlwe.ConjugationKey
			out := m.attempt(0, func() { got = m.cjkSet.GetConjugationKey(id) })
			check("conjugation", id, want, got, func() (uint64, uint64) { return hashCJK(want), hashCJK(got) }, out, ok)
		}
		idx := append([]int{3, 5}, m.crs...)
		for k := 1; k < m.half(); k *= 2 {
			idx = append(idx, k)
		}
		for _, k := range idx {
			want, ok := m.reg.rtk[id][uint(k)]
			var got *mkrlwe.RotationKey
			out := m.attempt(0, func() { got = m.rtkSet.GetRotationKey(id, uint(k)) })
			check(fmt.Sprintf("rotation(%d)", k), id, want, got, func() (uint64, uint64) { return hashRTK(want), hashRTK(got) }, out, ok)
		}
	}
}

// needs tells which keys an operation requires: have (all there), fresh (of the
// version the operands were encrypted under), strict (no other way to do it).
func (m *memberWorld) needs(c *call, vers map[string]int) (have, fresh bool) {
	have, fresh = true, true
	see := func(key any, ok bool, id string) {
		if !ok {
			have = false
		} else if m.ver[key] != vers[id] {
			fresh = false
		}
	}
	switch c.name {
	case "mul", "mulks", "hmul":
		for _, id := range c.ids {
			k, ok := m.reg.rlk[id]
			see(k, ok, id)
		}
	case "conj":
		for _, id := range c.ids {
			k, ok := m.reg.cjk[id]
			see(k, ok, id)
		}
	case "rot", "rotks", "hrot":
		nk := int(c.key & 0xffff)
		if nk == 0 {
			return
		}
		ks := []int{nk}
		if _, in := m.params.CRS[nk]; !in {
			ks = nil
			for b := 1; b <= nk; b *= 2 {
				if nk&b != 0 {
					ks = append(ks, b)
				}
			}
		}
		for _, id := range c.ids {
			for _, k := range ks {
				rk, ok := m.reg.rtk[id][uint(k)]
				see(rk, ok, id)
			}
		}
	}
	return
}

func (m *memberWorld) skOf(vers map[string]int) map[string]*mkrlwe.SecretKey {
	r := map[string]*mkrlwe.SecretKey{}
	for id, v := range vers {
		r[id] = m.old[id][v]
	}
	return r
}

// op runs one homomorphic operation and checks it against the model.
func (m *memberWorld) op(s Step) {
	c := m.build(s)
	if c == nil {
		m.st.add("skip:" + s.Op)
		return
	}
	vers := map[string]int{}
	for _, o := range c.in {
		for id, v := range o.ver {
			if x, ok := vers[id]; ok && x != v {
				m.st.add("skip:mixed-versions")
				return // two generations of one party's key: no defined result
			}
			vers[id] = v
		}
	}
	have, fresh := m.needs(c, vers)
	in := make([]*mkckks.Ciphertext, len(c.in))
	for i, o := range c.in {
		in[i] = o.ct
	}
	if c.inplace {
		in[0] = in[0].CopyNew()
	}
	e := s.sel(4, len(m.evs))
	desc := m.describe(c)
	var res *mkckks.Ciphertext
	out := m.attempt(s.Abort, func() { res = c.run(m.evs[e], in) })
	m.st.add(c.name)
	m.logf("%d: %s have=%v fresh=%v %v", m.step, desc, have, fresh, out)
	if out.aborted {
		return
	}
	m.st.seen(simrt.Mix(strHash(c.name), uint64(len(c.ids)), uint64(len(m.reg.rlk)), uint64(len(m.reg.rtk)), uint64(len(m.reg.cjk)), boolBit(have), boolBit(fresh), uint64(len(m.crs)), c.key&0xff))
	if !have {
		m.st.fault("key-missing")
	}
	if have && !fresh {
		m.st.fault("stale-key")
		return // the server holds a key of another generation: nothing is promised
	}
	if have && !out.ok {
		fail("refused:"+c.name, "step %d: %s failed although every party involved has published its keys: %v", m.step, desc, out)
	}
	if !out.ok {
		return // refused: correct
	}
	good, why := false, ""
	if res != nil && res.Ciphertext != nil {
		got, err := m.open(res, m.skOf(vers))
		if err != nil {
			why = err.Error()
		} else {
			d := diff(got, c.v)
			m.st.ratio(c.name, d/c.e)
			good = d <= c.e
			why = fmt.Sprintf("error %.3g, bound %.3g", d, c.e)
		}
	}
	if !good && !have {
		fail("silent:"+c.name, "step %d: %s lacks the key of a party and returned a wrong ciphertext instead of refusing (%s)", m.step, desc, why)
	}
	if !good {
		fail("wrong:"+c.name, "step %d: %s gives a wrong result although the keys of all parties involved are published (%s; %d other parties known)", m.step, desc, why, len(m.parties)-len(c.ids))
	}
	m.push(&Obj{ct: res, v: c.v, e: c.e, ids: c.ids, ver: vers})
}

func (m *memberWorld) encrypt(id string, s Step) {
	want, ok := m.reg.pk[id]
	v := m.values(s.S, s.a(3))
	p := m.byID[id]
	if p == nil {
		if len(m.parties) == 0 {
			return
		}
		p = m.parties[0]
	}
	var ct *mkckks.Ciphertext
	var others []string
	out := m.attempt(0, func() {
		pk := m.pkSet.GetPublicKey(id)
		if s.sel(4, 3) == 0 { // already laid out for more parties
			r := simrt.NewRNG(s.S ^ 0x77)
			others = []string{id}
			for _, q := range m.cfg.IDs {
				if r.Intn(2) == 0 {
					others = union(others, []string{q})
				}
			}
			ct = p.enc.EncryptMsgNewExpand(m.msg(v), pk, m.idset(others))
		} else {
			ct = p.enc.EncryptMsgNew(m.msg(v), pk)
		}
	})
	m.logf("%d: enc for %q %v", m.step, id, out)
	if !ok {
		m.st.fault("key-missing")
		if out.ok {
			fail("not-refused:enc", "step %d: a message was encrypted for %q, which has no public key", m.step, id)
		}
		return
	}
	if !out.ok {
		fail("refused:enc", "step %d: encryption for %q failed: %v", m.step, id, out)
	}
	vers := map[string]int{id: m.ver[want]}
	ids := []string{id}
	for _, q := range others {
		if q != id {
			ids = union(ids, []string{q})
			vers[q] = 0
			if m.byID[q] != nil {
				vers[q] = m.byID[q].ver
			}
			if m.old[q] == nil || m.old[q][vers[q]] == nil { // not yet known: any key opens a zero component
				m.fakeSK(q, vers[q])
			}
		}
	}
	o := &Obj{ct: ct, v: v, e: m.freshErr(ct.Scale), ids: ids, ver: vers}
	got, err := m.open(ct, m.skOf(vers))
	if err != nil || !(diff(got, v) <= o.e) {
		fail("wrong:enc", "step %d: an encryption for %q (of %d parties) does not open to its message (%v)", m.step, id, len(ids), err)
	}
	m.push(o)
}

// fakeSK stands for the secret of a party nobody has met yet.
func (m *memberWorld) fakeSK(id string, ver int) {
	if m.old[id] == nil {
		m.old[id] = map[int]*mkrlwe.SecretKey{}
	}
	m.old[id][ver] = mkrlwe.NewSecretKey(m.params.Parameters, id)
}

func (m *memberWorld) pad(s Step) {
	o := m.pick(s, 0)
	if o == nil {
		return
	}
	id := m.cfg.IDs[s.sel(1, len(m.cfg.IDs))]
	c := o.ct.CopyNew()
	if out := m.attempt(0, func() { c.PadCiphertext(m.idset([]string{id})) }); !out.ok {
		fail("refused:pad", "step %d: padding #%d with %q failed: %v", m.step, o.name, id, out)
	}
	ids := union(o.ids, []string{id})
	vers := map[string]int{}
	for k, v := range o.ver {
		vers[k] = v
	}
	if _, in := vers[id]; !in {
		vers[id] = 0
		if p := m.byID[id]; p != nil {
			vers[id] = p.ver
		}
		if m.old[id] == nil || m.old[id][vers[id]] == nil {
			m.fakeSK(id, vers[id])
		}
	}
	n := &Obj{ct: c, v: o.v, e: o.e, ids: ids, ver: vers}
	got, err := m.open(c, m.skOf(vers))
	if _, in := c.Value[id]; !in || len(c.Value) != len(ids)+1 {
		fail("wrong:pad", "step %d: after padding #%d with %q the ciphertext has %d components for %d parties", m.step, o.name, id, len(c.Value), len(ids))
	}
	if err != nil || !(diff(got, o.v) <= o.e+tiny(vmax(o.v))) {
		fail("wrong:pad", "step %d: padding #%d with %q changed its value (%v)", m.step, o.name, id, err)
	}
	m.st.add("pad")
	m.push(n)
}

func (m *memberWorld) decrypt(s Step) {
	o := m.pick(s, 0)
	if o == nil || len(m.parties) == 0 {
		return
	}
	have, fresh := true, true
	for _, id := range o.ids {
		k, ok := m.reg.sk[id]
		if !ok {
			have = false
		} else if m.ver[k] != o.ver[id] && !m.zeroPoly(o.ct.Value[id]) {
			fresh = false
		}
	}
	dec := m.parties[s.sel(1, len(m.parties))].dec
	var msg *mkckks.Message
	out := m.attempt(0, func() { msg = dec.Decrypt(o.ct, m.skSet) })
	m.st.add("dec")
	m.logf("%d: dec #%d have=%v fresh=%v %v", m.step, o.name, have, fresh, out)
	if !have {
		m.st.fault("key-missing")
	}
	if have && !fresh {
		m.st.fault("stale-key")
		return
	}
	if have && !out.ok {
		fail("refused:dec", "step %d: decryption of #%d failed although all secret keys are there: %v", m.step, o.name, out)
	}
	if !out.ok {
		return
	}
	e := o.e + tiny(vmax(o.v))
	if d := diff(msg.Value, o.v); !(d <= e) {
		class := "wrong:dec"
		if !have {
			class = "silent:dec"
		}
		fail(class, "step %d: decryption of #%d (have all keys: %v) is off by %.3g (bound %.3g)", m.step, o.name, have, d, e)
	}
}

// idAlgebra compares a few ID sets with plain maps.
func (m *memberWorld) idAlgebra(s Step) {
	r := simrt.NewRNG(s.S)
	sets := []*mkrlwe.IDSet{mkrlwe.NewIDSet(), mkrlwe.NewIDSet(), mkrlwe.NewIDSet()}
	model := []map[string]bool{{}, {}, {}}
	same := func(i int, what string) {
		a, b := sets[i], model[i]
		if a.Size() != len(b) {
			fail("idset", "step %d: after %s an identity set of %d members reports size %d", m.step, what, len(b), a.Size())
		}
		for _, id := range idPool {
			if a.Has(id) != b[id] {
				fail("idset", "step %d: after %s membership of %q is %v, expected %v", m.step, what, id, a.Has(id), b[id])
			}
		}
		for id := range a.Value {
			if !b[id] {
				fail("idset", "step %d: after %s the set lists %q", m.step, what, id)
			}
		}
	}
	for k := 0; k < 6+r.Intn(14); k++ {
		i, j, t := r.Intn(3), r.Intn(3), r.Intn(3)
		id := idPool[r.Intn(len(idPool))]
		what := ""
		out := m.attempt(0, func() {
			switch r.Intn(6) {
			case 0, 1:
				what = "Add"
				sets[i].Add(id)
				model[i][id] = true
			case 2:
				what = "Remove"
				sets[i].Remove(id)
				delete(model[i], id)
			case 3:
				what = "Union"
				sets[t] = sets[i].Union(sets[j])
				n := map[string]bool{}
				for x := range model[i] {
					n[x] = true
				}
				for x := range model[j] {
					n[x] = true
				}
				model[t] = n
			case 4:
				what = "Intersection"
				sets[t] = sets[i].Intersection(sets[j])
				n := map[string]bool{}
				for x := range model[i] {
					if model[j][x] {
						n[x] = true
					}
				}
				model[t] = n
			case 5:
				what = "CopyNew"
				if i == t {
					return
				}
				sets[t] = sets[i].CopyNew()
				n := map[string]bool{}
				for x := range model[i] {
					n[x] = true
				}
				model[t] = n
			}
		})
		if !out.ok {
			fail("idset", "step %d: %s on identity sets failed: %v", m.step, what, out)
		}
		for x := range sets {
			same(x, what)
		}
	}
	if out := m.attempt(0, func() { sets[0].Add("0") }); out.ok {
		fail("idset-zero", `step %d: the reserved identity "0" was accepted as a party`, m.step)
	}
	same(0, `a refused Add("0")`)
	m.st.add("idset")
}

func (m *memberWorld) addCRS(s Step) {
	if len(m.crs) >= 3 || m.half() < 8 {
		return
	}
	k := 3 + s.sel(0, m.half()-3)
	if hamming(k) < 2 {
		k++
	}
	if s.sel(4, 3) == 0 { // a late party asks for indices that are in use already
		old := append([]int{1 << uint(s.sel(5, m.params.LogN()-1))}, m.crs...)
		i := old[s.sel(3, len(old))] - m.half()*s.sel(2, 3)
		params := m.params
		if out := m.attempt(0, func() { params.AddCRS(i) }); !out.ok {
			fail("refused:crs", "step %d: AddCRS(%d) for an index in use failed: %v", m.step, i, out)
		}
		m.st.add("crs-again")
	}
	if _, in := m.params.CRS[k]; in || k >= m.half() || hamming(k) < 2 {
		return
	}
	// before the reference string exists, no key can be made for it
	if js := m.joined(); len(js) > 0 {
		p := js[s.sel(1, len(js))]
		if out := m.attempt(0, func() { p.kg.GenRotationKey(k, p.sk) }); out.ok {
			fail("not-refused:rotkey", "step %d: a rotation key for index %d was generated without a common reference string", m.step, k)
		}
	}
	params := m.params // any copy of the parameters will do
	if out := m.attempt(0, func() { params.AddCRS(k - m.half()*s.sel(5, 2)) }); !out.ok {
		fail("refused:crs", "step %d: AddCRS(%d) failed: %v", m.step, k, out)
	}
	m.crs = append(m.crs, k)
	for _, p := range m.joined() {
		var rk *mkrlwe.RotationKey
		kk := k
		if s.sel(2, 2) == 1 {
			kk -= m.half()
		}
		if out := m.attempt(0, func() { rk = p.kg.GenRotationKey(kk, p.sk) }); !out.ok {
			fail("refused:rotkey", "step %d: %q cannot generate the key for rotation index %d added at run time: %v", m.step, p.id, kk, out)
		}
		if rk.ID != p.id || rk.RotIdx != uint(k) {
			fail("keygen-id", "step %d: the rotation key of %q for index %d is labelled %q/%d", m.step, p.id, k, rk.ID, rk.RotIdx)
		}
		p.rtk[uint(k)] = rk
		m.ver[rk] = p.ver
		if s.sel(3, 4) != 0 {
			m.net.send(p.id, "server", func() { m.add(rk) })
		}
	}
	m.st.add("crs-added")
	m.logf("%d: CRS %d", m.step, k)
}

// restart rebuilds the server's volatile objects from the durable keys.
func (m *memberWorld) restart(s Step) {
	m.st.fault("server-crash-restart")
	r := simrt.NewRNG(s.S)
	m.pkSet, m.skSet = mkrlwe.NewPublicKeyKeySet(), mkrlwe.NewSecretKeySet()
	m.rlkSet = mkrlwe.NewRelinearizationKeyKeySet(m.params.Parameters)
	m.rtkSet, m.cjkSet = mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	for i := range m.evs {
		m.evs[i] = m.newEv()
	}
	old := m.reg
	m.reg = newRegistry()
	var keys []any
	for _, id := range m.cfg.IDs {
		if k, ok := old.pk[id]; ok {
			keys = append(keys, k)
		}
		if k, ok := old.sk[id]; ok {
			keys = append(keys, k)
		}
		if k, ok := old.rlk[id]; ok {
			keys = append(keys, k)
		}
		if k, ok := old.cjk[id]; ok {
			keys = append(keys, k)
		}
		var ks []int
		for k := range old.rtk[id] {
			ks = append(ks, int(k))
		}
		sort.Ints(ks)
		for _, k := range ks {
			keys = append(keys, old.rtk[id][uint(k)])
		}
	}
	for i := len(keys) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		keys[i], keys[j] = keys[j], keys[i]
	}
	for _, k := range keys {
		m.add(k)
	}
	m.hs = nil
	m.logf("%d: server restart", m.step)
}

// converge: faults stop, everybody present publishes again; then everything
// must work for everybody.
func (m *memberWorld) converge() {
	m.step++
	m.net.loss, m.net.dup, m.net.cut = 0, 0, map[string]bool{}
	for m.net.step() {
	}
	js := m.joined()
	if len(js) == 0 {
		return
	}
	for _, p := range js {
		for _, k := range m.crs {
			if p.rtk[uint(k)] == nil {
				var rk *mkrlwe.RotationKey
				if out := m.attempt(0, func() { rk = p.kg.GenRotationKey(k, p.sk) }); !out.ok {
					fail("refused:rotkey", "step %d: %q cannot generate its key for rotation index %d: %v", m.step, p.id, k, out)
				}
				p.rtk[uint(k)] = rk
				m.ver[rk] = p.ver
			}
		}
		m.publish(p, 15)
	}
	for i := 0; m.net.step(); i++ {
		if i > 40+20*len(m.parties)*len(m.params.CRS) {
			fail("stuck", "key distribution does not end")
		}
	}
	m.audit()
	m.objs, m.hs = nil, nil
	for i, p := range js {
		m.encrypt(p.id, Step{S: simrt.Mix(m.plan.Seed, uint64(i)), A: []int64{0, 0, 0, 0, 1}})
		if i > 0 {
			m.op(Step{Op: "add", A: []int64{-1, -2}})
		}
	}
	n := m.objs[len(m.objs)-1]
	for _, s := range []Step{{Op: "mul", A: []int64{-1, -1}}, {Op: "conj", A: []int64{-2, 0}}, {Op: "rot", A: []int64{-1, int64(m.plan.Seed % 1000), 9, 1}}} {
		m.op(s)
	}
	if len(m.crs) > 0 {
		m.objs = append(m.objs, n)
		if m.hoistStep(Step{A: []int64{0, -1}}, m.evs[0]) != nil {
			m.op(Step{Op: "hrot", A: []int64{-1, int64(m.plan.Seed % 97), 0, 0, 1}})
			m.op(Step{Op: "hmul", A: []int64{-1, -1, 3}})
		}
	}
	m.st.add("converged")
}

// blanks examines keys that were just allocated: they carry the party's name,
// hold nothing, have the full shape and share nothing with one another.
func (m *memberWorld) blanks(id string, k uint) {
	p := m.params.Parameters
	nq, np := p.QCount(), p.PCount()
	seen := map[*uint64]string{}
	poly := func(what string, x *ring.Poly, rows int) {
		if x == nil || len(x.Coeffs) != rows {
			fail("blank-shape", "%s does not have %d residues", what, rows)
		}
		for _, row := range x.Coeffs {
			if len(row) != p.N() {
				fail("blank-shape", "%s does not have %d coefficients", what, p.N())
			}
			if o, ok := seen[&row[0]]; ok {
				fail("blank-shared", "%s shares storage with %s", what, o)
			}
			seen[&row[0]] = what
			for _, v := range row {
				if v != 0 {
					fail("blank-value", "%s is not empty", what)
				}
			}
		}
	}
	qp := func(what string, x rlwe.PolyQP) { poly(what, x.Q, nq); poly(what, x.P, np) }
	swk := func(what string, x *mkrlwe.SwitchingKey) {
		if len(x.Value) != p.Beta(nq-1) {
			fail("blank-shape", "%s has %d digits, expected %d", what, len(x.Value), p.Beta(nq-1))
		}
		for _, d := range x.Value {
			qp(what, d)
		}
	}
	name := func(what, got string) {
		if got != id {
			fail("blank-name", "%s made for %q carries the name %q", what, id, got)
		}
	}
	out := m.attempt(0, func() {
		for i := 0; i < 2; i++ {
			sk := mkrlwe.NewSecretKey(p, id)
			name("secret key", sk.ID)
			qp("secret key", sk.Value)
			pk := mkrlwe.NewPublicKey(p, id)
			name("public key", pk.ID)
			qp("public key", pk.Value[0])
			qp("public key", pk.Value[1])
			rlk := mkrlwe.NewRelinearizationKey(p, id)
			name("relinearization key", rlk.ID)
			for _, x := range rlk.Value {
				swk("relinearization key", x)
			}
			rtk := mkrlwe.NewRotationKey(p, k, id)
			name("rotation key", rtk.ID)
			swk("rotation key", rtk.Value)
			if rtk.RotIdx != k {
				fail("blank-name", "rotation key made for index %d carries index %d", k, rtk.RotIdx)
			}
			cjk := mkrlwe.NewConjugationKey(p, id)
			name("conjugation key", cjk.ID)
			swk("conjugation key", cjk.Value)
		}
		var sk *mkrlwe.SecretKey
		var pk *mkrlwe.PublicKey
		if sk.CopyNew() != nil || pk.CopyNew() != nil {
			fail("blank-value", "the copy of no key is a key")
		}
	})
	if v, ok := out.panicV.(*Violation); ok {
		panic(v)
	}
	if !out.ok {
		fail("refused:blank", "an empty key for %q cannot be made: %v", id, out)
	}
}

func memberExec(w *World) {
	r := simrt.NewRNG(simrt.Mix(w.plan.Seed, 0x6e7))
	m := &memberWorld{World: w, reg: newRegistry(), ver: map[any]int{}, old: map[string]map[int]*mkrlwe.SecretKey{}, away: map[string]bool{}}
	m.net = &simnet{r: r, delay: 1 + r.Intn(24), cut: map[string]bool{}, st: w.st}
	m.loss, m.dup = 0.25*r.Float()*float64(r.Intn(2)), 0.3*r.Float()*float64(r.Intn(2))
	m.net.loss, m.net.dup = m.loss, m.dup
	if r.Intn(8) == 0 {
		m.blanks(w.cfg.IDs[r.Intn(len(w.cfg.IDs))], uint(r.Intn(m.half())))
	}
	for i, s := range w.plan.Steps {
		w.step = i + 1
		id := w.cfg.IDs[s.sel(0, len(w.cfg.IDs))]
		switch s.Op {
		case "join":
			p := m.byID[id]
			if p == nil || p.sk == nil {
				if p = m.create(id, s); p == nil {
					break
				}
			}
			delete(m.away, id)
			m.publish(p, 15)
			m.st.add("join")
			m.logf("%d: join %q", w.step, id)
			if s.Fault == "" {
				m.pump(1000)
			}
		case "publish":
			if p := m.byID[id]; p != nil && p.sk != nil {
				m.publish(p, 1+s.sel(1, 15))
			}
		case "rekey":
			if p := m.create(id, s); p != nil {
				m.publish(p, 15)
				m.st.add("rekey")
				m.logf("%d: rekey %q", w.step, id)
			}
		case "leave":
			m.del(id, s)
		case "tick":
			m.pump(1 + s.sel(1, 12))
		case "cut":
			if m.net.cut[id] {
				delete(m.net.cut, id)
			} else {
				m.net.cut[id] = true
				w.st.fault("partition")
			}
		case "crs":
			m.addCRS(s)
		case "menc":
			m.encrypt(id, s)
		case "dec":
			m.decrypt(s)
		case "pad":
			m.pad(s)
		case "idset":
			m.idAlgebra(s)
		case "srvcrash":
			m.restart(s)
		case "pcrash":
			if p := m.byID[id]; p != nil {
				w.st.fault("party-crash-restart")
				m.boot(p)
			}
		case "hoist":
			w.hoistStep(s, w.evs[s.sel(4, len(w.evs))])
		case "forget":
			if len(w.objs) > 3 {
				w.remove(w.objs[s.sel(0, len(w.objs))])
			}
		case "enc": // generated by history(); joins keep the early steps useful
			if p := m.byID[id]; p == nil || p.sk == nil {
				if p = m.create(id, Step{A: s.A}); p != nil {
					m.publish(p, 15)
					m.pump(1000)
				}
			}
			m.encrypt(id, s)
		default:
			m.op(s)
		}
		if i%3 == 0 || s.Op == "leave" || s.Op == "join" || s.Op == "rekey" {
			m.audit()
		}
	}
	m.converge()
}

func init() {
	mix := []weighted{{"join", 3}, {"publish", 2}, {"rekey", 1}, {"leave", 3}, {"tick", 3}, {"cut", 1}, {"crs", 1}, {"menc", 4}, {"dec", 2}, {"pad", 1}, {"idset", 1}, {"srvcrash", 1}, {"pcrash", 1}, {"hoist", 1},
		{"add", 4}, {"sub", 1}, {"mul", 3}, {"sq", 1}, {"mulks", 1}, {"rot", 3}, {"rotks", 1}, {"conj", 2}, {"hmul", 1}, {"hrot", 1}, {"forget", 1}}
	register(&Prop{ID: "C10", Quick: 16000, Thorough: 1000000, Level: "exploration", OwnSetup: true,
		Own: []string{"hoist"},
		Gen: func(r *simrt.RNG, p *Plan) {
			swarm(r, p, 6)
			for len(p.Cfg.IDs) < 2 {
				swarm(r, p, 6)
			}
			if p.Cfg.LogN > 6 {
				p.Cfg.LogN = 6
				p.Cfg.LogSlots = mini(p.Cfg.LogSlots, 5)
			}
			history(r, p, 14+r.Intn(40), mix, true)
		}, Exec: memberExec,
		Rule: "one run = one membership history: parties join, publish keys over a network that loses, duplicates, delays and partitions, leave, return, re-key, crash, while servers compute; counted once per distinct (operation, parties involved, sizes of the key sets, keys present, keys current, added rotation indices) tuple",
		Real: realAll, Stub: append([]string{"network between parties and server (discrete events: loss, duplication, delay, reordering, partitions and heals)"}, stubAll[:2]...)})
}
