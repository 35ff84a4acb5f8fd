package main

import (
	"fmt"
	"sort"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"vsim/simrt"

	"github.com/ldsec/lattigo/v2/ring"
)

// ------------------------------------------------- simulated message passing

type netMsg struct {
	at  uint64
	seq uint64
	to  string
	run func()
}

// simnet is a discrete-event network. Time is simulated; every delay, loss and
// duplication is drawn from the run's seed.
type simnet struct {
	r     *simrt.RNG
	now   uint64
	seq   uint64
	q     []netMsg
	loss  float64
	dup   float64
	delay int
	cut   map[string]bool // partitioned parties
	st    *Stats
	sent  int
}

func (n *simnet) after(d uint64, to string, f func()) {
	n.seq++
	n.q = append(n.q, netMsg{n.now + d, n.seq, to, f})
	sort.Slice(n.q, func(i, j int) bool {
		if n.q[i].at != n.q[j].at {
			return n.q[i].at < n.q[j].at
		}
		return n.q[i].seq < n.q[j].seq
	})
}

func (n *simnet) send(from, to string, f func()) {
	n.sent++
	if n.cut[from] || n.cut[to] {
		n.st.fault("message-lost-in-partition")
		return
	}
	if n.r.P(n.loss) {
		n.st.fault("message-lost")
		return
	}
	d := uint64(1 + n.r.Intn(n.delay))
	if d > 8 {
		n.st.fault("message-delayed")
	}
	n.after(d, to, f)
	if n.r.P(n.dup) {
		n.st.fault("message-duplicated")
		n.after(d+uint64(1+n.r.Intn(n.delay)), to, f)
	}
}

// step delivers the next event; false when nothing is pending.
func (n *simnet) step() bool {
	if len(n.q) == 0 {
		return false
	}
	m := n.q[0]
	n.q = n.q[1:]
	if m.at > n.now {
		n.now = m.at
	}
	m.run()
	return true
}

// --------------------------------------------------- distributed decryption

// session decrypts one ciphertext with the parties it belongs to. Topologies:
// star (every party is sent a copy of its component and returns its share), ring
// (the ciphertext travels and every party removes itself) and joint (all keys in
// one place).
func (w *World) session(s Step) {
	o := w.pick(s, 0)
	if o == nil {
		return
	}
	r := simrt.NewRNG(simrt.Mix(s.S, 0xd157))
	n := &simnet{r: r, delay: 1 + r.Intn(20), cut: map[string]bool{}, st: w.st}
	if s.Fault != "" {
		n.loss, n.dup = 0.3*r.Float(), 0.3*r.Float()
	}
	faults := s.Fault != ""
	h0 := hashCt(o.ct)
	var final *mkckks.Ciphertext
	topo := s.sel(1, 3)
	switch topo {
	case 0:
		final = w.star(o, n, faults, s)
	case 1:
		final = w.token(o, n, faults, s)
	case 2:
		final = w.serial(o, r, s)
	}
	if final == nil {
		return
	}
	if hashCt(o.ct) != h0 {
		w.st.add("foreign-failure:mutation")
	}
	w.st.add("session")
	w.st.seen(simrt.Mix(uint64(topo), uint64(o.ct.Level()), uint64(len(o.ids)), uint64(w.cfg.SK), boolBit(faults), boolBit(o.ct.Value["0"].IsNTT), uint64(w.params.MaxLevel())))
	w.checkOpened(o, final, fmt.Sprintf("topology %d, order and faults from seed %d", topo, s.S))
}

// checkOpened compares a fully partially-decrypted ciphertext with the message,
// read both by the oracle and by the library's own decoder.
func (w *World) checkOpened(o *Obj, final *mkckks.Ciphertext, how string) {
	for id := range final.Value {
		if id != "0" {
			fail("leftover", "step %d: after all %d parties removed themselves from #%d a component for %q remains (%s)", w.step, len(o.ids), o.name, id, how)
		}
	}
	got, err := w.open(final, nil)
	if err != nil {
		fail("undecryptable", "step %d: #%d: %v", w.step, o.name, err)
	}
	e := o.e + tiny(vmax(o.v))
	d := diff(got, o.v)
	w.st.ratio("session", d/e)
	if !(d <= e) {
		fail("wrong:session", "step %d: distributed decryption of #%d (%d parties, level %d) is off by %.3g (bound %.3g): %s", w.step, o.name, len(o.ids), o.ct.Level(), d, e, how)
	}
	var msg *mkckks.Message
	dec := w.parties[0].dec
	out := w.attempt(0, func() { msg = dec.Decrypt(final, mkrlwe.NewSecretKeySet()) })
	if !out.ok {
		fail("refused:final", "step %d: the fully decrypted ciphertext cannot be decoded: %v", w.step, out)
	}
	if d := diff(msg.Value, o.v); !(d <= e) {
		fail("wrong:final", "step %d: decoding after distributed decryption is off by %.3g (bound %.3g)", w.step, d, e)
	}
	// joint decryption gives the same integers, not merely close values
	var joint *mkckks.Message
	set := w.keySet(o.ids, simrt.NewRNG(uint64(w.step)))
	out = w.attempt(0, func() { joint = dec.Decrypt(o.ct, set) })
	if !out.ok {
		fail("refused:joint", "step %d: joint decryption failed: %v", w.step, out)
	}
	if d := diff(msg.Value, joint.Value); !(d <= tiny(vmax(o.v))+1e-12*(1+vmax(o.v))) {
		fail("disagree", "step %d: joint and distributed decryption of #%d differ by %.3g: %s", w.step, o.name, d, how)
	}
	w.logf("%d: session #%d ok %s", w.step, o.name, how)
}

// partial runs one party's share computation with possible crash and restart.
// Only the secret key and the received message survive a crash.
func (w *World) partial(p *Party, ct *mkckks.Ciphertext, abort uint64) (*mkckks.Ciphertext, bool) {
	c := ct.CopyNew() // what was received stays in the inbox
	p.asked++
	reuse := simrt.Mix(w.plan.Seed, uint64(p.asked), strHash(p.id))%2 == 0
	if reuse { // every message is received into the same storage
		c = w.receive(p, ct)
	}
	need := w.waiting(c)
	out := w.attempt(abort, func() { p.dec.PartialDecrypt(c, p.sk) })
	if out.aborted {
		w.st.fault("party-crash-restart")
		p.dec = mkckks.NewDecryptor(w.params)
		return nil, false
	}
	if !out.ok {
		fail("refused:partial", "step %d: party %q cannot compute its share: %v", w.step, p.id, out)
	}
	w.contributed(need, c, p.id)
	if reuse {
		c = c.CopyNew() // sent
	}
	return c, true
}

// receive copies a ciphertext into the storage a party keeps for that.
func (w *World) receive(p *Party, ct *mkckks.Ciphertext) *mkckks.Ciphertext {
	if p.inbox == nil {
		p.inbox = map[string]*ring.Poly{}
	}
	c := &mkckks.Ciphertext{Ciphertext: &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}, Scale: ct.Scale}
	for id, x := range ct.Value {
		b := p.inbox[id]
		if b == nil {
			b = w.ringQ.NewPoly()
			p.inbox[id] = b
		}
		b.Coeffs = b.Coeffs[:len(x.Coeffs)]
		for i := range x.Coeffs {
			copy(b.Coeffs[i], x.Coeffs[i])
		}
		b.IsNTT = x.IsNTT
		c.Value[id] = b
	}
	return c
}

// waiting lists the parties whose contribution the library says is missing.
func (w *World) waiting(c *mkckks.Ciphertext) []string {
	var l []string
	if out := w.attempt(0, func() {
		for id := range c.IDSet().Value {
			l = append(l, id)
		}
	}); !out.ok {
		fail("party-set", "step %d: the parties of a ciphertext cannot be listed: %v", w.step, out)
	}
	sort.Strings(l)
	return l
}

// contributed checks that exactly id is no longer waited for.
func (w *World) contributed(before []string, c *mkckks.Ciphertext, id string) {
	var want []string
	for _, x := range before {
		if x != id {
			want = append(want, x)
		}
	}
	if got := w.waiting(c); len(want) == len(before) || fmt.Sprint(got) != fmt.Sprint(want) {
		fail("party-set", "step %d: %q were involved, party %q has contributed, now %q are said to be involved", w.step, before, id, got)
	}
}

// halfOpen keeps a ciphertext from which one party has removed itself as an
// object of its own: it is an encryption for the remaining parties.
func (w *World) halfOpen(s Step) {
	o := w.pick(s, 0)
	if o == nil || len(o.ids) < 2 {
		return
	}
	id := o.ids[s.sel(1, len(o.ids))]
	c, ok := w.partial(w.byID[id], o.ct, 0)
	if !ok {
		return
	}
	n := &Obj{ct: c, v: o.v, e: o.e}
	for _, x := range o.ids {
		if x != id {
			n.ids = append(n.ids, x)
		}
	}
	n.twin = w.removed(o.ct, w.byID[id])
	n.h = hashCt(c)
	w.push(n)
	w.st.add("half-open")
}

// removed is the oracle's own partial decryption.
func (w *World) removed(ct *mkckks.Ciphertext, p *Party) *mkckks.Ciphertext {
	c := ct.CopyNew()
	sum, err := w.phase(&mkrlwe.Ciphertext{Value: map[string]*ring.Poly{"0": c.Value["0"], p.id: c.Value[p.id]}}, map[string]*mkrlwe.SecretKey{p.id: p.sk})
	if err != nil {
		return nil
	}
	if c.Value["0"].IsNTT {
		w.ringQ.NTTLvl(ct.Level(), sum, sum)
	}
	sum.IsNTT = c.Value["0"].IsNTT
	c.Value["0"] = sum
	delete(c.Value, p.id)
	return c
}

// halfUsed reports an operation that fails on a partially decrypted ciphertext
// and works on what that should be.
func (w *World) halfUsed(c *call, in []*mkckks.Ciphertext, out outcome) {
	half := false
	for j, o := range c.in {
		if o.twin != nil && hashCt(o.ct) == o.h {
			in[j], half = o.twin, true
		}
	}
	if !half {
		return
	}
	var res *mkckks.Ciphertext
	if again := w.attempt(0, func() { res = c.run(w.newEv(), in) }); again.ok && w.checkValue(c, res, c.name) {
		fail("half-open", "step %d: %s on a ciphertext from which a party has removed itself goes wrong (%v); on c0 + c_i*s_i and the other components it is right", w.step, w.describe(c), out)
	}
}

func (w *World) budget(k int) int { return 60*k + 200 }

// star: the coordinator keeps c0 and sends (0, c_i) to party i.
func (w *World) star(o *Obj, n *simnet, faults bool, s Step) *mkckks.Ciphertext {
	shares := map[string]*ring.Poly{}
	crash := map[string]uint64{}
	if faults {
		for _, id := range o.ids {
			if n.r.Intn(3) == 0 {
				crash[id] = 1 + uint64(n.r.Intn(30))
			}
			if n.r.Intn(5) == 0 {
				n.cut[id] = true
			}
		}
	}
	level := o.ct.Level()
	serve := func(id string) {
		p := w.byID[id]
		req := &mkckks.Ciphertext{Ciphertext: &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}, Scale: o.ct.Scale}
		z := ring.NewPoly(w.ringQ.N, level+1)
		z.IsNTT = o.ct.Value["0"].IsNTT
		req.Value["0"] = z
		req.Value[id] = o.ct.Value[id].CopyNew()
		a := crash[id]
		crash[id] = 0
		c, ok := w.partial(p, req, a)
		if !ok {
			return
		}
		share := c.Value["0"]
		n.send(id, "coordinator", func() {
			if old, dup := shares[id]; dup {
				if x := w.samePoly(old, share); x != "" {
					fail("share-differs", "step %d: party %q computed two different shares for the same request: %s", w.step, id, x)
				}
				return
			}
			shares[id] = share
		})
	}
	request := func() {
		for _, id := range o.ids {
			if shares[id] == nil {
				id := id
				n.send("coordinator", id, func() { serve(id) })
			}
		}
	}
	if !w.drive(n, o, request, func() bool { return len(shares) == len(o.ids) }) {
		return nil
	}
	// combine in any order; before the last share arrives nothing must be readable
	fin := &mkckks.Ciphertext{Ciphertext: &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{"0": o.ct.Value["0"].CopyNew()}}, Scale: o.ct.Scale}
	acc := fin.Value["0"]
	w.ringQ.ReduceLvl(level, acc, acc)
	order := w.shuffled(o.ids, n.r)
	for _, id := range order {
		w.secret(o, fin, id, "star")
		x := shares[id].CopyNew()
		w.ringQ.ReduceLvl(level, x, x)
		w.ringQ.AddLvl(level, acc, x, acc)
	}
	return fin
}

// secret checks that the message is not readable while party id has not taken part.
func (w *World) secret(o *Obj, c *mkckks.Ciphertext, id string, how string) {
	if w.zeroPoly(o.ct.Value[id]) {
		return // contributed nothing
	}
	got, err := w.open(&mkckks.Ciphertext{Ciphertext: &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{"0": c.Value["0"]}}, Scale: c.Scale}, nil)
	if err == nil && diff(got, o.v) <= o.e {
		fail("leak", "step %d: #%d is readable before party %q took part (%s)", w.step, o.name, id, how)
	}
}

func (w *World) zeroPoly(p *ring.Poly) bool {
	for i := range p.Coeffs {
		for _, x := range p.Coeffs[i] {
			if x%w.ringQ.Modulus[i] != 0 {
				return false
			}
		}
	}
	return true
}

func (w *World) samePoly(a, b *ring.Poly) string {
	if len(a.Coeffs) != len(b.Coeffs) {
		return "levels differ"
	}
	for i := range a.Coeffs {
		q := w.ringQ.Modulus[i]
		for j := range a.Coeffs[i] {
			if a.Coeffs[i][j]%q != b.Coeffs[i][j]%q {
				return fmt.Sprintf("residue %d coefficient %d", i, j)
			}
		}
	}
	return ""
}

func (w *World) shuffled(ids []string, r *simrt.RNG) []string {
	l := append([]string(nil), ids...)
	for i := len(l) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// drive pumps the network: while faults flow requests are retried after a
// timeout; once they stop, completion is required within a fixed budget.
func (w *World) drive(n *simnet, o *Obj, request func(), done func() bool) bool {
	request()
	for i := 0; i < 6+n.r.Intn(10*len(o.ids)) && !done(); i++ {
		if !n.step() {
			n.now += 50 // timeout
			request()
			if n.r.Intn(3) == 0 {
				n.cut = map[string]bool{}
			}
		}
	}
	n.loss, n.dup, n.cut = 0, 0, map[string]bool{}
	w.st.add("faults-stopped")
	for i := 0; !done(); i++ {
		if i > w.budget(len(o.ids)) {
			fail("stuck", "step %d: distributed decryption of #%d did not finish within %d events after the last fault", w.step, o.name, w.budget(len(o.ids)))
		}
		if !n.step() {
			n.now += 50
			request()
		}
	}
	return true
}

// token: the ciphertext travels along the parties; the last holder that has it
// resends when no acknowledgement comes back.
func (w *World) token(o *Obj, n *simnet, faults bool, s Step) *mkckks.Ciphertext {
	order := w.shuffled(o.ids, n.r)
	k := len(order)
	hold := make([]*mkckks.Ciphertext, k+1) // durable: what stage i received
	hold[0] = o.ct.CopyNew()
	crash := make([]uint64, k)
	if faults {
		for i := range crash {
			if n.r.Intn(3) == 0 {
				crash[i] = 1 + uint64(n.r.Intn(30))
			}
		}
	}
	var work func(i int)
	work = func(i int) {
		p := w.byID[order[i]]
		a := crash[i]
		crash[i] = 0
		c, ok := w.partial(p, hold[i], a)
		if !ok {
			return
		}
		if _, still := c.Value[p.id]; still {
			fail("leftover", "step %d: party %q partially decrypted #%d but its component is still there", w.step, p.id, o.name)
		}
		n.send(p.id, "next", func() {
			if hold[i+1] != nil {
				if x := w.sameRing(hold[i+1], c); x != "" {
					fail("share-differs", "step %d: party %q partially decrypted the same ciphertext to two different results: %s", w.step, p.id, x)
				}
				return
			}
			hold[i+1] = c
			if i+1 < k {
				w.secret(o, c, order[i+1], "token")
				work(i + 1)
			}
		})
	}
	request := func() {
		for i := k - 1; i >= 0; i-- {
			if hold[i] != nil && hold[i+1] == nil {
				i := i
				n.after(1, order[i], func() {
					if hold[i+1] == nil {
						work(i)
					}
				})
				break
			}
		}
	}
	if !w.drive(n, o, request, func() bool { return hold[k] != nil }) {
		return nil
	}
	return hold[k]
}

// serial: everybody uses one shared decryptor object, one after the other, in
// place; with a joint refusal in between.
func (w *World) serial(o *Obj, r *simrt.RNG, s Step) *mkckks.Ciphertext {
	c := o.ct.CopyNew()
	dec := w.parties[s.sel(2, len(w.parties))].dec
	order := w.shuffled(o.ids, r)
	for i, id := range order {
		w.secret(o, c, id, "serial")
		if r.Intn(3) == 0 { // a premature joint decryption must be refused
			w.refuse(o, c, order[i:], dec, r)
		}
		need := w.waiting(c)
		out := w.attempt(0, func() { dec.PartialDecrypt(c, w.byID[id].sk) })
		if !out.ok {
			fail("refused:partial", "step %d: party %q cannot compute its share: %v", w.step, id, out)
		}
		w.contributed(need, c, id)
	}
	return c
}

// refuse asks for a joint decryption with at least one key missing.
func (w *World) refuse(o *Obj, c *mkckks.Ciphertext, need []string, dec *mkckks.Decryptor, r *simrt.RNG) {
	miss := need[r.Intn(len(need))]
	var have []string
	for _, p := range w.parties {
		if p.id != miss && r.Intn(3) != 0 {
			have = append(have, p.id)
		}
	}
	set := w.keySet(have, r)
	h := hashCt(c)
	var msg *mkckks.Message
	out := w.attempt(0, func() { msg = dec.Decrypt(c, set) })
	w.st.fault("secret-key-missing")
	w.logf("%d: refuse without %q: %v", w.step, miss, out)
	if out.ok {
		bad := "a value"
		if msg != nil && len(msg.Value) > 0 {
			bad = fmt.Sprint(msg.Value[0])
		}
		fail("not-refused", "step %d: decryption of #%d without the key of %q returned %s instead of refusing", w.step, o.name, miss, bad)
	}
	if hashCt(c) != h {
		fail("refusal-damage", "step %d: a refused decryption altered the ciphertext", w.step)
	}
}

func (w *World) anyNTT(c *call) bool {
	for _, o := range c.in {
		if o.ct.Value["0"].IsNTT {
			return true
		}
	}
	return false
}

func distExec(w *World) {
	for i, s := range w.plan.Steps {
		w.step = i + 1
		switch s.Op {
		case "session":
			w.session(s)
		case "refuse":
			if o := w.pick(s, 0); o != nil && len(o.ids) > 0 {
				r := simrt.NewRNG(s.S)
				w.refuse(o, o.ct, o.ids, w.parties[s.sel(1, len(w.parties))].dec, r)
				w.st.add("refuse")
			}
		case "halfopen":
			w.halfOpen(s)
		case "dcrash":
			w.st.fault("party-crash-restart")
			p := w.parties[s.sel(0, len(w.parties))]
			p.dec = mkckks.NewDecryptor(w.params)
		case "add", "sub", "mul", "rot":
			c := w.build(s)
			if c == nil || w.anyNTT(c) { // the evaluator works on coefficients
				continue
			}
			in := make([]*mkckks.Ciphertext, len(c.in))
			for j, o := range c.in {
				in[j] = o.ct
			}
			var res *mkckks.Ciphertext
			out := w.attempt(0, func() { res = c.run(w.evs[0], in) })
			if !out.ok || !w.checkValue(c, res, c.name) {
				w.foreign(c.name, out)
				w.halfUsed(c, in, out)
				continue
			}
			w.push(&Obj{ct: res, v: c.v, e: c.e, ids: c.ids})
		default:
			if !w.harnessStep(s) {
				w.common(s, 0)
			}
		}
	}
}

func init() {
	mix := []weighted{{"enc", 3}, {"encinto", 1}, {"overwrite", 1}, {"session", 8}, {"refuse", 2}, {"halfopen", 2}, {"hsum", 6}, {"hdrop", 2}, {"hntt", 1}, {"hscale", 1}, {"add", 1}, {"sub", 2}, {"mul", 1}, {"dcrash", 1}, {"rekey", 1}, {"forget", 1}}
	register(&Prop{ID: "C05", Setup: true, Quick: 30000, Thorough: 2000000, Kinds: kRLK, Level: "exploration",
		Gen: func(r *simrt.RNG, p *Plan) {
			swarm(r, p, 5)
			history(r, p, 12+r.Intn(26), mix, true)
			for i := range p.Steps { // most sessions run under faults
				if p.Steps[i].Op == "session" && p.Steps[i].Fault == "" && r.Intn(3) > 0 {
					p.Steps[i].Fault = "net"
				}
				p.Steps[i].Abort = 0
			}
		}, Exec: distExec,
		Rule: "one run = one history of multi-party ciphertexts opened by distributed decryption sessions (star, token ring, serial) over a lossy, duplicating, reordering, partitioned network with party crashes; a case is counted once per distinct (topology, level, party count, faults, domain, modulus chain) tuple completed",
		Real: realAll, Stub: append([]string{"network between coordinator and parties (discrete events: loss, duplication, delay, reordering, partitions and heals)"}, stubAll[:2]...)})
}
