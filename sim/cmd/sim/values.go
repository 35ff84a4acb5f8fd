package main

import (
	"fmt"
	"os"
	"strconv"

	"mk-lr/mkckks"
	"vsim/simrt"
)

var debugRatio, _ = strconv.ParseFloat(os.Getenv("SIM_RATIO"), 64)

type delayedObj struct {
	due int
	o   *Obj
}

// valueExec is the executor of the refinement properties (C01, C02, C03): every
// result is decrypted by the oracle and compared with the reference model.
func valueExec(w *World) {
	var late []delayedObj
	for i, s := range w.plan.Steps {
		w.step = i + 1
		keep := late[:0]
		for _, d := range late {
			if d.due <= i {
				w.push(d.o)
			} else {
				keep = append(keep, d)
			}
		}
		late = keep
		e := s.sel(4, len(w.evs))
		if s.Op == "redo" && w.lastStep.Op != "" {
			e = w.lastStep.sel(4, len(w.evs))
		}
		if w.common(s, e) {
			if s.Op == "rekey" { // results still under way are under the old key
				id := w.parties[s.sel(0, len(w.parties))].id
				keep := late[:0]
				for _, d := range late {
					if len(union(d.o.ids, []string{id})) != len(d.o.ids) {
						keep = append(keep, d)
					}
				}
				late = keep
			}
			continue
		}
		c := w.again(s)
		if c == nil {
			w.st.add("skip:" + s.Op)
			continue
		}
		desc := w.describe(c)
		ins := make([]*mkckks.Ciphertext, len(c.in))
		for j, o := range c.in {
			ins[j] = o.ct
		}
		n := 1
		if s.Fault == "dup" && !c.inplace {
			n = 2 // the request was delivered twice
			w.st.fault("request-duplicated")
		}
		for k := 0; k < n; k++ {
			var res *mkckks.Ciphertext
			abort := s.Abort
			if k > 0 {
				abort = 0
			}
			out := w.attempt(abort, func() { res = c.run(w.evs[e], ins) })
			w.st.add(c.name)
			if out.aborted {
				w.logf("%d: %s on ev%d aborted", i, desc, e)
				if c.inplace {
					w.remove(c.in[0])
					break
				}
				if s.Fault == "retry" {
					w.st.fault("retry-after-abort")
					out = w.attempt(0, func() { res = c.run(w.evs[e], ins) })
				} else {
					continue
				}
			}
			if !out.ok {
				w.logf("%d: %s on ev%d %v", i, desc, e, out)
				if c.may {
					w.st.fault("key-missing")
					break
				}
				w.opPanic(c.name, out)
				if c.inplace {
					w.remove(c.in[0])
				}
				break
			}
			w.sig(c, e, s)
			if !w.checkValue(c, res, desc) {
				if c.inplace {
					w.remove(c.in[0])
				}
				break
			}
			w.logf("%d: %s on ev%d -> lvl=%d scale=%g %x", i, desc, e, res.Level(), res.Scale, hashCt(res))
			if c.inplace {
				o := c.in[0]
				o.ct, o.v, o.e, o.ids = res, c.v, c.e, c.ids
				if c.name != "drop" {
					w.dropHoists(o)
				}
				continue
			}
			o := &Obj{ct: res, v: c.v, e: c.e, ids: c.ids}
			switch s.Fault {
			case "drop":
				w.st.fault("result-lost")
			case "delay":
				w.st.fault("result-delayed")
				late = append(late, delayedObj{i + 1 + s.sel(5, 6), o})
			default:
				w.push(o)
			}
		}
	}
}

// common handles the steps every world understands.
func (w *World) common(s Step, e int) bool {
	switch s.Op {
	case "enc":
		w.encStep(s)
	case "ptenc":
		w.ptencStep(s)
	case "hoist":
		w.hoistStep(s, w.evs[e])
		w.st.add("hoist")
	case "rotkey":
		w.rotkeyStep(s)
	case "crs":
		w.crsStep(s)
	case "ptre":
		w.ptreStep(s)
	case "encinto":
		w.encintoStep(s)
	case "overwrite":
		w.overwriteStep(s)
	case "evcrash":
		w.st.fault("evaluator-crash-restart")
		w.evs[e] = w.newEv()
		w.hist[e] = 0
		w.logf("%d: ev%d restarted", w.step, e)
	case "hoistloss":
		// hoisted forms are volatile: a server restart loses them
		w.st.fault("volatile-state-lost")
		w.hs = nil
	case "rekey":
		w.rekeyStep(s)
	case "pcrash":
		w.st.fault("party-crash-restart")
		w.boot(w.parties[s.sel(0, len(w.parties))])
	case "forget":
		if len(w.objs) > 3 {
			w.remove(w.objs[s.sel(0, len(w.objs))])
		}
	default:
		return false
	}
	return true
}

func (w *World) remove(o *Obj) {
	k := w.objs[:0]
	for _, x := range w.objs {
		if x != o {
			k = append(k, x)
		}
	}
	w.objs = k
	w.dropHoists(o)
}

// sig records which situation was reached: the operation and the shape of its
// operands, what ran on this evaluator before, and the attached fault.
func (w *World) sig(c *call, e int, s Step) {
	h := simrt.Mix(strHash(c.name), c.key, w.hist[e], strHash(s.Fault))
	w.st.seen(h)
	w.hist[e] = simrt.Mix(w.hist[e]&0xffff, strHash(c.name), c.key&0xff00) & 0xffffff
}

// checkValue compares a result with the model; false: unusable, not ours.
func (w *World) checkValue(c *call, res *mkckks.Ciphertext, desc string) bool {
	own := ownOps[c.name]
	bad := func(class, f string, a ...any) bool {
		if own {
			fail(class+":"+c.name, "step %d: %s: "+f, append([]any{w.step, desc}, a...)...)
		}
		w.foreign(c.name, outcome{panicV: class})
		return false
	}
	if res == nil || res.Ciphertext == nil {
		return bad("noresult", "no result")
	}
	got, err := w.open(res, w.sks())
	if err != nil {
		return bad("undecryptable", "the result cannot be decrypted: %v", err)
	}
	d := diff(got, c.v)
	w.st.ratio(c.name, d/c.e)
	if debugRatio > 0 && d/c.e > debugRatio {
		fmt.Fprintf(os.Stderr, "ratio %.3f %s cfg=%+v e=%g d=%g scale=%g lvl=%d vmax=%g\n", d/c.e, desc, w.cfg, c.e, d, c.scale, c.level, vmax(c.v))
		for _, o := range c.in {
			g, _ := w.open(o.ct, w.sks())
			fmt.Fprintf(os.Stderr, "     in e=%g d=%g vmax=%g\n", o.e, diff(g, o.v), vmax(o.v))
		}
	}
	if !(d <= c.e) {
		k := 0
		for i := range got {
			if x := got[i] - c.v[i]; real(x)*real(x)+imag(x)*imag(x) > 0.25*d*d {
				k = i
				break
			}
		}
		return bad("wrong", "slot %d decrypts to %.9g, the clear computation gives %.9g (largest error %.3g, noise bound %.3g)", k, got[k], c.v[k], d, c.e)
	}
	return true
}

var (
	realAll = []string{"mkrlwe (parameters, keys, key generation, encryption, decryption, key switching, hoisting)", "mkckks (encryptor, decryptor, evaluator)", "lattigo v2.3.0 ring, rlwe, ckks encoder"}
	stubAll = []string{"operating-system entropy (crypto/rand.Reader: seeded stream)", "map iteration order (seeded)", "network between parties and evaluators (simulated: loss, duplication, delay, reordering)", "process crash and restart (volatile objects rebuilt, ciphertexts and keys kept)"}
)

const worldRule = "one run = one generated history over a random ring, modulus chain, party set and operation mix; a situation is counted once per distinct (operation, operand levels and party overlap, two preceding operations on that evaluator, fault attached) tuple actually executed"

func init() {
	arith := []weighted{{"enc", 2}, {"ptenc", 1}, {"ptre", 1}, {"encinto", 1}, {"overwrite", 1}, {"add", 4}, {"sub", 3}, {"mul", 4}, {"sq", 1}, {"mulks", 1}, {"ptmul", 3}, {"const", 3}, {"rescale", 3}, {"drop", 2}, {"pad", 1}, {"evcrash", 1}, {"pcrash", 1}, {"rekey", 1}, {"forget", 1}, {"redo", 2}}
	register(&Prop{ID: "C01", Setup: true, Quick: 24000, Thorough: 1500000, Kinds: kRLK, Level: "exploration",
		Own: []string{"add", "sub", "mul", "mulks", "ptmul", "const", "rescale", "drop"},
		Gen: func(r *simrt.RNG, p *Plan) {
			swarm(r, p, 4)
			history(r, p, 16+r.Intn(40), arith, true)
		}, Exec: valueExec, Rule: worldRule, Real: realAll, Stub: stubAll})
	rots := []weighted{{"enc", 2}, {"rot", 8}, {"rotks", 2}, {"conj", 4}, {"drop", 2}, {"pad", 1}, {"add", 3}, {"rotkey", 1}, {"crs", 1}, {"encinto", 1}, {"overwrite", 1}, {"evcrash", 1}, {"pcrash", 1}, {"rekey", 1}, {"forget", 1}, {"redo", 2}}
	register(&Prop{ID: "C02", Setup: true, Quick: 20000, Thorough: 1200000, Kinds: kRTK | kCJK, Level: "exploration",
		Own: []string{"rot", "rotks", "conj", "rotkey"},
		Gen: func(r *simrt.RNG, p *Plan) {
			swarm(r, p, 4)
			history(r, p, 14+r.Intn(30), rots, true)
		}, Exec: valueExec, Rule: worldRule, Real: realAll, Stub: stubAll})
	hoists := []weighted{{"enc", 2}, {"hoist", 5}, {"hmul", 6}, {"hrot", 6}, {"mul", 1}, {"drop", 2}, {"pad", 1}, {"add", 2}, {"rot", 1}, {"rotkey", 1}, {"crs", 1}, {"encinto", 1}, {"overwrite", 1}, {"evcrash", 1}, {"hoistloss", 1}, {"rekey", 1}, {"rescale", 1}, {"redo", 2}}
	register(&Prop{ID: "C03", Setup: true, Quick: 16000, Thorough: 1000000, Kinds: kRLK | kRTK, Level: "exploration",
		Own: []string{"hoist", "hmul", "hrot"},
		Gen: func(r *simrt.RNG, p *Plan) {
			swarm(r, p, 3)
			history(r, p, 16+r.Intn(34), hoists, true)
		}, Exec: valueExec, Rule: worldRule, Real: realAll, Stub: stubAll})
}
