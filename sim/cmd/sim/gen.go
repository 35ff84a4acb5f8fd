package main

import (
	"math"
	"strings"
	"vsim/simrt"
)

var idPool = []string{"a", "b", "company0", "company1", "company2", "00", "user 1", "Z", "é", "1", "-1", "alice", "bob", "", "10",
	"A", "a ", " a", "01", "company00", "company", "e\u0301", "Alice", "\x00", "a\x00", "2147483648",
	longName + "one", longName + "two", strings.Repeat(longName, 8) + "1", strings.Repeat(longName, 8) + "2"}

// names that only differ far behind
const longName = "department-of-statistics.region-north.example.org/participants/"

// swarm draws the configuration of a run.
func swarm(r *simrt.RNG, p *Plan, maxParties int) {
	c := &p.Cfg
	c.LogN = []int{4, 5, 5, 5, 6, 6, 7}[r.Intn(7)]
	switch k := r.Intn(300); {
	case k < 5:
		c.LogN = 8
	case k < 10:
		c.LogN = 9
	case k < 12:
		c.LogN = 10
	case k < 13:
		c.LogN = 11
	}
	c.LogSlots = c.LogN - 1
	if r.Intn(4) == 0 {
		c.LogSlots = 1 + r.Intn(c.LogN-1)
	}
	switch r.Intn(12) {
	case 0:
		c.Shape = []string{"PN15QP880", "PN14QP439", "LR"}[r.Intn(3)]
		c.QCount = 3 + r.Intn(12)
		c.Scale = shapes[c.Shape].Scale
	default:
		c.QCount = 2 + r.Intn(6)
		if r.Intn(12) == 0 {
			c.QCount = 8 + r.Intn(6)
		}
		c.QBits = 36 + r.Intn(8)
		c.Q0 = c.QBits + 8 + r.Intn(57-c.QBits-8+1)
		c.PCount = []int{2, 2, 2, 4, 4, 6, 8}[r.Intn(7)]
		c.PBits = c.Q0 + 2 + r.Intn(59-c.Q0)
		if c.PBits > 60 {
			c.PBits = 60
		}
		c.Scale = math.Exp2(float64(c.QBits))
	}
	k := 1 + r.Intn(maxParties)
	switch r.Intn(50) {
	case 0: // many parties
		k = maxParties + 1 + r.Intn(20-maxParties)
		c.LogN = 4 + r.Intn(2)
	case 1: // long modulus chain with large auxiliary primes
		if c.Shape == "" {
			c.QCount = 16 + r.Intn(9)
			c.QBits = 36 + r.Intn(6)
			c.Q0 = 50 + r.Intn(8)
			c.PCount, c.PBits = 2, 60
			c.LogN = 4 + r.Intn(2)
			c.Scale = math.Exp2(float64(c.QBits))
		}
	}
	if c.LogSlots >= c.LogN {
		c.LogSlots = c.LogN - 1
	}
	perm := append([]string(nil), idPool...)
	for i := len(perm) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	c.IDs = perm[:k]
	if k > 1 && r.Intn(24) == 0 { // easily confused
		q := [][2]string{{longName + "one", longName + "two"}, {strings.Repeat(longName, 8) + "1", strings.Repeat(longName, 8) + "2"}, {"a", "a\x00"}, {"a", "A"}, {"a", "a "}, {"1", "01"}, {"1", "-1"}, {"", "\x00"}, {"\u00e9", "e\u0301"}}[r.Intn(9)]
		c.IDs[0], c.IDs[1] = q[0], q[1]
		for i := 2; i < k; i++ {
			if c.IDs[i] == q[0] || c.IDs[i] == q[1] {
				c.IDs[i] += "."
			}
		}
	}
	if r.Intn(6) == 0 {
		c.SK = 1 + r.Intn(3)
	}
	if r.Intn(4) == 0 {
		c.Sigma = []float64{1.5, 2.4, 5, 8, 16}[r.Intn(5)]
	}
	c.Evals = 1 + r.Intn(3)
	c.MapMode = []int{0, 1, 2, 2, 2}[r.Intn(5)]
}

type weighted struct {
	op string
	w  int
}

func pickOp(r *simrt.RNG, ops []weighted) string {
	t := 0
	for _, o := range ops {
		t += o.w
	}
	k := r.Intn(t)
	for _, o := range ops {
		if k -= o.w; k < 0 {
			return o.op
		}
	}
	return ops[0].op
}

// history draws a sequence of steps with a per-run (swarm) operation mix.
func history(r *simrt.RNG, p *Plan, n int, base []weighted, faults bool) {
	if r.Intn(100) == 0 { // a long life
		n *= 8
	}
	mix := make([]weighted, len(base))
	for i, b := range base {
		mix[i] = weighted{b.op, 1 + b.w*r.Intn(5)}
	}
	recent := r.Intn(2) == 0
	abortP := []float64{0, 0.05, 0.15}[r.Intn(3)]
	netP := []float64{0, 0.1, 0.25}[r.Intn(3)]
	if !faults {
		abortP, netP = 0, 0
	}
	add := func(op string) {
		s := Step{Op: op, S: r.Next() >> 12}
		for i := 0; i < 6; i++ {
			s.A = append(s.A, int64(r.Intn(1<<16)))
		}
		if recent && r.Intn(2) == 0 {
			s.A[0] = -1 - int64(r.Intn(3)) // the newest objects
		}
		if recent && r.Intn(3) == 0 {
			s.A[1] = -1 - int64(r.Intn(3))
		}
		if r.P(abortP) {
			s.Abort = 1 + uint64(math.Exp2(r.Float()*14))
		}
		if r.P(netP) {
			s.Fault = []string{"drop", "dup", "delay", "retry"}[r.Intn(4)]
		}
		p.Steps = append(p.Steps, s)
	}
	for i := 0; i < 2+r.Intn(3); i++ {
		add("enc")
		p.Steps[len(p.Steps)-1].A[0] = int64(i)
	}
	for _, b := range base {
		if b.op == "ptmul" {
			add("ptenc")
		}
	}
	for len(p.Steps) < n {
		add(pickOp(r, mix))
	}
}
