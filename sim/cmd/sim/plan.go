package main

import (
	"encoding/json"
	"fmt"
	"os"
	"vsim/simrt"
)

// Step is one event of a simulated run. Arguments are resolved against the live
// state when the step executes (indices modulo what exists), so that any
// sub-sequence of a plan is itself a valid plan: minimisation relies on it.
type Step struct {
	Op    string  `json:"op"`
	A     []int64 `json:"a,omitempty"`     // operand selectors, amounts, variants
	S     uint64  `json:"s,omitempty"`     // seed of the step's own data
	Abort uint64  `json:"abort,omitempty"` // fault: kill the operation after this many statements
	Fault string  `json:"fault,omitempty"` // fault: network / storage fault attached to the step
}

func (s Step) a(i int) int {
	if i < len(s.A) {
		return int(s.A[i])
	}
	return 0
}

// sel picks an index in [0,n) for argument i.
func (s Step) sel(i, n int) int {
	if n <= 0 {
		return 0
	}
	v := s.a(i) % n
	if v < 0 {
		v += n
	}
	return v
}

// Cfg is the swarm configuration of one run.
type Cfg struct {
	LogN     int      `json:"logN"`
	LogSlots int      `json:"logSlots"`
	Shape    string   `json:"shape,omitempty"` // "", or a parameter shape of the repository
	Q0       int      `json:"q0,omitempty"`
	QBits    int      `json:"qbits,omitempty"`
	QCount   int      `json:"qcount,omitempty"`
	PBits    int      `json:"pbits,omitempty"`
	PCount   int      `json:"pcount,omitempty"`
	Scale    float64  `json:"scale"`
	Sigma    float64  `json:"sigma,omitempty"` // width of the error distribution; 0 is the default one
	IDs      []string `json:"ids"`
	SK       int      `json:"sk,omitempty"` // secret key distribution
	Evals    int      `json:"evals"`
	MapMode  int      `json:"mapMode"`
	Gap      int      `json:"gap,omitempty"`     // mean statements between context switches
	Novel    int      `json:"novel,omitempty"`   // preempt before one in so many first executions of a statement
	Deps     bool     `json:"deps,omitempty"`    // statements of lattigo are scheduled too
	Workers  int      `json:"workers,omitempty"` // concurrent clients
	X        int      `json:"x,omitempty"`       // property specific variant
}

type Plan struct {
	Property string         `json:"property"`
	Seed     uint64         `json:"seed"`
	Cfg      Cfg            `json:"cfg"`
	Steps    []Step         `json:"steps"`
	Sched    []simrt.Switch `json:"sched,omitempty"`
	Fixed    bool           `json:"fixed,omitempty"` // follow Sched instead of the seed
	// filled in for a replay file
	Class   string   `json:"class,omitempty"`
	Message string   `json:"message,omitempty"`
	Trace   []string `json:"trace,omitempty"`
	Tier    string   `json:"tier,omitempty"`
	// runs executed before this one in the same process: needed when the code
	// under test carries state from one parameter set to the next
	Prelude *Prelude `json:"prelude,omitempty"`
}

type Prelude struct {
	Seed uint64 `json:"seed"`
	Tier string `json:"tier"`
	Runs []int  `json:"runs"`
}

func loadPlan(f string) (*Plan, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	p := new(Plan)
	return p, json.Unmarshal(b, p)
}

func (p *Plan) save(f string) error {
	b, err := json.MarshalIndent(p, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(f, append(b, '\n'), 0o644)
}

func (p *Plan) clone() *Plan {
	q := *p
	q.Steps = append([]Step(nil), p.Steps...)
	q.Sched = append([]simrt.Switch(nil), p.Sched...)
	q.Cfg.IDs = append([]string(nil), p.Cfg.IDs...)
	return &q
}

// Violation is what an oracle raises.
type Violation struct {
	Class string // stable label used while minimising
	Msg   string
}

func (v *Violation) Error() string { return v.Class + ": " + v.Msg }

func fail(class, f string, a ...any) { panic(&Violation{class, fmt.Sprintf(f, a...)}) }

// Result of executing a plan.
type Result struct {
	V      *Violation
	Digest uint64 // hash of the event log: equal for equal executions
	Trace  []string
	Obs    uint64 // hash of everything generated (C11)
	Err    string // trouble of the harness, never a violation
}
