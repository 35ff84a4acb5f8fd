package main

import "sort"

// Stats is what a batch of runs covered; every number is counted, none assumed.
type Stats struct {
	Runs      int64              `json:"runs"`
	Steps     int64              `json:"steps"`
	Yields    uint64             `json:"yields"`
	Counts    map[string]int64   `json:"counts"`
	Faults    map[string]int64   `json:"faults"`
	Ratio     map[string]float64 `json:"ratio"` // largest observed error / bound, per operation
	Distinct  map[uint64]bool    `json:"-"`
	DistinctL []uint64           `json:"distinct,omitempty"`
	Trivial   int64              `json:"trivial"`
	Sites     []int              `json:"sites,omitempty"`
	MapRanges uint64             `json:"mapRanges"`
	Samples   []string           `json:"samples,omitempty"`
	SetupFail int64              `json:"setupFail"`
	Switches  uint64             `json:"switches"`
}

func newStats() *Stats {
	return &Stats{Counts: map[string]int64{}, Faults: map[string]int64{}, Ratio: map[string]float64{}, Distinct: map[uint64]bool{}}
}

func (s *Stats) add(k string)   { s.Counts[k]++ }
func (s *Stats) fault(k string) { s.Faults[k]++ }
func (s *Stats) ratio(k string, r float64) {
	if r > s.Ratio[k] {
		s.Ratio[k] = r
	}
}
func (s *Stats) seen(h uint64) {
	if len(s.Distinct) < 2_000_000 {
		s.Distinct[h] = true
	}
}

func (s *Stats) pack() {
	for h := range s.Distinct {
		s.DistinctL = append(s.DistinctL, h)
	}
	sort.Slice(s.DistinctL, func(i, j int) bool { return s.DistinctL[i] < s.DistinctL[j] })
}

func (s *Stats) merge(o *Stats) {
	s.Runs += o.Runs
	s.Steps += o.Steps
	s.Yields += o.Yields
	s.Trivial += o.Trivial
	s.MapRanges += o.MapRanges
	s.SetupFail += o.SetupFail
	s.Switches += o.Switches
	for k, v := range o.Counts {
		s.Counts[k] += v
	}
	for k, v := range o.Faults {
		s.Faults[k] += v
	}
	for k, v := range o.Ratio {
		s.ratio(k, v)
	}
	for _, h := range o.DistinctL {
		s.Distinct[h] = true
	}
	m := map[int]bool{}
	for _, x := range s.Sites {
		m[x] = true
	}
	for _, x := range o.Sites {
		m[x] = true
	}
	s.Sites = s.Sites[:0]
	for x := range m {
		s.Sites = append(s.Sites, x)
	}
	sort.Ints(s.Sites)
	if len(s.Samples) < 3 {
		s.Samples = append(s.Samples, o.Samples...)
	}
}
