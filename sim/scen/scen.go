// Package scen holds one simulated system per property.
package scen

import (
	"verif.local/sim/kernel"
)

// Scenario decides one property.
type Scenario struct {
	ID    string
	Run   func(s *kernel.Sim)
	Race  bool     // also run under the race detector
	Quick int      // runs in the quick tier
	Deep  int      // runs in the thorough tier
	Files []string // anchored files, for the coverage report
	Real  []string
	Stub  []string
	Rule  string // what makes two runs distinct and a run non-trivial
}

// All lists the scenarios by property id.
var All = map[string]*Scenario{}

func register(s *Scenario) { All[s.ID] = s }
