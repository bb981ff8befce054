package kernel

// Stats adds up what a batch of runs did.
type Stats struct {
	Runs     int64
	Calls    int64
	Tasks    int64
	Switches int64
	Msgs     int64
	Events   int64
	SimUs    int64
	Choices  int64
	Count    map[string]int64
	Faults   map[string]int64
	Probes   map[string]int64
}

func NewStats() *Stats {
	return &Stats{Count: map[string]int64{}, Faults: map[string]int64{}, Probes: map[string]int64{}}
}

// Add accumulates o.
func (s *Stats) Add(o *Stats) {
	s.Runs += o.Runs
	s.Calls += o.Calls
	s.Tasks += o.Tasks
	s.Switches += o.Switches
	s.Msgs += o.Msgs
	s.Events += o.Events
	s.SimUs += o.SimUs
	s.Choices += o.Choices
	for k, v := range o.Count {
		s.Count[k] += v
	}
	for k, v := range o.Faults {
		s.Faults[k] += v
	}
	for k, v := range o.Probes {
		s.Probes[k] += v
	}
}
