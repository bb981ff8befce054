package kernel

// Node is a party: a mailbox handled one message at a time, and a disk.
type Node struct {
	s         *Sim
	Name      string
	up        bool
	epoch     int
	box       []job
	busy      bool
	slow      int
	Disk      *Disk
	OnRestart func()
}

type job struct {
	name string
	fn   func()
}

// NewNode adds a party.
func (s *Sim) NewNode(name string) *Node {
	n := &Node{s: s, Name: name, up: true, slow: 1, Disk: &Disk{s: s, dur: map[string][]byte{}}}
	s.nodes = append(s.nodes, n)
	return n
}

// Up tells whether the node is running.
func (n *Node) Up() bool { return n.up }

// Do queues work on the node; it is lost if the node is down or crashes first.
func (n *Node) Do(name string, fn func()) {
	if !n.up {
		return
	}
	n.box = append(n.box, job{name, fn})
	n.pump()
}

func (n *Node) pump() {
	if n.busy || len(n.box) == 0 || !n.up {
		return
	}
	j := n.box[0]
	n.box = n.box[1:]
	n.busy = true
	ep := n.epoch
	t := n.s.Go(n, n.Name+"/"+j.name, j.fn, func() {
		if n.epoch == ep {
			n.busy = false
			n.pump()
		}
	})
	if n.s.cur != nil {
		n.s.After(0, func() { n.s.slice(t) })
	} else {
		n.s.slice(t)
	}
}

// After runs fn on the node after d microseconds unless it crashed meanwhile.
func (n *Node) After(d uint64, name string, fn func()) {
	ep := n.epoch
	n.s.After(d, func() {
		if n.epoch == ep {
			n.Do(name, fn)
		}
	})
}

// Crash loses everything that is not durable, at once, also in the middle of a
// handler.
func (n *Node) Crash() {
	if !n.up {
		return
	}
	n.s.Logf("CRASH %s%s", n.Name, map[bool]string{true: " in the middle of a handler"}[n.busy])
	n.s.Fault("crash")
	if n.busy {
		n.s.Probe("crash inside a handler")
	}
	n.s.endCalls(n)
	n.up = false
	n.epoch++
	n.box = nil
	n.busy = false
	n.Disk.crash()
}

// Restart starts the node again from its durable state.
func (n *Node) Restart() {
	if n.up {
		return
	}
	n.up = true
	n.s.Logf("RESTART %s", n.Name)
	n.s.Fault("restart")
	if n.OnRestart != nil {
		n.Do("restart", n.OnRestart)
	}
}

// Disk keeps byte strings by name. A write is durable after Sync; before, a
// crash may lose or tear it.
type Disk struct {
	s    *Sim
	dur  map[string][]byte
	pend []write
	Full bool
}

type write struct {
	key  string
	data []byte
}

// Write stores data under a name; false means the disk refused it.
func (d *Disk) Write(key string, data []byte) bool {
	if d.Full && d.s.Faulty() {
		d.s.Fault("disk full")
		return false
	}
	d.pend = append(d.pend, write{key, append([]byte{}, data...)})
	return true
}

// Sync makes the writes so far durable.
func (d *Disk) Sync() {
	for _, w := range d.pend {
		d.dur[w.key] = w.data
	}
	d.pend = nil
}

// Read returns what a read sees now: the last write, synced or not.
func (d *Disk) Read(key string) ([]byte, bool) {
	for i := len(d.pend) - 1; i >= 0; i-- {
		if d.pend[i].key == key {
			return append([]byte{}, d.pend[i].data...), true
		}
	}
	b, ok := d.dur[key]
	return append([]byte{}, b...), ok
}

func (d *Disk) crash() {
	for _, w := range d.pend {
		switch d.s.Intn(3) {
		case 0: // survived by luck
			d.dur[w.key] = w.data
		case 1:
			d.s.Fault("lost write")
		case 2:
			n := d.s.Intn(len(w.data) + 1)
			d.s.Fault("torn write")
			d.s.Logf("torn write %s %d of %d bytes", w.key, n, len(w.data))
			d.dur[w.key] = w.data[:n]
		}
	}
	d.pend = nil
}

// Net is the only transport between nodes.
type Net struct {
	s        *Sim
	cut      map[[2]*Node]bool
	Drop     int // chances in 1000
	Dup      int
	Damage   int
	MaxDelay int // microseconds
	prev     []byte
}

// Swarm chooses which faults the network has in this run, and how often.
func (n *Net) Swarm(damage bool) {
	s := n.s
	rates := []int{0, 20, 100, 300}
	n.Drop = rates[s.Intn(4)]
	n.Dup = rates[s.Intn(4)]
	if damage {
		n.Damage = []int{0, 100, 300, 600}[s.Intn(4)]
	}
	n.MaxDelay = []int{10, 1000, 20000, 100000}[s.Intn(4)]
}

// Damager alters a message; it returns the altered copy and what was done.
type Damager func(s *Sim, b, prev []byte) ([]byte, string)

// Send carries b to a node, perhaps late, twice, damaged or never.
func (n *Net) Send(from, to *Node, kind string, b []byte, dam Damager, deliver func(b []byte, damaged bool)) {
	s := n.s
	s.Begin()
	defer s.End()
	s.Stats.Msgs++
	b = append([]byte{}, b...)
	if !s.Faulty() {
		s.After(100, func() { n.arrive(from, to, kind, b, false, deliver) })
		return
	}
	copies := 1
	if s.Chance(n.Drop, 1000) {
		s.Fault("drop")
		s.Logf("net drop %s %s>%s", kind, from.Name, to.Name)
		copies = 0
	} else if s.Chance(n.Dup, 1000) {
		s.Fault("duplicate")
		copies = 2
	}
	for i := 0; i < copies; i++ {
		c, damaged := b, false
		if dam != nil && s.Chance(n.Damage, 1000) {
			var what string
			c, what = dam(s, append([]byte{}, b...), n.prev)
			damaged = string(c) != string(b)
			if damaged {
				s.Fault("damage: " + what)
				s.Logf("net damage %s %s>%s: %s (%d to %d bytes)", kind, from.Name, to.Name, what, len(b), len(c))
			}
		}
		d := uint64(50)
		if n.MaxDelay > 0 {
			d += s.Choose(uint64(n.MaxDelay))
		}
		s.After(d, func() { n.arrive(from, to, kind, c, damaged, deliver) })
	}
	n.prev = b
}

func (n *Net) arrive(from, to *Node, kind string, b []byte, damaged bool, deliver func([]byte, bool)) {
	s := n.s
	if n.cut[[2]*Node{from, to}] {
		s.Fault("partition loss")
		return
	}
	if !to.up {
		s.Fault("lost at stopped node")
		return
	}
	to.Do(kind, func() { deliver(b, damaged) })
}

// Chaos schedules crashes, restarts, partitions, slow nodes and full disks
// until faults stop, when everything is restarted and healed.
func (s *Sim) Chaos(crash, part, slow bool) {
	end := s.healed
	if end == 0 {
		return
	}
	if crash {
		for i, k := 0, s.Intn(4); i < k; i++ {
			s.Begin()
			n := s.nodes[s.Intn(len(s.nodes))]
			at := s.Choose(end)
			down := s.Choose(end / 2)
			s.End()
			s.At(at, n.Crash)
			if at+down < end {
				s.At(at+down, n.Restart)
			}
		}
	}
	if part && len(s.nodes) > 1 {
		for i, k := 0, s.Intn(3); i < k; i++ {
			s.Begin()
			a := s.nodes[s.Intn(len(s.nodes))]
			b := s.nodes[s.Intn(len(s.nodes))]
			both := s.Intn(2) == 0
			at := s.Choose(end)
			d := s.Choose(end / 2)
			s.End()
			if a == b {
				continue
			}
			s.At(at, func() {
				s.Logf("PARTITION %s>%s both=%v", a.Name, b.Name, both)
				s.Fault("partition")
				s.Net.cut[[2]*Node{a, b}] = true
				if both {
					s.Net.cut[[2]*Node{b, a}] = true
				}
			})
			s.At(at+d, func() {
				delete(s.Net.cut, [2]*Node{a, b})
				delete(s.Net.cut, [2]*Node{b, a})
			})
		}
	}
	if slow && s.Intn(4) == 3 {
		n := s.nodes[s.Intn(len(s.nodes))]
		n.slow = 1 + s.Intn(50)
		s.Fault("slow node")
	}
	s.At(end, func() {
		s.Net.cut = map[[2]*Node]bool{}
		for _, n := range s.nodes {
			n.slow = 1
			n.Disk.Full = false
		}
		s.Logf("HEAL")
		for _, n := range s.nodes {
			n.Restart()
		}
	})
}
