package scen

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/libsv/libsv/transaction"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C01", Run: runC01, Quick: 16000, Deep: 200000,
		Files: []string{"transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go", "utils/VarInt.go", "utils/ByteManipulation.go"},
		Real:  []string{"transaction.NewFromBytes, NewFromString, ToBytes, ToString, GetTxID, IsCoinbase", "input and output parsing and serialisation", "VarInt"},
		Stub:  []string{"network", "disks of the relaying nodes", "clock", "relay protocol (store, forward, acknowledge, retransmit)"},
		Rule:  "a run is one network of 2..5 parties passing 1..4 transactions along a chain of relays; non-trivial: at least one transaction was parsed and checked; distinct: hash of the whole event log and of the task switch order",
	})
}

// runC01 passes transactions along a chain of relays that parse what they
// receive, keep it, serialise it again and pass it on.
func runC01(s *kernel.Sim) {
	damage := s.Intn(3) > 0
	s.Heal(400_000)
	s.Net.Swarm(damage)
	s.SwarmPreempt()
	hops := s.Range(2, 5)
	var nodes []*kernel.Node
	for i := 0; i < hops; i++ {
		nodes = append(nodes, s.NewNode(fmt.Sprintf("n%d", i)))
	}
	type sent struct {
		model *ref.Tx
		raw   []byte
		id    string
		text  bool
	}
	var txs []*sent
	for i, n := 0, s.Range(1, 4); i < n; i++ {
		s.Begin()
		x := &sent{model: genTx(s)}
		x.raw = x.model.Encode()
		x.id = x.model.ID()
		x.text = s.Intn(3) == 2
		s.End()
		txs = append(txs, x)
	}
	s.Chaos(true, true, true)

	// memory and disk of each node: which transactions it holds, as objects
	type state struct {
		have  map[int]*transaction.Transaction
		acked map[int]bool // by the next hop
	}
	mem := make([]*state, hops)
	for i := range mem {
		mem[i] = &state{map[int]*transaction.Transaction{}, map[int]bool{}}
	}

	// oracle: parse returns what the bytes denote, or an error
	parse := func(who string, b []byte, text, damaged bool) *transaction.Transaction {
		var t *transaction.Transaction
		var err error
		want, refErr := (*ref.Tx)(nil), error(nil)
		if text {
			s.Call("transaction.NewFromString", func() { t, err = transaction.NewFromString(string(b)) })
			if raw, e := hex.DecodeString(string(b)); e != nil {
				refErr = e
			} else {
				want, refErr = ref.Decode(raw)
			}
		} else {
			in := append([]byte{}, b...)
			s.Call("transaction.NewFromBytes", func() { t, err = transaction.NewFromBytes(in) })
			s.Check(bytes.Equal(in, b), "input-changed", "parsing changed the received bytes")
			want, refErr = ref.Decode(b)
		}
		switch {
		case err != nil && !damaged:
			s.Fail("refused-intact", "%s refused an intact transaction of %d bytes: %v", who, len(b), err)
		case err != nil:
			s.Count("damaged deliveries refused")
			return nil
		case refErr != nil:
			s.Fail("accepted-malformed", "%s accepted %d bytes that are not a transaction (%v)", who, len(b), refErr)
		}
		if d := sameTx(t, want); d != "" {
			s.Fail("wrong-fields", "%s rebuilt another transaction than the bytes denote: %s", who, d)
		}
		if damaged {
			s.Probe("a damaged delivery still denotes a transaction")
		}
		s.Did("transactions parsed and compared")
		var again []byte
		s.Call("Transaction.ToBytes", func() { again = t.ToBytes() })
		if !bytes.Equal(again, want.Encode()) {
			s.Fail("wrong-bytes", "%s serialised the parsed transaction to other bytes", who)
		}
		var id, str string
		s.Call("Transaction.GetTxID", func() { id = t.GetTxID() })
		if id != want.ID() {
			s.Fail("wrong-id", "%s: transaction id %s, want %s", who, id, want.ID())
		}
		s.Call("Transaction.ToString", func() { str = t.ToString() })
		if str != hex.EncodeToString(again) {
			s.Fail("wrong-bytes", "%s: ToString differs from ToBytes", who)
		}
		return t
	}

	var forward func(k, i int)
	send := func(k, i int) {
		if k+1 >= hops || mem[k].acked[i] || mem[k].have[i] == nil {
			return
		}
		t := mem[k].have[i]
		var b []byte
		dam := kernel.Damager(txDamage)
		if txs[i].text {
			var str string
			s.Call("Transaction.ToString", func() { str = t.ToString() })
			b = []byte(str)
			dam = hexDamage
		} else {
			s.Call("Transaction.ToBytes", func() { b = t.ToBytes() })
		}
		s.Net.Send(nodes[k], nodes[k+1], fmt.Sprintf("tx%d", i), b, dam, func(b []byte, damaged bool) {
			got := parse(nodes[k+1].Name, b, txs[i].text, damaged)
			if got == nil {
				return
			}
			var id string
			s.Call("Transaction.GetTxID", func() { id = got.GetTxID() })
			if id != txs[i].id {
				return // some other transaction: not the one announced
			}
			n := nodes[k+1]
			if mem[k+1].have[i] == nil {
				var raw []byte
				s.Call("Transaction.ToBytes", func() { raw = got.ToBytes() })
				if n.Disk.Write(fmt.Sprint(i), raw) {
					n.Disk.Sync()
				}
				mem[k+1].have[i] = got
				s.Logf("%s holds tx%d %s", n.Name, i, id[:8])
				forward(k+1, i)
			}
			s.Net.Send(n, nodes[k], fmt.Sprintf("ack%d", i), nil, nil, func([]byte, bool) { mem[k].acked[i] = true })
		})
	}
	forward = func(k, i int) {
		if k+1 >= hops || mem[k].acked[i] {
			return
		}
		send(k, i)
		nodes[k].After(30_000+uint64(len(txs[i].raw))/100, fmt.Sprintf("retry%d", i), func() { forward(k, i) })
	}
	for k := range nodes {
		k := k
		nodes[k].OnRestart = func() {
			mem[k] = &state{map[int]*transaction.Transaction{}, map[int]bool{}}
			for i := range txs {
				if b, ok := nodes[k].Disk.Read(fmt.Sprint(i)); ok {
					_, bad := ref.Decode(b)
					if t := parse(nodes[k].Name+" (disk)", b, false, bad != nil || !bytes.Equal(b, txs[i].raw)); t != nil {
						var id string
						s.Call("Transaction.GetTxID", func() { id = t.GetTxID() })
						if id == txs[i].id {
							mem[k].have[i] = t
							forward(k, i)
						}
					}
				}
			}
		}
	}
	// the first node builds the transactions and writes them down
	nodes[0].Do("build", func() {
		for i, x := range txs {
			t := toLib(x.model)
			var b []byte
			s.Call("Transaction.ToBytes", func() { b = t.ToBytes() })
			s.Check(bytes.Equal(b, x.raw), "wrong-bytes", "a built transaction serialises to %s, want %s", short(b), short(x.raw))
			mem[0].have[i] = t
		}
	})
	for i, x := range txs {
		nodes[0].Disk.Write(fmt.Sprint(i), x.raw)
	}
	nodes[0].Disk.Sync()
	nodes[0].Do("start", func() {
		for i := range txs {
			forward(0, i)
		}
	})
	s.RunUntil(s.Healed() + 120_000_000)
	// liveness: after faults stopped every transaction reached the last node
	for i, x := range txs {
		t := mem[hops-1].have[i]
		s.Check(t != nil, "no-progress", "tx%d did not reach the last node although faults stopped", i)
		d := sameTx(t, x.model)
		s.Check(d == "", "wrong-after-hops", "tx%d after %d hops: %s", i, hops-1, d)
	}
}

// txDamage damages a serialised transaction: anywhere, or exactly in one of
// its length fields.
func txDamage(s *kernel.Sim, b, prev []byte) ([]byte, string) {
	if s.Intn(3) == 2 {
		if c, what := lengthDamage(s, b); what != "" {
			return c, what
		}
	}
	return kernel.BytesDamage(s, b, prev)
}

// lengthDamage rewrites one count or script length of a transaction, making
// it hostile, off by one or encoded in more bytes than needed.
func lengthDamage(s *kernel.Sim, b []byte) ([]byte, string) {
	type field struct{ off, size int }
	var fs []field
	r := &ref.Reader{B: b, Off: 4}
	mark := func() uint64 {
		o := r.Off
		v := r.VarInt()
		if r.Err == nil {
			fs = append(fs, field{o, r.Off - o})
		}
		return v
	}
	for n := mark(); n > 0 && r.Err == nil && len(fs) < 60; n-- {
		r.Take(36)
		r.Take(mark())
		r.Take(4)
	}
	for n := mark(); n > 0 && r.Err == nil && len(fs) < 90; n-- {
		r.Take(8)
		r.Take(mark())
	}
	if len(fs) == 0 {
		return nil, ""
	}
	f := fs[s.Intn(len(fs))]
	return varintDamage(s, b, f.off, f.size)
}

func varintDamage(s *kernel.Sim, b []byte, off, size int) ([]byte, string) {
	v := (&ref.Reader{B: b, Off: off}).VarInt()
	var e []byte
	what := "hostile length"
	switch s.Intn(4) {
	case 0: // same value, longer encoding
		what = "long-winded length"
		switch {
		case s.Intn(2) == 0 && v <= 0xffff:
			e = []byte{0xfd, byte(v), byte(v >> 8)}
		case s.Intn(2) == 0 && v <= 0xffffffff:
			e = []byte{0xfe, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
		default:
			e = []byte{0xff, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), 0, 0, 0, 0}
		}
	case 1: // off by a little
		e = ref.VarInt(v + uint64([]int64{1, 2, 4, -1, -2, 8, 36, 40}[s.Intn(8)]))
		what = "length off"
	case 2: // huge
		h := []uint64{0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 4, 1<<64 - 36, 1<<64 - 40, 1<<64 - 41, 1<<63 - 41, -uint64(off), -uint64(off + size)}
		e = ref.VarInt(h[s.Intn(len(h))])
	case 3: // only the marker changes
		e = append([]byte{[]byte{0xfd, 0xfe, 0xff}[s.Intn(3)]}, b[off+1:off+size]...)
	}
	c := append([]byte{}, b[:off]...)
	c = append(c, e...)
	if s.Intn(4) == 3 { // and nothing follows
		return c[:len(c)-s.Intn(len(e))], what + ", cut there"
	}
	return append(c, b[off+size:]...), what
}

// hexDamage damages the hex text of a transaction.
func hexDamage(s *kernel.Sim, b, prev []byte) ([]byte, string) {
	if s.Intn(2) == 0 {
		raw, err := hex.DecodeString(string(b))
		if err == nil {
			c, what := txDamage(s, raw, nil)
			return []byte(hex.EncodeToString(c)), what
		}
	}
	if s.Intn(8) == 7 {
		return []byte(strings.ToUpper(string(b))), "upper case"
	}
	return kernel.TextDamage("0123456789abcdefABCDEF gx")(s, b, prev)
}
