package scen

import (
	"bytes"
	"encoding/hex"
	"fmt"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature/sighash"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C02", Run: runC02, Quick: 240000, Deep: 4000000,
		Files: []string{"transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go", "script/Script.go"},
		Real:  []string{"transaction, input and output parsing and serialisation", "script append operations"},
		Stub:  []string{"connections with reused receive buffers", "clock", "the program editing the parsed transactions"},
		Rule:  "a run is 1..3 connections that parse transactions out of one reused buffer each, while tasks edit scripts, serialise and scribble over what they were handed, switched at any statement; after every step all live transactions are compared with models; non-trivial: at least one edit or reuse was followed by such a comparison; distinct: hash of the event log and of the task switch order",
	})
}

type held struct {
	name string
	tx   *transaction.Transaction
	want *ref.Tx
	busy bool
}

type given struct {
	what string
	b    []byte
	want []byte
}

func runC02(s *kernel.Sim) {
	s.Heal(200_000)
	s.SwarmPreempt()
	s.Net.Swarm(s.Intn(3) == 2)
	var live []*held
	var out []*given
	src := s.NewNode("peer")

	checkAll := func(after string) {
		for _, h := range live {
			if h.busy {
				continue
			}
			if d := sameTx(h.tx, h.want); d != "" {
				s.Fail("shared-memory", "after %s, %s changed: %s", after, h.name, d)
			}
		}
		for _, g := range out {
			if !bytes.Equal(g.b, g.want) {
				s.Fail("handed-out-changed", "after %s, bytes handed out earlier (%s) changed to %s", after, g.what, short(g.b))
			}
		}
		s.Did("comparisons of everything held")
	}
	scribble := func(b []byte) {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0xa5
		}
	}

	nc := s.Range(1, 3)
	for c := 0; c < nc; c++ {
		n := s.NewNode(fmt.Sprintf("conn%d", c))
		buf := make([]byte, 0, 1<<17)
		model := []byte{} // what the buffer holds
		seen := 0
		reuse := func(b []byte) []byte {
			// one buffer for all messages: leftovers behind the message stay
			off := s.Intn(16)
			full := buf[:cap(buf)]
			if len(model) < off+len(b) {
				grown := make([]byte, off+len(b))
				copy(grown, model)
				model = grown
			}
			copy(full[off:], b)
			copy(model[off:], b)
			if s.Intn(2) == 0 {
				return full[off : off+len(b)]
			}
			return full[off : off+len(b) : off+len(b)]
		}
		bufSame := func(after string) {
			if !bytes.Equal(buf[:cap(buf)][:len(model)], model) {
				s.Fail("buffer-written", "after %s, the receive buffer of %s changed", after, n.Name)
			}
		}
		recv := func(b []byte, damaged bool) {
			if len(b) > 1<<16 {
				b = b[:1<<16]
				damaged = true
			}
			p := reuse(b)
			checkAll("reuse of the buffer of " + n.Name)
			h := &held{name: fmt.Sprintf("%s.tx%d", n.Name, seen)}
			seen++
			want, refErr := ref.Decode(b)
			how := s.Weighted(3, 2, 1)
			var err error
			switch {
			case how == 0 || refErr != nil:
				s.Call("transaction.NewFromBytes", func() { h.tx, err = transaction.NewFromBytes(p) })
			case how == 1:
				// record by record, out of the same buffer
				t := transaction.New()
				t.Version, t.Locktime = want.Version, want.Lock
				off := 4 + len(ref.VarInt(uint64(len(want.Ins))))
				for range want.Ins {
					var i *input.Input
					var k int
					s.Call("input.NewFromBytes", func() { i, k, err = input.NewFromBytes(p[off:]) })
					if err != nil {
						break
					}
					off += k
					s.Call("Transaction.AddInput", func() { t.AddInput(i) })
				}
				off += len(ref.VarInt(uint64(len(want.Outs))))
				for range want.Outs {
					var o *output.Output
					var k int
					if err == nil && off <= len(p) {
						s.Call("output.NewFromBytes", func() { o, k, err = output.NewFromBytes(p[off:]) })
					}
					if err != nil || o == nil {
						break
					}
					off += k
					s.Call("Transaction.AddOutput", func() { t.AddOutput(o) })
				}
				h.tx = t
			default:
				s.Call("transaction.NewFromString", func() { h.tx, err = transaction.NewFromString(hex.EncodeToString(p)) })
			}
			bufSame("parsing")
			if err != nil || refErr != nil || h.tx == nil || sameTx(h.tx, want) != "" {
				return // wrong or refused parses are C01's and C03's business
			}
			h.want = want
			live = append(live, h)
			if len(live) > 5 {
				live = append(live[:0:0], live[len(live)-5:]...)
			}
			checkAll("parsing " + h.name)
		}
		edit := func() {
			if len(live) == 0 {
				return
			}
			h := live[s.Intn(len(live))]
			if h.busy {
				return
			}
			h.busy = true
			// one of its scripts
			var p *script.Script
			var w *[]byte
			ni, no := len(h.tx.Inputs), len(h.tx.Outputs)
			if ni+no == 0 {
				h.busy = false
				return
			}
			k := s.Intn(ni + no)
			if k < ni {
				p, w = h.tx.Inputs[k].UnlockingScript, &h.want.Ins[k].Script
			} else {
				p, w = h.tx.Outputs[k-ni].LockingScript, &h.want.Outs[k-ni].Script
			}
			if p == nil {
				h.busy = false
				return
			}
			what := ""
			switch s.Intn(8) {
			case 0:
				op := byte(s.Intn(256))
				s.Call("Script.AppendOpCode", func() { p.AppendOpCode(op) })
				*w = append(*w, op)
				what = "AppendOpCode"
			case 1, 2:
				d := s.Bytes(1 + genLen(s, false))
				keep := append([]byte{}, d...)
				var err error
				s.Call("Script.AppendPushData", func() { err = p.AppendPushData(d) })
				s.Check(err == nil, "append-refused", "AppendPushData of %d bytes: %v", len(d), err)
				*w = append(*w, ref.Push(keep)...)
				s.Check(bytes.Equal(d, keep), "argument-written", "AppendPushData changed the data it was given")
				if s.Intn(2) == 1 {
					scribble(d) // the caller reuses the data it passed
				}
				what = "AppendPushData"
			case 3:
				d := [][]byte{s.Bytes(1 + s.Intn(90)), s.Bytes(1 + s.Intn(90))}
				e := append(ref.Push(d[0]), ref.Push(d[1])...)
				var err error
				s.Call("Script.AppendPushDataArray", func() { err = p.AppendPushDataArray(d) })
				s.Check(err == nil, "append-refused", "AppendPushDataArray: %v", err)
				*w = append(*w, e...)
				scribble(d[0])
				what = "AppendPushDataArray"
			case 4: // overwrite in place
				if len(*p) > 0 {
					i := s.Intn(len(*p))
					(*p)[i] ^= 0x5a
					(*w)[i] ^= 0x5a
				}
				what = "overwriting a script byte"
			case 5: // cut, then extend
				i := s.Intn(len(*p) + 1)
				*p = (*p)[:i]
				*w = append([]byte{}, (*w)[:i]...)
				s.Call("Script.AppendOpCode", func() { p.AppendOpCode(0xac) })
				*w = append(*w, 0xac)
				what = "cutting and extending a script"
			case 6:
				str := string(s.Bytes(1 + s.Intn(80)))
				var err error
				s.Call("Script.AppendPushDataString", func() { err = p.AppendPushDataString(str) })
				s.Check(err == nil, "append-refused", "AppendPushDataString: %v", err)
				*w = append(*w, ref.Push([]byte(str))...)
				what = "AppendPushDataString"
			case 7: // write over the spare capacity a script may have
				full := (*p)[:cap(*p)]
				for i := len(*p); i < len(full); i++ {
					full[i] ^= 0xff
				}
				what = "writing to a script's spare capacity"
			}
			h.busy = false
			s.Logf("%s on script %d of %s", what, k, h.name)
			checkAll(what + " on " + h.name)
			bufSame(what)
		}
		serialise := func() {
			if len(live) == 0 {
				return
			}
			h := live[s.Intn(len(live))]
			if h.busy {
				return
			}
			h.busy = true
			g := &given{}
			switch s.Intn(6) {
			case 0, 1:
				g.what = "Transaction.ToBytes"
				s.Call(g.what, func() { g.b = h.tx.ToBytes() })
				g.want = h.want.Encode()
			case 2:
				if len(h.tx.Inputs) > 0 {
					k := s.Intn(len(h.tx.Inputs))
					g.what = "Input.ToBytes"
					s.Call(g.what, func() { g.b = h.tx.Inputs[k].ToBytes(false) })
					g.want = h.want.Ins[k].Encode()
				}
			case 3, 4:
				if len(h.tx.Outputs) > 0 {
					k := s.Intn(len(h.tx.Outputs))
					if s.Intn(2) == 0 {
						g.what = "Output.ToBytes"
						s.Call(g.what, func() { g.b = h.tx.Outputs[k].ToBytes() })
					} else {
						g.what = "Output.GetBytesForSigHash"
						s.Call(g.what, func() { g.b = h.tx.Outputs[k].GetBytesForSigHash() })
					}
					g.want = h.want.Outs[k].Encode()
				}
			case 5:
				if len(h.tx.Inputs) > 0 {
					if h.tx.Inputs[0].PreviousTxScript == nil {
						h.tx.Inputs[0].PreviousTxScript = newScript([]byte{0x51})
					}
					g.what = "GetInputSignatureHash"
					s.Call(g.what, func() { g.b, _ = h.tx.GetInputSignatureHash(0, sighash.AllForkID) })
					g.want = append([]byte{}, g.b...)
				}
			}
			h.busy = false
			if g.what == "" {
				return
			}
			s.Check(bytes.Equal(g.b, g.want), "wrong-bytes", "%s of %s gave %s, want %s", g.what, h.name, short(g.b), short(g.want))
			checkAll(g.what)
			if s.Intn(2) == 0 {
				scribble(g.b)
				checkAll("scribbling over the result of " + g.what)
			} else {
				out = append(out, g)
				if len(out) > 6 {
					out = append(out[:0:0], out[len(out)-6:]...)
				}
			}
			bufSame(g.what)
		}
		n.OnRestart = func() { // the process forgets its buffer, not the parsed objects it passed on
			buf = make([]byte, 0, 1<<17)
			model = nil
		}
		for i, k := 0, s.Range(1, 4); i < k; i++ {
			s.Begin()
			m := genTx(s)
			at := s.Choose(150_000)
			s.End()
			if len(m.Ins)+len(m.Outs) > 2000 {
				m.Ins, m.Outs = nil, m.Outs[:min(3, len(m.Outs))]
			}
			raw := m.Encode()
			s.At(at, func() {
				s.Net.Send(src, n, "tx", raw, txDamage, recv)
			})
		}
		for i, k := 0, s.Range(2, 12); i < k; i++ {
			s.Begin()
			at := 20_000 + s.Choose(250_000)
			f, name := edit, "edit"
			if s.Intn(3) == 2 {
				f, name = serialise, "serialise"
			}
			s.At(at, func() { n.Do(name, f) })
			s.End()
		}
	}
	s.Chaos(true, false, true)
	s.RunUntil(60_000_000)
	checkAll("the run")
}
