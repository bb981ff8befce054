package scen

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C18", Run: runC18, Quick: 300000, Deep: 3000000,
		Files: []string{"transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go", "script/Script.go", "utils/ByteManipulation.go"},
		Real:  []string{"Transaction.From, AddInput, AddOutput, PayTo, ApplyUnlockingScript, InputCount, OutputCount, GetTotalOutputSatoshis, IsCoinbase, ToBytes, ToString, GetTxID", "input.New, NewFromUTXO, NewFromBytes; output.NewP2PkhFromPubKeyHash, NewP2PKHFromAddress, NewHashPuzzle, NewOpReturn, NewFromBytes"},
		Stub:  []string{"wallets and payees that send the details of a step over a network that alters, cuts, extends, repeats and reorders them", "builders that crash in a step and resume from a disk that loses and tears writes", "clock"},
		Rule:  "a run is 1..3 builders applying 4..30 steps whose details arrive over the network; non-trivial: the transaction was compared with the model after a step; distinct: hash of the event log and of the task switch order",
	})
}

// details is the text of one step, fields separated by '|'.
func details(f ...string) []byte { return []byte(strings.Join(f, "|")) }

// fieldDamage damages one field of a step's details.
func fieldDamage(s *sim, b, prev []byte) ([]byte, string) {
	f := strings.Split(string(b), "|")
	if len(f) < 2 {
		return b, "nothing"
	}
	i := 1 + s.Intn(len(f)-1)
	switch s.Weighted(5, 1, 1, 1) {
	case 1:
		f[i] = ""
		return details(f...), "field lost"
	case 2: // a field of another message
		p := strings.Split(string(prev), "|")
		if len(p) > 1 {
			f[i] = p[1+s.Intn(len(p)-1)]
		}
		return details(f...), "field of another step"
	case 3:
		if len(f[i]) > 0 { // whole bytes of hex
			n := 2 * (1 + s.Intn(3))
			if s.Intn(2) == 0 {
				f[i] = f[i][:max(0, len(f[i])-n)]
			} else {
				f[i] += strings.Repeat("0", n)
			}
		}
		return details(f...), "bytes lost or added"
	}
	x, what := kernel.TextDamage("0123456789abcdefg ")(s, []byte(f[i]), nil)
	f[i] = strings.ReplaceAll(string(x), "|", "")
	return details(f...), what
}

// heldScript is an unlocking script its maker keeps after giving it away.
type heldScript struct {
	sc   *script.Script
	want []byte
}

// builder is one party's transaction and its model.
type builder struct {
	n     *kernel.Node
	tx    *transaction.Transaction
	m     *ref.Tx
	twin  []int         // by output: the output it is the same object as
	held  []*heldScript // unlocking scripts given to the transaction
	by    map[int]int   // by input: which of them it has
	steps int
}

func (b *builder) compare(s *sim, after string) {
	t, m := b.tx, b.m
	if d := sameAll(t, m); d != "" {
		s.Fail("state", "after %s: %s", after, d)
	}
	var ni, no int
	var total uint64
	var cb bool
	var raw []byte
	var str, id string
	s.Call("InputCount", func() { ni = t.InputCount() })
	s.Call("OutputCount", func() { no = t.OutputCount() })
	s.Call("GetTotalOutputSatoshis", func() { total = t.GetTotalOutputSatoshis() })
	s.Call("IsCoinbase", func() { cb = t.IsCoinbase() })
	s.Call("ToBytes", func() { raw = t.ToBytes() })
	s.Call("ToString", func() { str = t.ToString() })
	s.Call("GetTxID", func() { id = t.GetTxID() })
	var ins []*input.Input
	var outs []*output.Output
	s.Call("GetInputs", func() { ins = t.GetInputs() })
	s.Call("GetOutputs", func() { outs = t.GetOutputs() })
	var sum uint64
	for _, o := range m.Outs {
		sum += o.Sats
	}
	wcb := len(m.Ins) == 1 && m.Ins[0].PrevID == strings.Repeat("00", 32) && (m.Ins[0].PrevIdx == 0xffffffff || m.Ins[0].Seq == 0xffffffff)
	w := m.Encode()
	switch {
	case ni != len(m.Ins) || len(ins) != ni:
		s.Fail("counts", "after %s: InputCount %d, %d inputs, want %d", after, ni, len(ins), len(m.Ins))
	case no != len(m.Outs) || len(outs) != no:
		s.Fail("counts", "after %s: OutputCount %d, %d outputs, want %d", after, no, len(outs), len(m.Outs))
	case total != sum:
		s.Fail("total", "after %s: the outputs total %d satoshis, want %d", after, total, sum)
	case cb != wcb:
		s.Fail("coinbase", "after %s: IsCoinbase says %v, want %v", after, cb, wcb)
	case !bytes.Equal(raw, w):
		s.Fail("bytes", "after %s: the transaction is %s, want %s", after, short(raw), short(w))
	case str != hex.EncodeToString(w):
		s.Fail("bytes", "after %s: ToString gives %s, want %s", after, tail(str), short(w))
	case id != m.ID():
		s.Fail("id", "after %s: the id is %s, want %s", after, id, m.ID())
	}
	for i, h := range b.held {
		if !bytes.Equal(*h.sc, h.want) {
			s.Fail("held-script", "after %s: script %d, applied to an input before, is %s, want %s", after, i, short(*h.sc), short(h.want))
		}
	}
	s.Did("states compared with the model")
}

func is32(h string) bool {
	b, err := hex.DecodeString(h)
	return err == nil && len(b) == 32
}

// twinOf names the object output i is.
func (b *builder) twinOf(i int) int {
	if i < len(b.twin) {
		return b.twin[i]
	}
	return i
}

// step applies the details d to the transaction and the model.
func (b *builder) step(s *sim, d string) {
	f := strings.Split(d, "|")
	for len(f) < 6 {
		f = append(f, "")
	}
	num := func(t string) (v uint64) {
		for _, c := range t {
			if c < '0' || c > '9' {
				return 7
			}
			v = v*10 + uint64(c-'0')
		}
		return
	}
	what := f[0]
	var err error
	ok := false // whether the step must succeed
	next := b.m.Clone()
	var o *output.Output
	twin := len(b.m.Outs)
	switch f[0] {
	case "from":
		vout, sats := uint32(num(f[2])), num(f[4])
		sc, e := hex.DecodeString(f[3])
		ok = e == nil && is32(f[1])
		s.Call("From", func() { err = b.tx.From(f[1], vout, f[3], sats) })
		next.Ins = append(next.Ins, ref.In{PrevID: f[1], PrevIdx: vout, Seq: 0xffffffff, PrevSats: sats, HasPrev: true, PrevScript: sc})
	case "utxo":
		vout, sats, seq := uint32(num(f[2])), num(f[4]), uint32(num(f[5]))
		sc, e := hex.DecodeString(f[3])
		ok = e == nil && is32(f[1])
		var in *input.Input
		s.Call("NewFromUTXO", func() { in, err = input.NewFromUTXO(f[1], vout, sats, f[3], seq) })
		if err == nil && in != nil {
			s.Call("AddInput", func() { b.tx.AddInput(in) })
		}
		next.Ins = append(next.Ins, ref.In{PrevID: f[1], PrevIdx: vout, Seq: seq, PrevSats: sats, HasPrev: true, PrevScript: sc})
	case "input": // an encoded input
		raw, e := hex.DecodeString(f[1])
		if e != nil {
			return
		}
		r := &ref.Reader{B: raw}
		in := r.In()
		ok = r.Err == nil
		var li *input.Input
		s.Call("NewFromBytes", func() { li, _, err = input.NewFromBytes(raw) })
		if err == nil && li != nil {
			s.Call("AddInput", func() { b.tx.AddInput(li) })
		}
		next.Ins = append(next.Ins, in)
	case "newinput": // a coinbase input or another, field by field
		var in *input.Input
		s.Call("input.New", func() { in = input.New() })
		in.PreviousTxID, in.PreviousTxOutIndex = strings.Repeat("00", 32), uint32(num(f[1]))
		w := ref.In{PrevID: in.PreviousTxID, PrevIdx: in.PreviousTxOutIndex, Seq: 0xffffffff}
		if v := num(f[2]); v%3 == 1 {
			in.SequenceNumber, w.Seq = 0xfffffffe, 0xfffffffe
		}
		s.Call("AddInput", func() { b.tx.AddInput(in) })
		ok = true
		next.Ins = append(next.Ins, w)
	case "payto", "toaddress":
		pkh, a := ref.P2PKHAddress(f[1])
		ok = a
		sats := num(f[2])
		if f[0] == "payto" {
			s.Call("PayTo", func() { err = b.tx.PayTo(f[1], sats) })
		} else {
			s.Call("NewP2PKHFromAddress", func() { o, err = output.NewP2PKHFromAddress(f[1], sats) })
		}
		next.Outs = append(next.Outs, ref.Out{Sats: sats, Script: ref.P2PKH(pkh)})
	case "topkh":
		pkh, e := hex.DecodeString(f[1])
		ok = e == nil && len(pkh) == 20
		sats := num(f[2])
		s.Call("NewP2PkhFromPubKeyHash", func() { o, err = output.NewP2PkhFromPubKeyHash(f[1], sats) })
		next.Outs = append(next.Outs, ref.Out{Sats: sats, Script: ref.P2PKH(pkh)})
	case "puzzle":
		pkh, e := hex.DecodeString(f[1])
		ok = e == nil && len(pkh) == 20
		sats := num(f[3])
		s.Call("NewHashPuzzle", func() { o, err = output.NewHashPuzzle(f[2], f[1], sats) })
		w := append(append([]byte{0xa9, 0x14}, ref.Hash160([]byte(f[2]))...), 0x88)
		next.Outs = append(next.Outs, ref.Out{Sats: sats, Script: append(w, ref.P2PKH(pkh)...)})
	case "data":
		ok = true
		x := append([]byte{1}, f[1]...)
		s.Call("NewOpReturn", func() { o, err = output.NewOpReturn(x) })
		next.Outs = append(next.Outs, ref.Out{Script: append([]byte{0x00, 0x6a}, ref.Push(x)...)})
	case "again": // an output the transaction has already
		if len(b.tx.Outputs) == 0 {
			return
		}
		ok = true
		i := int(num(f[1]) % uint64(len(b.tx.Outputs)))
		o = b.tx.Outputs[i]
		twin = b.twinOf(i)
		next.Outs = append(next.Outs, ref.Out{Sats: b.m.Outs[i].Sats, Script: append([]byte{}, b.m.Outs[i].Script...)})
	case "output": // an encoded output
		raw, e := hex.DecodeString(f[1])
		if e != nil {
			return
		}
		r := &ref.Reader{B: raw}
		out := r.Out()
		ok = r.Err == nil
		s.Call("NewFromBytes", func() { o, _, err = output.NewFromBytes(raw) })
		next.Outs = append(next.Outs, out)
	case "edit": // of a script added before
		var sc *script.Script
		v, i := num(f[1]), 0
		if n := uint64(len(b.m.Outs) + len(b.m.Ins)); n == 0 {
			return
		} else {
			i = int(v % n)
		}
		out := i < len(b.m.Outs)
		if out {
			sc = b.tx.Outputs[i].LockingScript
		} else {
			i -= len(b.m.Outs)
			sc = b.tx.Inputs[i].UnlockingScript
		}
		if sc == nil {
			return
		}
		ok = true
		if k := num(f[2]); k < uint64(len(*sc)) {
			(*sc)[k] ^= 0x11
		} else {
			s.Call("AppendOpCode", func() { sc.AppendOpCode(0x61) })
		}
		now := append([]byte{}, *sc...)
		if !out {
			next.Ins[i].Script = now
			if k, has := b.by[i]; has {
				// an object given twice may be shared or copied
				if b.held[k].sc == sc {
					b.held[k].want = now
				}
				for j := range next.Ins {
					if l, has := b.by[j]; has && k == l && b.tx.Inputs[j].UnlockingScript == sc {
						next.Ins[j].Script = now
					}
				}
			}
			break
		}
		for j := range next.Outs {
			if b.twinOf(j) == b.twinOf(i) && b.tx.Outputs[j].LockingScript == sc {
				next.Outs[j].Script = now
			}
		}
	case "field": // of the transaction or one of its parts, or a part taken out
		i, v := int(num(f[2])%64), num(f[3])
		no, ni := len(b.m.Outs), len(b.m.Ins)
		ok = true
		switch num(f[1]) % 8 {
		case 0, 1:
			if no == 0 {
				return
			}
			i %= no
			b.tx.Outputs[i].Satoshis = v
			for j := range next.Outs {
				if b.tx.Outputs[j] == b.tx.Outputs[i] {
					next.Outs[j].Sats = v
				}
			}
		case 2:
			if ni == 0 {
				return
			}
			b.tx.Inputs[i%ni].SequenceNumber, next.Ins[i%ni].Seq = uint32(v), uint32(v)
		case 3:
			if ni == 0 {
				return
			}
			b.tx.Inputs[i%ni].PreviousTxOutIndex, next.Ins[i%ni].PrevIdx = uint32(v), uint32(v)
		case 4:
			b.tx.Version, next.Version = uint32(v), uint32(v)
		case 5:
			b.tx.Locktime, next.Lock = uint32(v), uint32(v)
		case 6:
			if no == 0 {
				return
			}
			i %= no
			var twins []int
			for j := range b.m.Outs {
				if j != i {
					twins = append(twins, b.twinOf(j))
				}
			}
			b.twin = twins
			b.tx.Outputs = append(b.tx.Outputs[:i], b.tx.Outputs[i+1:]...)
			next.Outs = append(next.Outs[:i:i], next.Outs[i+1:]...)
		case 7:
			if ni == 0 {
				return
			}
			i %= ni
			by := map[int]int{}
			for j, k := range b.by {
				if j < i {
					by[j] = k
				} else if j > i {
					by[j-1] = k
				}
			}
			b.by = by
			b.tx.Inputs = append(b.tx.Inputs[:i], b.tx.Inputs[i+1:]...)
			next.Ins = append(next.Ins[:i:i], next.Ins[i+1:]...)
		}
	case "unlock":
		i := uint32(num(f[1]))
		raw, e := hex.DecodeString(f[2])
		var sc *script.Script
		again := -1
		if v := num(f[3]); e == nil && v%4 == 3 && len(b.held) > 0 { // one applied before
			again = int(v/4) % len(b.held)
			sc, raw = b.held[again].sc, append([]byte{}, b.held[again].want...)
		} else if e == nil && v%8 == 6 { // none: takes a script back
			raw = nil
		} else {
			s.Call("NewFromHexString", func() { sc, err = script.NewFromHexString(f[2]) })
		}
		ok = e == nil && int64(i) < int64(len(b.m.Ins))
		if err == nil {
			s.Call("ApplyUnlockingScript", func() { err = b.tx.ApplyUnlockingScript(i, sc) })
		}
		if sc == nil && err != nil {
			ok = false // may be refused
		} else if ok && sc == nil {
			next.Ins[i].Script = nil
			delete(b.by, int(i))
			s.Did("unlocking scripts taken back")
		} else if ok {
			next.Ins[i].Script = raw
			if again < 0 {
				again = len(b.held)
				b.held = append(b.held, &heldScript{sc, raw})
			}
			if b.by == nil {
				b.by = map[int]int{}
			}
			b.by[int(i)] = again
		}
	}
	if err == nil && o != nil {
		s.Call("AddOutput", func() { b.tx.AddOutput(o) })
	}
	if ok != (err == nil) {
		if ok {
			s.Fail("refused", "the step %s is refused: %v", tail(d), err)
		}
		s.Fail("accepted", "the step %s succeeds although its details are malformed", tail(d))
	}
	if ok {
		if len(next.Outs) > len(b.m.Outs) {
			for len(b.twin) < len(b.m.Outs) {
				b.twin = append(b.twin, len(b.twin))
			}
			b.twin = append(b.twin, twin)
		}
		b.m = next
		b.steps++
		s.Count("steps taken")
	} else {
		what = "the refused " + what
		s.Count("steps refused")
	}
	b.compare(s, what)
}

func genStep(s *sim, ins int) []byte {
	num := func(v uint64) string { return fmt.Sprint(v) }
	sats := func() string {
		if s.Intn(3) == 0 {
			return num(genSats(s))
		}
		return num(uint64(s.Intn(100000)))
	}
	net := func() byte { return []byte{0x00, 0x6f}[s.Intn(2)] }
	pkh := func() []byte { return keyAt(s.Intn(nKeys)).pkh }
	switch s.Weighted(4, 2, 1, 1, 4, 2, 2, 1, 1, 2, 4, 1, 2, 2) {
	case 0, 1:
		f := []string{"from", genTxID(s), num(uint64(s.U32())), hex.EncodeToString(genScript(s, false)), sats()}
		if s.Intn(8) == 7 {
			f[1] = strings.ToUpper(f[1])
		}
		if s.Intn(3) == 2 {
			f[0] = "utxo"
			f = append(f, num(uint64(genSeq(s))))
		}
		return details(f...)
	case 2:
		in := ref.In{PrevID: genTxID(s), PrevIdx: s.U32(), Script: genScript(s, false), Seq: genSeq(s)}
		return details("input", hex.EncodeToString(in.Encode()))
	case 3:
		return details("newinput", num([]uint64{0xffffffff, 0, 1, 0xfffffffe}[s.Intn(4)]), num(uint64(s.Intn(3))))
	case 4:
		return details("payto", ref.CheckEncode(net(), pkh()), sats())
	case 5:
		return details("toaddress", ref.CheckEncode(net(), pkh()), sats())
	case 6:
		return details("topkh", hex.EncodeToString(pkh()), sats())
	case 7:
		return details("puzzle", hex.EncodeToString(pkh()), fmt.Sprint("secret", s.Intn(5)), sats())
	case 8:
		return details("data", strings.Repeat("x", genLen(s, false)))
	case 9:
		o := ref.Out{Sats: genSats(s), Script: genScript(s, false)}
		return details("output", hex.EncodeToString(o.Encode()))
	case 13:
		v := []string{sats(), "0", num(uint64(s.U32())), "4294967295"}[s.Intn(4)]
		return details("field", num(uint64(s.Intn(8))), num(uint64(s.Intn(40))), v)
	case 12:
		return details("edit", num(uint64(s.Intn(40))), num(uint64(s.Intn(60))))
	case 11:
		return details("again", num(uint64(s.Intn(8))))
	}
	i := uint64(s.Intn(ins + 2))
	if s.Intn(6) == 5 {
		i = []uint64{uint64(ins), uint64(ins) + 1, 0x7fffffff, 0x80000000, 0xffffffff}[s.Intn(5)]
	}
	return details("unlock", num(i), hex.EncodeToString(genScript(s, false)), num(uint64(s.Intn(32))))
}

func runC18(s *kernel.Sim) {
	s.Heal(200_000)
	s.Net.Swarm(true)
	s.SwarmPreempt()
	wallet := s.NewNode("wallet")
	var bs []*builder
	newTx := func() (t *transaction.Transaction) {
		s.Call("transaction.New", func() { t = transaction.New() })
		return
	}
	for i, n := 0, s.Range(1, 3); i < n; i++ {
		b := &builder{n: s.NewNode(fmt.Sprintf("builder%d", i))}
		b.tx, b.m = newTx(), &ref.Tx{Version: 1}
		if s.Intn(500) == 499 { // built up long before
			n := 250 + s.Intn(10)
			s.Call("AddInput, AddOutput", func() {
				for i := 0; i < n; i++ {
					in := ref.In{PrevID: strings.Repeat("1f", 32), PrevIdx: uint32(i), Seq: uint32(i), PrevSats: 1, HasPrev: true, PrevScript: ref.P2PKH(keyAt(1).pkh)}
					out := ref.Out{Sats: uint64(i) << 20, Script: ref.P2PKH(keyAt(i % nKeys).pkh)}
					b.m.Ins, b.m.Outs = append(b.m.Ins, in), append(b.m.Outs, out)
					b.tx.AddInput(libIn(&in))
					b.tx.AddOutput(libOut(&out))
				}
			})
			s.Probe("about 256 inputs and outputs")
		}
		b.compare(s, "New")
		b.n.OnRestart = func() {
			// memory is lost: go on from what the disk has
			b.tx, b.m, b.twin, b.held, b.by = newTx(), &ref.Tx{Version: 1}, nil, nil, nil
			raw, ok := b.n.Disk.Read("tx")
			if !ok {
				return
			}
			w, derr := ref.Decode(raw)
			var t *transaction.Transaction
			var err error
			s.Call("NewFromBytes", func() { t, err = transaction.NewFromBytes(raw) })
			s.Check((derr == nil) == (err == nil), "reload", "reloading %s gives error %v, want %v", short(raw), err, derr)
			if err != nil {
				s.Probe("torn transaction refused after a crash")
				return
			}
			b.tx, b.m = t, w
			b.compare(s, "a restart")
			s.Probe("transaction reloaded after a crash")
		}
		bs = append(bs, b)
	}
	for k, n := 0, long(s, 4+s.Intn(27)); k < n; k++ {
		s.Begin()
		b := bs[s.Intn(len(bs))]
		at := s.Choose(180_000)
		s.End()
		s.At(at, func() {
			d := genStep(s, len(b.m.Ins))
			s.Net.Send(wallet, b.n, "step", d, fieldDamage, func(d []byte, damaged bool) {
				b.step(s, string(d))
				s.Logf("%s %s", b.n.Name, tail(string(d)))
				if s.Intn(3) == 2 {
					b.n.Disk.Write("tx", b.m.Encode())
					if s.Intn(2) == 1 {
						b.n.Disk.Sync()
					}
				}
			})
		})
	}
	s.Chaos(true, true, true)
	s.RunUntil(s.Healed())
	before := map[*builder]int{}
	for _, b := range bs {
		before[b] = b.steps
		d := details("payto", ref.CheckEncode(0, keyAt(1).pkh), "1000")
		s.Net.Send(wallet, b.n, "step", d, nil, func(d []byte, _ bool) { b.step(s, string(d)) })
	}
	s.RunUntil(s.Now() + 60_000_000)
	for _, b := range bs {
		s.Check(b.steps > before[b], "no-progress", "%s took no step although faults stopped", b.n.Name)
	}
}
