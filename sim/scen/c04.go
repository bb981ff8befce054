package scen

import (
	"bytes"
	"fmt"

	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C04", Run: runC04, Quick: 50000, Deep: 800000,
		Files: []string{"transaction/signature/InternalSigner.go", "transaction/SignatureHash.go", "transaction/Transaction.go", "script/UnlockingScript.go"},
		Real:  []string{"Transaction.Sign, SignAuto, ApplyUnlockingScript", "signature.InternalSigner", "GetInputSignatureHash", "transaction parsing and serialisation", "script.NewP2PKHUnlockingScript"},
		Stub:  []string{"network", "disks of coordinator and signers", "wallets (who owns which outpoint)", "clock"},
		Rule:  "a run is one coordinator and 1..4 signers completing one transaction over a faulty network; non-trivial: at least one signature was verified against the reference signature hash; distinct: hash of the event log and of the task switch order",
	})
}

func runC04(s *kernel.Sim) {
	damage := s.Intn(3) == 2
	s.Heal(300_000)
	s.Net.Swarm(damage)
	s.SwarmPreempt()
	np := s.Range(1, 4)
	coord := s.NewNode("coordinator")
	type party struct {
		*kernel.Node
		k    *key
		flag byte
		auto bool
		dflt bool // flag left 0 in the signer: ALL|FORKID
		sg   *signature.InternalSigner
	}
	var ps []*party
	for i := 0; i < np; i++ {
		p := &party{Node: s.NewNode(fmt.Sprintf("signer%d", i)), k: keyAt(s.Intn(nKeys)), flag: flags[s.Intn(len(flags))], auto: s.Intn(2) == 1}
		for _, q := range ps {
			if q.k == p.k {
				p.k = keyAt(nKeys + i) // one key per party
			}
		}
		if s.Intn(4) == 3 {
			p.dflt, p.flag = true, 0x41
		}
		p.sg = &signature.InternalSigner{PrivateKey: p.k.priv, SigHashFlag: sighash.Flag(p.flag)}
		if p.dflt {
			p.sg.SigHashFlag = 0
		}
		ps = append(ps, p)
	}
	// who owns which input; -1: somebody outside, signed or not, to be left alone
	var owner []int
	var owners []*key
	ni := 1 + s.Intn(6)
	if s.Intn(60) == 59 {
		ni = 252 + s.Intn(70)
		s.Probe("more than 251 inputs")
	}
	for i := 0; i < ni; i++ {
		o := s.Intn(np+1) - 1
		if i == 0 || i > 8 {
			o = 0
			if i > 8 && i < ni-2 {
				o = -1
			}
		}
		owner = append(owner, o)
		if o < 0 {
			owners = append(owners, nil)
		} else {
			owners = append(owners, ps[o].k)
		}
	}
	m := genSpend(s, owners, s.Intn(7))
	if ni > 250 && s.Intn(2) == 1 {
		fillOuts(m, ni-2+s.Intn(4))
	}
	wallet := make([]map[string]int, np) // outpoint to input number
	for i := range wallet {
		wallet[i] = map[string]int{}
	}
	point := func(i *ref.In) string { return fmt.Sprintf("%s:%d", i.PrevID, i.PrevIdx) }
	for i := range m.Ins {
		if o := owner[i]; o >= 0 {
			m.Ins[i].Script = nil
			wallet[o][point(&m.Ins[i])] = i
		}
	}
	relay := s.Intn(2) == 1 // pass the transaction along, or star
	bySc := s.Intn(2) == 1  // star: return only the unlocking scripts
	s.Chaos(true, true, true)

	// sign is one signer's handler: b is a transaction to sign.
	sign := func(pi int, b []byte, damaged bool) (*transaction.Transaction, *ref.Tx) {
		p := ps[pi]
		var t *transaction.Transaction
		var err error
		s.Call("transaction.NewFromBytes", func() { t, err = transaction.NewFromBytes(b) })
		got, refErr := ref.Decode(b)
		if err != nil || refErr != nil {
			s.Check(damaged, "refused-intact", "%s cannot read an intact transaction: %v", p.Name, err)
			return nil, nil
		}
		if sameTx(t, got) != "" {
			return nil, nil // C01's business
		}
		if s.Intn(3) == 2 { // as if built with Transaction.From, not parsed
			for _, in := range t.Inputs {
				if len(bytesOf(in.UnlockingScript)) == 0 {
					in.UnlockingScript = nil
				}
			}
		}
		var mine []int
		for i := range got.Ins {
			if k, ok := wallet[pi][point(&got.Ins[i])]; ok {
				w := &m.Ins[k]
				got.Ins[i].HasPrev, got.Ins[i].PrevScript, got.Ins[i].PrevSats = true, w.PrevScript, w.PrevSats
				t.Inputs[i].PreviousTxScript, t.Inputs[i].PreviousTxSatoshis = newScript(w.PrevScript), w.PrevSats
				mine = append(mine, i)
			}
		}
		if p.auto {
			s.Call("Transaction.SignAuto", func() { err = t.SignAuto(p.sg) })
			s.Check(err == nil, "sign-refused", "%s: SignAuto: %v", p.Name, err)
		} else {
			for _, x := range s.Perm(len(mine)) {
				i := mine[x]
				s.Call("Transaction.Sign", func() { err = t.Sign(uint32(i), p.sg) })
				s.Check(err == nil, "sign-refused", "%s: Sign(%d): %v", p.Name, i, err)
			}
		}
		s.Check(len(t.Inputs) == len(got.Ins), "wrong-fields", "%s: signing left %d of %d inputs", p.Name, len(t.Inputs), len(got.Ins))
		for _, i := range mine {
			sc := append([]byte{}, bytesOf(t.Inputs[i].UnlockingScript)...)
			if d := checkUnlock(got, i, sc, p.k, p.flag); d != "" {
				s.Fail("bad-signature", "%s, input %d: %s", p.Name, i, d)
			}
			s.Did("signatures verified")
			got.Ins[i].Script = sc
		}
		if d := sameAll(t, got); d != "" {
			s.Fail("signing-changed", "%s: signing changed something else: %s", p.Name, d)
		}
		s.Check(p.sg.PrivateKey == p.k.priv && (p.sg.SigHashFlag == sighash.Flag(p.flag) || p.dflt && p.sg.SigHashFlag == 0), "signer-changed", "%s: signing changed the signer", p.Name)
		s.Logf("%s signed %d inputs", p.Name, len(mine))
		return t, got
	}

	// coordinator
	var cur *transaction.Transaction
	have := map[int]bool{}
	attach := func() {
		for i, in := range cur.Inputs {
			if i < len(m.Ins) && owner[i] >= 0 {
				in.PreviousTxScript, in.PreviousTxSatoshis = newScript(m.Ins[i].PrevScript), m.Ins[i].PrevSats
			}
		}
	}
	save := func() {
		var b []byte
		s.Call("Transaction.ToBytes", func() { b = cur.ToBytes() })
		if coord.Disk.Write("tx", b) {
			coord.Disk.Sync()
		}
	}
	accept := func(i int, sc []byte, mustHold bool, from string) {
		if i < 0 || i >= len(m.Ins) || owner[i] < 0 || have[i] {
			return
		}
		p := ps[owner[i]]
		if d := checkUnlock(m, i, sc, p.k, p.flag); d != "" {
			s.Check(!mustHold, "bad-signature", "the coordinator got from %s over an undamaged exchange: input %d: %s", from, i, d)
			return
		}
		x := newScript(sc)
		var err error
		s.Call("Transaction.ApplyUnlockingScript", func() { err = cur.ApplyUnlockingScript(uint32(i), x) })
		s.Check(err == nil, "apply-refused", "ApplyUnlockingScript(%d): %v", i, err)
		s.Check(bytes.Equal(bytesOf(cur.Inputs[i].UnlockingScript), sc), "apply-wrong", "ApplyUnlockingScript(%d) did not set the script", i)
		have[i] = true
		s.Logf("coordinator has input %d", i)
	}
	takeTx := func(b []byte, damaged bool, from string) {
		var t *transaction.Transaction
		var err error
		s.Call("transaction.NewFromBytes", func() { t, err = transaction.NewFromBytes(b) })
		if err != nil {
			s.Check(damaged, "refused-intact", "the coordinator cannot read an intact transaction: %v", err)
			return
		}
		for i, in := range t.Inputs {
			if i >= len(m.Ins) || owner[i] < 0 {
				continue
			}
			// an undamaged exchange with a whole script must give a valid signature
			must := !damaged && in.UnlockingScript != nil && len(*in.UnlockingScript) > 0
			accept(i, append([]byte{}, bytesOf(in.UnlockingScript)...), must, from)
		}
		save()
	}
	takeScripts := func(b []byte, damaged bool, from string) {
		r := &ref.Reader{B: b}
		for r.Off < len(b) && r.Err == nil {
			i := int(uint32(r.Uint(4)))
			sc := append([]byte{}, r.Take(r.VarInt())...)
			if r.Err == nil {
				accept(i, sc, !damaged, from)
			}
		}
		save()
	}
	var request func(pi int)
	var pass func(pi int, b []byte, tainted bool)
	pass = func(pi int, b []byte, tainted bool) {
		from := coord
		if relay && pi > 0 {
			from = ps[pi-1].Node
		}
		if pi == np {
			s.Net.Send(from, coord, "signed", b, txDamage, func(b []byte, d bool) { takeTx(b, d || tainted, from.Name) })
			return
		}
		s.Net.Send(from, ps[pi].Node, "sign", b, txDamage, func(b []byte, d bool) {
			t, model := sign(pi, b, d || tainted)
			if t == nil {
				return
			}
			p := ps[pi]
			if !relay && bySc {
				var r []byte
				for i := range model.Ins {
					if _, ok := wallet[pi][point(&model.Ins[i])]; ok {
						r = append(r, byte(i), byte(i>>8), 0, 0)
						r = append(r, ref.VarInt(uint64(len(model.Ins[i].Script)))...)
						r = append(r, model.Ins[i].Script...)
					}
				}
				s.Net.Send(p.Node, coord, "scripts", r, kernel.BytesDamage, func(b []byte, d2 bool) { takeScripts(b, d || d2 || tainted, p.Name) })
				return
			}
			var raw []byte
			s.Call("Transaction.ToBytes", func() { raw = t.ToBytes() })
			if !bytes.Equal(raw, model.Encode()) {
				s.Fail("wrong-bytes", "%s serialised the signed transaction to other bytes", p.Name)
			}
			if relay {
				pass(pi+1, raw, d || tainted)
				return
			}
			s.Net.Send(p.Node, coord, "signed", raw, txDamage, func(b []byte, d2 bool) { takeTx(b, d || d2 || tainted, p.Name) })
		})
	}
	missing := func(pi int) bool {
		for i, o := range owner {
			if o >= 0 && (o == pi || pi < 0) && !have[i] {
				return true
			}
		}
		return false
	}
	request = func(pi int) {
		if cur == nil {
			return
		}
		if relay && missing(-1) || !relay && missing(pi) {
			var b []byte
			s.Call("Transaction.ToBytes", func() { b = cur.ToBytes() })
			pass(pi, b, false)
			coord.After(40_000, "retry", func() { request(pi) })
		}
	}
	begin := func() {
		if relay {
			request(0)
			return
		}
		for _, pi := range s.Perm(np) {
			request(pi)
		}
	}
	raw := m.Encode()
	coord.Disk.Write("orig", raw)
	coord.Disk.Sync()
	coord.OnRestart = func() {
		cur, have = nil, map[int]bool{}
		for _, name := range []string{"tx", "orig"} {
			b, ok := coord.Disk.Read(name)
			if !ok {
				continue
			}
			var err error
			s.Call("transaction.NewFromBytes", func() { cur, err = transaction.NewFromBytes(b) })
			if err == nil && len(cur.Inputs) == len(m.Ins) {
				break
			}
			s.Check(name != "orig", "refused-intact", "the coordinator cannot read its own transaction: %v", err)
			cur = nil
		}
		attach()
		for i, in := range cur.Inputs {
			if owner[i] >= 0 && checkUnlock(m, i, bytesOf(in.UnlockingScript), ps[owner[i]].k, ps[owner[i]].flag) == "" {
				have[i] = true
			}
		}
		begin()
	}
	coord.Do("begin", func() {
		cur = toLib(m)
		begin()
	})
	s.RunUntil(s.Healed() + 120_000_000)

	// liveness and the final result
	s.Check(cur != nil && !missing(-1), "no-progress", "the transaction is not fully signed although faults stopped")
	var b []byte
	s.Call("Transaction.ToBytes", func() { b = cur.ToBytes() })
	fin, err := ref.Decode(b)
	s.Check(err == nil, "wrong-final", "the final transaction does not parse: %v", err)
	want := m.Clone()
	for i := range want.Ins {
		if owner[i] >= 0 && i < len(fin.Ins) {
			if d := checkUnlock(m, i, fin.Ins[i].Script, ps[owner[i]].k, ps[owner[i]].flag); d != "" {
				s.Fail("bad-final", "input %d of the assembled transaction: %s", i, d)
			}
			want.Ins[i].Script = fin.Ins[i].Script
		}
	}
	if !bytes.Equal(want.Encode(), b) {
		s.Fail("wrong-final", "the assembled transaction differs from the agreed one beyond the signatures")
	}
	s.Did("transactions completely signed")
}
