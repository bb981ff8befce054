package scen

import (
	"bytes"
	"fmt"

	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C06", Run: runC06, Quick: 80000, Deep: 1300000,
		Files: []string{"transaction/signature/InternalSigner.go", "transaction/Transaction.go", "script/Script.go", "script/UnlockingScript.go"},
		Real:  []string{"Transaction.SignAuto", "signature.InternalSigner", "Script.GetPublicKeyHash", "transaction parsing and serialisation"},
		Stub:  []string{"wallets delivering what inputs spend over a network that loses, repeats, reorders and damages it", "journal and crash recovery of the document", "clock"},
		Rule:  "a run is one document of 1..9 inputs, whose spent scripts arrive over a faulty network while 1..4 parties sign it automatically again and again; non-trivial: an automatic signing was compared with the model; distinct: hash of the event log and of the task switch order",
	})
}

// spendKind makes a script an input of owner k may spend: its own
// pay-to-public-key-hash script, or one of many that look like it.
func spendKind(s *sim, k, other *key) []byte {
	own := ref.P2PKH(k.pkh)
	switch s.Weighted(8, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2) {
	case 0:
		return own
	case 1:
		return ref.P2PKH(other.pkh)
	case 2:
		return []byte{}
	case 3:
		return append(ref.Push(k.pub), 0xac)
	case 4:
		return append(append([]byte{0xa9, 20}, k.pkh...), 0x87)
	case 5:
		return append([]byte{0x00, 0x6a, 20}, k.pkh...)
	case 6: // more than the pattern
		if s.Intn(2) == 0 {
			return append(own, []byte{0x00, 0x51, 0x61, 0x6a, 0xac}[s.Intn(5)])
		}
		return append([]byte{[]byte{0x00, 0x51, 0x61, 0x6a, 0x76}[s.Intn(5)]}, own...)
	case 7: // the hash pushed with a longer prefix
		p := [][]byte{{0x4c, 20}, {0x4d, 20, 0}, {0x4e, 20, 0, 0, 0}}[s.Intn(3)]
		return append(append(append([]byte{0x76, 0xa9}, p...), k.pkh...), 0x88, 0xac)
	case 8:
		return own[:s.Intn(25)]
	case 9: // hash puzzle
		return append(append(append([]byte{0xa9, 20}, other.pkh...), 0x88), own...)
	case 10: // one opcode of the pattern replaced
		i := []int{0, 1, 23, 24}[s.Intn(4)]
		own[i] = []byte{0x87, 0xad, 0x69, 0x00, 0xaa, 0xa8, 0x6e, 0x51, 0xac, 0x88}[s.Intn(10)]
		return own
	case 11: // one bit of the hash
		own[3+[]int{0, 19, s.Intn(20)}[s.Intn(3)]] ^= 1 << s.Intn(8)
		return own
	case 12:
		return append(append(append([]byte{0x51}, ref.Push(k.pub)...), ref.Push(other.pub)...), 0x52, 0xae)
	case 13: // 25 bytes, with the hash pushed as 19 or 21 bytes
		own[2] = byte(19 + 2*s.Intn(2))
		return own
	}
	b, _ := kernel.BytesDamage(s, own, ref.P2PKH(other.pkh))
	return b
}

func runC06(s *kernel.Sim) {
	s.Heal(200_000)
	s.Net.Swarm(true)
	s.SwarmPreempt()
	doc := s.NewNode("document")
	np := s.Range(1, 4)
	type party struct {
		*kernel.Node
		k    *key
		flag byte
		sg   *signature.InternalSigner
	}
	var ps []*party
	first := s.Intn(nKeys)
	for i := 0; i < np; i++ {
		p := &party{Node: s.NewNode(fmt.Sprintf("wallet%d", i)), k: keyAt((first + i*5) % nKeys), flag: flags[s.Intn(len(flags))]}
		p.sg = &signature.InternalSigner{PrivateKey: p.k.priv, SigHashFlag: sighash.Flag(p.flag)}
		if s.Intn(4) == 3 {
			p.flag, p.sg.SigHashFlag = 0x41, 0
		}
		ps = append(ps, p)
	}
	ni := 1 + s.Intn(9)
	if s.Intn(600) == 599 {
		ni = 17 + s.Intn(30)
		if s.Intn(8) == 7 {
			ni = 120 + s.Intn(160)
			s.Probe("more than 119 inputs")
		}
	}
	m := &ref.Tx{Version: genVersion(s), Lock: genLock(s), Outs: genOuts(s, s.Intn(5))}
	truth := make([][]byte, ni) // what each input really spends
	for i := 0; i < ni; i++ {
		s.Begin()
		truth[i] = spendKind(s, ps[s.Intn(np)].k, ps[s.Intn(np)].k)
		in := ref.In{PrevID: uniqueID(s, i), PrevIdx: s.U32(), Seq: genSeq(s), PrevSats: genSats(s)}
		if i == 0 {
			oddPoint(s, &in)
		}
		if s.Intn(3) > 0 {
			in.HasPrev, in.PrevScript = true, append([]byte{}, truth[i]...)
		}
		if s.Intn(3) == 2 {
			in.Script = genScript(s, false)
		}
		s.End()
		m.Ins = append(m.Ins, in)
	}
	if ni > 1 && s.Intn(4) == 3 { // several outputs of one transaction
		step := uint32(1 - s.Intn(6)/5) // or several claims to one
		for i := 1; i < ni; i++ {
			m.Ins[i].PrevID = m.Ins[0].PrevID
			m.Ins[i].PrevIdx = m.Ins[0].PrevIdx + uint32(i)*step
		}
	}
	t := toLib(m)
	exact := func(i *ref.In, k *key) bool { return i.HasPrev && bytes.Equal(i.PrevScript, ref.P2PKH(k.pkh)) }
	auto := func(p *party) {
		before := m.Clone()
		var err error
		direct := s.Intn(4) == 3
		s.Call("SignAuto", func() {
			if direct {
				var r *transaction.Transaction
				if r, err = p.sg.SignAuto(t); err == nil {
					t = r
				}
			} else {
				err = t.SignAuto(p.sg)
			}
		})
		s.Check(err == nil, "sign-refused", "SignAuto: %v", err)
		s.Check(t != nil && len(t.Inputs) == len(m.Ins), "wrong-fields", "SignAuto changed the number of inputs")
		for i := range m.Ins {
			if !exact(&m.Ins[i], p.k) {
				continue
			}
			sc := append([]byte{}, bytesOf(t.Inputs[i].UnlockingScript)...)
			if d := checkUnlock(before, i, sc, p.k, p.flag); d != "" {
				s.Fail("not-signed", "input %d spends this key's output, but: %s", i, d)
			}
			m.Ins[i].Script = sc
			s.Did("inputs signed")
		}
		if d := sameAll(t, m); d != "" {
			s.Fail("changed-more", "automatic signing changed something it does not own: %s", d)
		}
		s.Check(p.sg.PrivateKey == p.k.priv && (p.sg.SigHashFlag == sighash.Flag(p.flag) || p.sg.SigHashFlag == 0), "signer-changed", "automatic signing changed the signer")
		var raw []byte
		s.Call("Transaction.ToBytes", func() { raw = t.ToBytes() })
		if !bytes.Equal(raw, m.Encode()) {
			s.Fail("changed-more", "the signed transaction serialises to %s, want %s", short(raw), short(m.Encode()))
		}
		if s.Intn(2) == 1 { // again
			s.Call("SignAuto", func() { err = t.SignAuto(p.sg) })
			s.Check(err == nil, "sign-refused", "repeated SignAuto: %v", err)
			if d := sameAll(t, m); d != "" {
				s.Fail("not-idempotent", "repeating automatic signing changed the transaction: %s", d)
			}
			s.Did("repeated signings compared")
		}
		s.Did("automatic signings compared")
	}
	persist := func() {
		doc.Disk.Write("tx", m.Encode())
		doc.Disk.Sync()
	}
	know := map[int]bool{}
	doc.OnRestart = func() {
		b, _ := doc.Disk.Read("tx")
		if n, err := ref.Decode(b); err == nil && len(n.Ins) == len(m.Ins) {
			for i := range n.Ins { // what inputs spend is not in the bytes
				n.Ins[i].HasPrev, n.Ins[i].PrevScript, n.Ins[i].PrevSats = m.Ins[i].HasPrev, m.Ins[i].PrevScript, m.Ins[i].PrevSats
				if !know[i] && s.Intn(2) == 1 {
					n.Ins[i].HasPrev, n.Ins[i].PrevScript = false, nil
				}
			}
			m = n
		}
		t = toLib(m)
	}
	persist()
	attach := func(i int, b []byte) {
		m.Ins[i].HasPrev, m.Ins[i].PrevScript = true, append([]byte{}, b...)
		t.Inputs[i].PreviousTxScript = newScript(b)
		s.Logf("input %d spends %s", i, short(b))
		persist()
	}
	for n, total := 0, long(s, 2+s.Intn(14)); n < total; n++ {
		s.Begin()
		p := ps[s.Intn(np)]
		i := s.Intn(ni)
		kind := s.Weighted(10, 8, 2, 2, 1)
		at := uint64(n)*10_000 + s.Choose(8_000)
		s.End()
		s.At(at, func() {
			p.Do("act", func() {
				switch kind {
				case 0:
					s.Net.Send(p.Node, doc, "auto", nil, nil, func([]byte, bool) {
						auto(p)
						s.Logf("%s signed automatically", p.Name)
						persist()
					})
				case 1:
					s.Net.Send(p.Node, doc, "spent", truth[i], kernel.BytesDamage, func(b []byte, damaged bool) { attach(i, b) })
				case 2:
					s.Net.Send(p.Node, doc, "forget", nil, nil, func([]byte, bool) {
						m.Ins[i].HasPrev, m.Ins[i].PrevScript = false, nil
						t.Inputs[i].PreviousTxScript = nil
					})
				case 4: // the wallet goes on with another key or flag (on the node that signs, so never during a signing)
					s.Net.Send(p.Node, doc, "rekey", nil, nil, func([]byte, bool) {
						if s.Intn(2) == 0 {
							p.k = ps[s.Intn(np)].k
							p.sg.PrivateKey = p.k.priv
						} else {
							p.flag = flags[s.Intn(len(flags))]
							p.sg.SigHashFlag = sighash.Flag(p.flag)
						}
						s.Logf("%s changed its signer", p.Name)
					})
				case 3: // a script from outside is put in place
					u := genScript(s, false)
					s.Net.Send(p.Node, doc, "unlock", u, nil, func(u []byte, _ bool) {
						m.Ins[i].Script = append([]byte{}, u...)
						t.Inputs[i].UnlockingScript = newScript(u)
					})
				}
			})
		})
	}
	s.Chaos(true, true, true)
	s.Settle(60_000_000)
	// once everything is known, the parties sign in any order, and the order
	// does not matter
	for i := range truth {
		attach(i, truth[i])
	}
	start := m.Clone()
	for _, i := range s.Perm(np) {
		auto(ps[i])
	}
	one := m.Encode()
	m, t = start, toLib(start)
	for _, i := range s.Perm(np) {
		auto(ps[i])
	}
	for i := range ps { // two signatures by one key may carry different flags
		for j := range ps[:i] {
			if ps[i].k == ps[j].k {
				return
			}
		}
	}
	if !bytes.Equal(one, m.Encode()) {
		s.Fail("order-matters", "signing automatically in another order gave another transaction")
	}
}
