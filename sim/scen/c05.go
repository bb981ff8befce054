package scen

import (
	"bytes"
	"fmt"

	"github.com/bitcoinsv/bsvd/bsvec"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C05", Run: runC05, Quick: 50000, Deep: 800000,
		Files: []string{"transaction/SignatureHash.go", "transaction/signature/sighash/SigHashFlag.go", "transaction/signature/InternalSigner.go", "transaction/output/Output.go"},
		Real:  []string{"Transaction.GetInputSignatureHash", "Transaction.Sign", "signature.InternalSigner", "Output.GetBytesForSigHash"},
		Stub:  []string{"editors and signers sending their steps over a faulty network", "journal and crash recovery of the document", "clock"},
		Rule:  "a run is one shared transaction under 2..20 signings, edits and undos by several parties in the order the network delivers them; after every step every signature is checked against a coverage table and a reference digest; non-trivial: a signature was checked after a later edit; distinct: hash of the event log and of the task switch order",
	})
}

// coverage is what a signature with a flag covers, as a comparable value: the
// table of the ForkID rules, stated without hashing.
func coverage(t *ref.Tx, idx int, flag byte) string {
	in := &t.Ins[idx]
	v := fmt.Sprintf("ver %d lock %d own %s:%d seq %d spends %x worth %d", t.Version, t.Lock, in.PrevID, in.PrevIdx, in.Seq, in.PrevScript, in.PrevSats)
	acp := flag&0x80 != 0
	if !acp {
		for _, i := range t.Ins {
			v += fmt.Sprintf(" in %s:%d", i.PrevID, i.PrevIdx)
			if flag&0x1f == 1 {
				v += fmt.Sprintf(" seq %d", i.Seq)
			}
		}
	}
	switch flag & 0x1f {
	case 1:
		for _, o := range t.Outs {
			v += fmt.Sprintf(" out %d %x", o.Sats, o.Script)
		}
	case 3:
		if idx < len(t.Outs) {
			v += fmt.Sprintf(" my out %d %x", t.Outs[idx].Sats, t.Outs[idx].Script)
		} else {
			v += " no out"
		}
	}
	return v
}

func runC05(s *kernel.Sim) {
	s.Heal(200_000)
	s.Net.Swarm(false)
	s.SwarmPreempt()
	doc := s.NewNode("document")
	var editors []*kernel.Node
	for i, n := 0, s.Range(1, 3); i < n; i++ {
		editors = append(editors, s.NewNode(fmt.Sprintf("editor%d", i)))
	}
	k := make([]*key, 0)
	ni := 1 + s.Intn(5)
	large := s.Intn(30) == 29
	if large {
		ni = 250 + s.Intn(70)
		s.Probe("more than 249 inputs")
	}
	for i := 0; i < ni; i++ {
		k = append(k, keyAt(s.Intn(nKeys)))
	}
	no := s.Intn(7)
	if s.Intn(40) == 39 || large && s.Intn(2) == 1 {
		no = 250 + s.Intn(70)
	}
	m := genSpend(s, k[:min(ni, 6)], min(no, 6))
	for i := len(m.Ins); i < ni; i++ {
		x := m.Ins[0]
		x.PrevIdx += uint32(i) * 7
		x.PrevSats += uint64(i)
		x.Script = nil
		m.Ins = append(m.Ins, x)
		k[i] = k[0]
	}
	fillOuts(m, no)
	for i := range m.Ins {
		if s.Intn(8) == 7 && i < 6 { // what is spent may be any script
			m.Ins[i].PrevScript = genScript(s, s.Intn(10) == 9)
		}
	}
	t := toLib(m)
	uid := make([]int, ni) // identity of each input
	for i := range uid {
		uid[i] = i
	}
	nextUID := ni
	keyOf := map[int]*key{}
	for i := range uid {
		keyOf[i] = k[i]
	}
	type signed struct {
		uid    int
		flag   byte
		digest []byte
		cover  string
		sig    []byte
		dead   bool // its input was replaced by a crash: not tracked
	}
	var sigs []*signed
	type version struct {
		m   *ref.Tx
		uid []int
	}
	var undo []version

	apply := func() { // the model changed: change the library's transaction alike
		if d := sameAll(t, m); d == "" {
			return
		}
		t.Version, t.Locktime = m.Version, m.Lock
		for len(t.Inputs) > len(m.Ins) {
			t.Inputs = t.Inputs[:len(t.Inputs)-1]
		}
		for i := range m.Ins {
			if i >= len(t.Inputs) {
				t.AddInput(libIn(&m.Ins[i]))
			} else {
				*t.Inputs[i] = *libIn(&m.Ins[i])
			}
		}
		for len(t.Outputs) > len(m.Outs) {
			t.Outputs = t.Outputs[:len(t.Outputs)-1]
		}
		for i := range m.Outs {
			if i >= len(t.Outputs) {
				t.AddOutput(libOut(&m.Outs[i]))
			} else {
				*t.Outputs[i] = *libOut(&m.Outs[i])
			}
		}
	}
	digest := func(t *transaction.Transaction, idx int, flag byte) []byte {
		var h []byte
		var err error
		s.Call("Transaction.GetInputSignatureHash", func() { h, err = t.GetInputSignatureHash(uint32(idx), sighash.Flag(flag)) })
		s.Check(err == nil, "hash-refused", "GetInputSignatureHash(%d, %#x): %v", idx, flag, err)
		if d := sameAll(t, m); d != "" {
			s.Fail("hashing-changed", "computing a signature hash changed the transaction: %s", d)
		}
		return ref.Rev(h)
	}
	verify := func(what string) {
		for n, x := range sigs {
			idx := -1
			for i, u := range uid {
				if u == x.uid {
					idx = i
				}
			}
			if idx < 0 {
				continue
			}
			h := digest(t, idx, x.flag)
			if w := ref.SigHash(m, idx, x.flag); !bytes.Equal(h, w) {
				s.Fail("wrong-hash", "after %s, signature hash of input %d with flag %#x is %x, want %x", what, idx, x.flag, h, w)
			}
			covered := coverage(m, idx, x.flag) == x.cover
			if covered != bytes.Equal(h, x.digest) {
				if covered {
					s.Fail("invalidated", "after %s, signature %d (input %d, flag %#x) became invalid although nothing it covers changed", what, n, idx, x.flag)
				}
				s.Fail("still-valid", "after %s, signature %d (input %d, flag %#x) stayed valid although something it covers changed", what, n, idx, x.flag)
			}
			if n == len(sigs)-1 {
				sg, err := bsvec.ParseDERSignature(x.sig, bsvec.S256())
				s.Check(err == nil, "bad-signature", "signature does not parse: %v", err)
				if sg.Verify(h, keyOf[x.uid].priv.PubKey()) != covered {
					s.Fail("wrong-verdict", "after %s, signature %d verifies: %v, want %v", what, n, !covered, covered)
				}
			}
			if covered {
				s.Did("signatures still valid")
			} else {
				s.Did("signatures invalidated")
			}
		}
	}
	signers := map[*key]map[byte]*signature.InternalSigner{}
	sign := func(idx int, flag byte) {
		if idx >= len(m.Ins) || !m.Ins[idx].HasPrev {
			return
		}
		kk := keyOf[uid[idx]]
		if s.Intn(4) == 3 || signers[kk] == nil {
			signers[kk] = map[byte]*signature.InternalSigner{}
		}
		if signers[kk][flag] == nil {
			signers[kk][flag] = &signature.InternalSigner{PrivateKey: kk.priv, SigHashFlag: sighash.Flag(flag)}
		}
		sg := signers[kk][flag]
		var err error
		s.Call("Transaction.Sign", func() { err = t.Sign(uint32(idx), sg) })
		s.Check(err == nil, "sign-refused", "Sign(%d): %v", idx, err)
		s.Check(idx < len(t.Inputs), "signing-changed", "signing removed inputs")
		sc := append([]byte{}, bytesOf(t.Inputs[idx].UnlockingScript)...)
		if d := checkUnlock(m, idx, sc, kk, flag); d != "" {
			s.Fail("bad-signature", "input %d, flag %#x: %s", idx, flag, d)
		}
		m.Ins[idx].Script = sc
		if d := sameAll(t, m); d != "" {
			s.Fail("signing-changed", "signing input %d changed something else: %s", idx, d)
		}
		parts, _ := ref.ParseScript(sc)
		sigs = append(sigs, &signed{uid: uid[idx], flag: flag, digest: ref.SigHash(m, idx, flag), cover: coverage(m, idx, flag), sig: parts[0][:len(parts[0])-1]})
		if len(sigs) > 8 {
			sigs = sigs[1:]
		}
		if idx >= len(m.Outs) && flag&0x1f == 3 {
			s.Probe("SINGLE without a matching output")
		}
	}
	persist := func() {
		doc.Disk.Write("tx", m.Encode())
		doc.Disk.Sync()
	}
	type op struct{ kind, a, b, c int }
	edit := func(o op) string {
		old := version{m.Clone(), append([]int{}, uid...)}
		what := ""
		pi, po := -1, -1
		if len(m.Ins) > 0 {
			pi = o.a % len(m.Ins)
			if o.c&1 == 1 { // aim at a signed input
				for i, u := range uid {
					if len(sigs) > 0 && sigs[o.b%len(sigs)].uid == u {
						pi = i
					}
				}
			}
		}
		if len(m.Outs) > 0 {
			po = o.a % len(m.Outs)
			if pi >= 0 && o.c&2 == 2 && pi < len(m.Outs) {
				po = pi // the output SINGLE is about
			}
		}
		deltas := []uint32{1, 256, 1 << 16, 1 << 24, 1 << 31}
		d := deltas[o.b%5]
		switch o.kind {
		case 0:
			m.Version += d
			what = "edit of the version"
		case 1:
			m.Lock += d
			what = "edit of the lock time"
		case 2:
			if pi >= 0 {
				m.Ins[pi].Seq += d
				what = fmt.Sprintf("edit of the sequence of input %d", pi)
			}
		case 3:
			if pi >= 0 {
				m.Ins[pi].PrevIdx += d
				what = fmt.Sprintf("edit of the output index input %d spends", pi)
			}
		case 4:
			if pi >= 0 {
				m.Ins[pi].PrevSats += uint64(d) << (8 * uint(o.c%5))
				what = fmt.Sprintf("edit of the amount input %d spends", pi)
			}
		case 5:
			if pi >= 0 {
				p := m.Ins[pi].PrevScript
				if len(p) > 0 && o.b&1 == 0 {
					p[o.b%len(p)] ^= 1
				} else {
					m.Ins[pi].PrevScript = append(p, 0xac)
				}
				what = fmt.Sprintf("edit of the script input %d spends", pi)
			}
		case 6:
			if pi >= 0 {
				b := []byte(m.Ins[pi].PrevID)
				j := o.b % len(b)
				if b[j] == '0' {
					b[j] = '1'
				} else {
					b[j] = '0'
				}
				m.Ins[pi].PrevID = string(b)
				what = fmt.Sprintf("edit of the transaction id input %d spends", pi)
			}
		case 7:
			if po >= 0 {
				m.Outs[po].Sats += uint64(d) << (8 * uint(o.c%5))
				what = fmt.Sprintf("edit of the amount of output %d", po)
			}
		case 8:
			if po >= 0 {
				p := m.Outs[po].Script
				if len(p) > 0 && o.b&1 == 0 {
					p[o.b%len(p)] ^= 1
				} else {
					m.Outs[po].Script = append(p, 0x6a)
				}
				what = fmt.Sprintf("edit of the script of output %d", po)
			}
		case 9:
			x := ref.Out{Sats: uint64(o.b), Script: []byte{0x51}}
			at := o.a % (len(m.Outs) + 1)
			m.Outs = append(m.Outs[:at:at], append([]ref.Out{x}, m.Outs[at:]...)...)
			what = fmt.Sprintf("new output %d", at)
		case 10:
			if po >= 0 {
				m.Outs = append(m.Outs[:po:po], m.Outs[po+1:]...)
				what = fmt.Sprintf("removal of output %d", po)
			}
		case 11:
			x := m.Ins[0]
			x.PrevID, x.Script, x.PrevScript = fmt.Sprintf("%064x", 0xabc000+o.b), nil, []byte{0x51}
			at := o.a % (len(m.Ins) + 1)
			m.Ins = append(m.Ins[:at:at], append([]ref.In{x}, m.Ins[at:]...)...)
			uid = append(uid[:at:at], append([]int{nextUID}, uid[at:]...)...)
			keyOf[nextUID] = k[0]
			nextUID++
			what = fmt.Sprintf("new input %d", at)
		case 12:
			if len(m.Ins) > 1 {
				m.Ins = append(m.Ins[:pi:pi], m.Ins[pi+1:]...)
				uid = append(uid[:pi:pi], uid[pi+1:]...)
				what = fmt.Sprintf("removal of input %d", pi)
			}
		case 13:
			if len(m.Ins) > 1 {
				j := (pi + 1 + o.b%(len(m.Ins)-1)) % len(m.Ins)
				m.Ins[pi], m.Ins[j] = m.Ins[j], m.Ins[pi]
				uid[pi], uid[j] = uid[j], uid[pi]
				what = fmt.Sprintf("swap of inputs %d and %d", pi, j)
			}
		case 14:
			if len(m.Outs) > 1 {
				j := (po + 1 + o.b%(len(m.Outs)-1)) % len(m.Outs)
				m.Outs[po], m.Outs[j] = m.Outs[j], m.Outs[po]
				what = fmt.Sprintf("swap of outputs %d and %d", po, j)
			}
		case 15:
			if pi >= 0 { // never covered
				m.Ins[pi].Script = append(append([]byte{}, m.Ins[pi].Script...), 0x51)
				what = fmt.Sprintf("edit of the unlocking script of input %d", pi)
			}
		}
		if what == "" {
			return ""
		}
		undo = append(undo, old)
		apply()
		return what
	}
	seen := map[int]bool{}
	handle := func(id int, kind int, o op, flag byte) {
		if seen[id] && s.Intn(2) == 0 {
			return // some editors filter repeated messages, some do not
		}
		seen[id] = true
		what := ""
		switch kind {
		case 0:
			if len(m.Ins) == 0 {
				return
			}
			sign(o.a%len(m.Ins), flag)
			what = "signing"
		case 1:
			what = edit(o)
		case 2:
			if len(undo) == 0 {
				return
			}
			v := undo[len(undo)-1]
			undo = undo[:len(undo)-1]
			m, uid = v.m, v.uid
			apply()
			what = "undoing an edit"
			s.Probe("undo")
		}
		if what == "" {
			return
		}
		if d := sameAll(t, m); d != "" {
			s.Fail("wrong-fields", "after %s: %s", what, d)
		}
		s.Logf("%s", what)
		verify(what)
		persist()
	}
	persist()
	doc.OnRestart = func() {
		// rebuild the transaction from its bytes and the known spent outputs
		b, _ := doc.Disk.Read("tx")
		var n *transaction.Transaction
		var err error
		s.Call("transaction.NewFromBytes", func() { n, err = transaction.NewFromBytes(b) })
		if err != nil || sameTx(n, m) != "" {
			n = toLib(m) // a torn write, or C01's business
		}
		t = n
		for i := range m.Ins {
			*t.Inputs[i] = *libIn(&m.Ins[i])
		}
		verify("recovery")
	}
	id := 0
	first := s.Range(1, 3)
	for i, n := 0, first+long(s, s.Range(1, 18)); i < n; i++ {
		s.Begin()
		kind := s.Weighted(3, 10, 4)
		if i < first {
			kind = 0
		}
		o := op{s.Intn(16), s.Intn(1 << 16), s.Intn(1 << 16), s.Intn(1 << 8)}
		if large && kind == 0 && s.Intn(2) == 1 {
			o.a = ni - 1 - s.Intn(min(ni, 80))
		}
		f := flags[s.Intn(len(flags))]
		e := editors[s.Intn(len(editors))]
		at := uint64(i)*8_000 + s.Choose(6_000)
		s.End()
		id++
		n := id
		s.At(at, func() {
			e.Do("send", func() {
				s.Net.Send(e, doc, fmt.Sprintf("step%d", n), nil, nil, func([]byte, bool) { handle(n, kind, o, f) })
			})
		})
	}
	s.Chaos(true, true, true)
	s.Settle(60_000_000)
	verify("the run")
}
