package scen

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C07", Run: runC07, Quick: 100000, Deep: 1500000,
		Files: []string{"transaction/Transaction.go", "transaction/Signer.go", "transaction/signature/InternalSigner.go", "transaction/SignatureHash.go"},
		Real:  []string{"Transaction.Sign, SignAuto, ApplyUnlockingScript, GetInputSignatureHash", "signature.InternalSigner"},
		Stub:  []string{"external signer behind transaction.Signer: slow, failing, answering with errors and transactions of its own", "network between coordinator and clients", "journal and crash recovery", "clock"},
		Rule:  "a run is one transaction and 3..16 signing requests from clients over a faulty network, served by an internal or external signer that fails on request and is retried; non-trivial: a failed and a successful request were compared with the model; distinct: hash of the event log and of the task switch order",
	})
}

// remote is an external signer: what it does with each request was decided
// before.
type remote struct {
	s      *sim
	k      *key
	flag   byte
	mode   int
	wait   uint64
	ret    *transaction.Transaction // what it answered with last
	retMod *ref.Tx
	err    error
	calls  int
	index  uint32
	auto   bool
	got    *transaction.Transaction
}

func deepTx(t *transaction.Transaction) *transaction.Transaction {
	c := *t
	c.Inputs, c.Outputs = nil, nil
	for _, i := range t.Inputs {
		n := *i
		if i.UnlockingScript != nil {
			n.UnlockingScript = newScript(*i.UnlockingScript)
		}
		if i.PreviousTxScript != nil {
			n.PreviousTxScript = newScript(*i.PreviousTxScript)
		}
		c.Inputs = append(c.Inputs, &n)
	}
	for _, o := range t.Outputs {
		c.Outputs = append(c.Outputs, &output.Output{Satoshis: o.Satoshis, LockingScript: newScript(*o.LockingScript)})
	}
	return &c
}

var errRemote = errors.New("external signer is not available")

func (r *remote) answer(index uint32, t *transaction.Transaction, auto bool) (*transaction.Transaction, error) {
	r.calls++
	r.index, r.auto, r.got = index, auto, t
	if r.wait > 0 && r.s.Now() < r.s.Healed() {
		r.s.Sleep(r.wait)
	}
	r.ret, r.err = nil, nil
	switch r.mode {
	case 1: // an error
		r.err = errRemote
		return nil, r.err
	case 2: // an error, and what it had done so far to its copy
		c := deepTx(t)
		c.Version += 9
		if len(c.Inputs) > 0 {
			c.Inputs[0].UnlockingScript = newScript([]byte{0x51})
			c.Inputs = c.Inputs[:1]
		}
		r.ret, r.err = c, errRemote
		return c, r.err
	case 3: // signs a copy
		c := deepTx(t)
		if int(index) < len(c.Inputs) {
			c.Inputs[index].UnlockingScript = newScript([]byte{1, byte(index), 0x51})
		}
		r.ret = c
	case 4: // reorders, adds change, touches everything
		c := deepTx(t)
		for i, j := 0, len(c.Inputs)-1; i < j; i, j = i+1, j-1 {
			c.Inputs[i], c.Inputs[j] = c.Inputs[j], c.Inputs[i]
		}
		c.Version, c.Locktime = c.Version+1, c.Locktime^0x80000001
		c.Outputs = append(c.Outputs, &output.Output{Satoshis: 546, LockingScript: newScript(ref.P2PKH(r.k.pkh))})
		c.Inputs = append(c.Inputs, &input.Input{PreviousTxID: fmt.Sprintf("%064x", 7), SequenceNumber: 5, UnlockingScript: newScript([]byte{0x52})})
		r.ret = c
	case 5: // signs in place
		for i, in := range t.Inputs {
			if auto || i == int(index) {
				in.UnlockingScript = newScript([]byte{2, byte(i), 0x77, 0x51})
			}
		}
		r.ret = t
	case 6: // an empty transaction
		r.ret = transaction.New()
	case 7: // nothing at all
		r.err = errRemote
		return nil, nil
	}
	r.retMod = modelOf(r.ret)
	return r.ret, nil
}

func (r *remote) Sign(index uint32, t *transaction.Transaction) (*transaction.Transaction, error) {
	return r.answer(index, t, false)
}
func (r *remote) SignAuto(t *transaction.Transaction) (*transaction.Transaction, error) {
	return r.answer(0xffffffff, t, true)
}

func runC07(s *kernel.Sim) {
	s.Heal(200_000)
	s.Net.Swarm(false)
	s.SwarmPreempt()
	doc := s.NewNode("coordinator")
	client := s.NewNode("client")
	k := keyAt(s.Intn(nKeys))
	other := keyAt(nKeys)
	ni := s.Intn(7)
	if s.Intn(800) == 799 {
		ni = 250 + s.Intn(20)
		s.Probe("about 256 inputs")
	}
	owners := make([]*key, ni)
	for i := range owners {
		owners[i] = []*key{k, k, other}[s.Intn(3)]
	}
	m := genSpend(s, owners, s.Intn(5))
	full := m.Clone() // all details known
	hide := func(i, what int) {
		switch what {
		case 0:
			m.Ins[i].HasPrev, m.Ins[i].PrevScript = false, nil
		case 1:
			m.Ins[i].PrevID = ""
		case 2:
			m.Ins[i].HasPrev, m.Ins[i].PrevScript = false, nil
			m.Ins[i].PrevID = ""
		}
	}
	for i := range m.Ins {
		if s.Intn(3) == 2 {
			hide(i, s.Intn(3))
		}
	}
	flag := flags[s.Intn(len(flags))]
	isg := &signature.InternalSigner{PrivateKey: k.priv, SigHashFlag: sighash.Flag(flag)}
	if s.Intn(4) == 3 {
		flag, isg.SigHashFlag = 0x41, 0
	}
	asked := isg.SigHashFlag
	t := toLib(m)
	known := func(i int) bool { return m.Ins[i].HasPrev && m.Ins[i].PrevID != "" }
	type snap struct {
		none []bool // inputs without an unlocking script
	}
	hold := func() snap {
		b := snap{}
		for _, i := range t.Inputs {
			b.none = append(b.none, i.UnlockingScript == nil)
		}
		return b
	}
	unchanged := func(b snap, what string) {
		if d := sameAll(t, m); d != "" {
			s.Fail("failure-changed", "%s failed but changed the transaction: %s", what, d)
		}
		s.Check(isg.PrivateKey == k.priv && isg.SigHashFlag == asked, "signer-changed", "%s failed and changed the signer", what)
		for i := range b.none {
			s.Check(b.none[i] == (t.Inputs[i].UnlockingScript == nil), "failure-changed", "%s failed but the unlocking script of input %d appeared or vanished", what, i)
		}
		s.Did("failed requests compared")
	}
	// sign asks for one input; it reports whether that succeeded
	sign := func(idx uint32, direct bool) bool {
		b := hold()
		what := fmt.Sprintf("Sign(%d)", idx)
		var err error
		ok := uint64(idx) < uint64(len(m.Ins)) && known(int(idx))
		if s.Intn(4) == 3 {
			s.Call("GetInputSignatureHash", func() { _, err = t.GetInputSignatureHash(idx, sighash.Flag(flag)) })
			s.Check(ok == (err == nil), "wrong-error", "GetInputSignatureHash(%d): %v, want an error: %v", idx, err, !ok)
			unchanged(b, "GetInputSignatureHash")
		}
		if direct {
			var r *transaction.Transaction
			s.Call("InternalSigner.Sign", func() { r, err = isg.Sign(idx, t) })
			if err == nil {
				t = r
			}
		} else {
			s.Call("Transaction.Sign", func() { err = t.Sign(idx, isg) })
		}
		if !ok {
			s.Check(err != nil, "no-error", "%s reported success although the input does not exist or what it spends is not known", what)
			unchanged(b, what)
			return false
		}
		s.Check(err == nil, "sign-refused", "%s: %v", what, err)
		sc := append([]byte{}, bytesOf(t.Inputs[idx].UnlockingScript)...)
		// the previous ids of other inputs may be missing: sign what is there
		if d := unlockWithGaps(m, int(idx), sc, k, flag); d != "" {
			s.Fail("wrong-result", "%s: %s", what, d)
		}
		m.Ins[idx].Script = sc
		if d := sameAll(t, m); d != "" {
			s.Fail("wrong-result", "%s changed more: %s", what, d)
		}
		s.Did("successful requests compared")
		return true
	}
	auto := func() {
		b := hold()
		bad := -1
		for i := range m.Ins {
			if bytes.Equal(m.Ins[i].PrevScript, ref.P2PKH(k.pkh)) && m.Ins[i].PrevID == "" {
				bad = i
			}
		}
		var err error
		s.Call("Transaction.SignAuto", func() { err = t.SignAuto(isg) })
		if bad >= 0 {
			s.Check(err != nil, "no-error", "SignAuto reported success although input %d, which it matched, could not be signed", bad)
			unchanged(b, "SignAuto")
			s.Probe("automatic signing failed")
			return
		}
		s.Check(err == nil, "sign-refused", "SignAuto: %v", err)
		for i := range m.Ins {
			if m.Ins[i].HasPrev && bytes.Equal(m.Ins[i].PrevScript, ref.P2PKH(k.pkh)) {
				sc := append([]byte{}, bytesOf(t.Inputs[i].UnlockingScript)...)
				if d := unlockWithGaps(m, i, sc, k, flag); d != "" {
					s.Fail("wrong-result", "SignAuto, input %d: %s", i, d)
				}
				m.Ins[i].Script = sc
			}
		}
		if d := sameAll(t, m); d != "" {
			s.Fail("wrong-result", "SignAuto changed more: %s", d)
		}
		s.Did("successful requests compared")
	}
	// outside asks the external signer
	outside := func(r *remote, idx uint32, isAuto bool) {
		b := hold()
		var err error
		was := r.calls
		s.Call("Transaction.Sign", func() {
			if isAuto {
				err = t.SignAuto(r)
			} else {
				err = t.Sign(idx, r)
			}
		})
		if r.calls == was && !isAuto && uint64(idx) >= uint64(len(m.Ins)) { // refused without asking
			s.Check(err != nil, "no-error", "Sign(%d) reported success although the input does not exist", idx)
			unchanged(b, "signing")
			return
		}
		s.Check(r.calls == was+1, "signer-calls", "the external signer was asked %d times", r.calls-was)
		s.Check(isAuto == r.auto && (isAuto || r.index == idx), "signer-calls", "the external signer was asked for something else")
		if r.err != nil {
			s.Check(err != nil, "no-error", "the external signer's error was not reported")
			unchanged(b, "signing")
			s.Probe("external signer failed")
			return
		}
		s.Check(err == nil, "sign-refused", "the external signer signed, but: %v", err)
		if d := sameAll(t, r.retMod); d != "" {
			s.Fail("wrong-result", "the transaction is not what the external signer returned: %s", d)
		}
		m = r.retMod.Clone()
		t = deepTx(t) // from here on not shared with the external signer
		s.Did("external results compared")
	}
	persist := func() {
		enc := m.Clone()
		for i := range enc.Ins {
			if enc.Ins[i].PrevID == "" {
				enc.Ins[i].PrevID = fmt.Sprintf("%064x", 0)
			}
		}
		doc.Disk.Write("tx", enc.Encode())
		doc.Disk.Sync()
	}
	persist()
	busy := false
	doc.OnRestart = func() {
		busy = false
		t = toLib(m)
		if s.Intn(2) == 1 {
			sign(uint32(s.Intn(len(m.Ins)+2)), false)
		}
	}
	r := &remote{s: s, k: k, flag: flag}
	for n, total := 0, long(s, 3+s.Intn(14)); n < total; n++ {
		s.Begin()
		kind := s.Weighted(5, 3, 3, 2, 3, 2)
		a, c := s.Intn(12), s.Intn(1<<16)
		mode := []int{1, 2, 3, 4, 5, 6, 7}[s.Intn(7)]
		wait := s.Choose(3) * 4_000
		at := uint64(n)*9_000 + s.Choose(8_000)
		s.End()
		bounds := []uint32{uint32(a), uint32(len(m.Ins)), uint32(len(m.Ins)) + 1, 0xffffffff, 0x80000000, 0x7fffffff, 0x100, 0x10000}
		s.At(at, func() {
			client.Do("ask", func() {
				s.Net.Send(client, doc, "request", nil, nil, func([]byte, bool) {
					if busy {
						return // one request at a time
					}
					busy = true
					defer func() { busy = false }()
					idx := bounds[c%len(bounds)]
					if len(m.Ins) > 0 && c%3 > 0 {
						idx = uint32(a % len(m.Ins))
					}
					switch kind {
					case 0: // sign; if that fails for lack of details, learn them and retry
						b := m.Clone()
						if !sign(idx, c&8 == 8) && int64(idx) < int64(len(m.Ins)) && len(full.Ins) == len(m.Ins) && full.Outs != nil {
							i := int(idx)
							m.Ins[i].HasPrev, m.Ins[i].PrevScript, m.Ins[i].PrevID = true, append([]byte{}, full.Ins[i].PrevScript...), full.Ins[i].PrevID
							t.Inputs[i].PreviousTxScript, t.Inputs[i].PreviousTxID = newScript(full.Ins[i].PrevScript), full.Ins[i].PrevID
							s.Check(sign(idx, false), "no-retry", "signing input %d failed again", idx)
							// the same as without the failure
							b.Ins[i].HasPrev, b.Ins[i].PrevScript, b.Ins[i].PrevID = true, m.Ins[i].PrevScript, m.Ins[i].PrevID
							f := toLib(b)
							var err error
							s.Call("Transaction.Sign", func() { err = f.Sign(idx, isg) })
							s.Check(err == nil && bytes.Equal(bytesOf(f.Inputs[i].UnlockingScript), m.Ins[i].Script), "retry-differs", "the retried signature of input %d differs from one that never failed", idx)
							s.Probe("retry after the cause was removed")
						}
					case 1:
						auto()
					case 2, 3:
						r.mode, r.wait = mode, wait
						was := t
						outside(r, idx, kind == 3)
						if r.err != nil { // retry
							s.Check(t == was, "failure-changed", "the transaction moved")
							r.mode, r.wait = 3, 0
							outside(r, idx, kind == 3)
						}
					case 4:
						if len(m.Ins) > 0 { // details get lost
							hide(a%len(m.Ins), c%3)
							t = toLib(m)
						}
					case 5:
						b := hold()
						u := newScript([]byte{0x51, byte(c)})
						var err error
						s.Call("ApplyUnlockingScript", func() { err = t.ApplyUnlockingScript(idx, u) })
						if uint64(idx) >= uint64(len(m.Ins)) {
							s.Check(err != nil, "no-error", "ApplyUnlockingScript(%d) reported success with %d inputs", idx, len(m.Ins))
							unchanged(b, "ApplyUnlockingScript")
							break
						}
						s.Check(err == nil, "apply-refused", "ApplyUnlockingScript(%d): %v", idx, err)
						m.Ins[idx].Script = []byte{0x51, byte(c)}
						if d := sameAll(t, m); d != "" {
							s.Fail("wrong-result", "ApplyUnlockingScript(%d): %s", idx, d)
						}
					}
					s.Logf("request %d done", kind)
					persist()
				})
			})
		})
	}
	s.Chaos(true, true, true)
	s.Settle(60_000_000)
	// everything is known again: all requests succeed
	for i := range m.Ins {
		m.Ins[i].HasPrev = true
		if m.Ins[i].PrevScript == nil || s.Intn(2) == 1 {
			m.Ins[i].PrevScript = ref.P2PKH(k.pkh)
		}
		if m.Ins[i].PrevID == "" {
			m.Ins[i].PrevID = uniqueID(s, i)
		}
	}
	t = toLib(m)
	auto()
	for i := range m.Ins {
		s.Check(sign(uint32(i), false), "no-progress", "input %d cannot be signed", i)
	}
	sign(uint32(len(m.Ins)), false)
}

// unlockWithGaps is checkUnlock for a transaction some of whose inputs have no
// previous id: such an id counts as no bytes in the hash.
func unlockWithGaps(m *ref.Tx, idx int, sc []byte, k *key, flag byte) string {
	return checkUnlock(m, idx, sc, k, flag)
}
