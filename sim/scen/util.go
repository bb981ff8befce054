package scen

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"

	"verif.local/sim/ref"
)

// flags are the ForkID signature hash flags.
var flags = []byte{0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3}

// checkUnlock verifies an unlocking script with the reference signature hash;
// it returns "" or what is wrong.
func checkUnlock(m *ref.Tx, idx int, sc []byte, k *key, flag byte) string {
	parts, ok := ref.ParseScript(sc)
	if !ok || len(parts) != 2 {
		return fmt.Sprintf("unlocking script %s is not a signature and a public key", short(sc))
	}
	if len(parts[0]) < 9 || !bytes.Equal(sc, append(ref.Push(parts[0]), ref.Push(parts[1])...)) {
		return fmt.Sprintf("unlocking script %s is not two minimal pushes", short(sc))
	}
	if !bytes.Equal(parts[1], k.pub) {
		return fmt.Sprintf("unlocking script holds public key %x, want %x", parts[1], k.pub)
	}
	n := len(parts[0]) - 1
	if parts[0][n] != flag {
		return fmt.Sprintf("signature flag %#x, want %#x", parts[0][n], flag)
	}
	if d := ref.Strict(parts[0][:n]); d != "" {
		return fmt.Sprintf("signature %x is not strictly encoded: %s", parts[0][:n], d)
	}
	sig, err := bsvec.ParseDERSignature(parts[0][:n], bsvec.S256())
	if err != nil {
		return fmt.Sprintf("signature does not parse: %v", err)
	}
	if !sig.Verify(ref.SigHash(m, idx, flag), k.priv.PubKey()) {
		return fmt.Sprintf("signature of input %d with flag %#x is not valid for the transaction", idx, flag)
	}
	return ""
}

// modelOf reads a library transaction field by field, deeply.
func modelOf(l *transaction.Transaction) *ref.Tx {
	t := &ref.Tx{Version: l.Version, Lock: l.Locktime}
	for _, i := range l.Inputs {
		n := ref.In{PrevID: i.PreviousTxID, PrevIdx: i.PreviousTxOutIndex, Script: append([]byte{}, bytesOf(i.UnlockingScript)...),
			Seq: i.SequenceNumber, PrevSats: i.PreviousTxSatoshis}
		if i.PreviousTxScript != nil {
			n.HasPrev = true
			n.PrevScript = append([]byte{}, *i.PreviousTxScript...)
		}
		t.Ins = append(t.Ins, n)
	}
	for _, o := range l.Outputs {
		t.Outs = append(t.Outs, ref.Out{Sats: o.Satoshis, Script: append([]byte{}, bytesOf(o.LockingScript)...)})
	}
	return t
}

// sameAll is sameTx and what the inputs spend.
func sameAll(l *transaction.Transaction, t *ref.Tx) string {
	if d := sameTx(l, t); d != "" {
		return d
	}
	for k, i := range l.Inputs {
		w := &t.Ins[k]
		switch {
		case i.PreviousTxSatoshis != w.PrevSats:
			return fmt.Sprintf("input %d spends %d satoshis, want %d", k, i.PreviousTxSatoshis, w.PrevSats)
		case (i.PreviousTxScript != nil) != w.HasPrev:
			return fmt.Sprintf("input %d: previous script present %v, want %v", k, i.PreviousTxScript != nil, w.HasPrev)
		case !bytes.Equal(bytesOf(i.PreviousTxScript), w.PrevScript):
			return fmt.Sprintf("input %d spends script %s, want %s", k, short(bytesOf(i.PreviousTxScript)), short(w.PrevScript))
		}
	}
	return ""
}

// genOuts makes outputs with boundary-biased values.
func genOuts(s *sim, n int) (o []ref.Out) {
	for i := 0; i < n; i++ {
		s.Begin()
		o = append(o, ref.Out{Sats: genSats(s), Script: genScript(s, s.Intn(100) == 99)})
		s.End()
	}
	return
}

// genSpend makes the model of a transaction whose inputs spend
// pay-to-public-key-hash outputs of the given keys (nil: some other script).
func genSpend(s *sim, owners []*key, nOuts int) *ref.Tx {
	t := &ref.Tx{Version: genVersion(s), Lock: genLock(s), Outs: genOuts(s, nOuts)}
	for i, k := range owners {
		s.Begin()
		in := ref.In{PrevID: uniqueID(s, i), PrevIdx: s.U32(), Seq: genSeq(s), PrevSats: genSats(s), HasPrev: true}
		if k != nil {
			in.PrevScript = ref.P2PKH(k.pkh)
		} else {
			in.PrevScript = genScript(s, false)
		}
		if s.Intn(4) == 3 {
			in.Script = genScript(s, false)
		}
		if i == 0 {
			oddPoint(s, &in)
		}
		if i > 0 && s.Intn(6) == 5 { // another output of the same transaction
			in.PrevID, in.PrevIdx = t.Ins[i-1].PrevID, t.Ins[i-1].PrevIdx+1
		}
		s.End()
		t.Ins = append(t.Ins, in)
	}
	return t
}

// oddPoint makes an input, sometimes, look like a coinbase's.
func oddPoint(s *sim, in *ref.In) {
	if s.Intn(10) < 9 {
		return
	}
	in.PrevID = strings.Repeat("00", 32)
	if s.Intn(2) == 1 {
		in.PrevIdx = 0xffffffff
	}
}

// fillOuts gives a transaction n outputs.
func fillOuts(m *ref.Tx, n int) {
	if len(m.Outs) == 0 && n > 0 {
		m.Outs = append(m.Outs, ref.Out{Sats: 1, Script: []byte{0x51}})
	}
	for i := len(m.Outs); i < n; i++ {
		o := m.Outs[0]
		o.Sats += uint64(i)
		o.Script = append([]byte{}, o.Script...)
		m.Outs = append(m.Outs, o)
	}
}

// uniqueID is a transaction id no other input of the run has.
func uniqueID(s *sim, i int) string {
	b := s.Bytes(32)
	b[15], b[16] = byte(i), byte(i>>8)
	if s.Intn(8) == 7 {
		b[0], b[31] = 0, 0
	}
	return hex.EncodeToString(b)
}

func libIn(i *ref.In) *input.Input {
	n := &input.Input{PreviousTxID: i.PrevID, PreviousTxOutIndex: i.PrevIdx, PreviousTxSatoshis: i.PrevSats,
		SequenceNumber: i.Seq, UnlockingScript: newScript(i.Script)}
	if i.HasPrev {
		n.PreviousTxScript = newScript(i.PrevScript)
	}
	return n
}

func libOut(o *ref.Out) *output.Output {
	return &output.Output{Satoshis: o.Sats, LockingScript: newScript(o.Script)}
}

var _ = script.Script{}
