package scen

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

type sim = kernel.Sim

// key is a key pair of the simulated parties.
type key struct {
	priv *bsvec.PrivateKey
	pub  []byte // compressed
	pkh  []byte
}

var keyPool = map[int]*key{}

// keyAt returns the i-th key of a fixed pool. Some of them are short somewhere:
// they have a zero byte at the start or end of the public key hash, or at the
// start of a coordinate or of the private key.
func keyAt(i int) *key {
	if k := keyPool[i]; k != nil {
		return k
	}
	n := uint64(i)
	start := map[uint64]uint64{3: 323, 5: 80, 7: 87, 9: 367, 11: 340}[n] // where the search below ends
	short := map[uint64]func(*key) []byte{                               // what of the key starts with a zero byte
		3: func(k *key) []byte { return k.pkh }, 5: func(k *key) []byte { return k.pkh[19:] },
		7:  func(k *key) []byte { return k.pub[1:] },
		9:  func(k *key) []byte { return k.priv.PubKey().SerializeUncompressed()[33:] },
		11: func(k *key) []byte { return k.priv.Serialize() },
	}[n]
	for t := start; ; t++ {
		var b []byte
		for k := uint64(0); k < 4; k++ {
			v := kernel.Hash("key", n, t, k)
			for j := 0; j < 8; j++ {
				b = append(b, byte(v>>(8*j)))
			}
		}
		priv, pub := bsvec.PrivKeyFromBytes(bsvec.S256(), b)
		k := &key{priv: priv, pub: pub.SerializeCompressed()}
		k.pkh = ref.Hash160(k.pub)
		if short != nil && short(k)[0] != 0 {
			continue
		}
		keyPool[i] = k
		return k
	}
}

const nKeys = 24

// long stretches some histories.
func long(s *sim, n int) int {
	if s.Intn(20) == 19 {
		n += s.Intn(90)
	}
	return n
}

// scriptLens are script sizes at the boundaries of the length encodings.
var scriptLens = []int{0, 1, 75, 76, 77, 251, 252, 253, 254, 255, 256, 257, 65534, 65535, 65536, 65537}

// genLen returns a size; big allows sizes around 64 KiB.
func genLen(s *sim, big bool) int {
	switch s.Weighted(6, 3, 1) {
	case 0:
		return s.Intn(60)
	case 1:
		n := len(scriptLens)
		if !big {
			n = 12
		}
		return scriptLens[s.Intn(n)]
	}
	switch s.Weighted(5, 2, 1) {
	case 1:
		return s.Intn(5000)
	case 2:
		if big {
			return s.Intn(70000)
		}
	}
	return s.Intn(600)
}

func genScript(s *sim, big bool) []byte {
	switch s.Weighted(3, 2, 1, 1) {
	case 0:
		return s.Bytes(genLen(s, big))
	case 1:
		return ref.P2PKH(keyAt(s.Intn(nKeys)).pkh)
	case 2:
		return append([]byte{0x00, 0x6a}, ref.Push(s.Bytes(1+genLen(s, big)))...)
	}
	return append(ref.Push(append(s.Bytes(70+s.Intn(3)), 0x41)), ref.Push(keyAt(s.Intn(nKeys)).pub)...)
}

// unscripted tells whether an input without a script has none at all rather
// than an empty one.
func unscripted(i *ref.In) bool {
	k := len(i.PrevID)
	return len(i.Script) == 0 && k > 0 && i.PrevID[k-1]&1 == 1
}

func genTxID(s *sim) string {
	switch s.Weighted(12, 1, 1, 1, 1) {
	case 4: // hashes of blocks end in zeros
		b := s.Bytes(32)
		for i, n, m := 0, s.Intn(12), s.Intn(3); i < 32; i++ {
			if i < n || i >= 32-m {
				b[i] = 0
			}
		}
		return hex.EncodeToString(b)
	case 1:
		return strings.Repeat("00", 32)
	case 2:
		return strings.Repeat("ff", 32)
	case 3:
		return "00" + hex.EncodeToString(s.Bytes(31))
	}
	return hex.EncodeToString(s.Bytes(32))
}

func genSeq(s *sim) uint32 {
	switch s.Weighted(3, 2, 1, 1) {
	case 0:
		return 0xffffffff
	case 1:
		return 0xfffffffe
	case 2:
		return 0
	}
	return s.U32()
}

func genSats(s *sim) uint64 { return s.U64() }

func genLock(s *sim) uint32 {
	if s.Intn(2) == 0 {
		return 0
	}
	if s.Intn(3) == 0 {
		return []uint32{499999999, 500000000, 500000001}[s.Intn(3)]
	}
	return s.U32()
}

func genVersion(s *sim) uint32 {
	if s.Intn(3) < 2 {
		return 1 + uint32(s.Intn(2))
	}
	return s.U32()
}

// genCount returns how many inputs or outputs a transaction has.
func genCount(s *sim, rare bool) int {
	switch s.Weighted(40, 8, 2) {
	case 0:
		return s.Intn(6)
	case 1:
		return s.Intn(24)
	}
	if !rare {
		return s.Intn(8)
	}
	if s.Intn(4) == 3 {
		return s.Intn(1200)
	}
	return []int{127, 128, 251, 252, 253, 254, 255, 256, 257, 300}[s.Intn(10)]
}

// genTx makes a transaction model. Every number is biased to its boundaries.
func genTx(s *sim) *ref.Tx {
	t := &ref.Tx{Version: genVersion(s), Lock: genLock(s)}
	big := s.Intn(12) == 11
	ni, no := genCount(s, true), genCount(s, true)
	if s.Intn(400) == 399 {
		// a count at the next boundary of the length encoding
		n := []int{65535, 65536, 65537}[s.Intn(3)]
		if s.Intn(2) == 0 {
			no = n
		} else {
			ni = n
		}
		s.Probe("more than 65534 inputs or outputs")
	}
	big = big && ni+no < 40
	var last ref.In
	for i := 0; i < ni; i++ {
		if i >= 30 { // fill up cheaply
			last.PrevIdx = uint32(i)
			t.Ins = append(t.Ins, last)
			continue
		}
		s.Begin()
		last = ref.In{PrevID: genTxID(s), PrevIdx: s.U32(), Script: genScript(s, big), Seq: genSeq(s)}
		t.Ins = append(t.Ins, last)
		s.End()
		if i >= 28 {
			last.Script = last.Script[:min(len(last.Script), 8)]
		}
	}
	var lo ref.Out
	for i := 0; i < no; i++ {
		if i >= 30 {
			lo.Sats = uint64(i)
			t.Outs = append(t.Outs, lo)
			continue
		}
		s.Begin()
		lo = ref.Out{Sats: genSats(s), Script: genScript(s, big)}
		t.Outs = append(t.Outs, lo)
		s.End()
		if i >= 28 {
			lo.Script = lo.Script[:min(len(lo.Script), 8)]
		}
	}
	if s.Intn(500) == 499 && ni+no > 0 && ni+no < 300 { // a very large script
		size := 1<<20 + s.Intn(4<<20)
		if s.Intn(8) == 7 {
			size += 1 << 24
		}
		x := bytes.Repeat(s.Bytes(251), size/251)
		if i := s.Intn(ni + no); i < ni {
			t.Ins[i].Script = x
		} else {
			t.Outs[i-ni].Script = x
		}
		s.Probe("script of more than 1 MiB")
	}
	if len(t.Ins) > 252 || len(t.Outs) > 252 {
		s.Probe("count of three bytes")
	}
	if big {
		s.Probe("script sizes around 64 KiB allowed")
	}
	return t
}

func newScript(b []byte) *script.Script {
	x := script.Script(append([]byte{}, b...))
	return &x
}

// toLib builds the library's transaction for a model, field by field.
func toLib(t *ref.Tx) *transaction.Transaction {
	l := transaction.New()
	l.Version, l.Locktime = t.Version, t.Lock
	for _, i := range t.Ins {
		n := &input.Input{PreviousTxID: i.PrevID, PreviousTxOutIndex: i.PrevIdx, PreviousTxSatoshis: i.PrevSats,
			SequenceNumber: i.Seq, UnlockingScript: newScript(i.Script)}
		if unscripted(&i) {
			n.UnlockingScript = nil // as Transaction.From leaves it; a parsed input has an empty script
		}
		if i.HasPrev {
			n.PreviousTxScript = newScript(i.PrevScript)
		}
		l.Inputs = append(l.Inputs, n)
	}
	for _, o := range t.Outs {
		l.Outputs = append(l.Outputs, &output.Output{Satoshis: o.Sats, LockingScript: newScript(o.Script)})
	}
	return l
}

func bytesOf(p *script.Script) []byte {
	if p == nil {
		return nil
	}
	return *p
}

// sameTx compares every serialised field of a library transaction with a
// model; it returns "" or the first difference.
func sameTx(l *transaction.Transaction, t *ref.Tx) string {
	if l == nil {
		return "no transaction"
	}
	if l.Version != t.Version {
		return fmt.Sprintf("version %d, want %d", l.Version, t.Version)
	}
	if l.Locktime != t.Lock {
		return fmt.Sprintf("lock time %d, want %d", l.Locktime, t.Lock)
	}
	if len(l.Inputs) != len(t.Ins) {
		return fmt.Sprintf("%d inputs, want %d", len(l.Inputs), len(t.Ins))
	}
	if len(l.Outputs) != len(t.Outs) {
		return fmt.Sprintf("%d outputs, want %d", len(l.Outputs), len(t.Outs))
	}
	for k, i := range l.Inputs {
		w := &t.Ins[k]
		switch {
		case i == nil:
			return fmt.Sprintf("input %d is nil", k)
		case i.PreviousTxID != w.PrevID:
			return fmt.Sprintf("input %d spends %s, want %s", k, i.PreviousTxID, w.PrevID)
		case i.PreviousTxOutIndex != w.PrevIdx:
			return fmt.Sprintf("input %d spends output %d, want %d", k, i.PreviousTxOutIndex, w.PrevIdx)
		case i.SequenceNumber != w.Seq:
			return fmt.Sprintf("input %d has sequence %x, want %x", k, i.SequenceNumber, w.Seq)
		case !bytes.Equal(bytesOf(i.UnlockingScript), w.Script):
			return fmt.Sprintf("input %d has script %s, want %s", k, short(bytesOf(i.UnlockingScript)), short(w.Script))
		}
	}
	for k, o := range l.Outputs {
		w := &t.Outs[k]
		switch {
		case o == nil:
			return fmt.Sprintf("output %d is nil", k)
		case o.Satoshis != w.Sats:
			return fmt.Sprintf("output %d has %d satoshis, want %d", k, o.Satoshis, w.Sats)
		case !bytes.Equal(bytesOf(o.LockingScript), w.Script):
			return fmt.Sprintf("output %d has script %s, want %s", k, short(bytesOf(o.LockingScript)), short(w.Script))
		}
	}
	return ""
}

func short(b []byte) string {
	if len(b) <= 40 {
		return hex.EncodeToString(b)
	}
	return fmt.Sprintf("%x...%x (%d bytes)", b[:20], b[len(b)-8:], len(b))
}
