package scen

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/rand"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"
	"github.com/libsv/libsv/utils"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C09", Run: runC09, Race: true, Quick: 24000, Deep: 600000,
		Files: []string{"transaction/Transaction.go", "transaction/SignatureHash.go", "transaction/input/Input.go", "transaction/output/Output.go", "transaction/signature/InternalSigner.go",
			"script/Script.go", "script/OpPushdata.go", "script/RedeemScript.go", "script/UnlockingScript.go", "script/address/Address.go", "script/address/AddressValidation.go", "script/address/BIP276.go",
			"block/GetMerkleBranches.go", "block/BuildMerkleRootFromCoinbase.go", "block/BuildBlockHeader.go", "block/GetCoinbaseParts.go", "block/Difficulty.go",
			"crypto/Encryption.go", "crypto/Hash.go", "utils/ByteManipulation.go", "utils/VarInt.go", "utils/HumanHash.go"},
		Real: []string{"every exported function and method of libsv, called on shared objects", "InternalSigner shared by threads that sign different transactions", "the race detector of the Go toolchain in the second pass"},
		Stub: []string{"the thread scheduler: threads are switched between statements in an order drawn from the seed", "the system randomness source", "locks and pools of package sync inside libsv, when it uses any"},
		Rule: "a run is 2..6 threads making 2..12 calls each on shared objects; non-trivial: every result was compared with the sequential one; distinct: hash of the order of task switches and results",
	})
}

// zeroRand is a randomness source without state that threads could race on.
type zeroRand struct{}

func (zeroRand) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(i) ^ 0x5c
	}
	return len(p), nil
}

// c09Model is what the shared objects are built from.
type c09Model struct {
	txs, priv [][]*ref.Tx // priv: per thread, what it signs
	scripts   [][]byte
	parts     [][]byte
	m         int
	pubs      [][]byte
	ext       []*hdKey
	elec      string
	template  []string
	leaf      []byte
	branches  []string
	c1, c2    []byte
	tmpl      *template
	hash32    []byte
	key       []byte
	plain     []byte
	signKey   *key
	flag      byte
	addrs     []string
	badAddr   string
	bips      []string
	asm       []string
	hexes     []string
	varints   [][]byte
	share     bool // threads' transactions share previous scripts
}

// fix is one set of shared objects.
type fix struct {
	m        *c09Model
	bufs     [][]byte // every shared buffer with its spare capacity
	strs     [][]string
	lists    [][][]byte
	txs      []*transaction.Transaction
	ins      [][]*input.Input // as they are in txs, with spare capacity
	outs     [][]*output.Output
	raws     [][]byte
	inRaws   [][]byte
	outRaws  [][]byte
	scripts  []*script.Script
	parts    [][]byte
	rs       *script.RedeemScript
	template []string
	branches []string
	leaf     []byte
	hash     []byte
	c1, c2   []byte
	miner    []byte
	words    [3][]byte
	cipher   cipher.Block
	plain    []byte
	ct       []byte
	signer   *signature.InternalSigner
	priv     [][]*transaction.Transaction
	prs      []*script.RedeemScript // per thread
	psc      []*script.Script       // per thread
	varints  [][]byte
}

const canary = 0xC9

// pad copies b into a buffer with spare capacity that nobody may write.
func (f *fix) pad(b []byte) []byte {
	n := 40
	x := append(make([]byte, 0, len(b)+n), b...)
	x = append(x, bytes.Repeat([]byte{canary}, n)...)
	f.bufs = append(f.bufs, x)
	return x[:len(b)]
}

func (f *fix) padScript(b []byte) *script.Script {
	x := script.Script(f.pad(b))
	return &x
}

func (f *fix) padStrings(l []string) []string {
	x := append(append(make([]string, 0, len(l)+4), l...), "spare", "spare", "spare", "spare")
	f.strs = append(f.strs, x)
	return x[:len(l)]
}

func (f *fix) padList(l [][]byte) [][]byte {
	x := make([][]byte, 0, len(l)+4)
	for _, b := range l {
		x = append(x, f.pad(b))
	}
	x = append(x, nil, nil, nil, nil)
	f.lists = append(f.lists, x)
	return x[:len(l)]
}

func (f *fix) lib(t *ref.Tx) *transaction.Transaction {
	l := transaction.New()
	l.Version, l.Locktime = t.Version, t.Lock
	ins := make([]*input.Input, 0, len(t.Ins)+4)
	for _, i := range t.Ins {
		n := &input.Input{PreviousTxID: i.PrevID, PreviousTxOutIndex: i.PrevIdx, PreviousTxSatoshis: i.PrevSats,
			SequenceNumber: i.Seq}
		if !unscripted(&i) {
			n.UnlockingScript = f.padScript(i.Script)
		}
		if i.HasPrev {
			n.PreviousTxScript = f.padScript(i.PrevScript)
		}
		ins = append(ins, n)
	}
	outs := make([]*output.Output, 0, len(t.Outs)+4)
	for _, o := range t.Outs {
		outs = append(outs, &output.Output{Satoshis: o.Sats, LockingScript: f.padScript(o.Script)})
	}
	l.Inputs, l.Outputs = ins, outs
	return l
}

func newFix(m *c09Model, nt int) *fix {
	f := &fix{m: m}
	for _, t := range m.txs[0] {
		l := f.lib(t)
		f.txs = append(f.txs, l)
		f.ins = append(f.ins, append([]*input.Input{}, l.Inputs[:cap(l.Inputs)]...))
		f.outs = append(f.outs, append([]*output.Output{}, l.Outputs[:cap(l.Outputs)]...))
		f.raws = append(f.raws, f.pad(t.Encode()))
		for i := range t.Ins {
			f.inRaws = append(f.inRaws, f.pad(t.Ins[i].Encode()))
		}
		for i := range t.Outs {
			f.outRaws = append(f.outRaws, f.pad(t.Outs[i].Encode()))
		}
	}
	for _, b := range m.scripts {
		f.scripts = append(f.scripts, f.padScript(b))
	}
	f.parts = f.padList(m.parts)
	f.rs = &script.RedeemScript{SignaturesRequired: m.m, PublicKeys: f.padList(m.pubs)}
	f.template, f.branches = f.padStrings(m.template), f.padStrings(m.branches)
	f.leaf, f.hash = f.pad(m.leaf), f.pad(m.hash32[:20])
	f.c1, f.c2, f.miner = f.pad(m.c1), f.pad(m.c2), f.pad(m.tmpl.miner)
	for i := range f.words {
		f.words[i] = f.pad(m.hash32[4*i : 4*i+4])
	}
	f.cipher, _ = aes.NewCipher(m.key)
	f.plain = f.pad(m.plain)
	ct, err := crypto.Encrypt(f.cipher, append([]byte{}, m.plain...))
	if err != nil {
		panic(err)
	}
	f.ct = f.pad(ct)
	f.signer = &signature.InternalSigner{PrivateKey: m.signKey.priv, SigHashFlag: sighash.Flag(m.flag)}
	for _, b := range m.varints {
		f.varints = append(f.varints, f.pad(b))
	}
	common := map[string]*script.Script{}
	for k := 0; k < nt; k++ {
		var p []*transaction.Transaction
		for _, t := range m.priv[k] {
			l := toLib(t)
			for i, in := range l.Inputs {
				if in.PreviousTxScript == nil {
					continue
				}
				c := common[string(t.Ins[i].PrevScript)]
				if c == nil || !m.share {
					c = f.padScript(t.Ins[i].PrevScript)
					common[string(t.Ins[i].PrevScript)] = c
				}
				in.PreviousTxScript = c
			}
			p = append(p, l)
		}
		f.priv = append(f.priv, p)
		f.prs = append(f.prs, &script.RedeemScript{SignaturesRequired: 2})
		f.psc = append(f.psc, &script.Script{})
	}
	return f
}

// snap describes everything the threads share.
func (f *fix) snap() string {
	var w strings.Builder
	for i, b := range f.bufs {
		fmt.Fprintf(&w, "buffer %d %x\n", i, b)
	}
	for i, l := range f.strs {
		fmt.Fprintf(&w, "strings %d %q\n", i, l)
	}
	for i, l := range f.lists {
		fmt.Fprintf(&w, "list %d %x\n", i, l)
	}
	for i, t := range f.txs {
		fmt.Fprintf(&w, "tx %d version %d lock %d %d %d\n", i, t.Version, t.Locktime, len(t.Inputs), len(t.Outputs))
		for k, in := range t.Inputs[:cap(t.Inputs)] {
			if in != f.ins[i][k] {
				fmt.Fprintf(&w, "input %d replaced\n", k)
			}
			if in != nil {
				fmt.Fprintf(&w, "input %d %s %d %d %x %v %x %v\n", k, in.PreviousTxID, in.PreviousTxOutIndex, in.PreviousTxSatoshis, in.SequenceNumber,
					in.PreviousTxScript != nil, bytesOf(in.UnlockingScript), in.UnlockingScript != nil)
			}
		}
		for k, o := range t.Outputs[:cap(t.Outputs)] {
			if o != f.outs[i][k] {
				fmt.Fprintf(&w, "output %d replaced\n", k)
			}
			if o != nil {
				fmt.Fprintf(&w, "output %d %d %x\n", k, o.Satoshis, bytesOf(o.LockingScript))
			}
		}
	}
	for i, p := range f.scripts {
		fmt.Fprintf(&w, "script %d %x\n", i, []byte(*p))
	}
	fmt.Fprintf(&w, "redeem %d %x %x\n", f.rs.SignaturesRequired, f.rs.PublicKeys, f.rs.Signatures)
	fmt.Fprintf(&w, "signer %v %x\n", f.signer.SigHashFlag, f.signer.PrivateKey.Serialize())
	return w.String()
}

// res collects what one call returned, without fmt: a thread must not meet the
// others in the pools of package fmt, where they would be ordered.
type res struct {
	b    []byte
	keep bool     // keep what was returned
	kept [][]byte // to be overwritten by its owner
}

func (r *res) sep() *res { r.b = append(r.b, '|'); return r }
func (r *res) str(s string) *res {
	r.b = append(r.b, s...)
	return r.sep()
}

// bytes records b; own bytes are then overwritten, since they are the caller's.
func (r *res) bytes(b []byte, own bool) *res {
	if b == nil {
		r.b = append(r.b, "nil"...)
	}
	r.b = hex.AppendEncode(r.b, b)
	if r.keep {
		r.kept = append(r.kept, b)
	}
	if own {
		for i := range b {
			b[i] ^= 0xff
		}
	}
	return r.sep()
}
func (r *res) err(e error) *res {
	if e != nil {
		return r.str("error")
	}
	return r.str("ok")
}
func (r *res) yes(v bool) *res {
	if v {
		return r.str("true")
	}
	return r.str("false")
}
func (r *res) num(v uint64) *res {
	for k := 0; k < 8; k++ {
		r.b = append(r.b, "0123456789abcdef"[v>>(60-4*k)&15])
	}
	for k := 8; k < 16; k++ {
		r.b = append(r.b, "0123456789abcdef"[v>>(60-4*k)&15])
	}
	return r.sep()
}
func (r *res) script(s *script.Script, e error) *res {
	if s == nil {
		return r.str("no script").err(e)
	}
	return r.bytes(*s, true).err(e)
}
func (r *res) output(o *output.Output, e error) *res {
	if o == nil {
		return r.str("no output").err(e)
	}
	return r.num(o.Satoshis).script(o.LockingScript, e)
}
func (r *res) addr(a *address.Address, e error) *res {
	if a == nil {
		return r.str("no address").err(e)
	}
	return r.str(a.AddressString).str(a.PublicKeyHash).err(e)
}
func (r *res) list(l [][]byte, e error) *res {
	for _, b := range l {
		r.bytes(b, false)
	}
	return r.err(e)
}

// c09op is one library call a thread may make. k is the thread, a and b are
// drawn beforehand.
type c09op struct {
	name   string
	weight int
	run    func(f *fix, k, a, b int, r *res)
}

func pick[T any](l []T, i int) T { return l[i%len(l)] }

var c09ops = []c09op{
	{"Transaction.ToBytes", 4, func(f *fix, k, a, b int, r *res) { r.bytes(pick(f.txs, a).ToBytes(), true) }},
	{"Transaction.ToString", 2, func(f *fix, k, a, b int, r *res) { r.str(pick(f.txs, a).ToString()) }},
	{"Transaction.GetTxID", 3, func(f *fix, k, a, b int, r *res) { r.str(pick(f.txs, a).GetTxID()) }},
	{"Transaction counts", 2, func(f *fix, k, a, b int, r *res) {
		t := pick(f.txs, a)
		r.num(uint64(t.InputCount())).num(uint64(t.OutputCount())).num(t.GetTotalOutputSatoshis()).yes(t.IsCoinbase())
		r.num(uint64(len(t.GetInputs()))).num(uint64(len(t.GetOutputs())))
	}},
	{"Transaction.GetInputSignatureHash", 6, func(f *fix, k, a, b int, r *res) {
		t := pick(f.txs, a)
		h, e := t.GetInputSignatureHash(uint32(b%(len(t.Inputs)+1)), sighash.Flag(pick(flags, b/16)))
		r.bytes(h, true).err(e)
	}},
	{"Transaction.ToBytesWithClearedInputs", 1, func(f *fix, k, a, b int, r *res) {
		r.bytes(pick(f.txs, a).ToBytesWithClearedInputs(b%4, *pick(f.scripts, b)), true)
	}},
	{"transaction.NewFromBytes", 3, func(f *fix, k, a, b int, r *res) {
		raw := pick(f.raws, a)
		if b%4 == 3 && len(raw) > 0 {
			raw = raw[:b%len(raw)]
		}
		t, e := transaction.NewFromBytes(raw)
		r.err(e)
		if e == nil {
			for _, i := range t.Inputs { // the parsed transaction is this thread's
				i.UnlockingScript.AppendOpCode(0x51)
				i.SequenceNumber ^= 1
			}
			for _, o := range t.Outputs {
				o.LockingScript.AppendOpCode(0x52)
				if len(*o.LockingScript) > 0 {
					(*o.LockingScript)[0] ^= 1
				}
			}
			r.bytes(t.ToBytes(), true)
		}
	}},
	{"transaction.NewFromString", 1, func(f *fix, k, a, b int, r *res) {
		t, e := transaction.NewFromString(pick(f.m.hexes, a))
		r.err(e)
		if e == nil {
			r.str(t.GetTxID())
		}
	}},
	{"Transaction.Sign", 6, func(f *fix, k, a, b int, r *res) {
		t := pick(f.priv[k], a)
		e := t.Sign(uint32(b%(len(t.Inputs)+1)), f.signer)
		r.err(e).bytes(t.ToBytes(), true)
	}},
	{"Transaction.SignAuto", 5, func(f *fix, k, a, b int, r *res) {
		t := pick(f.priv[k], a)
		e := t.SignAuto(f.signer)
		r.err(e).bytes(t.ToBytes(), true)
	}},
	{"Transaction building", 2, func(f *fix, k, a, b int, r *res) {
		t := pick(f.priv[k], a)
		e := t.PayTo(pick(f.m.addrs, b), uint64(b))
		e2 := t.From(f.m.template[0], uint32(b), pick(f.m.hexes, b), 7)
		e3 := t.ApplyUnlockingScript(uint32(b%4), newScript(pick(f.m.scripts, b)))
		r.err(e).err(e2).err(e3).str(t.GetTxID())
		// keep what is signed small
		t.Outputs = t.Outputs[:len(pick(f.m.priv[k], a).Outs)]
		t.Inputs = t.Inputs[:len(pick(f.m.priv[k], a).Ins)]
	}},
	{"Input.ToBytes", 2, func(f *fix, k, a, b int, r *res) {
		if t := pick(f.txs, a); len(t.Inputs) > 0 {
			r.bytes(pick(t.Inputs, b).ToBytes(b&64 != 0), true)
		}
	}},
	{"Input.String", 1, func(f *fix, k, a, b int, r *res) {
		// String needs a script to show
		if t := pick(f.txs, a); len(t.Inputs) > 0 && pick(t.Inputs, b).UnlockingScript != nil {
			r.str(pick(t.Inputs, b).String())
		}
	}},
	{"input.NewFromBytes", 2, func(f *fix, k, a, b int, r *res) {
		if len(f.inRaws) == 0 {
			return
		}
		i, n, e := input.NewFromBytes(pick(f.inRaws, a))
		r.num(uint64(n)).err(e)
		if e == nil {
			i.UnlockingScript.AppendOpCode(0x53)
			r.bytes(i.ToBytes(false), true)
		}
	}},
	{"input.NewFromUTXO", 1, func(f *fix, k, a, b int, r *res) {
		i, e := input.NewFromUTXO(pick(f.m.template, a), uint32(b), uint64(b), pick(f.m.hexes, b), 5)
		r.err(e)
		if e == nil {
			r.bytes(i.ToBytes(false), true).script(i.PreviousTxScript, nil)
		}
	}},
	{"Output.ToBytes", 2, func(f *fix, k, a, b int, r *res) {
		if t := pick(f.txs, a); len(t.Outputs) > 0 {
			r.bytes(pick(t.Outputs, b).ToBytes(), true)
			r.bytes(pick(t.Outputs, b).GetBytesForSigHash(), true)
			r.str(pick(t.Outputs, b).GetLockingScriptHexString())
		}
	}},
	{"Output.String", 1, func(f *fix, k, a, b int, r *res) {
		if t := pick(f.txs, a); len(t.Outputs) > 0 {
			r.str(pick(t.Outputs, b).String())
		}
	}},
	{"output.NewFromBytes", 2, func(f *fix, k, a, b int, r *res) {
		if len(f.outRaws) == 0 {
			return
		}
		o, n, e := output.NewFromBytes(pick(f.outRaws, a))
		r.num(uint64(n)).output(o, e)
	}},
	{"outputs", 2, func(f *fix, k, a, b int, r *res) {
		switch a % 4 {
		case 0:
			r.output(output.NewP2PkhFromPubKeyHash(hex.EncodeToString(f.m.hash32[:20-b%2]), uint64(b)))
		case 1:
			r.output(output.NewP2PKHFromAddress(pick(f.m.addrs, b), uint64(b)))
		case 2:
			r.output(output.NewHashPuzzle(f.m.tmpl.text, hex.EncodeToString(f.m.hash32[:20]), 9))
		case 3:
			r.output(output.NewOpReturn(pick(f.parts, b)))
		}
	}},
	{"output.NewOpReturnParts", 2, func(f *fix, k, a, b int, r *res) { r.output(output.NewOpReturnParts(f.parts[:a%(len(f.parts)+1)])) }},
	{"script.EncodeParts", 2, func(f *fix, k, a, b int, r *res) {
		x, e := script.EncodeParts(f.parts[:a%(len(f.parts)+1)])
		r.bytes(x, true).err(e)
		x, e = script.GetPushDataPrefix(pick(f.parts, b))
		r.bytes(x, true).err(e)
	}},
	{"script.DecodeParts", 3, func(f *fix, k, a, b int, r *res) { r.list(script.DecodeParts(*pick(f.scripts, a))) }},
	{"script.DecodeStringParts", 1, func(f *fix, k, a, b int, r *res) { r.list(script.DecodeStringParts(pick(f.m.hexes, a))) }},
	{"Script classification", 4, func(f *fix, k, a, b int, r *res) {
		p := pick(f.scripts, a)
		r.yes(p.IsP2PKH()).yes(p.IsP2PK()).yes(p.IsP2SH()).yes(p.IsData()).yes(p.IsMultisigOut())
		h, e := p.GetPublicKeyHash()
		r.bytes(h, false).err(e)
	}},
	{"Script text", 3, func(f *fix, k, a, b int, r *res) {
		p := pick(f.scripts, a)
		s, e := p.ToASM()
		r.str(s).err(e).str(p.ToString())
	}},
	{"script from text", 2, func(f *fix, k, a, b int, r *res) {
		switch b % 6 {
		case 0:
			r.script(script.NewFromHexString(pick(f.m.hexes, a)))
		case 1:
			r.script(script.NewFromASM(pick(f.m.asm, a)))
		case 2:
			r.script(script.NewP2PKHFromPubKeyStr(hex.EncodeToString(pick(f.m.pubs, a))))
		case 3:
			r.script(script.NewP2PKHFromPubKeyBytes(pick(f.rs.PublicKeys, a)))
		case 4:
			r.script(script.NewP2PKHFromPubKeyHashStr(hex.EncodeToString(f.m.hash32[:20])))
		case 5:
			r.script(script.NewP2PKHFromAddress(pick(f.m.addrs, a)))
		}
	}},
	{"script.NewFromBytes", 1, func(f *fix, k, a, b int, r *res) { r.str(script.NewFromBytes(*pick(f.scripts, a)).ToString()) }},
	{"script.NewP2PKHUnlockingScript", 2, func(f *fix, k, a, b int, r *res) {
		r.script(script.NewP2PKHUnlockingScript(pick(f.rs.PublicKeys, a), pick(f.parts, b), sighash.Flag(pick(flags, b))))
	}},
	{"Script appends", 3, func(f *fix, k, a, b int, r *res) {
		p := f.psc[k] // this thread's script, shared data
		var e error
		switch a % 4 {
		case 0:
			e = p.AppendPushData(pick(f.parts, b))
		case 1:
			e = p.AppendPushDataArray(f.parts)
		case 2:
			e = p.AppendPushDataHexString(pick(f.m.hexes, b))
		case 3:
			e = p.AppendPushDataStrings(f.m.asm)
		}
		p.AppendOpCode(byte(b))
		r.err(e).bytes(*p, false)
		if len(*p) > 2000 {
			*p = (*p)[:0]
		}
	}},
	{"RedeemScript reads", 5, func(f *fix, k, a, b int, r *res) {
		switch a % 4 {
		case 0:
			r.str(f.rs.GetAddress())
		case 1:
			r.bytes(f.rs.GetRedeemScript(), true)
		case 2:
			r.bytes(f.rs.GetRedeemScriptHash(), true)
		case 3:
			r.str(f.rs.GetAddress()).bytes(f.rs.GetRedeemScript(), true)
		}
	}},
	{"RedeemScript.AddPublicKey", 1, func(f *fix, k, a, b int, r *res) {
		x := pick(f.m.ext, a)
		text, path := x.text, x.path[:]
		switch b % 8 {
		case 5:
			text = text[:len(text)-1] + "1"
		case 6:
			path = path[:1]
		case 7:
			path = []uint32{1 << 31, 0} // hardened: a public key has no such child
		}
		e := f.prs[k].AddPublicKey(text, path)
		r.err(e).bytes(f.prs[k].GetRedeemScript(), true)
	}},
	{"script.NewRedeemScriptFromElectrum", 1, func(f *fix, k, a, b int, r *res) {
		t := f.m.elec
		if b%4 == 3 {
			t = t[:2*(b%(len(t)/2))]
		}
		rs, e := script.NewRedeemScriptFromElectrum(t)
		r.err(e)
		if e == nil {
			r.bytes(rs.GetRedeemScript(), true)
		}
	}},
	{"script.NewRedeemScript", 1, func(f *fix, k, a, b int, r *res) {
		rs, e := script.NewRedeemScript(a % 18)
		r.err(e).yes(rs != nil)
	}},
	{"address.NewFromString", 3, func(f *fix, k, a, b int, r *res) {
		t := pick(f.m.addrs, a)
		if b%4 == 3 {
			t = f.m.badAddr
		}
		r.addr(address.NewFromString(t))
	}},
	{"address.ValidateAddress", 3, func(f *fix, k, a, b int, r *res) {
		t := pick(f.m.addrs, a)
		switch b % 6 {
		case 4:
			t = f.m.badAddr
		case 5:
			t = pick(f.m.bips, a)
		}
		v, e := address.ValidateAddress(t)
		r.yes(v).err(e)
	}},
	{"addresses of keys", 3, func(f *fix, k, a, b int, r *res) {
		switch a % 3 {
		case 0:
			r.addr(address.NewFromPublicKeyHash(f.hash, b&1 == 0))
		case 1:
			r.addr(address.NewFromPublicKey(f.signer.PrivateKey.PubKey(), b&1 == 0))
		case 2:
			r.addr(address.NewFromPublicKeyString(hex.EncodeToString(pick(f.m.pubs, b)), b&1 == 0))
		}
	}},
	{"address.Base58EncodeMissingChecksum", 2, func(f *fix, k, a, b int, r *res) {
		r.str(address.Base58EncodeMissingChecksum(pick(f.parts, a)))
	}},
	{"address.EncodeBIP276", 2, func(f *fix, k, a, b int, r *res) {
		r.str(address.EncodeBIP276("bitcoin-script", 1+b%255, 1+a%255, *pick(f.scripts, a)))
	}},
	{"address.DecodeBIP276", 2, func(f *fix, k, a, b int, r *res) {
		p, v, n, d, e := address.DecodeBIP276(pick(f.m.bips, a))
		r.str(p).num(uint64(v)).num(uint64(n)).bytes(d, true).err(e)
	}},
	{"block.BuildCoinbase", 3, func(f *fix, k, a, b int, r *res) {
		r.bytes(block.BuildCoinbase(f.c1, f.c2, pick(f.m.asm[:1], 0)[:0]+hex.EncodeToString(f.m.hash32[:4]), hex.EncodeToString(f.m.hash32[4:8])), true)
	}},
	{"block.GetCoinbaseParts", 3, func(f *fix, k, a, b int, r *res) {
		t := f.m.tmpl
		w, to := hex.EncodeToString(t.witness), t.address
		switch b % 8 {
		case 6:
			w = "0g"
		case 7:
			to = f.m.badAddr
		}
		x, y, e := block.GetCoinbaseParts(t.height, t.value, w, t.text, to, f.miner)
		r.bytes(x, true).bytes(y, true).err(e)
	}},
	{"block.GetMerkleBranches", 3, func(f *fix, k, a, b int, r *res) {
		for _, x := range block.GetMerkleBranches(f.template) {
			r.str(x)
		}
	}},
	{"block.MerkleRootFromBranches", 2, func(f *fix, k, a, b int, r *res) {
		id := f.m.template[0]
		if b%8 == 7 {
			id = id[:2*(b%32)+1]
		}
		x, e := block.MerkleRootFromBranches(id, a%(1<<min(len(f.branches), 10)), f.branches)
		r.str(x).err(e)
	}},
	{"block.BuildMerkleRootFromCoinbase", 4, func(f *fix, k, a, b int, r *res) {
		l := f.leaf
		if b%8 == 7 {
			l = l[:31]
		}
		x := block.BuildMerkleRootFromCoinbase(l, f.branches)
		r.bytes(x, len(f.branches) > 0)
	}},
	{"block.BuildBlockHeader", 2, func(f *fix, k, a, b int, r *res) {
		r.bytes(block.BuildBlockHeader(uint32(b), f.m.template[0], f.leaf, f.words[0], f.words[1], f.words[2]), true)
	}},
	{"block targets", 2, func(f *fix, k, a, b int, r *res) {
		t := hex.EncodeToString([]byte{byte(f.m.tmpl.bits >> 24), byte(f.m.tmpl.bits >> 16), byte(f.m.tmpl.bits >> 8), byte(f.m.tmpl.bits)})
		if b%4 == 3 {
			t = t[:b%8]
		}
		x, e := block.ExpandTargetFrom(t)
		i, e2 := block.ExpandTargetFromAsInt(t)
		r.str(x).err(e).err(e2)
		if e2 == nil {
			r.str(i.Text(16))
			i.SetInt64(7) // it is the caller's
		}
		d, e := block.DifficultyFromBits(t)
		r.num(uint64(d)).err(e)
		r.str(utils.HumanHash(block.DifficultyToHashrate(pick([]string{"BSV", "bsv", "BTC", "?", "RSV"}, b), uint64(a), 600)))
		r.str(utils.HumanHash(float64(uint64(1) << (b % 64))))
	}},
	{"hashes", 3, func(f *fix, k, a, b int, r *res) {
		x := pick(f.parts, a)
		r.bytes(crypto.Sha256(x), true).bytes(crypto.Sha256d(x), true).bytes(crypto.Ripemd160(x), true).bytes(crypto.Hash160(x), true)
	}},
	{"crypto.Encrypt", 2, func(f *fix, k, a, b int, r *res) {
		ct, e := crypto.Encrypt(f.cipher, f.plain)
		r.err(e)
		if e == nil {
			p, e2 := crypto.Decrypt(f.cipher, ct)
			r.bytes(p, true).err(e2)
		}
	}},
	{"crypto.Decrypt", 4, func(f *fix, k, a, b int, r *res) {
		ct := f.ct
		if b%4 == 3 {
			ct = ct[:b%len(ct)]
		}
		p, e := crypto.Decrypt(f.cipher, ct)
		r.bytes(p, true).err(e)
	}},
	{"utils bytes", 3, func(f *fix, k, a, b int, r *res) {
		x := pick(f.parts, a)
		r.bytes(utils.ReverseBytes(x), true).yes(utils.Equals(x, pick(f.parts, b)))
		r.str(utils.ReverseHexString(pick(f.m.hexes, a)))
		h, e := utils.Decode32Byte(pick(f.m.template, a))
		r.bytes(h[:], false).err(e)
		r.bytes(utils.GetLittleEndianBytes(uint32(b), 4), true)
	}},
	{"utils.SortByteArrays", 1, func(f *fix, k, a, b int, r *res) {
		r.list(utils.SortByteArrays(append([][]byte{}, f.parts...)), nil) // sorts in place: its own list
	}},
	{"utils varints", 2, func(f *fix, k, a, b int, r *res) {
		v, n := utils.DecodeVarInt(pick(f.varints, a))
		r.num(v).num(uint64(n)).bytes(utils.VarInt(v), true)
	}},
}

type c09call struct{ op, a, b int }

func genC09(s *sim, nt int) *c09Model {
	m := &c09Model{}
	var shared []*ref.Tx
	for i, n := 0, 1+s.Intn(2); i < n; i++ {
		owners := make([]*key, s.Intn(4))
		for k := range owners {
			if s.Intn(4) > 0 {
				owners[k] = keyAt(s.Intn(nKeys))
			}
		}
		shared = append(shared, genSpend(s, owners, s.Intn(4)))
	}
	if s.Intn(4) == 3 { // a coinbase
		shared[0].Ins = []ref.In{{PrevID: strings.Repeat("00", 32), PrevIdx: 0xffffffff, Seq: 0xffffffff, Script: s.Bytes(8)}}
	}
	m.txs = [][]*ref.Tx{shared}
	m.signKey = keyAt(s.Intn(nKeys))
	m.flag = append([]byte{0}, flags...)[s.Intn(7)]
	m.share = s.Intn(2) == 1
	for k := 0; k < nt; k++ {
		var l []*ref.Tx
		for i, n := 0, 1+s.Intn(2); i < n; i++ {
			owners := make([]*key, 1+s.Intn(3))
			if s.Intn(4) == 3 {
				owners = make([]*key, 4+s.Intn(5))
			}
			for j := range owners {
				owners[j] = m.signKey
				if s.Intn(4) == 3 {
					owners[j] = keyAt(s.Intn(nKeys))
				}
			}
			l = append(l, genSpend(s, owners, s.Intn(3)))
		}
		m.priv = append(m.priv, l)
	}
	for i, n := 0, 1+s.Intn(5); i < n; i++ {
		b, _ := genKindScript(s)
		if s.Intn(4) == 3 {
			b, _ = scriptDamage(s, append([]byte{}, b...), nil)
		}
		if len(b) > 1500 { // some calls take quadratic time
			b = b[:1500]
		}
		m.scripts = append(m.scripts, b)
		m.hexes = append(m.hexes, hex.EncodeToString(b))
	}
	m.hexes = append(m.hexes, hex.EncodeToString(shared[0].Encode()), "abc", "zz")
	for i, n := 0, 1+s.Intn(5); i < n; i++ {
		m.parts = append(m.parts, genItem(s, false))
	}
	m.m = 2 + s.Intn(2)
	for i, n := 0, 1+s.Intn(5); i < n; i++ {
		m.pubs = append(m.pubs, keyAt(s.Intn(nKeys)).pub)
	}
	for i := 0; i < 3; i++ {
		m.ext = append(m.ext, hdAt(hdID{s.Intn(2), s.Intn(2) == 1, [2]uint32{uint32(s.Intn(2)), uint32(s.Intn(4))}}))
	}
	m.elec = hex.EncodeToString(electrum(2, m.ext))
	m.hash32 = s.Bytes(32)
	m.tmpl = genTemplate(s, nil)
	m.tmpl.witness, m.tmpl.miner = m.tmpl.witness[:min(len(m.tmpl.witness), 600)], m.tmpl.miner[:min(len(m.tmpl.miner), 600)]
	m.template = []string{genTxID(s)}
	for i, n := 0, s.Intn(9); i < n; i++ {
		m.template = append(m.template, genTxID(s))
	}
	m.leaf = s.Bytes(32)
	for i, n := 0, s.Intn(5); i < n; i++ {
		m.branches = append(m.branches, hex.EncodeToString(s.Bytes(32)))
	}
	m.c1, m.c2 = s.Bytes(s.Intn(60)), s.Bytes(s.Intn(60))
	m.key = s.Bytes([]int{16, 24, 32}[s.Intn(3)])
	m.plain = genPlain(s)
	for i := 0; i < 3; i++ {
		m.addrs = append(m.addrs, ref.CheckEncode([]byte{0, 0x6f}[s.Intn(2)], keyAt(s.Intn(nKeys)).pkh))
	}
	x := []byte(m.addrs[0])
	x[5+s.Intn(8)] = "123456789ABCDEFGH"[s.Intn(17)]
	m.badAddr = string(x)
	for i := 0; i < 2; i++ {
		m.bips = append(m.bips, ref.BIP276("bitcoin-script", 1+s.Intn(255), 1+s.Intn(255), pick(m.scripts, i)))
	}
	m.asm = []string{"OP_DUP OP_HASH160 " + hex.EncodeToString(m.hash32[:20]) + " OP_EQUALVERIFY OP_CHECKSIG", "OP_FALSE OP_RETURN 0102", "OP_BAD"}
	for _, v := range []uint64{s.U64(), uint64(s.Intn(300)), 0xfd} {
		m.varints = append(m.varints, ref.VarInt(v))
	}
	return m
}

func runC09(s *kernel.Sim) {
	rand.Reader = zeroRand{}
	nt := 2 + s.Intn(5)
	m := genC09(s, nt)
	total := 0
	for _, o := range c09ops {
		total += o.weight
	}
	pickOp := func() int {
		v := s.Intn(total)
		for i, o := range c09ops {
			if v -= o.weight; v < 0 {
				return i
			}
		}
		return 0
	}
	calls := make([][]c09call, nt)
	same := s.Intn(3) == 2 // all threads make the same kind of calls
	few := []int{pickOp(), pickOp()}
	for k := range calls {
		for i, n := 0, 2+s.Intn(11); i < n; i++ {
			s.Begin()
			op := pickOp()
			if same {
				op = few[s.Intn(2)]
			}
			calls[k] = append(calls[k], c09call{op, s.Intn(256), s.Intn(256)})
			s.End()
		}
	}
	f := newFix(m, nt)
	before := f.snap()
	results := make([][]res, nt)
	progs := make([]func(), nt)
	names := make([]string, nt)
	for k := range progs {
		results[k] = make([]res, len(calls[k]))
		names[k] = fmt.Sprintf("thread%d", k)
		rs, cs := results[k], calls[k]
		progs[k] = func() {
			for i, c := range cs {
				c09ops[c.op].run(f, k, c.a, c.b, &rs[i])
			}
		}
	}
	mean := []int{1, 2, 5, 15, 60, 200}[s.Intn(6)]
	s.RunThreads(names, progs, mean)
	after := f.snap()
	// the same calls, one thread after the other, on equal objects
	g := newFix(m, nt)
	for k := range calls {
		for i, c := range calls[k] {
			var r res
			s.Call(c09ops[c.op].name, func() { c09ops[c.op].run(g, k, c.a, c.b, &r) })
			got := results[k][i]
			if !bytes.Equal(got.b, r.b) {
				s.Fail("result", "%s, call %d of thread %d, returned %s with other threads running and %s alone", c09ops[c.op].name, i, k, tail(string(got.b)), tail(string(r.b)))
			}
			s.Count("calls compared")
			s.Logf("thread%d %s", k, c09ops[c.op].name)
		}
	}
	s.Useful = true
	if before != after {
		x, y := strings.Split(before, "\n"), strings.Split(after, "\n")
		for i := range x {
			if i >= len(y) || x[i] != y[i] {
				s.Fail("shared-written", "a call wrote to a shared object: it was %s and is %s", tail(x[i]), tail(strings.Join(y[min(i, len(y)):min(i+1, len(y))], "")))
			}
		}
		s.Fail("shared-written", "a call wrote to a shared object")
	}
}
