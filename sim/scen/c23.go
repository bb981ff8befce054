package scen

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/hex"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"
	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C23", Run: runC23, Quick: 12000, Deep: 400000,
		Files: []string{"transaction/Transaction.go", "transaction/SignatureHash.go", "transaction/input/Input.go", "transaction/output/Output.go", "transaction/signature/InternalSigner.go",
			"script/Script.go", "script/address/Address.go", "script/address/BIP276.go", "block/GetCoinbaseParts.go", "block/GetMerkleBranches.go", "block/BuildMerkleRootFromCoinbase.go", "block/BuildBlockHeader.go", "crypto/Encryption.go"},
		Real: []string{"wallets: addresses, BIP276 invoices, Transaction.From, PayTo, AddOutput, SignAuto, Sign, ToBytes, GetTxID, parsing, Merkle proofs, recognition of their outputs, encrypted key files", "the miner: GetCoinbaseParts, BuildCoinbase, GetMerkleBranches, BuildMerkleRootFromCoinbase, BuildBlockHeader"},
		Stub: []string{"the network's ledger: an independent reference implementation of transaction, signature and block validation", "the network between the parties, with relays that redirect payments", "disks and crashes of wallets", "the system randomness source", "clock"},
		Rule: "a run is 2..4 wallets making 2..9 payments, joint payments and thefts over a ledger with blocks; non-trivial: the ledger judged a payment and a wallet a delivery; distinct: hash of the event log and of the task switch order",
	})
}

// point names an output.
func point(id string, n uint32) string { return id + ":" + strconv.FormatUint(uint64(n), 10) }

// ledger is the reference: what the rest of the network makes of what the
// library's users send.
type ledger struct {
	s      *sim
	utxo   map[string]ref.Out // spendable now, also in the mempool
	txs    map[string]*ref.Tx
	mem    []string // accepted, not yet in a block, in order
	blocks []*lblock
	owner  map[string]*key // by public key hash
	paid   map[string]bool // memos of accepted transactions
}

type lblock struct {
	ids    []string
	hashes [][]byte
	header []byte
	hash   string
}

// judge returns why the network refuses a transaction, or "".
func (l *ledger) judge(m *ref.Tx) string {
	if l.txs[m.ID()] != nil {
		return "known"
	}
	if len(m.Ins) == 0 || len(m.Outs) == 0 {
		return "no inputs or outputs"
	}
	var in, out uint64
	seen := map[string]bool{}
	for i := range m.Ins {
		x := &m.Ins[i]
		p := point(x.PrevID, x.PrevIdx)
		o, ok := l.utxo[p]
		if !ok || seen[p] {
			return "spends what is not there"
		}
		seen[p] = true
		x.HasPrev, x.PrevSats, x.PrevScript = true, o.Sats, o.Script
		in += o.Sats
	}
	for _, o := range m.Outs {
		if o.Sats > 21e14 {
			return "value out of range"
		}
		out += o.Sats
	}
	if out > in {
		return "pays more than it holds"
	}
	for i := range m.Ins {
		if d := l.unlocks(m, i); d != "" {
			return fmt.Sprintf("input %d: %s", i, d)
		}
	}
	return ""
}

// paysKey returns the hash a pay-to-public-key-hash script pays.
func paysKey(sc []byte) []byte {
	if len(sc) == 25 && bytes.Equal(sc, ref.P2PKH(sc[3:23])) {
		return sc[3:23]
	}
	return nil
}

func hashLock(secret string) []byte {
	return append(append([]byte{0xa9, 20}, ref.Hash160([]byte(secret))...), 0x87)
}

func puzzle(secret string, pkh []byte) []byte {
	return append(append(append([]byte{0xa9, 20}, ref.Hash160([]byte(secret))...), 0x88), ref.P2PKH(pkh)...)
}

// anyone is the script everyone can spend.
var anyone = []byte{0x51}

// unlocks returns why input i does not unlock what it spends, or "".
func (l *ledger) unlocks(m *ref.Tx, i int) string {
	lock, sc := m.Ins[i].PrevScript, m.Ins[i].Script
	if h := paysKey(lock); h != nil && l.owner[string(h)] != nil {
		return checkUnlock(m, i, sc, l.owner[string(h)], 0x41)
	}
	if bytes.Equal(lock, anyone) {
		if len(sc) > 0 {
			return "something where nothing is needed"
		}
		return ""
	}
	parts, ok := ref.ParseScript(sc)
	if !ok || len(parts) == 0 || len(lock) < 23 {
		return "nobody can spend it"
	}
	secret := parts[len(parts)-1]
	var all []byte
	for _, p := range parts {
		all = append(all, ref.Push(p)...)
	}
	switch {
	case !bytes.Equal(all, sc):
		return "not minimal pushes"
	case bytes.Equal(lock, hashLock(string(secret))) && len(parts) == 1:
		return ""
	case len(lock) == 48 && len(parts) == 3 && bytes.Equal(lock, puzzle(string(secret), lock[26:46])) && l.owner[string(lock[26:46])] != nil:
		return checkUnlock(m, i, append(ref.Push(parts[0]), ref.Push(parts[1])...), l.owner[string(lock[26:46])], 0x41)
	}
	return "nobody can spend it like this"
}

// signed tells whether a transaction holds a signature that covers it.
func signed(m *ref.Tx) bool {
	for _, i := range m.Ins {
		if paysKey(i.PrevScript) != nil || len(i.PrevScript) == 48 {
			return true
		}
	}
	return false
}

func (l *ledger) apply(m *ref.Tx) {
	id := m.ID()
	l.txs[id] = m
	for _, i := range m.Ins {
		delete(l.utxo, point(i.PrevID, i.PrevIdx))
	}
	for k, o := range m.Outs {
		l.utxo[point(id, uint32(k))] = o
	}
}

// coin is an output a wallet believes it can spend.
type coin struct {
	id     string
	vout   uint32
	script string
	sats   uint64
}

// trick is what it takes to spend a coin that is not simply paid to a key.
type trick struct {
	secret string
	key    int // -1: the secret is enough
}

type wallet struct {
	*kernel.Node
	s      *sim
	main   bool
	keys   []*key
	sgs    []*signature.InternalSigner
	addrs  []string
	c      cipher.Block
	file   int            // which key file is written next
	busy   bool           // a key file is not yet durable
	pad    bool           // key files are filled up to a multiple of 64 bytes
	roots  map[int]string // block height: Merkle root of a header seen
	coins  map[string]coin
	open   map[string]coin  // coins everyone can spend
	tricks map[string]trick // by locking script
	spent  map[string]bool
	paid   map[string]bool // memos seen
	seen   map[string]bool // transactions verified
}

// start derives what the wallet knows from its private keys.
func (w *wallet) start(priv [][]byte) {
	s := w.s
	var sgs []*signature.InternalSigner
	var addrs []string
	w.roots, w.coins, w.open, w.spent = map[int]string{}, map[string]coin{}, map[string]coin{}, map[string]bool{}
	w.paid, w.seen = map[string]bool{}, map[string]bool{}
	for i, b := range priv {
		pk, pub := bsvec.PrivKeyFromBytes(bsvec.S256(), b)
		f := sighash.AllForkID
		if i%2 == 1 {
			f = 0 // the default
		}
		sgs = append(sgs, &signature.InternalSigner{PrivateKey: pk, SigHashFlag: f})
		var a *address.Address
		var err error
		if i%2 == 0 {
			s.Call("NewFromPublicKey", func() { a, err = address.NewFromPublicKey(pub, w.main) })
		} else {
			s.Call("NewFromPublicKeyString", func() { a, err = address.NewFromPublicKeyString(hex.EncodeToString(pub.SerializeCompressed()), w.main) })
		}
		s.Check(err == nil && a != nil, "no-address", "%s has no address for its key: %v", w.Name, err)
		v := byte(0)
		if !w.main {
			v = 0x6f
		}
		want := ref.CheckEncode(v, w.keys[i].pkh)
		s.Check(a.AddressString == want && a.PublicKeyHash == hex.EncodeToString(w.keys[i].pkh), "wrong-address", "%s derives address %s and hash %s, want %s", w.Name, a.AddressString, a.PublicKeyHash, want)
		addrs = append(addrs, a.AddressString)
	}
	w.sgs, w.addrs = sgs, addrs
}

// save writes the private keys to the older of two files, encrypted.
func (w *wallet) save(r *rng, plan int) {
	s := w.s
	if w.busy {
		return
	}
	var blob []byte
	for _, g := range w.sgs {
		blob = append(blob, g.PrivateKey.Serialize()...)
	}
	blob = append(blob, ref.Sha256d(blob)[:4]...)
	for w.pad && len(blob)%64 != 0 {
		blob = append(blob, 0)
	}
	keep := append([]byte{}, blob...)
	ct, err, call := r.encrypt(w.c, blob, plan, errors.New("no entropy"), false)
	s.Check(bytes.Equal(blob, keep), "keys-changed", "storing the keys changed them")
	if err != nil {
		s.Check(call.failed != nil, "keys-unstored", "encrypting the keys fails: %v", err)
		return
	}
	w.Disk.Write(fmt.Sprint("keys", w.file), ct)
	done := func() {
		w.Disk.Sync()
		w.file, w.busy = 1-w.file, false
		s.Logf("%s stored its keys", w.Name)
	}
	if s.Now() == 0 {
		done()
		return
	}
	w.busy = true
	w.After(1+s.Choose(60_000), "sync", done)
}

// load reads them back after a crash.
func (w *wallet) load() [][]byte {
	s := w.s
	for _, f := range []int{1 - w.file, w.file} {
		ct, ok := w.Disk.Read(fmt.Sprint("keys", f))
		if !ok {
			continue
		}
		var b []byte
		var err error
		s.Call("Decrypt", func() { b, err = crypto.Decrypt(w.c, ct) })
		if n := 32*len(w.keys) + 4; err == nil && w.pad {
			if len(b) != (n+63)/64*64 {
				continue // not a whole file
			}
			b = b[:n]
		}
		if err != nil || len(b) < 36 || !bytes.Equal(ref.Sha256d(b[:len(b)-4])[:4], b[len(b)-4:]) {
			continue
		}
		var priv [][]byte
		for i := 0; i+32 < len(b); i += 32 {
			priv = append(priv, b[i:i+32])
		}
		ok = len(priv) == len(w.keys)
		for i := 0; ok && i < len(priv); i++ {
			ok = bytes.Equal(priv[i], w.keys[i].priv.Serialize())
		}
		s.Check(ok, "keys-lost", "%s read other keys than it stored", w.Name)
		w.file = 1 - f
		return priv
	}
	s.Fail("keys-lost", "%s cannot read its keys although they were stored", w.Name)
	return nil
}

func (w *wallet) owns(h []byte) bool {
	for _, k := range w.keys {
		if bytes.Equal(k.pkh, h) {
			return true
		}
	}
	return false
}

// scan takes a verified transaction into account; m is the truth.
func (w *wallet) scan(t *transaction.Transaction, id string, m *ref.Tx) {
	s := w.s
	for _, i := range t.GetInputs() {
		p := point(i.PreviousTxID, i.PreviousTxOutIndex)
		w.spent[p] = true
		delete(w.coins, p)
		delete(w.open, p)
	}
	for n, o := range t.GetOutputs() {
		var is bool
		var h []byte
		var err error
		s.Call("IsP2PKH", func() { is = o.LockingScript.IsP2PKH() })
		if is {
			s.Call("GetPublicKeyHash", func() { h, err = o.LockingScript.GetPublicKeyHash() })
		}
		mine := is && err == nil && w.owns(h)
		want := paysKey(m.Outs[n].Script) != nil && w.owns(paysKey(m.Outs[n].Script))
		s.Check(mine == want, "recognition", "%s takes output %d of %s, script %s, for its own: %v", w.Name, n, id, short(m.Outs[n].Script), mine)
		if _, ok := w.tricks[o.GetLockingScriptHexString()]; ok {
			mine = true
		}
		c := coin{id, uint32(n), o.GetLockingScriptHexString(), o.Satoshis}
		if !w.spent[point(id, c.vout)] {
			if mine {
				w.coins[point(id, c.vout)] = c
			} else if c.script == hex.EncodeToString(anyone) {
				w.open[point(id, c.vout)] = c
			}
		}
		var data bool
		s.Call("IsData", func() { data = o.LockingScript.IsData() })
		if data {
			var parts [][]byte
			s.Call("DecodeParts", func() { parts, err = script.DecodeParts(*o.LockingScript) })
			s.Check(err == nil && (len(parts) == 4 || len(parts) == 5), "memo", "%s cannot read the memo of %s: %d parts, %v", w.Name, id, len(parts), err)
			w.paid[string(parts[3])] = true
		}
	}
	w.seen[id] = true
}

// list is the wallet's coins in a fixed order.
func (w *wallet) list() (c []coin) {
	for _, p := range sortedKeys(w.coins) {
		c = append(c, w.coins[p])
	}
	return
}

// redirect is a relay that tries to profit from a transaction it forwards.
func redirect(thief *key) kernel.Damager {
	return func(s *sim, b, prev []byte) ([]byte, string) {
		m, err := ref.Decode(b)
		if err != nil || s.Intn(3) == 2 || len(m.Outs) == 0 || len(m.Ins) == 0 {
			return kernel.BytesDamage(s, b, prev)
		}
		i, o := &m.Ins[s.Intn(len(m.Ins))], &m.Outs[s.Intn(len(m.Outs))]
		what := ""
		switch s.Intn(10) {
		case 0:
			what = "payment redirected"
			o.Script = ref.P2PKH(thief.pkh)
		case 1:
			what = "amount changed"
			o.Sats += []uint64{1, ^uint64(0), 256, 1 << 32}[s.Intn(4)]
		case 2:
			what = "output removed"
			m.Outs = m.Outs[:len(m.Outs)-1]
		case 3:
			what = "output added"
			m.Outs = append(m.Outs, ref.Out{Sats: uint64(s.Intn(100)), Script: ref.P2PKH(thief.pkh)})
		case 4:
			what = "outputs swapped"
			m.Outs[0], *o = *o, m.Outs[0]
		case 5:
			what = "input replaced"
			i.PrevIdx ^= 1
		case 6:
			what = "sequence changed"
			i.Seq--
		case 7:
			what = "lock time or version changed"
			if s.Intn(2) == 0 {
				m.Lock++
			} else {
				m.Version ^= 3
			}
		case 8:
			what = "unlocking scripts swapped"
			m.Ins[0].Script, i.Script = i.Script, m.Ins[0].Script
		case 9:
			what = "input removed"
			m.Ins = m.Ins[:len(m.Ins)-1]
		}
		return m.Encode(), what
	}
}

func runC23(s *kernel.Sim) {
	s.Heal(400_000)
	s.Net.Swarm(true)
	s.SwarmPreempt()
	r := simRandom(s)
	node := s.NewNode("network")
	l := &ledger{s: s, utxo: map[string]ref.Out{}, txs: map[string]*ref.Tx{}, owner: map[string]*key{}, paid: map[string]bool{}}
	first := s.Intn(12)
	onMain := s.Intn(3) > 0
	var ws []*wallet
	for i, n := 0, s.Range(2, 4); i < n; i++ {
		w := &wallet{Node: s.NewNode(fmt.Sprintf("wallet%d", i)), s: s, main: onMain, tricks: map[string]trick{}}
		var priv [][]byte
		for j, k := 0, s.Range(1, 3); j < k; j++ {
			x := keyAt(first + 3*i + j)
			w.keys = append(w.keys, x)
			l.owner[string(x.pkh)] = x
			priv = append(priv, x.priv.Serialize())
		}
		w.pad = s.Intn(3) == 0
		w.c, _ = aes.NewCipher(ref.Sha256d([]byte(w.Name))[:16])
		w.start(priv)
		w.save(r, -1)
		ws = append(ws, w)
	}
	const subsidy = 50_0000_0000
	fees := func(ids []string) (f uint64) {
		for _, id := range ids {
			for _, i := range l.txs[id].Ins {
				f += i.PrevSats
			}
			for _, o := range l.txs[id].Outs {
				f -= o.Sats
			}
		}
		return
	}
	// mine makes a block with the library and shows it to the network.
	mine := func(addr string, pkh []byte) {
		ids := append([]string{strings.Repeat("0", 64)}, l.mem...)
		h := uint32(len(l.blocks) + 1)
		value := subsidy + fees(ids[1:])
		var c1, c2, cb, root, header []byte
		var err error
		var br []string
		var hash []byte
		text := fmt.Sprintf("/%d/", h)
		s.Call("GetCoinbaseParts", func() { c1, c2, err = block.GetCoinbaseParts(h, value, "", text, addr, nil) })
		s.Check(err == nil, "not-mined", "GetCoinbaseParts for %s: %v", addr, err)
		e1, e2 := fmt.Sprintf("%08x", h), "00112233445566ff"
		s.Call("BuildCoinbase", func() { cb = block.BuildCoinbase(c1, c2, e1, e2) })
		m, derr := ref.Decode(cb)
		s.Check(derr == nil && len(m.Ins) == 1 && len(m.Outs) == 1, "block-refused", "the coinbase of block %d, %s, is no transaction: %v", h, short(cb), derr)
		s.Check(m.Outs[0].Sats == value && bytes.Equal(m.Outs[0].Script, ref.P2PKH(pkh)), "block-refused", "the coinbase of block %d pays %d to %s, want %d to %x", h, m.Outs[0].Sats, short(m.Outs[0].Script), value, pkh)
		ids[0] = m.ID()
		hashes := make([][]byte, len(ids))
		for i, id := range ids {
			b, _ := hex.DecodeString(id)
			hashes[i] = ref.Rev(b)
		}
		tips := append([]string{}, ids...)
		s.Call("GetMerkleBranches", func() { br = block.GetMerkleBranches(tips) })
		s.Call("Sha256d", func() { hash = crypto.Sha256d(cb) })
		s.Call("BuildMerkleRootFromCoinbase", func() { root = block.BuildMerkleRootFromCoinbase(hash, br) })
		s.Check(bytes.Equal(root, ref.MerkleRoot(hashes)), "block-refused", "block %d of %d transactions has root %x, want %x", h, len(ids), root, ref.MerkleRoot(hashes))
		prev := strings.Repeat("00", 32)
		if len(l.blocks) > 0 {
			prev = l.blocks[len(l.blocks)-1].hash
		}
		tm := []byte{byte(h), byte(h >> 8), 0, 0x5f}
		s.Call("BuildBlockHeader", func() {
			header = block.BuildBlockHeader(0x20000000, prev, root, tm, []byte{0xff, 0xff, 0x7f, 0x20}, []byte{1, 2, 3, 4})
		})
		w := ref.Header(0x20000000, prev, root, 0x5f000000+h, 0x207fffff, 0x04030201)
		s.Check(bytes.Equal(header, w), "block-refused", "block %d has header %x, want %x", h, header, w)
		l.apply(m)
		l.mem = nil
		l.blocks = append(l.blocks, &lblock{ids: ids, hashes: hashes, header: header, hash: hex.EncodeToString(ref.Rev(ref.Sha256d(header)))})
		s.Logf("block %d: %d transactions, %d satoshis", h, len(ids), value)
		s.Did("blocks compared")
	}
	// deliver judges a transaction delivered to a wallet with its proof
	deliver := func(w *wallet, b []byte, damaged bool) {
		f := strings.Split(string(b), "|")
		for len(f) < 4 {
			f = append(f, "")
		}
		h, _ := strconv.Atoi(f[0])
		idx, e1 := strconv.Atoi(f[1])
		raw, e2 := hex.DecodeString(f[2])
		var path []string
		if f[3] != "" {
			path = strings.Split(f[3], ",")
		}
		want, known := w.roots[h]
		if e1 != nil || e2 != nil || !known {
			return
		}
		var t *transaction.Transaction
		var err error
		var id, root string
		s.Call("transaction.NewFromBytes", func() { t, err = transaction.NewFromBytes(raw) })
		if err == nil {
			s.Call("GetTxID", func() { id = t.GetTxID() })
			s.Call("MerkleRootFromBranches", func() { root, err = block.MerkleRootFromBranches(id, idx, path) })
		}
		if err != nil || root != want {
			s.Check(damaged, "delivery-refused", "%s does not accept the transaction %d of block %d delivered intact: %v, root %s, want %s", w.Name, idx, h, err, root, want)
			s.Did("damaged deliveries refused")
			return
		}
		m := l.txs[id]
		in := false
		for _, x := range l.blocks[h-1].ids {
			in = in || x == id
		}
		s.Check(in && m != nil && bytes.Equal(m.Encode(), raw), "delivery-forged", "%s accepts transaction %s, which is not in block %d", w.Name, id, h)
		w.scan(t, id, m)
		s.Did("deliveries taken into account")
		s.Logf("%s has %d coins", w.Name, len(w.coins))
	}
	deliveryDamage := func(s *sim, b, prev []byte) ([]byte, string) {
		f := strings.Split(string(b), "|")
		if s.Intn(2) == 0 && len(f) == 4 {
			raw, _ := hex.DecodeString(f[2])
			x, what := redirect(ws[0].keys[0])(s, raw, nil)
			f[2] = hex.EncodeToString(x)
			return details(f...), what
		}
		return fieldDamage(s, b, prev)
	}
	// show sends a wallet every block, or one.
	show := func(w *wallet, from int) {
		for h := from; h <= len(l.blocks); h++ {
			b := l.blocks[h-1]
			s.Net.Send(node, w.Node, "header", b.header, nil, func(x []byte, _ bool) {
				w.roots[h] = hex.EncodeToString(ref.Rev(x[36:68]))
			})
			for i, id := range b.ids {
				var path []string
				for _, p := range ref.MerklePath(b.hashes, i) {
					path = append(path, hex.EncodeToString(ref.Rev(p)))
				}
				msg := details(strconv.Itoa(h), strconv.Itoa(i), hex.EncodeToString(l.txs[id].Encode()), strings.Join(path, ","))
				s.Net.Send(node, w.Node, "transaction", msg, deliveryDamage, func(x []byte, damaged bool) { deliver(w, x, damaged) })
			}
		}
	}
	mineNow := func(w *wallet, k int) {
		node.Do("mine", func() {
			mine(w.addrs[k], w.keys[k].pkh)
			for _, x := range ws {
				show(x, len(l.blocks))
			}
		})
	}
	rescan := func(w *wallet) {
		s.Net.Send(w.Node, node, "rescan", nil, nil, func([]byte, bool) { show(w, 1) })
	}
	for _, w := range ws {
		w.OnRestart = func() {
			w.busy = false
			w.start(w.load())
			s.Probe("wallet restarted from its key file")
			rescan(w)
		}
	}
	thief := ws[s.Intn(len(ws))]
	// submit sends a transaction to the network. An intact copy of one that
	// must pass has to be accepted as long as what it spends is unspent.
	const (
		never = iota
		may
		must
	)
	submit := func(from *wallet, raw []byte, rule int, memo string) {
		s.Net.Send(from.Node, node, "submit", raw, redirect(thief.keys[0]), func(b []byte, damaged bool) {
			m, err := ref.Decode(b)
			why := "malformed"
			if err == nil {
				why = l.judge(m)
			}
			if why == "" && damaged && !signed(m) {
				why = "altered where nothing is signed"
			}
			if why == "" && (damaged || rule == never) {
				s.Fail("theft", "the network accepts %s from %s, which its owner did not make", short(b), from.Name)
			}
			if why != "" {
				if !damaged && rule == must && why != "known" && why != "spends what is not there" {
					s.Fail("payment-refused", "the network refuses the payment %s of %s: %s", short(b), from.Name, why)
				}
				s.Logf("network refuses %s of %s", memo, from.Name)
				s.Did("payments refused")
				return
			}
			l.apply(m)
			l.mem = append(l.mem, m.ID())
			l.paid[memo] = true
			s.Logf("network accepts %s of %s", memo, from.Name)
			s.Did("payments accepted")
		})
	}
	// fund adds coins until they hold at least need.
	fund := func(w *wallet, t *transaction.Transaction, need uint64, extra bool) (uint64, bool) {
		var have uint64
		cs := w.list()
		t.Version, t.Locktime = genVersion(s), genLock(s)
		defer func() {
			for _, i := range t.Inputs {
				if s.Intn(4) == 3 {
					i.SequenceNumber = genSeq(s)
				}
			}
		}()
		if ps := sortedKeys(w.open); extra && len(ps) > 0 && s.Intn(2) == 1 {
			c := w.open[ps[s.Intn(len(ps))]]
			var err error
			s.Call("From", func() { err = t.From(c.id, c.vout, c.script, c.sats) })
			s.Check(err == nil, "coin-refused", "From refuses the coin %v: %v", c, err)
			have += c.sats
			s.Probe("coin everyone can spend in a payment")
		}
		if len(cs) == 0 {
			return 0, false
		}
		off := s.Intn(len(cs))
		more := s.Intn(3)
		for k := range cs {
			c := cs[(off+k)%len(cs)]
			if have >= need {
				if more == 0 {
					break
				}
				more--
			}
			var err error
			s.Call("From", func() { err = t.From(c.id, c.vout, c.script, c.sats) })
			s.Check(err == nil, "coin-refused", "From refuses the coin %v of %s: %v", c, w.Name, err)
			have += c.sats
		}
		return have, have >= need
	}
	// payTo adds a payment by an invoice; it reports whether the payer could.
	payTo := func(w, to *wallet, t *transaction.Transaction, invoice string, x uint64, damaged bool) bool {
		var err error
		n := len(t.Outputs)
		if strings.HasPrefix(invoice, "bitcoin-script:") {
			var p string
			var data []byte
			s.Call("DecodeBIP276", func() { p, _, _, data, err = address.DecodeBIP276(invoice) })
			if err == nil && p == "bitcoin-script" {
				s.Call("AddOutput", func() { t.AddOutput(&output.Output{Satoshis: x, LockingScript: script.NewFromBytes(data)}) })
			}
		} else {
			s.Call("PayTo", func() { err = t.PayTo(invoice, x) })
		}
		if len(t.Outputs) == n {
			s.Check(damaged, "invoice-refused", "%s cannot pay the intact invoice %q: %v", w.Name, invoice, err)
			s.Did("damaged invoices refused")
			return false
		}
		sc := bytesOf(t.Outputs[n].LockingScript)
		s.Check(len(sc) == 25 && to.owns(sc[3:23]) && bytes.Equal(sc, ref.P2PKH(sc[3:23])) && t.Outputs[n].Satoshis == x, "misdirected", "%s pays the invoice %q of %s to %s", w.Name, invoice, to.Name, short(sc))
		return true
	}
	finish := func(w *wallet, t *transaction.Transaction, have, spend uint64, memo string) {
		if memo != "" {
			data := [][]byte{[]byte("pay"), []byte(memo)}
			if s.Intn(4) == 3 { // and something attached
				data = append(data, s.Bytes(1+genLen(s, s.Intn(50) == 49)))
			}
			var o *output.Output
			var err error
			s.Call("NewOpReturnParts", func() { o, err = output.NewOpReturnParts(data) })
			s.Check(err == nil, "memo", "NewOpReturnParts: %v", err)
			t.AddOutput(o)
		}
		if have > spend {
			var err error
			a := w.addrs[s.Intn(len(w.addrs))]
			s.Call("PayTo", func() { err = t.PayTo(a, have-spend) })
			s.Check(err == nil, "change-refused", "%s cannot pay change to its address %s: %v", w.Name, a, err)
		}
		var total uint64
		s.Call("GetTotalOutputSatoshis", func() { total = t.GetTotalOutputSatoshis() })
		s.Check(total <= have, "total", "%s holds %d and pays %d", w.Name, have, total)
	}
	// solve unlocks an input that takes a secret
	solve := func(w *wallet, t *transaction.Transaction, i int, x trick) {
		us := &script.Script{}
		var err error
		if x.key >= 0 {
			var h []byte
			s.Call("GetInputSignatureHash", func() { h, err = t.GetInputSignatureHash(uint32(i), sighash.AllForkID) })
			s.Check(err == nil, "not-signed", "GetInputSignatureHash of input %d: %v", i, err)
			sig, e := w.sgs[x.key].PrivateKey.Sign(ref.Rev(h))
			s.Check(e == nil, "not-signed", "Sign: %v", e)
			pub := w.keys[x.key].pub
			s.Call("NewP2PKHUnlockingScript", func() { us, err = script.NewP2PKHUnlockingScript(pub, sig.Serialize(), sighash.AllForkID) })
			s.Check(err == nil, "not-signed", "NewP2PKHUnlockingScript: %v", err)
		}
		s.Call("AppendPushData", func() { err = us.AppendPushData([]byte(x.secret)) })
		s.Check(err == nil, "not-signed", "AppendPushData: %v", err)
		s.Call("ApplyUnlockingScript", func() { err = t.ApplyUnlockingScript(uint32(i), us) })
		s.Check(err == nil, "not-signed", "ApplyUnlockingScript of input %d: %v", i, err)
		s.Probe("coin under a secret spent")
	}
	sign := func(w *wallet, t *transaction.Transaction) {
		n := len(w.sgs)
		var at []int
		for i, in := range t.Inputs {
			if c, ok := w.coins[point(in.PreviousTxID, in.PreviousTxOutIndex)]; ok {
				if _, ok := w.tricks[c.script]; ok {
					at = append(at, i)
				}
			}
		}
		for _, k := range s.Perm(n + len(at)) {
			if k >= n {
				i := at[k-n]
				solve(w, t, i, w.tricks[hex.EncodeToString(bytesOf(t.Inputs[i].PreviousTxScript))])
				continue
			}
			var err error
			s.Call("SignAuto", func() { err = t.SignAuto(w.sgs[k]) })
			s.Check(err == nil, "not-signed", "%s cannot sign: %v", w.Name, err)
		}
	}
	// amend changes a signed payment and signs it again
	amend := func(w *wallet, t *transaction.Transaction) {
		for n := s.Weighted(3, 1, 1); n > 0; n-- {
			s.Probe("signed payment amended")
			o := t.Outputs[s.Intn(len(t.Outputs))]
			switch s.Intn(5) {
			case 0:
				t.Version++
			case 1:
				t.Locktime++
			case 2:
				t.Inputs[s.Intn(len(t.Inputs))].SequenceNumber -= 2
			case 3: // a larger fee
				if last := t.Outputs[len(t.Outputs)-1]; paysKey(bytesOf(last.LockingScript)) != nil && w.owns(paysKey(bytesOf(last.LockingScript))) && last.Satoshis > 1 {
					last.Satoshis--
				}
			case 4:
				if o.Satoshis == 0 { // the memo goes elsewhere
					k := s.Intn(len(t.Outputs))
					for i := range t.Outputs {
						if t.Outputs[i] == o {
							t.Outputs[i], t.Outputs[k] = t.Outputs[k], t.Outputs[i]
							break
						}
					}
				}
			}
			sign(w, t)
		}
	}
	rawOf := func(t *transaction.Transaction) (b []byte) {
		if s.Intn(2) == 0 {
			s.Call("ToBytes", func() { b = t.ToBytes() })
			return
		}
		var h string
		s.Call("ToString", func() { h = t.ToString() })
		b, err := hex.DecodeString(h)
		s.Check(err == nil, "malformed", "ToString gives %s", tail(h))
		return
	}
	type payment struct {
		from, to *wallet
		x        uint64
		memo     string
		joint    *wallet
		kind     int // 0: to a key, 1: hash puzzle, 2: hash lock, 3: to a key, and something for everyone
		secret   string
		parts    int // in how many more outputs
	}
	// joint: another wallet adds a coin of its own and gets the value back
	joint := func(p *payment, t *transaction.Transaction, have, spend uint64) {
		j := p.joint
		cs := j.list()
		if len(cs) == 0 {
			return
		}
		c := cs[s.Intn(len(cs))]
		back := j.addrs[s.Intn(len(j.addrs))]
		taken := false
		offer := details("offer", c.id, strconv.FormatUint(uint64(c.vout), 10), c.script, strconv.FormatUint(c.sats, 10), back)
		s.Net.Send(j.Node, p.from.Node, "offer", offer, fieldDamage, func(b []byte, damaged bool) {
			f := strings.Split(string(b), "|")
			if len(f) != 6 || taken {
				return
			}
			vout, e1 := strconv.ParseUint(f[2], 10, 32)
			sats, e2 := strconv.ParseUint(f[4], 10, 50)
			if e1 != nil || e2 != nil || sats > 21e14 {
				return
			}
			taken = true
			var err error
			s.Call("From", func() { err = t.From(f[1], uint32(vout), f[3], sats) })
			if err == nil {
				s.Call("PayTo", func() { err = t.PayTo(f[5], sats) })
			}
			if err != nil {
				s.Check(damaged, "offer-refused", "%s refuses the intact offer %s: %v", p.from.Name, b, err)
				s.Did("damaged offers refused")
				return
			}
			finish(p.from, t, have+sats, sats+spend+uint64(len(t.Inputs)), p.memo)
			sign(p.from, t)
			amend(p.from, t)
			s.Net.Send(p.from.Node, j.Node, "half", rawOf(t), redirect(thief.keys[0]), func(b []byte, bad bool) {
				var u *transaction.Transaction
				var err error
				s.Call("transaction.NewFromBytes", func() { u, err = transaction.NewFromBytes(b) })
				if err != nil {
					s.Check(bad, "half-refused", "%s does not read the half signed payment %s: %v", j.Name, short(b), err)
					return
				}
				var in, out uint64
				mine := 0
				for _, i := range u.GetInputs() {
					if c, ok := j.coins[point(i.PreviousTxID, i.PreviousTxOutIndex)]; ok {
						i.PreviousTxSatoshis, i.PreviousTxScript = c.sats, newScript(unhexed(c.script))
						in += c.sats
						mine++
					}
				}
				for _, o := range u.GetOutputs() {
					var h []byte
					var e error
					s.Call("GetPublicKeyHash", func() { h, e = o.LockingScript.GetPublicKeyHash() })
					if e == nil && j.owns(h) {
						out += o.Satoshis
					}
				}
				if mine == 0 || out < in {
					s.Did("joint payments declined")
					s.Logf("%s declines %s: %d in, %d out", j.Name, p.memo, in, out)
					return
				}
				sign(j, u)
				s.Probe("joint payment signed by both")
				rule := must
				if damaged || bad {
					rule = may
				}
				submit(j, rawOf(u), rule, p.memo)
			})
		})
	}
	// pay starts a payment: the payee sends an invoice, the payer pays it
	pay := func(p *payment) {
		s.Logf("%s asks %s for %s", p.to.Name, p.from.Name, p.memo)
		k := s.Intn(len(p.to.addrs))
		if p.kind == 1 || p.kind == 2 {
			x, sc := trick{p.secret, k}, puzzle(p.secret, p.to.keys[k].pkh)
			if p.kind == 2 {
				x, sc = trick{p.secret, -1}, hashLock(p.secret)
			}
			p.to.tricks[hex.EncodeToString(sc)] = x
		}
		inv := p.to.addrs[k]
		dam := kernel.Damager(addressDamage)
		if s.Intn(3) == 2 {
			net, ver := 1, 1+s.Intn(3)
			if !onMain {
				net = 2
			}
			var o *output.Output
			var err error
			if s.Intn(2) == 0 {
				s.Call("NewP2PKHFromAddress", func() { o, err = output.NewP2PKHFromAddress(inv, p.x) })
			} else {
				s.Call("NewP2PkhFromPubKeyHash", func() { o, err = output.NewP2PkhFromPubKeyHash(hex.EncodeToString(p.to.keys[k].pkh), p.x) })
			}
			s.Check(err == nil, "no-invoice", "%s cannot make an invoice for %s: %v", p.to.Name, inv, err)
			s.Call("EncodeBIP276", func() { inv = address.EncodeBIP276("bitcoin-script", net, ver, *o.LockingScript) })
			dam = kernel.TextDamage("0123456789abcdef:-")
		}
		s.Net.Send(p.to.Node, p.from.Node, "invoice", []byte(inv), dam, func(b []byte, damaged bool) {
			if p.from.paid[p.memo] {
				return
			}
			t := transaction.New()
			s.Logf("%s has the invoice for %s", p.from.Name, p.memo)
			split := uint64(p.parts)
			have, ok := fund(p.from, t, p.x+1200, p.joint == nil)
			if !ok {
				s.Logf("%s cannot afford %s", p.from.Name, p.memo)
				s.Count("payments not afforded")
				return
			}
			each := p.x / (split + 2)
			switch p.kind {
			case 1:
				var o *output.Output
				var err error
				s.Call("NewHashPuzzle", func() {
					o, err = output.NewHashPuzzle(p.secret, hex.EncodeToString(p.to.keys[k].pkh), p.x-split*each)
				})
				s.Check(err == nil, "invoice-refused", "NewHashPuzzle: %v", err)
				t.AddOutput(o)
			case 2:
				var sc *script.Script
				var err error
				s.Call("NewFromHexString", func() { sc, err = script.NewFromHexString(hex.EncodeToString(hashLock(p.secret))) })
				s.Check(err == nil, "invoice-refused", "NewFromHexString: %v", err)
				t.AddOutput(&output.Output{Satoshis: p.x - split*each, LockingScript: sc})
			default:
				if !payTo(p.from, p.to, t, string(b), p.x-split*each, damaged) {
					return
				}
			}
			for i := uint64(0); i < split; i++ { // in several outputs
				if !payTo(p.from, p.to, t, string(b), each, damaged) {
					return
				}
			}
			spend := p.x
			if p.kind == 3 {
				x := uint64(s.Intn(800))
				t.AddOutput(&output.Output{Satoshis: x, LockingScript: script.NewFromBytes(anyone)})
				spend += x
			}
			if p.joint != nil {
				joint(p, t, have, spend)
				return
			}
			finish(p.from, t, have, spend+uint64(1+s.Intn(400)), p.memo)
			sign(p.from, t)
			amend(p.from, t)
			s.Logf("%s pays %s with %d inputs", p.from.Name, p.memo, len(t.Inputs))
			submit(p.from, rawOf(t), must, p.memo)
		})
	}
	// steal tries to spend others' coins
	steal := func() {
		t := transaction.New()
		ps := sortedKeys(l.utxo)
		var have uint64
		foreign, own := 0, 0
		for i, n := 0, s.Range(1, 3); i < n; i++ {
			p := ps[s.Intn(len(ps))]
			o := l.utxo[p]
			id, vout, _ := strings.Cut(p, ":")
			v, _ := strconv.ParseUint(vout, 10, 32)
			var err error
			s.Call("From", func() { err = t.From(id, uint32(v), hex.EncodeToString(o.Script), o.Sats) })
			s.Check(err == nil, "coin-refused", "From refuses the coin %s: %v", p, err)
			have += o.Sats
			switch {
			case paysKey(o.Script) != nil && thief.owns(paysKey(o.Script)):
				own++
			case !bytes.Equal(o.Script, anyone) && thief.tricks[hex.EncodeToString(o.Script)].secret == "":
				foreign++
			}
		}
		if foreign == 0 {
			return
		}
		var err error
		s.Call("PayTo", func() { err = t.PayTo(thief.addrs[0], have-min(have, 100)) })
		s.Check(err == nil, "change-refused", "PayTo %s: %v", thief.addrs[0], err)
		for _, g := range thief.sgs {
			s.Call("SignAuto", func() { err = t.SignAuto(g) })
			s.Check(err == nil, "not-signed", "%s cannot sign: %v", thief.Name, err)
		}
		signed := 0
		for _, i := range t.Inputs {
			if len(bytesOf(i.UnlockingScript)) > 0 {
				signed++
			}
		}
		s.Check(signed == own, "foreign-signed", "%s signed %d inputs of which %d are its own", thief.Name, signed, own)
		if s.Intn(2) == 1 { // by force
			for i := range t.Inputs {
				if len(bytesOf(t.Inputs[i].UnlockingScript)) == 0 {
					s.Call("Sign", func() { err = t.Sign(uint32(i), thief.sgs[0]) })
				}
			}
		}
		s.Did("thefts tried")
		submit(thief, rawOf(t), never, "theft")
	}
	// everyone starts with coins
	for _, w := range ws {
		for i, n := 0, s.Range(1, 2); i < n; i++ {
			k := s.Intn(len(w.addrs))
			mine(w.addrs[k], w.keys[k].pkh)
		}
	}
	for _, w := range ws {
		s.At(uint64(s.Intn(2000)), func() { show(w, 1) })
	}
	var ps []*payment
	for i, n := 0, 2+s.Intn(8); i < n; i++ {
		s.Begin()
		p := &payment{memo: fmt.Sprint("p", i)}
		a := s.Perm(len(ws))
		p.from, p.to = ws[a[0]], ws[a[1]]
		p.x = []uint64{1, 4, 1000, 65536, 1 << 32, 49_9999_0000, 60_0000_0000, 1 + s.Choose(50_0000_0000)}[s.Intn(8)]
		if s.Intn(8) == 7 {
			p.to = p.from
		}
		p.kind = s.Weighted(4, 2, 1, 1)
		p.secret = fmt.Sprintf("secret %d %s", i, strings.Repeat("x", []int{0, 0, 0, 66, 67, 250, 600}[s.Intn(7)]))
		p.parts = s.Intn(3)
		if s.Intn(150) == 149 {
			p.parts = 248 + s.Intn(80)
			s.Probe("payment of over 248 outputs")
		}
		if s.Intn(4) == 3 {
			p.joint = ws[a[1+s.Intn(len(a)-1)]]
		}
		at := 20_000 + s.Choose(350_000)
		again := at + s.Choose(100_000)
		s.End()
		ps = append(ps, p)
		s.At(at, func() { p.to.Do("pay", func() { pay(p) }) })
		s.At(again, func() { p.to.Do("pay", func() { pay(p) }) })
	}
	for i, n := 0, 2+s.Intn(6); i < n; i++ {
		s.Begin()
		w := ws[s.Intn(len(ws))]
		k := s.Intn(len(w.addrs))
		at := 10_000 + s.Choose(380_000)
		s.End()
		s.At(at, func() { mineNow(w, k) })
	}
	for i, n := 0, s.Intn(8); i < n; i++ {
		s.Begin()
		w := ws[s.Intn(len(ws))]
		kind := s.Intn(4)
		at := 10_000 + s.Choose(380_000)
		plan := -1
		if s.Intn(3) == 2 {
			plan = s.Intn(20)
		}
		s.End()
		s.At(at, func() {
			switch kind {
			case 0:
				thief.Do("steal", steal)
			case 1:
				w.Do("store", func() { w.save(r, plan) })
			default:
				w.Do("rescan", func() { rescan(w) })
			}
		})
	}
	s.Chaos(true, true, true)
	s.RunUntil(s.Healed())
	settle := func() { s.Settle(6_000_000_000) }
	settle()
	// faults have stopped: every payment that its payer can afford arrives
	balance := func(w *wallet) (v uint64) {
		for _, c := range w.coins {
			v += c.sats
		}
		return
	}
	agree := func() {
		for _, w := range ws {
			rescan(w)
		}
		settle()
		for _, w := range ws {
			want := map[string]uint64{}
			for p, o := range l.utxo {
				_, secret := w.tricks[hex.EncodeToString(o.Script)]
				if secret || paysKey(o.Script) != nil && w.owns(paysKey(o.Script)) {
					want[p] = o.Sats
				}
			}
			s.Check(len(want) == len(w.coins), "coins", "%s sees %d coins, the network %d", w.Name, len(w.coins), len(want))
			for _, p := range sortedKeys(want) {
				s.Check(w.coins[p].sats == want[p], "coins", "%s sees %d satoshis in %s, the network %d", w.Name, w.coins[p].sats, p, want[p])
			}
		}
		s.Did("balances compared")
	}
	mineNow(ws[0], 0)
	settle()
	agree()
	for i, p := range ps {
		if l.paid[p.memo] || balance(p.from) < p.x+1200 {
			continue
		}
		if p.joint != nil && len(p.joint.coins) == 0 {
			p.joint = nil
		}
		p.to.Do("pay", func() { pay(p) })
		settle()
		s.Check(l.paid[p.memo], "no-progress", "%s of %d from %s to %s was not accepted although faults stopped", p.memo, p.x, p.from.Name, p.to.Name)
		if i%2 == 0 || i == len(ps)-1 {
			mineNow(ws[i%len(ws)], 0)
			settle()
		}
		agreeAll := i == len(ps)-1
		if agreeAll {
			agree()
		} else {
			mineNow(ws[0], 0)
			settle()
		}
	}
	// everything is swept to one wallet
	for i, w := range ws {
		if len(w.coins) == 0 {
			continue
		}
		w.Do("sweep", func() {
			t := transaction.New()
			have, _ := fund(w, t, ^uint64(0)>>1, false)
			var err error
			s.Call("PayTo", func() { err = t.PayTo(ws[0].addrs[0], have) })
			s.Check(err == nil, "change-refused", "PayTo %s: %v", ws[0].addrs[0], err)
			sign(w, t)
			submit(w, rawOf(t), must, fmt.Sprint("sweep", i))
		})
		settle()
		s.Check(l.paid[fmt.Sprint("sweep", i)], "no-progress", "%s cannot sweep its coins", w.Name)
	}
	mineNow(ws[0], 0)
	settle()
	agree()
	free := uint64(0)
	for _, o := range l.utxo {
		if bytes.Equal(o.Script, anyone) {
			free += o.Sats
		}
	}
	s.Check(free+balance(ws[0]) == subsidy*uint64(len(l.blocks)), "value-lost", "%d blocks made %d satoshis, %s holds %d", len(l.blocks), subsidy*uint64(len(l.blocks)), ws[0].Name, balance(ws[0]))
}

func sortedKeys[T any](m map[string]T) (k []string) {
	for p := range m {
		k = append(k, p)
	}
	sort.Strings(k)
	return
}

func unhexed(h string) []byte {
	b, _ := hex.DecodeString(h)
	return b
}
