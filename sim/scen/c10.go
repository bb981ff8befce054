package scen

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/transaction"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C10", Run: runC10, Quick: 120000, Deep: 2000000,
		Files: []string{"block/GetCoinbaseParts.go", "block/BuildMerkleRootFromCoinbase.go", "block/BuildBlockHeader.go", "block/GetMerkleBranches.go", "block/Difficulty.go"},
		Real:  []string{"block.GetCoinbaseParts, BuildCoinbase, GetMerkleBranches, BuildMerkleRootFromCoinbase, BuildBlockHeader, ExpandTargetFrom, ExpandTargetFromAsInt, DifficultyFromBits", "transaction parsing of the coinbase"},
		Stub:  []string{"pool and miners speaking a stratum-like protocol over a faulty network", "node supplying block templates, some of them malformed", "pool journal and crash recovery", "clock"},
		Rule:  "a run is a pool giving 1..6 jobs to 1..4 miners that send shares, with loss, repetition, delay, staleness and crashes; non-trivial: a miner's coinbase, root and header were compared with the reference block; distinct: hash of the event log and of the task switch order",
	})
}

// template is what the node gives the pool.
type template struct {
	height  uint32
	value   uint64
	witness []byte
	text    string
	address string
	pkh     []byte
	miner   []byte
	txs     [][]byte // wire order, without the coinbase
	path    [][]byte // the siblings of the coinbase
	prev    string
	version uint32
	bits    uint32
}

func genTemplate(s *sim, last *template) *template {
	t := &template{}
	switch s.Weighted(3, 2, 2) {
	case 0:
		t.height = uint32(s.Intn(700000))
	case 1:
		t.height = []uint32{0, 1, 16, 17, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffff, 0x7ffffe, 0x800000, 0xffffff}[s.Intn(16)]
	case 2:
		t.height = uint32(s.Intn(0x1000000))
	}
	t.value = genSats(s)
	k := keyAt(s.Intn(nKeys))
	t.pkh = k.pkh
	if s.Intn(8) == 7 {
		t.pkh = [][]byte{make([]byte, 20), bytes.Repeat([]byte{0xff}, 20), append(make([]byte, 19), 1)}[s.Intn(3)]
	}
	t.address = ref.CheckEncode([]byte{0, 0x6f}[s.Intn(2)], t.pkh)
	switch s.Intn(4) {
	case 1:
		t.witness = append([]byte{0x6a, 0x24, 0xaa, 0x21, 0xa9, 0xed}, s.Bytes(32)...)
	case 2:
		t.witness = s.Bytes(genLen(s, true))
	}
	switch s.Intn(4) {
	case 1:
		t.miner = append([]byte{0x00, 0x6a}, ref.Push(s.Bytes(1+s.Intn(200)))...)
	case 2:
		t.miner = s.Bytes(genLen(s, true))
	}
	if s.Intn(8) == 7 { // outputs alike
		switch x := ref.P2PKH(t.pkh); s.Intn(3) {
		case 0:
			t.miner = append([]byte{}, t.witness...)
		case 1:
			t.witness = x
		case 2:
			t.witness, t.miner = x, append([]byte{}, x...)
		}
	}
	n := s.Intn(60)
	if s.Intn(2) == 1 {
		n = []int{0, 1, 83, 84, 85, 87, 88, 89, 95, 96, 97, 99, 100, 101, 252, 253, 300}[s.Intn(17)]
	}
	if s.Intn(3) == 2 {
		t.text = string(s.Bytes(n))
	} else {
		t.text = strings.Repeat("/libsv pool/", n/12+1)[:n]
	}
	nt := 0
	switch s.Weighted(24, 12, 6, 1) {
	case 3:
		nt = s.Intn(1500)
		if s.Intn(40) == 39 {
			nt = 1500 << s.Intn(4)
			nt += s.Intn(nt)
			s.Probe("template of more than 1500 transactions")
		}
	case 0:
		nt = s.Intn(9)
	case 1:
		nt = s.Intn(40)
	case 2:
		nt = []int{1, 2, 3, 6, 7, 8, 14, 15, 16, 17, 31, 32, 62, 63, 64, 127, 128, 255, 256}[s.Intn(19)]
	}
	tx := func(i int) []byte { return ref.Sha256d([]byte(fmt.Sprintf("%d %d", i, s.Now()))) }
	t.prev = genTxID(s)
	if last != nil && s.Intn(3) == 2 { // the same block with some transactions replaced, moved, added or gone
		t.prev, nt = last.prev, len(last.txs)
		t.txs = append(t.txs, last.txs...)
		for k := 1 + s.Intn(2); k > 0 && nt > 0; k-- {
			i, j := s.Intn(nt), s.Intn(nt)
			switch s.Intn(4) {
			case 0, 1:
				t.txs[i] = tx(i)
			case 2:
				t.txs[i], t.txs[j] = t.txs[j], t.txs[i]
			case 3:
				t.txs = append(t.txs[:i], t.txs[i+1:]...)
				nt--
			}
		}
		if s.Intn(3) == 2 {
			t.txs = append(t.txs, tx(nt))
		}
	} else {
		for i := 0; i < nt; i++ {
			t.txs = append(t.txs, tx(i))
		}
	}
	t.version = s.U32()
	t.bits = []uint32{0x207fffff, 0x2100ffff, 0x1f7fffff, 0x1d00ffff, 0x1745fb53, 0x20400000, 0x2000ffff, 0x2200ff, 0x01010000, 0x03000001, 0x02000100, 0x1d800000}[s.Intn(12)]
	return t
}

func runC10(s *kernel.Sim) {
	s.Heal(200_000)
	s.Net.Swarm(true)
	s.SwarmPreempt()
	node := s.NewNode("node")
	pool := s.NewNode("pool")
	type miner struct {
		*kernel.Node
		e1   []byte
		job  int // newest job, -1: none
		best int
	}
	type job struct {
		t        *template
		c1, c2   []byte
		branches []string
		target   string
		targetI  *big.Int
	}
	var templates []*template
	jobs := map[int]*job{} // what the pool knows; lost in a crash
	accepted := map[string]bool{}
	split := []int{4, 8, 6, 0, 12, 5}[s.Intn(6)] // bytes of extra nonce 1
	var miners []*miner
	for i, n := 0, s.Range(1, 4); i < n; i++ {
		m := &miner{Node: s.NewNode(fmt.Sprintf("miner%d", i)), job: -1}
		m.e1 = append(bytes.Repeat([]byte{byte(i)}, split), 0)[:split]
		if s.Intn(3) == 2 && split > 0 {
			m.e1[0], m.e1[split-1] = byte(s.Intn(256)), byte(i)
		}
		m.OnRestart = func() { m.job = -1 }
		miners = append(miners, m)
	}
	hexOf := hex.EncodeToString
	// expand compares target expansion with the reference for any text
	expand := func(text string) (string, *big.Int, bool) {
		var a string
		var n *big.Int
		var e1, e2, e3 error
		var diff float64
		s.Call("ExpandTargetFrom", func() { a, e1 = block.ExpandTargetFrom(text) })
		s.Call("ExpandTargetFromAsInt", func() { n, e2 = block.ExpandTargetFromAsInt(text) })
		s.Call("DifficultyFromBits", func() { diff, e3 = block.DifficultyFromBits(text) })
		raw, err := hex.DecodeString(text)
		if err != nil || len(raw) != 4 {
			s.Check(e1 != nil && e2 != nil && e3 != nil, "bits-accepted", "malformed bits %q were accepted", text)
			s.Did("malformed bits refused")
			return "", nil, false
		}
		s.Check(e2 == nil && n != nil, "bits-refused", "ExpandTargetFromAsInt(%q): %v", text, e2)
		bits := binary.BigEndian.Uint32(raw)
		want, ok := ref.Target(bits)
		s.Check(n.Cmp(want) == 0, "wrong-target", "bits %q expand to %x, want %x", text, n, want)
		if !ok {
			s.Check(e1 != nil, "bits-accepted", "bits %q denote no target but expand to %s", text, a)
			s.Probe("negative or oversized target")
			return "", nil, false
		}
		s.Check(e1 == nil, "bits-refused", "ExpandTargetFrom(%q): %v", text, e1)
		s.Check(a == fmt.Sprintf("%064x", want), "wrong-target", "bits %q expand to %s, want %064x", text, a, want)
		_ = diff
		s.Did("targets compared")
		return a, n, true
	}
	makeJob := func(t *template) *job {
		j := &job{t: t}
		var err error
		mid := append(make([]byte, 0, len(t.miner)+8), t.miner...)
		s.Call("GetCoinbaseParts", func() {
			j.c1, j.c2, err = block.GetCoinbaseParts(t.height, t.value, hexOf(t.witness), t.text, t.address, mid)
		})
		s.Check(err == nil, "template-refused", "GetCoinbaseParts: %v", err)
		s.Check(bytes.Equal(mid, t.miner), "input-changed", "GetCoinbaseParts changed the miner id")
		ids := []string{strings.Repeat("0", 64)}
		for _, h := range t.txs {
			ids = append(ids, hexOf(ref.Rev(h)))
		}
		keep := append([]string{}, ids...)
		s.Call("GetMerkleBranches", func() { j.branches = block.GetMerkleBranches(ids) })
		for i := range ids {
			s.Check(ids[i] == keep[i], "input-changed", "GetMerkleBranches changed its input")
		}
		j.target, j.targetI, _ = expand(fmt.Sprintf("%08x", t.bits))
		return j
	}
	// malformed delivers a template with one field damaged in transit
	malformed := func(t *template, field int, b []byte) {
		address, witness := t.address, hexOf(t.witness)
		switch field {
		case 0:
			address = string(b)
		case 1:
			witness = string(b)
		case 2:
			expand(string(b))
			return
		}
		_, good := ref.P2PKHAddress(address)
		if _, err := hex.DecodeString(witness); err != nil {
			good = false
		}
		var err error
		s.Call("GetCoinbaseParts", func() {
			_, _, err = block.GetCoinbaseParts(t.height, t.value, witness, t.text, address, t.miner)
		})
		s.Check(good == (err == nil), "malformed-accepted", "GetCoinbaseParts with address %q and commitment %q: %v, want an error: %v", address, tail(witness), err, !good)
		if !good {
			s.Did("malformed templates refused")
		}
	}
	share := func(m *miner, id int, e2 []byte, time, nonce uint32, cb, root, header []byte) {
		t := templates[id]
		extra := append(append([]byte{}, m.e1...), e2...)
		want := ref.Coinbase(t.height, t.value, t.witness, t.text, t.pkh, t.miner, extra)
		if !bytes.Equal(cb, want.Encode()) {
			s.Fail("wrong-coinbase", "%s joined coinbase %s, want %s", m.Name, short(cb), short(want.Encode()))
		}
		s.Check(len(want.Ins[0].Script) <= 100 && len(want.Ins[0].Script) >= 16, "wrong-coinbase", "coinbase data of %d bytes", len(want.Ins[0].Script))
		if t.path == nil { // as far as the coinbase is not involved
			t.path = append([][]byte{}, ref.MerklePath(append([][]byte{make([]byte, 32)}, t.txs...), 0)...)
		}
		wr, _ := ref.FromPath(ref.Sha256d(want.Encode()), 0, t.path)
		if !bytes.Equal(root, wr) {
			s.Fail("wrong-root", "%s computed Merkle root %x for %d transactions, want %x", m.Name, root, 1+len(t.txs), wr)
		}
		wh := ref.Header(t.version, t.prev, wr, time, t.bits, nonce)
		if !bytes.Equal(header, wh) {
			s.Fail("wrong-header", "%s built header %x, want %x", m.Name, header, wh)
		}
		j := jobs[id]
		if j == nil || j.target == "" {
			return
		}
		hash := hexOf(ref.Rev(ref.Sha256d(header)))
		ht, _ := new(big.Int).SetString(hash, 16)
		wt, _ := ref.Target(t.bits)
		solved := ht.Cmp(wt) <= 0
		s.Check((hash <= j.target) == solved && (ht.Cmp(j.targetI) <= 0) == solved, "wrong-verdict", "share with hash %s solves the block: %v, but the expanded target is %s", hash, solved, j.target)
		if solved {
			s.Probe("block solved")
		}
		s.Did("shares compared")
	}
	mine := func(m *miner, id int, j *job, nonce0 uint32) {
		e2 := make([]byte, 12-split)
		for i := range e2 {
			e2[i] = byte(id*31 + i*7 + int(nonce0))
		}
		if s.Intn(4) == 3 {
			e2 = s.Bytes(12 - split)
		}
		time, nonce := s.U32(), s.U32()
		var cb, root, header, hash []byte
		c1, c2 := append([]byte{}, j.c1...), append([]byte{}, j.c2...)
		s.Call("BuildCoinbase", func() { cb = block.BuildCoinbase(c1, c2, hexOf(m.e1), hexOf(e2)) })
		s.Check(bytes.Equal(c1, j.c1) && bytes.Equal(c2, j.c2), "input-changed", "BuildCoinbase changed its input")
		s.Call("Sha256d", func() { hash = crypto.Sha256d(cb) })
		hc := append([]byte{}, hash...)
		br := append([]string{}, j.branches...)
		s.Call("BuildMerkleRootFromCoinbase", func() { root = block.BuildMerkleRootFromCoinbase(hash, br) })
		s.Check(bytes.Equal(hash, hc), "input-changed", "BuildMerkleRootFromCoinbase changed the coinbase hash")
		for i := range br {
			s.Check(br[i] == j.branches[i], "input-changed", "BuildMerkleRootFromCoinbase changed the branches")
		}
		if s.Intn(30) == 29 { // the branches of a far larger block
			s.Begin()
			deep, path := []string{}, [][]byte{}
			for k := 2 + s.Intn(40); k > 0; k-- {
				path = append(path, ref.Sha256d([]byte(fmt.Sprintf("branch %d %d", k, s.Now()))))
				deep = append(deep, hexOf(path[len(path)-1]))
			}
			s.End()
			var got []byte
			s.Call("BuildMerkleRootFromCoinbase", func() { got = block.BuildMerkleRootFromCoinbase(hash, deep) })
			w, _ := ref.FromPath(hc, 0, path)
			s.Check(bytes.Equal(got, w), "wrong-root", "%s computed Merkle root %x from %d branches, want %x", m.Name, got, len(deep), w)
			s.Probe("Merkle root from many branches")
		}
		le := func(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }
		rc := append([]byte{}, root...)
		s.Call("BuildBlockHeader", func() {
			header = block.BuildBlockHeader(j.t.version, j.t.prev, root, le(time), le(j.t.bits), le(nonce))
		})
		s.Check(bytes.Equal(root, rc), "input-changed", "BuildBlockHeader changed the root")
		// the coinbase is a transaction the library reads as one
		var tx *transaction.Transaction
		var err error
		s.Call("transaction.NewFromBytes", func() { tx, err = transaction.NewFromBytes(cb) })
		s.Check(err == nil, "coinbase-malformed", "the joined coinbase does not parse: %v", err)
		want := ref.Coinbase(j.t.height, j.t.value, j.t.witness, j.t.text, j.t.pkh, j.t.miner, append(append([]byte{}, m.e1...), e2...))
		if d := sameTx(tx, want); d != "" {
			s.Fail("wrong-coinbase", "%s joined a coinbase with %s", m.Name, d)
		}
		s.Check(tx.IsCoinbase(), "coinbase-malformed", "the joined coinbase is not recognised as one")
		body := append(append(append([]byte{}, cb...), root...), header...)
		n := len(cb)
		s.Net.Send(m.Node, pool, "share", body, nil, func(b []byte, _ bool) {
			share(m, id, e2, time, nonce, b[:n], b[n:n+len(root)], b[n+len(root):])
			accepted[fmt.Sprintf("%s %d", m.Name, id)] = true
			s.Logf("share of %s for job %d", m.Name, id)
		})
	}
	send := func(id int) {
		j := jobs[id]
		for _, m := range miners {
			c1, c2, br := append([]byte{}, j.c1...), append([]byte{}, j.c2...), append([]string{}, j.branches...)
			s.Net.Send(pool, m.Node, "job", nil, nil, func([]byte, bool) {
				if id < m.job && s.Intn(2) == 1 {
					return // stale; some miners work on it all the same
				}
				if id < m.job {
					s.Probe("stale job mined")
				}
				m.job = max(m.job, id)
				got := &job{t: templates[id], c1: c1, c2: c2, branches: br}
				for k, n := 0, 1+s.Intn(3); k < n; k++ {
					mine(m, id, got, uint32(k))
				}
			})
		}
	}
	newTemplate := func() int {
		var last *template
		if n := len(templates); n > 0 {
			last = templates[n-1]
		}
		templates = append(templates, genTemplate(s, last))
		return len(templates) - 1
	}
	take := func(id int) {
		if jobs[id] == nil || s.Intn(3) == 2 {
			jobs[id] = makeJob(templates[id])
		}
		pool.Disk.Write("last", []byte{byte(id)})
		pool.Disk.Sync()
		s.Logf("job %d", id)
		send(id)
	}
	pool.OnRestart = func() {
		jobs = map[int]*job{}
		if b, ok := pool.Disk.Read("last"); ok && len(b) == 1 {
			take(int(b[0]))
		}
	}
	for k, n := 0, s.Range(1, 6); k < n; k++ {
		at := uint64(k)*30_000 + s.Choose(20_000)
		s.At(at, func() {
			node.Do("template", func() {
				s.Begin()
				id := newTemplate()
				s.End()
				s.Net.Send(node, pool, "template", nil, nil, func([]byte, bool) { take(id) })
				if s.Intn(2) == 1 { // the same template, damaged on the way
					t, field := templates[id], s.Intn(3)
					msg := []byte([]string{t.address, hexOf(t.witness), fmt.Sprintf("%08x", t.bits)}[field])
					alphabet := []string{ref.B58 + "0OIl", "0123456789abcdefABCDEF", "0123456789abcdef"}[field]
					for i := 0; i < 3; i++ {
						s.Net.Send(node, pool, "damaged", msg, kernel.TextDamage(alphabet), func(b []byte, _ bool) { malformed(t, field, b) })
					}
				}
			})
		})
	}
	if s.Intn(2) == 1 { // bits of every shape
		s.At(s.Choose(100_000), func() {
			pool.Do("bits", func() {
				for i := 0; i < 6; i++ {
					e := []uint32{0, 1, 2, 3, 4, 5, 0x1c, 0x1d, 0x1e, 0x1f, 0x20, 0x21, 0x22, 0x23, 0x24, 0x7f, 0x80, 0xff}[s.Intn(18)]
					m := []uint32{0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffff, 0x800000, 0x800001, 0x80ffff, 0xffffff, 0x00ff00}[s.Intn(16)]
					if s.Intn(3) == 2 {
						m = uint32(s.Intn(1 << 24))
					}
					text := fmt.Sprintf("%08x", e<<24|m)
					if s.Intn(4) == 3 {
						text = strings.ToUpper(text)
					}
					expand(text)
				}
			})
		})
	}
	s.Chaos(true, true, true)
	s.RunUntil(s.Healed())
	last := newTemplate()
	s.After(1000, func() { pool.Do("job", func() { take(last) }) })
	s.RunUntil(s.Now() + 60_000_000)
	for _, m := range miners {
		s.Check(accepted[fmt.Sprintf("%s %d", m.Name, last)], "no-progress", "no share of %s for the last job although faults stopped", m.Name)
	}
}

func tail(s string) string {
	if len(s) > 100 {
		return s[:100] + "..."
	}
	return s
}
