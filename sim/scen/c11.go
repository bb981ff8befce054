package scen

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/libsv/libsv/block"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C11", Run: runC11, Quick: 250000, Deep: 3000000,
		Files: []string{"block/GetMerkleBranches.go", "block/BuildMerkleRootFromCoinbase.go"},
		Real:  []string{"block.MerkleRootFromBranches, GetMerkleBranches, BuildMerkleRootFromCoinbase", "utils.ReverseBytes, ReverseHexString"},
		Stub:  []string{"archives proving transactions of their blocks over a network that damages, reorders, repeats and mixes up proofs", "light clients that know only block roots", "clock"},
		Rule:  "a run is 1..3 blocks of 1..300 transactions and 4..30 proofs sent to light clients; non-trivial: an intact and a damaged proof were judged; distinct: hash of the event log and of the task switch order",
	})
}

// proof is a Merkle proof as it travels: texts and a number.
type proof struct {
	block int
	txid  string
	idx   int64
	path  []string // display order
}

func (p *proof) encode() []byte {
	return []byte(strconv.FormatInt(p.idx, 10) + "\n" + p.txid + "\n" + strings.Join(p.path, "\n"))
}

func decodeProof(b []byte) *proof {
	f := strings.Split(string(b), "\n")
	if len(f) < 2 {
		return nil
	}
	p := &proof{txid: f[1]}
	var err error
	if p.idx, err = strconv.ParseInt(f[0], 10, 64); err != nil {
		return nil
	}
	if len(f) > 2 && !(len(f) == 3 && f[2] == "") {
		p.path = f[2:]
	}
	return p
}

// value is what a proof denotes: its decoded bytes, if they can be decoded.
func (p *proof) value() (leaf []byte, path [][]byte, ok bool) {
	leaf, err := hex.DecodeString(p.txid)
	ok = err == nil && len(leaf) == 32
	leaf = ref.Rev(leaf)
	for _, t := range p.path {
		b, err := hex.DecodeString(t)
		ok = ok && err == nil && len(b) == 32
		path = append(path, ref.Rev(b))
	}
	return
}

// merkleBlock is a block of the simulation.
type merkleBlock struct {
	hashes [][]byte // wire order
	root   []byte
	// Of a block with too many transactions to list, two neighbours are known,
	// the first at position base, and what lies above them.
	base int64
	up   [][]byte
}

func genDeepBlock(s *sim, depth int, salt uint64) *merkleBlock {
	b := genBlock(s, 2, salt)
	for i := 1; i < depth; i++ {
		b.up = append(b.up, ref.Sha256d([]byte(fmt.Sprintf("node %d %d", i, salt))))
	}
	if s.Intn(3) > 0 {
		b.base = int64(s.Choose(1<<uint(depth))) &^ 1
	}
	b.root, _ = ref.FromPath(b.hashes[0], b.base, b.path(0))
	return b
}

// path is that of transaction i, in wire order.
func (b *merkleBlock) path(i int) [][]byte {
	return append(ref.MerklePath(b.hashes, i), b.up...)
}

func genBlock(s *sim, n int, salt uint64) *merkleBlock {
	b := &merkleBlock{}
	for i := 0; i < n; i++ {
		h := ref.Sha256d([]byte(fmt.Sprintf("tx %d %d", i, salt)))
		if s.Intn(30) == 29 {
			h[0], h[31] = 0, 0
		}
		b.hashes = append(b.hashes, h)
	}
	b.root = ref.MerkleRoot(b.hashes)
	return b
}

func (b *merkleBlock) proof(n, i int) *proof {
	p := &proof{block: n, txid: hex.EncodeToString(ref.Rev(b.hashes[i])), idx: b.base + int64(i)}
	for _, h := range b.path(i) {
		p.path = append(p.path, hex.EncodeToString(ref.Rev(h)))
	}
	return p
}

// proofDamage damages a proof as a structure or as a text; others are intact
// proofs it may be mixed up with.
func proofDamage(others func() *proof) kernel.Damager {
	return func(s *sim, b, prev []byte) ([]byte, string) {
		p := decodeProof(b)
		q := others()
		if p == nil {
			return b, "nothing"
		}
		what := ""
		n := len(p.path)
		at := 0
		if n > 0 {
			at = s.Intn(n)
		}
		depth := uint(n)
		switch s.Weighted(6, 3, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 1, 1, 2) {
		case 0: // position
			what = "position"
			d := []int64{1, -1, 1 << min(depth, 62), -(1 << min(depth, 62)), 1 << 31, 1 << 32, math.MinInt64, math.MaxInt64, 1 << 62}
			switch s.Intn(3) {
			case 0:
				p.idx += d[s.Intn(len(d))]
			case 1:
				p.idx ^= 1 << s.Intn(min(int(depth)+2, 63))
			case 2:
				p.idx = []int64{^p.idx, -p.idx, p.idx - 1<<32, p.idx | math.MinInt64, -1, p.idx | 1<<(depth+1)}[s.Intn(6)]
			}
		case 1:
			what = "path cut short"
			if n > 0 {
				p.path = p.path[:at]
			}
		case 2:
			what = "branch lost"
			if n > 0 {
				p.path = append(p.path[:at:at], p.path[at+1:]...)
			}
		case 3:
			what = "branches extended"
			x := []string{p.txid, strings.Repeat("00", 32), "", q.txid}[s.Intn(4)]
			if n > 0 && s.Intn(3) == 2 {
				x = p.path[at]
			}
			if s.Intn(2) == 0 {
				p.path = append(p.path, x)
			} else {
				p.path = append(p.path[:at:at], append([]string{x}, p.path[at:]...)...)
			}
		case 4:
			what = "branches swapped"
			if n > 1 {
				j := (at + 1 + s.Intn(n-1)) % n
				p.path[at], p.path[j] = p.path[j], p.path[at]
			}
		case 5:
			what = "path reversed"
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				p.path[i], p.path[j] = p.path[j], p.path[i]
			}
		case 6:
			what = "path of another transaction"
			p.path = q.path
		case 7:
			what = "position of another transaction"
			p.idx = q.idx
		case 8:
			what = "another transaction's id"
			p.txid = q.txid
		case 9:
			what = "byte order"
			r := func(t string) string {
				b, _ := hex.DecodeString(t)
				return hex.EncodeToString(ref.Rev(b))
			}
			if n > 0 && s.Intn(2) == 1 {
				p.path[at] = r(p.path[at])
			} else {
				p.txid = r(p.txid)
			}
		case 10: // a digit altered, lost, added
			what = "digit"
			t := &p.txid
			if n > 0 && s.Intn(3) > 0 {
				t = &p.path[at]
			}
			if s.Intn(4) == 3 { // a byte more
				x := []string{"00", "01", "ff", "0", "0x", " "}[s.Intn(6)]
				if s.Intn(2) == 1 {
					*t += x
				} else {
					*t = x + *t
				}
				break
			}
			x, _ := kernel.TextDamage("0123456789abcdef")(s, []byte(*t), nil)
			*t = strings.ReplaceAll(string(x), "\n", "g")
		case 11: // pieces moved between the fields
			what = "fields run together"
			if n > 0 {
				switch s.Intn(4) {
				case 0:
					p.txid, p.path[0] = p.path[0]+p.txid, ""
				case 1:
					p.txid, p.path[0] = p.txid+p.path[0], ""
				case 2:
					p.txid, p.path[0] = p.path[0], p.txid
					p.idx ^= int64(s.Intn(2))
				case 3:
					if n > 1 && at > 0 {
						p.path[at-1], p.path[at] = p.path[at-1]+p.path[at], ""
					} else {
						p.path[at] += p.path[at]
					}
				}
			}
		case 12:
			what = "branch emptied"
			if n > 0 {
				p.path[at] = ""
			}
		case 13: // climb one level: the proof of an inner node
			what = "levels dropped"
			if n > 0 {
				p.path, p.idx = p.path[1:], p.idx>>1
			}
		case 14:
			what = "branch replaced"
			if n > 0 {
				p.path[at] = []string{p.txid, strings.Repeat("00", 32), strings.Repeat("ff", 32), q.txid}[s.Intn(4)]
			}
		}
		return p.encode(), what
	}
}

func runC11(s *kernel.Sim) {
	s.Heal(200_000)
	s.Net.Swarm(true)
	if s.Net.Damage == 0 {
		s.Net.Damage = 400
	}
	s.SwarmPreempt()
	arch := s.NewNode("archive")
	var blocks []*merkleBlock
	for i, k := 0, s.Range(1, 3); i < k; i++ {
		n := 1
		switch s.Weighted(5, 3, 2) {
		case 0:
			n = 1 + s.Intn(12)
		case 1:
			n = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}[s.Intn(24)]
		case 2:
			n = 1 + s.Intn(70)
		}
		if s.Intn(6) == 5 {
			blocks = append(blocks, genDeepBlock(s, 2+s.Intn(61), s.Choose(1<<30)))
			s.Probe("path in a block of more transactions than can be listed")
			continue
		}
		blocks = append(blocks, genBlock(s, n, s.Choose(1<<30)))
	}
	var clients []*kernel.Node
	for i, k := 0, s.Range(1, 3); i < k; i++ {
		clients = append(clients, s.NewNode(fmt.Sprintf("client%d", i)))
	}
	verified := map[string]bool{}
	intactOf := func(p *proof) bool { // is it an intact proof after all?
		leaf, path, ok := p.value()
		if !ok {
			return false
		}
		b := blocks[p.block]
		for i, h := range b.hashes {
			if !bytes.Equal(h, leaf) {
				continue
			}
			w := b.path(i)
			if len(w) != len(path) {
				return false
			}
			// a node paired with itself may be placed on either side
			mask, at, width := int64(0), i, len(b.hashes)
			i := b.base + int64(i)
			for lv := range w {
				if !bytes.Equal(w[lv], path[lv]) {
					return false
				}
				if at == width-1 && width%2 == 1 && width > 1 {
					mask |= 1 << lv
				}
				at, width = at/2, (width+1)/2
			}
			return p.idx >= 0 && p.idx|mask == i|mask
		}
		return false
	}
	judge := func(p *proof, damaged bool) {
		b := blocks[p.block]
		want := hex.EncodeToString(ref.Rev(b.root))
		path := append([]string{}, p.path...)
		var got string
		var err error
		s.Call("MerkleRootFromBranches", func() { got, err = block.MerkleRootFromBranches(p.txid, int(p.idx), path) })
		for i := range path {
			s.Check(path[i] == p.path[i], "input-changed", "verifying changed the path")
		}
		if !damaged {
			s.Check(err == nil && got == want, "intact-refused", "the intact proof of transaction %d of %d gives root %s, %v; want %s", p.idx, len(b.hashes), got, err, want)
			s.Did("intact proofs verified")
			return
		}
		if err == nil && strings.EqualFold(got, want) {
			if !intactOf(p) {
				s.Fail("damaged-verified", "a damaged proof verifies: position %d of %d transactions, id %s, path %v", p.idx, len(b.hashes), p.txid, p.path)
			}
			s.Probe("damage left a proof true")
		} else if err != nil {
			s.Did("damaged proofs refused")
		} else {
			s.Did("damaged proofs gave another root")
		}
	}
	ask := func(c *kernel.Node, bi, i int, mix func() *proof) {
		p := blocks[bi].proof(bi, i)
		s.Net.Send(arch, c, "proof", p.encode(), proofDamage(mix), func(b []byte, damaged bool) {
			q := decodeProof(b)
			if q == nil {
				return
			}
			q.block = bi
			judge(q, damaged)
			if !damaged {
				verified[fmt.Sprintf("%s %d %d", c.Name, bi, i)] = true
			}
			s.Logf("%s judged %d/%d", c.Name, bi, i)
			if !damaged && len(blocks) > 1 && s.Intn(8) == 7 { // against another block's root
				o := (bi + 1) % len(blocks)
				q.block = o
				judge(q, true)
			}
		})
	}
	// coinbase: branches the way miners get them
	coinbase := func(c *kernel.Node, bi int, mix func() *proof) {
		b := blocks[bi]
		if b.up != nil && b.base != 0 {
			return
		}
		var ids []string
		for _, h := range b.hashes {
			ids = append(ids, hex.EncodeToString(ref.Rev(h)))
		}
		var br []string
		want := b.path(0)
		if b.up == nil {
			s.Call("GetMerkleBranches", func() { br = block.GetMerkleBranches(ids) })
		} else {
			for _, h := range want {
				br = append(br, hex.EncodeToString(h))
			}
		}
		s.Check(len(br) == len(want), "wrong-branches", "GetMerkleBranches gives %d branches for %d transactions, want %d", len(br), len(ids), len(want))
		for i := range br {
			s.Check(br[i] == hex.EncodeToString(want[i]), "wrong-branches", "branch %d of %d transactions is %s, want %x", i, len(ids), br[i], want[i])
		}
		p := &proof{block: bi, txid: ids[0], path: br}
		s.Net.Send(arch, c, "branches", p.encode(), proofDamage(mix), func(x []byte, damaged bool) {
			q := decodeProof(x)
			if q == nil {
				return
			}
			leaf, e := hex.DecodeString(q.txid)
			if e != nil {
				return
			}
			leaf = ref.Rev(leaf)
			keep := append([]byte{}, leaf...)
			var root []byte
			s.Call("BuildMerkleRootFromCoinbase", func() { root = block.BuildMerkleRootFromCoinbase(leaf, q.path) })
			s.Check(bytes.Equal(leaf, keep), "input-changed", "BuildMerkleRootFromCoinbase changed the hash")
			ok := bytes.Equal(root, b.root)
			same := bytes.Equal(leaf, b.hashes[0]) && len(q.path) == len(want)
			for i := range q.path {
				d, e := hex.DecodeString(q.path[i])
				same = same && e == nil && bytes.Equal(d, want[i])
			}
			if same {
				s.Check(ok, "intact-refused", "the intact branches of %d transactions give root %x, want %x", len(b.hashes), root, b.root)
				s.Did("intact branches verified")
			} else {
				s.Check(!ok, "damaged-verified", "damaged branches give the block's root: hash %x, branches %v", leaf, q.path)
				s.Did("damaged branches refused")
			}
		})
	}
	mixOf := func(bi, i int) func() *proof {
		return func() *proof {
			o := bi
			if s.Intn(3) == 2 {
				o = s.Intn(len(blocks))
			}
			j := s.Intn(len(blocks[o].hashes))
			if s.Intn(2) == 0 && o == bi { // a neighbour
				j = min(i^1, len(blocks[o].hashes)-1)
			}
			return blocks[o].proof(o, j)
		}
	}
	for k, n := 0, 4+s.Intn(24); k < n; k++ {
		s.Begin()
		bi := s.Intn(len(blocks))
		nt := len(blocks[bi].hashes)
		i := s.Intn(nt)
		if s.Intn(4) == 3 {
			i = []int{0, nt - 1}[s.Intn(2)]
		}
		c := clients[s.Intn(len(clients))]
		cb := s.Intn(6) == 5
		at := s.Choose(180_000)
		s.End()
		s.At(at, func() {
			arch.Do("prove", func() {
				if cb {
					coinbase(c, bi, mixOf(bi, 0))
				} else {
					ask(c, bi, i, mixOf(bi, i))
				}
			})
		})
	}
	s.Chaos(true, true, true)
	s.RunUntil(s.Healed())
	type want struct {
		c     *kernel.Node
		bi, i int
	}
	var ws []want
	for k := 0; k < 3; k++ {
		bi := s.Intn(len(blocks))
		ws = append(ws, want{clients[s.Intn(len(clients))], bi, s.Intn(len(blocks[bi].hashes))})
	}
	for _, w := range ws {
		s.After(1000, func() { arch.Do("prove", func() { ask(w.c, w.bi, w.i, nil) }) })
	}
	s.RunUntil(s.Now() + 60_000_000)
	for _, w := range ws {
		s.Check(verified[fmt.Sprintf("%s %d %d", w.c.Name, w.bi, w.i)], "no-progress", "%s did not verify transaction %d although faults stopped", w.c.Name, w.i)
	}
}
