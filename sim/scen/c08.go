package scen

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"sort"

	"github.com/bitcoinsv/bsvd/chaincfg"
	"github.com/bitcoinsv/bsvutil/hdkeychain"
	"github.com/libsv/libsv/script"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C08", Run: runC08, Quick: 24000, Deep: 400000,
		Files: []string{"script/RedeemScript.go"},
		Real:  []string{"script.RedeemScript (AddPublicKey, GetRedeemScript, GetRedeemScriptHash, GetAddress)", "script.NewRedeemScriptFromElectrum", "utils.SortByteArrays"},
		Stub:  []string{"cosigners announcing extended keys over a network that loses, repeats, reorders and damages them", "journals and crash recovery", "clock"},
		Rule:  "a run is 2..4 cosigners collecting the keys of one m-of-n wallet from each other, reading their script between arrivals; non-trivial: complete scripts were compared with the reference; distinct: hash of the event log and of the task switch order",
	})
}

// hdKey is a cosigner's extended key with a path and the key it leads to.
type hdKey struct {
	text string // xpub or xprv
	raw  []byte // its 78 bytes
	path [2]uint32
	pub  []byte
}

var hdMasters []*hdkeychain.ExtendedKey

func hdMaster(i int) *hdkeychain.ExtendedKey {
	for len(hdMasters) <= i {
		seed := ref.Sha256d([]byte(fmt.Sprintf("master %d", len(hdMasters))))
		nets := []*chaincfg.Params{&chaincfg.MainNetParams, &chaincfg.TestNet3Params}
		k, err := hdkeychain.NewMaster(seed, nets[len(hdMasters)%2])
		if err != nil {
			panic(err)
		}
		hdMasters = append(hdMasters, k)
	}
	return hdMasters[i]
}

type hdID struct {
	master int
	priv   bool
	path   [2]uint32
}

var hdCache = map[hdID]*hdKey{}

func hdAt(id hdID) *hdKey {
	if k := hdCache[id]; k != nil {
		return k
	}
	m := hdMaster(id.master)
	pub, err := m.Neuter()
	if err != nil {
		panic(err)
	}
	k := &hdKey{text: pub.String(), path: id.path}
	if id.priv {
		k.text = m.String()
	}
	d, _ := ref.UnBase58(k.text)
	k.raw = d[:78]
	c := m
	for _, p := range id.path {
		if c, err = c.Child(p); err != nil {
			panic(err)
		}
	}
	ec, err := c.ECPubKey()
	if err != nil {
		panic(err)
	}
	k.pub = ec.SerializeCompressed()
	hdCache[id] = k
	return k
}

// hdTwins are children of master 0 whose public keys agree in 4 leading bytes.
var hdTwins = [][2]uint32{{394, 9375}, {6033, 9727}, {1013, 10746}, {3749, 12183}, {2435, 12975}, {1814, 15527}}

func electrum(m int, keys []*hdKey) []byte {
	b := []byte{0x50 + byte(m)}
	for _, k := range keys {
		p := append([]byte{0xff}, k.raw...)
		p = append(p, byte(k.path[0]), byte(k.path[0]>>8), byte(k.path[1]), byte(k.path[1]>>8))
		b = append(b, ref.Push(p)...)
	}
	return append(b, 0x50+byte(len(keys)), 0xae)
}

// electrumOf undoes electrum for exactly what it makes.
func electrumOf(b []byte) (m int, keys []*hdKey, ok bool) {
	parts, ok := ref.ParseScript(b)
	if !ok || len(parts) < 3 || len(parts[0]) != 1 || parts[0][0] < 0x52 || parts[0][0] > 0x5f {
		return 0, nil, false
	}
	m = int(parts[0][0]) - 0x50
	for _, p := range parts[1 : len(parts)-2] {
		if len(p) != 83 || p[0] != 0xff {
			return 0, nil, false
		}
		k := &hdKey{raw: p[1:79], path: [2]uint32{uint32(p[79]) | uint32(p[80])<<8, uint32(p[81]) | uint32(p[82])<<8}}
		k.text = ref.Base58(append(append([]byte{}, k.raw...), ref.Sha256d(k.raw)[:4]...))
		keys = append(keys, k)
	}
	return m, keys, bytes.Equal(electrum(m, keys), b)
}

func runC08(s *kernel.Sim) {
	s.Heal(200_000)
	s.Net.Swarm(true)
	s.SwarmPreempt()
	n := 1 + s.Intn(5)
	switch s.Weighted(8, 1, 1) {
	case 1:
		n = 15 + s.Intn(2)
	case 2:
		n = 6 + s.Intn(9)
	}
	m := 2 + s.Intn(max(n-1, 1))
	if s.Intn(8) == 7 {
		m = []int{2, 15, 16}[s.Intn(3)]
	}
	small := s.Intn(3) < 2 // what an Electrum script can say
	var keys []*hdKey
	var pubs [][]byte
	seen := map[string]bool{}
	for i := 0; len(keys) < n; i++ {
		s.Begin()
		id := hdID{master: s.Intn(12)}
		ch := []uint32{0, 1, 2, 3, 9, 255, 256, 65535}
		id.path = [2]uint32{ch[s.Intn(5)], ch[s.Intn(len(ch))]}
		if s.Intn(8) == 7 {
			id.path[0] = []uint32{255, 256, 32767, 32768, 40000, 65535}[s.Intn(6)]
		}
		if s.Intn(6) == 5 {
			t := hdTwins[s.Intn(len(hdTwins))]
			id = hdID{master: 0, path: [2]uint32{0, t[s.Intn(2)]}}
		}
		if !small && s.Intn(4) == 3 {
			id.path[s.Intn(2)] = []uint32{65536, 0x7fffffff, 1 << 24}[s.Intn(3)]
		}
		if !small && s.Intn(6) == 5 {
			id.priv = true
			if s.Intn(2) == 1 {
				id.path[s.Intn(2)] |= 0x80000000
			}
		}
		s.End()
		k := hdAt(id)
		if seen[string(k.pub)] {
			if i > 200 {
				break
			}
			continue
		}
		seen[string(k.pub)] = true
		keys = append(keys, k)
		pubs = append(pubs, k.pub)
	}
	n = len(keys)
	final := ref.Multisig(m, pubs)

	type cosigner struct {
		*kernel.Node
		rs  *script.RedeemScript
		m   int   // signatures it takes to be required
		got []int // the keys it has
	}
	var cs []*cosigner
	check := func(c *cosigner, what string) {
		var have [][]byte
		for _, i := range c.got {
			have = append(have, pubs[i])
		}
		// in whatever order they are kept
		held := append([][]byte{}, c.rs.PublicKeys...)
		for _, l := range [][][]byte{have, held} {
			sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i], l[j]) < 0 })
		}
		s.Check(len(held) == len(have), "wrong-keys", "after %s, %s holds %d keys, want %d", what, c.Name, len(held), len(have))
		for i := range held {
			if !bytes.Equal(held[i], have[i]) {
				s.Fail("wrong-keys", "after %s, %s holds the key %x, want %x", what, c.Name, held[i], have[i])
			}
		}
		s.Check(c.rs.SignaturesRequired == c.m, "wrong-keys", "after %s, %s needs %d signatures, want %d", what, c.Name, c.rs.SignaturesRequired, c.m)
	}
	read := func(c *cosigner) {
		var have [][]byte
		for _, i := range c.got {
			have = append(have, pubs[i])
		}
		want := ref.Multisig(c.m, have)
		kept := append([][]byte{}, c.rs.PublicKeys...)
		h := ref.Hash160(want)
		for _, k := range s.Perm(3)[:1+s.Intn(3)] {
			switch k {
			case 0:
				var b []byte
				s.Call("GetRedeemScript", func() { b = c.rs.GetRedeemScript() })
				if !bytes.Equal(b, want) {
					s.Fail("wrong-script", "%s reads redeem script %x, want %x", c.Name, b, want)
				}
				if s.Intn(2) == 1 { // the caller may do what it likes with it
					for i := range b[:cap(b)] {
						b[:cap(b)][i] = 0xee
					}
				}
			case 1:
				var b []byte
				s.Call("GetRedeemScriptHash", func() { b = c.rs.GetRedeemScriptHash() })
				if !bytes.Equal(b, h) {
					s.Fail("wrong-hash", "%s reads script hash %x, want %x", c.Name, b, h)
				}
				clear(b)
			case 2:
				var a string
				s.Call("GetAddress", func() { a = c.rs.GetAddress() })
				if w := ref.CheckEncode(5, h); a != w {
					s.Fail("wrong-address", "%s reads address %s, want %s", c.Name, a, w)
				}
			}
			check(c, "reading")
			for i := range kept {
				s.Check(bytes.Equal(kept[i], c.rs.PublicKeys[i]), "wrong-keys", "reading moved the keys of %s", c.Name)
			}
			s.Did("reads compared")
		}
	}
	store := func(c *cosigner) {
		var b []byte
		for _, g := range c.got {
			b = append(b, byte(g))
		}
		c.Disk.Write("got", b)
		if s.Intn(2) == 1 {
			c.Disk.Sync()
		}
	}
	add := func(c *cosigner, i int) {
		for _, g := range c.got {
			if g == i {
				return
			}
		}
		var err error
		path := []uint32{keys[i].path[0], keys[i].path[1]}
		s.Call("AddPublicKey", func() { err = c.rs.AddPublicKey(keys[i].text, path) })
		s.Check(err == nil, "key-refused", "%s refuses key %d: %v", c.Name, i, err)
		s.Check(path[0] == keys[i].path[0] && path[1] == keys[i].path[1], "path-changed", "adding a key changed the path")
		c.got = append(c.got, i)
		check(c, "adding a key")
		store(c)
		s.Logf("%s has key %d", c.Name, i)
		if s.Intn(2) == 1 {
			read(c)
		}
	}
	bad := func(c *cosigner, text string, path []uint32) { // must be refused
		var err error
		s.Call("AddPublicKey", func() { err = c.rs.AddPublicKey(text, path) })
		s.Check(err != nil, "accepted-damaged", "%s accepted the damaged key %q with path %v", c.Name, text, path)
		check(c, "refusing a damaged key")
		s.Did("damaged keys refused")
		if s.Intn(2) == 1 {
			read(c)
		}
	}
	fresh := func() *script.RedeemScript {
		var rs *script.RedeemScript
		var err error
		s.Call("NewRedeemScript", func() { rs, err = script.NewRedeemScript(m) })
		s.Check(err == nil, "refused", "NewRedeemScript(%d): %v", m, err)
		return rs
	}
	alphabet := ref.B58 + "0OIl"
	for i, k := 0, s.Range(2, 4); i < k; i++ {
		c := &cosigner{Node: s.NewNode(fmt.Sprintf("cosigner%d", i))}
		c.rs, c.m = fresh(), m
		c.OnRestart = func() {
			c.rs, c.m, c.got = fresh(), m, nil
			b, _ := c.Disk.Read("got")
			for _, i := range b {
				if int(i) < n {
					add(c, int(i))
				}
			}
		}
		cs = append(cs, c)
	}
	announce := func(from, to *cosigner, i int) {
		msg := []byte(keys[i].text)
		s.Net.Send(from.Node, to.Node, "key", msg, kernel.TextDamage(alphabet), func(b []byte, damaged bool) {
			if !damaged {
				add(to, i)
				return
			}
			d, ok := ref.UnBase58(string(b))
			if ok && len(d) == 82 && bytes.Equal(ref.Sha256d(d[:78])[:4], d[78:]) {
				return // another key altogether
			}
			bad(to, string(b), keys[i].path[:])
		})
	}
	importer := func(c *cosigner, b []byte, damaged bool) {
		text := hex.EncodeToString(b)
		if damaged && s.Intn(8) == 7 && len(text) > 0 {
			text = text[:s.Intn(len(text))]
		}
		var rs *script.RedeemScript
		var err error
		s.Call("NewRedeemScriptFromElectrum", func() { rs, err = script.NewRedeemScriptFromElectrum(text) })
		if !damaged {
			s.Check(err == nil && rs != nil, "electrum-refused", "the Electrum script of %d of %d is refused: %v", m, n, err)
		}
		if err != nil {
			s.Check(damaged, "electrum-refused", "%v", err)
			s.Did("damaged Electrum scripts refused")
			return
		}
		s.Check(rs != nil, "electrum-nil", "no redeem script and no error")
		x, err := hex.DecodeString(text)
		if err != nil {
			return
		}
		em, ek, ok := electrumOf(x)
		if !ok {
			return
		}
		one := &script.RedeemScript{SignaturesRequired: em}
		for _, k := range ek {
			s.Call("AddPublicKey", func() { err = one.AddPublicKey(k.text, k.path[:]) })
			s.Check(err == nil, "electrum-differs", "the Electrum script is imported but its key is refused: %v", err)
		}
		var p, q []byte
		s.Call("GetRedeemScript", func() { p, q = rs.GetRedeemScript(), one.GetRedeemScript() })
		if !bytes.Equal(p, q) || rs.SignaturesRequired != em || len(rs.PublicKeys) != len(one.PublicKeys) {
			s.Fail("electrum-differs", "imported from Electrum: %x, adding the keys: %x", p, q)
		}
		for i := range rs.PublicKeys {
			s.Check(bytes.Equal(rs.PublicKeys[i], one.PublicKeys[i]), "electrum-differs", "key %d imported from Electrum differs", i)
		}
		if !damaged {
			if !bytes.Equal(p, final) {
				s.Fail("electrum-differs", "imported from Electrum: %x, want %x", p, final)
			}
			c2 := &cosigner{Node: c.Node, rs: rs, m: m}
			for i := range keys {
				c2.got = append(c2.got, i)
			}
			read(c2)
		}
		s.Did("Electrum scripts compared")
	}
	canElectrum := m <= 15
	for _, k := range keys {
		if k.path[0] > 65535 || k.path[1] > 65535 {
			canElectrum = false
		}
	}
	for r, rounds := 0, 1+s.Intn(3); r < rounds; r++ {
		for _, j := range s.Perm(n * len(cs)) {
			i, to := j%n, cs[j/n]
			from := cs[i%len(cs)]
			at := uint64(r)*60_000 + s.Choose(50_000)
			s.At(at, func() { from.Do("announce", func() { announce(from, to, i) }) })
		}
	}
	for i, k := 0, s.Intn(8); i < k; i++ {
		s.Begin()
		c := cs[s.Intn(len(cs))]
		kind := s.Intn(6)
		a, b := s.Intn(n), s.Intn(64)
		at := s.Choose(180_000)
		s.End()
		s.At(at, func() {
			c.Do("extra", func() {
				switch kind {
				case 0:
					read(c)
				case 1: // a path that is not two levels
					p := []uint32{1, 2, 3, 4}[:[]int{0, 1, 3, 4}[b%4]]
					bad(c, keys[a].text, p)
				case 2: // a hardened step needs the private key
					p := []uint32{keys[a].path[0], keys[a].path[1]}
					p[b%2] |= 0x80000000
					if keys[a].raw[45] != 0 {
						bad(c, keys[a].text, p)
					}
				case 4: // what was agreed on changes and changes back
					if s.Now() < s.Healed() {
						c.m = 2 + b%15
						c.rs.SignaturesRequired = c.m
						read(c)
						c.m, c.rs.SignaturesRequired = m, m
						read(c)
					}
				case 5: // a key is taken out, or replaced by another
					if len(c.got) == 0 || s.Now() >= s.Healed() {
						break
					}
					g := c.got[a%len(c.got)]
					at := 0
					for i, p := range c.rs.PublicKeys {
						if bytes.Equal(p, pubs[g]) {
							at = i
						}
					}
					var rest []int
					for _, x := range c.got {
						if x != g {
							rest = append(rest, x)
						}
					}
					has := false
					for _, x := range c.got {
						has = has || x == b%n
					}
					if c.rs.PublicKeys[at] = append([]byte{}, pubs[b%n]...); has {
						c.rs.PublicKeys = append(append([][]byte{}, c.rs.PublicKeys[:at]...), c.rs.PublicKeys[at+1:]...)
						c.got = rest
					} else {
						c.got = append(rest, b%n)
					}
					s.Logf("%s took key %d out", c.Name, g)
					store(c)
					read(c)
				case 3:
					if canElectrum {
						s.Net.Send(c.Node, cs[0].Node, "electrum", electrum(m, keys), electrumDamage, func(b []byte, d bool) { importer(cs[0], b, d) })
					}
				}
			})
		})
	}
	s.Chaos(true, true, true)
	s.RunUntil(s.Healed())
	// faults have stopped: everybody tells everybody until all have all keys
	for _, from := range cs {
		for i := range keys {
			s.At(s.Now()+s.Choose(20_000), func() {
				from.Do("announce", func() { announce(cs[0], from, i) })
			})
		}
	}
	if canElectrum {
		s.After(30_000, func() {
			cs[0].Do("electrum", func() {
				s.Net.Send(cs[0].Node, cs[1].Node, "electrum", electrum(m, keys), nil, func(b []byte, d bool) { importer(cs[1], b, false) })
			})
		})
	}
	s.RunUntil(s.Now() + 60_000_000)
	for _, c := range cs {
		s.Check(len(c.got) == n, "no-progress", "%s has %d of %d keys although faults stopped", c.Name, len(c.got), n)
		var b []byte
		s.Call("GetRedeemScript", func() { b = c.rs.GetRedeemScript() })
		if !bytes.Equal(b, final) {
			s.Fail("disagree", "%s ended with redeem script %x, want %x", c.Name, b, final)
		}
		read(c)
		s.Did("final scripts compared")
	}
}

// electrumDamage damages an Electrum script, also at its joints.
func electrumDamage(s *sim, b, prev []byte) ([]byte, string) {
	if s.Intn(2) == 0 || len(b) < 10 {
		return kernel.BytesDamage(s, b, prev)
	}
	parts, ok := ref.ParseScript(b)
	if !ok || len(parts) < 3 {
		return kernel.BytesDamage(s, b, prev)
	}
	i := s.Intn(len(parts))
	switch s.Intn(9) {
	case 0:
		parts[i] = nil
	case 1:
		parts = append(parts[:i:i], parts[i+1:]...)
	case 2:
		parts[i] = append([]byte{}, parts[i][:s.Intn(len(parts[i])+1)]...)
	case 3:
		parts[i] = append(append([]byte{}, parts[i]...), s.Bytes(1+s.Intn(4))...)
	case 4:
		parts[0] = []byte{byte(s.Intn(256))}
	case 5:
		parts[len(parts)-2] = []byte{byte(s.Intn(256))}
	case 6:
		parts = append(parts[:i+1:i+1], parts[i:]...)
	case 7: // only its two ends
		j := i + s.Intn(len(parts)-i)
		parts = append(parts[:i:i], parts[j:]...)
	case 8: // some of its parts
		var some [][]byte
		for _, p := range parts {
			if s.Intn(2) == 1 {
				some = append(some, p)
			}
		}
		parts = some
	}
	var r []byte
	for _, p := range parts {
		if len(p) == 1 && (p[0] == 0 || p[0] > 0x4e) {
			r = append(r, p[0])
		} else if len(p) == 0 {
			r = append(r, 0x4c, 0)
		} else {
			r = append(r, ref.Push(p)...)
		}
	}
	return r, "script part changed"
}
