package scen

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/libsv/libsv/script"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C16", Run: runC16, Quick: 300000, Deep: 5000000,
		Files: []string{"script/Script.go", "script/OpPushdata.go"},
		Real:  []string{"script.DecodeParts, DecodeStringParts, NewFromHexString, NewFromBytes", "Script.ToASM, ToString, IsP2PKH, IsP2PK, IsP2SH, IsData, IsMultisigOut, GetPublicKeyHash"},
		Stub:  []string{"the peer that sends scripts and the network that cuts, extends, alters, splices, repeats and reorders them", "receivers' disks, which lose and tear writes", "clock"},
		Rule:  "a run is 1..3 receivers inspecting 4..24 scripts delivered or read back from disk, intact or damaged; non-trivial: a script was split and compared with the reference; distinct: hash of the event log and of the task switch order",
	})
}

// kind of an intact script.
const (
	kOther = iota
	kP2PKH
	kP2PK
	kP2SH
	kMultisig
	kData
)

var kindNames = []string{"other", "pay-to-public-key-hash", "pay-to-public-key", "pay-to-script-hash", "multisig", "data"}

// genPub is a public key as scripts hold it.
func genPub(s *sim) []byte {
	k := keyAt(s.Intn(nKeys))
	switch s.Weighted(4, 2, 1) {
	case 1:
		return k.priv.PubKey().SerializeUncompressed()
	case 2:
		return k.priv.PubKey().SerializeHybrid()
	}
	return k.pub
}

// genHash20 is a hash, sometimes one that looks like opcodes.
func genHash20(s *sim) []byte {
	h := s.Bytes(20)
	switch s.Weighted(6, 1, 1, 1, 1) {
	case 1:
		copy(h, []byte{0x76, 0xa9, 0x14})
	case 2:
		copy(h[18:], []byte{0x88, 0xac})
	case 3:
		h = bytes.Repeat([]byte{[]byte{0x00, 0x14, 0x4c, 0x4d, 0x4e, 0x6a, 0x87, 0xac, 0xae, 0xff}[s.Intn(10)]}, 20)
	case 4:
		return keyAt(s.Intn(nKeys)).pkh
	}
	return h
}

// genKindScript makes an intact script and says what it is.
func genKindScript(s *sim) ([]byte, int) {
	switch s.Weighted(4, 3, 3, 4, 5, 3) {
	case 0:
		return ref.P2PKH(genHash20(s)), kP2PKH
	case 1:
		return append(ref.Push(genPub(s)), 0xac), kP2PK
	case 2:
		return append(append([]byte{0xa9, 0x14}, genHash20(s)...), 0x87), kP2SH
	case 3:
		n := 1 + s.Intn(16)
		if s.Intn(3) > 0 {
			n = 1 + s.Intn(4)
		}
		m := 1 + s.Intn(n)
		b := []byte{0x50 + byte(m)}
		for i := 0; i < n; i++ {
			b = append(b, ref.Push(genPub(s))...)
		}
		return append(b, 0x50+byte(n), 0xae), kMultisig
	case 4:
		b := []byte{0x6a}
		if s.Intn(2) == 1 {
			b = []byte{0x00, 0x6a}
		}
		switch s.Intn(4) {
		case 0:
			return append(b, s.Bytes(s.Intn(90))...), kData
		case 1: // data that looks like another kind
			in, _ := genKindScript(s)
			return append(b, in...), kData
		}
		for i := s.Intn(5); i > 0; i-- {
			b = append(b, ref.Push(append([]byte{byte(1 + s.Intn(255))}, s.Bytes(genLen(s, true))...))...)
		}
		if s.Intn(4) == 3 {
			b = append(b, 0x51, 0xae)
		}
		return b, kData
	}
	switch s.Intn(4) {
	case 1: // a script that unlocks
		return append(ref.Push(s.Bytes(70+s.Intn(4))), ref.Push(keyAt(s.Intn(nKeys)).pub)...), kOther
	case 2: // a hash puzzle
		b := append([]byte{0xa9, 0x14}, genHash20(s)...)
		b = append(b, 0x88, 0x76, 0xa9, 0x14)
		return append(append(b, genHash20(s)...), 0x88, 0xac), kOther
	case 3: // one opcode
		op := byte(0x4f + s.Intn(0x70))
		if op == 0x6a {
			op = 0x75
		}
		return []byte{op}, kOther
	}
	return []byte{}, kOther
}

// scriptDamage damages a script, often at the length of a push.
func scriptDamage(s *sim, b, prev []byte) ([]byte, string) {
	switch s.Weighted(3, 3, 2, 2) {
	case 1: // a push opcode somewhere, with an extreme length
		p := s.Intn(len(b) + 1)
		var ins []byte
		switch s.Intn(5) {
		case 0:
			ins = []byte{byte(1 + s.Intn(75))}
		case 1:
			ins = []byte{0x4c, []byte{0, 1, 75, 76, 127, 128, 253, 254, 255}[s.Intn(9)]}
		case 2:
			n := []int{0, 1, 255, 256, 0x7fff, 0x8000, 0xfff8, 0xfffc, 0xfffd, 0xfffe, 0xffff}[s.Intn(11)]
			ins = []byte{0x4d, byte(n), byte(n >> 8)}
		case 3:
			n := []uint32{0, 1, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffff8, 0xfffffffa, 0xfffffffb, 0xfffffffc, 0xfffffffe, 0xffffffff}[s.Intn(12)]
			ins = []byte{0x4e, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
		case 4: // exactly what is left, or one off
			n := len(b) - p + s.Intn(3) - 1
			if n < 0 {
				n = 0
			}
			switch s.Intn(3) {
			case 0:
				ins = []byte{0x4c, byte(n)}
			case 1:
				ins = []byte{0x4d, byte(n), byte(n >> 8)}
			case 2:
				ins = []byte{0x4e, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
			}
		}
		if s.Intn(3) == 2 {
			ins = ins[:1+s.Intn(len(ins))]
		}
		return append(append(append([]byte{}, b[:p]...), ins...), b[p:]...), "push length"
	case 2:
		return append(b, s.Bytes(1+s.Intn(3))...), "extended"
	case 3:
		if len(b) > 0 {
			i := []int{0, 1, 2, len(b) - 1, len(b) - 2}[s.Intn(5)]
			if i >= 0 && i < len(b) {
				b[i] = []byte{0, 1, 0x14, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x50, 0x51, 0x60, 0x6a, 0x76, 0x87, 0x88, 0xa9, 0xac, 0xae}[s.Intn(18)]
				return b, "first or last bytes"
			}
		}
	}
	return kernel.BytesDamage(s, b, prev)
}

// inspect does everything a receiver does with a script; kind is -1 unless the
// script arrived intact.
func inspect(s *sim, b []byte, kind int) {
	x := append(append(make([]byte, 0, len(b)+8), b...), bytes.Repeat([]byte{0xCC}, 8)...)
	full := append([]byte{}, x...)
	x = x[:len(b)]
	sc := script.NewFromBytes(x)
	want, ok := ref.ParseScript(b)
	var parts [][]byte
	var err error
	s.Call("DecodeParts", func() { parts, err = script.DecodeParts(x) })
	compare := func(what string) {
		if ok != (err == nil) {
			s.Fail("split-error", "%s(%s) returns error %v, want error %v", what, short(b), err, !ok)
		}
		if !ok {
			s.Did("scripts whose last push is cut")
			return
		}
		if len(parts) != len(want) {
			s.Fail("split-wrong", "%s(%s) gives %d parts, want %d", what, short(b), len(parts), len(want))
		}
		for i := range want {
			if !bytes.Equal(parts[i], want[i]) {
				s.Fail("split-wrong", "%s(%s): part %d is %s, want %s", what, short(b), i, short(parts[i]), short(want[i]))
			}
		}
		s.Did("scripts split")
	}
	compare("DecodeParts")
	h := hex.EncodeToString(b)
	s.Call("DecodeStringParts", func() { parts, err = script.DecodeStringParts(h) })
	compare("DecodeStringParts")

	var asm string
	s.Call("ToASM", func() { asm, err = sc.ToASM() })
	s.Check(ok == (err == nil), "asm-error", "ToASM of %s returns error %v, want error %v", short(b), err, !ok)
	if ok {
		f := strings.Fields(asm)
		j := 0
		for _, p := range want {
			if len(p) < 2 {
				continue
			}
			w := hex.EncodeToString(p)
			for j < len(f) && f[j] != w {
				j++
			}
			if j == len(f) {
				s.Fail("asm-wrong", "ToASM of %s lacks the data %s, or has it out of order", short(b), short(p))
			}
			j++
		}
	}
	var is [6]bool
	s.Call("IsP2PKH", func() { is[kP2PKH] = sc.IsP2PKH() })
	s.Call("IsP2PK", func() { is[kP2PK] = sc.IsP2PK() })
	s.Call("IsP2SH", func() { is[kP2SH] = sc.IsP2SH() })
	s.Call("IsMultisigOut", func() { is[kMultisig] = sc.IsMultisigOut() })
	s.Call("IsData", func() { is[kData] = sc.IsData() })
	pkh := len(b) == 25 && bytes.HasPrefix(b, []byte{0x76, 0xa9, 0x14}) && b[23] == 0x88 && b[24] == 0xac
	sh := len(b) == 23 && bytes.HasPrefix(b, []byte{0xa9, 0x14}) && b[22] == 0x87
	data := bytes.HasPrefix(b, []byte{0x6a}) || bytes.HasPrefix(b, []byte{0x00, 0x6a})
	s.Check(is[kP2PKH] == pkh, "misclassified", "IsP2PKH says %v of %s", is[kP2PKH], short(b))
	s.Check(is[kP2SH] == sh, "misclassified", "IsP2SH says %v of %s", is[kP2SH], short(b))
	s.Check(is[kData] == data, "misclassified", "IsData says %v of %s", is[kData], short(b))
	// whatever arrived, nothing is taken for a kind whose form it lacks
	if is[kP2PK] && (!ok || len(want) != 2 || !ref.PubForm(want[0]) || !bytes.Equal(want[1], []byte{0xac}) || ref.LastOps(b, 1) != 1) {
		s.Fail("misclassified", "IsP2PK says true of %s", short(b))
	}
	if is[kMultisig] && (!ok || data || len(want) < 3 || !smallInt(b[:1]) || !smallInt(want[len(want)-2]) || !bytes.Equal(want[len(want)-1], []byte{0xae}) || ref.LastOps(b, 2) != 2) {
		s.Fail("misclassified", "IsMultisigOut says true of %s", short(b))
	}
	if kind >= 0 {
		for k := kP2PKH; k <= kData; k++ {
			if is[k] != (k == kind) {
				s.Fail("misclassified", "the intact %s script %s is taken for %s: %v", kindNames[kind], short(b), kindNames[k], is[k])
			}
		}
		s.Did("intact scripts classified")
	}
	var hash []byte
	s.Call("GetPublicKeyHash", func() { hash, err = sc.GetPublicKeyHash() })
	if pkh {
		s.Check(err == nil && bytes.Equal(hash, b[3:23]), "wrong-hash", "GetPublicKeyHash of %s gives %x, %v", short(b), hash, err)
		s.Did("public key hashes found")
	} else {
		s.Check(err != nil, "wrong-hash", "GetPublicKeyHash of %s gives %x", short(b), hash)
	}
	var str string
	s.Call("ToString", func() { str = sc.ToString() })
	s.Check(str == h, "wrong-hex", "ToString of %s gives %s", short(b), tail(str))
	s.Check(bytes.Equal(x[:len(full)], full) && bytes.Equal(*sc, b), "script-changed", "inspecting changed the script %s", short(b))
}

// smallInt says whether a part is the opcode of a number from 0 to 16.
func smallInt(p []byte) bool {
	return len(p) == 1 && (p[0] == 0 || p[0] >= 0x51 && p[0] <= 0x60)
}

func runC16(s *kernel.Sim) {
	s.Heal(150_000)
	s.Net.Swarm(true)
	s.SwarmPreempt()
	peer := s.NewNode("peer")
	var rs []*kernel.Node
	seen := 0
	for i, n := 0, s.Range(1, 3); i < n; i++ {
		r := s.NewNode(fmt.Sprintf("receiver%d", i))
		r.OnRestart = func() {
			if b, ok := r.Disk.Read("script"); ok {
				inspect(s, b, -1)
				s.Probe("script read after a crash")
			}
		}
		rs = append(rs, r)
	}
	for k, n := 0, 4+s.Intn(21); k < n; k++ {
		s.Begin()
		r := rs[s.Intn(len(rs))]
		at := s.Choose(140_000)
		b, kind := genKindScript(s)
		text := s.Intn(4) == 3
		s.End()
		s.At(at, func() {
			if text { // as hex text, whose damage may leave no hex
				s.Net.Send(peer, r, "hex", []byte(hex.EncodeToString(b)), kernel.TextDamage("0123456789abcdefg "), func(t []byte, damaged bool) {
					raw, e := hex.DecodeString(string(t))
					var sc *script.Script
					var err, err2 error
					s.Call("NewFromHexString", func() { sc, err = script.NewFromHexString(string(t)) })
					s.Call("DecodeStringParts", func() { _, err2 = script.DecodeStringParts(string(t)) })
					if e != nil {
						s.Check(err != nil && err2 != nil, "bad-hex", "the text %q is accepted as hex", tail(string(t)))
						s.Did("texts refused")
						return
					}
					s.Check(err == nil && bytes.Equal(bytesOf(sc), raw), "bad-hex", "NewFromHexString(%q) gives %s, %v", tail(string(t)), short(bytesOf(sc)), err)
					if damaged {
						inspect(s, raw, -1)
					} else {
						inspect(s, raw, kind)
					}
				})
				return
			}
			s.Net.Send(peer, r, "script", b, scriptDamage, func(c []byte, damaged bool) {
				if damaged {
					inspect(s, c, -1)
				} else {
					inspect(s, c, kind)
				}
				s.Logf("%s inspected %s", r.Name, short(c))
				r.Disk.Write("script", c)
				if s.Intn(2) == 1 {
					r.Disk.Sync()
				}
			})
		})
	}
	s.Chaos(true, true, true)
	s.RunUntil(s.Healed())
	b, kind := genKindScript(s)
	s.After(1000, func() {
		for _, r := range rs {
			s.Net.Send(peer, r, "script", b, nil, func(c []byte, _ bool) { inspect(s, c, kind); seen++ })
		}
	})
	s.RunUntil(s.Now() + 60_000_000)
	s.Check(seen == len(rs), "no-progress", "a script was not inspected although faults stopped")
}
