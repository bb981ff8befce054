package scen

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/libsv/libsv/script/address"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C13", Run: runC13, Quick: 80000, Deep: 1200000,
		Files: []string{"script/address/BIP276.go", "script/address/AddressValidation.go"},
		Real:  []string{"address.EncodeBIP276, DecodeBIP276, ValidateAddress"},
		Stub:  []string{"publishers and receivers over a network that alters, cuts, extends, splices and repeats texts", "archives on disks that lose and tear writes", "clock"},
		Rule:  "a run is 1..3 receivers decoding 3..20 texts delivered or read back from disk intact or damaged; non-trivial: an intact text was decoded and a damaged one judged; distinct: hash of the event log and of the task switch order",
	})
}

// bipDamage damages a BIP276 text.
func bipDamage(s *sim, b, prev []byte) ([]byte, string) {
	t := string(b)
	colon := strings.IndexByte(t, ':')
	switch s.Weighted(6, 2, 2, 2, 2, 2, 2, 1, 2) {
	case 8: // a checksum much like the right one
		if colon >= 0 && len(t) >= colon+13 {
			p := t[:len(t)-8]
			raw, _ := hex.DecodeString(p[colon+1:])
			if c, err := hex.DecodeString(t[len(t)-8:]); err == nil {
				nearSum(s, c, []byte(p), []byte(p[colon+1:]), raw)
				return []byte(p + hex.EncodeToString(c)), "near checksum"
			}
		}
	case 1: // a digit of network, version or checksum
		if colon >= 0 && len(t) >= colon+13 {
			x := []byte(t)
			i := colon + 1 + s.Intn(4)
			if s.Intn(2) == 1 {
				i = len(t) - 1 - s.Intn(8)
			}
			x[i] = "0123456789abcdef"[s.Intn(16)]
			return x, "digit"
		}
	case 2: // whole bytes lost or added
		if colon >= 0 && len(t) >= colon+15 {
			i := colon + 1 + 2*s.Intn((len(t)-colon-1)/2)
			if s.Intn(2) == 0 {
				return []byte(t[:i] + t[i+2:]), "byte lost"
			}
			return []byte(t[:i] + fmt.Sprintf("%02x", s.Intn(256)) + t[i:]), "byte added"
		}
	case 3: // network and version swapped, or other fields moved
		if colon >= 0 && len(t) >= colon+13 {
			h := t[colon+1:]
			return []byte(t[:colon+1] + h[2:4] + h[:2] + h[4:]), "network and version swapped"
		}
	case 4: // the prefix
		p := []string{"bitcoin-script", "bitcoin-template", "bitcoin", "", "bitcoin-scripT", "bitcoin-script ", "x:bitcoin-script", "bitcoin-script:"}[s.Intn(8)]
		if colon >= 0 {
			return []byte(p + t[colon:]), "prefix"
		}
	case 5: // after or before the text
		w := []string{" ", "\n", "\r\n", "\x00", "0", "00", "g", ":", "#"}[s.Intn(9)]
		if s.Intn(2) == 0 {
			return []byte(t + w), "text extended"
		}
		return []byte(w + t), "text extended"
	case 6:
		x := []byte(t)
		for i := max(colon, 0); i < len(x); i++ {
			if s.Intn(2) == 1 && x[i] >= 'a' && x[i] <= 'f' {
				x[i] ^= 0x20
			}
		}
		return x, "case of digits"
	case 7: // the checksum recomputed over something else
		if colon >= 0 && len(t) >= colon+13 {
			p := t[:len(t)-8]
			raw, _ := hex.DecodeString(t[colon+1 : len(t)-8])
			sum := [][]byte{ref.Sha256d(raw), ref.Sha256d([]byte(p[colon+1:])), ref.Rev(ref.Sha256d([]byte(p))[:4])}[s.Intn(3)]
			return []byte(p + hex.EncodeToString(sum[:4])), "another checksum"
		}
	}
	return kernel.TextDamage("0123456789abcdef:ABCDEF")(s, b, prev)
}

func runC13(s *kernel.Sim) {
	s.Heal(200_000)
	s.Net.Swarm(true)
	s.SwarmPreempt()
	pub := s.NewNode("publisher")
	var rs []*kernel.Node
	decoded := 0
	// judge decodes a text; want is what was encoded if the text is intact
	judge := func(text string, intact bool) {
		p0, n0, v0, d0, ok := ref.UnBIP276(text)
		var prefix string
		var version, network int
		var data []byte
		var err error
		s.Call("DecodeBIP276", func() { prefix, version, network, data, err = address.DecodeBIP276(text) })
		var valid bool
		var verr error
		s.Call("ValidateAddress", func() { valid, verr = address.ValidateAddress(text) })
		exact := ok && ref.BIP276(p0, n0, v0, d0) == text
		if intact {
			s.Check(exact, "encoded-wrong", "EncodeBIP276 made %q", tail(text))
			s.Check(err == nil, "intact-refused", "DecodeBIP276 refuses the intact %q: %v", tail(text), err)
			decoded++
		}
		isScript := strings.HasPrefix(text, "bitcoin-script:")
		switch {
		case err == nil && !ok:
			s.Fail("accepted-damaged", "DecodeBIP276 accepts %q, which no encoding gives", tail(text))
		case err == nil:
			s.Check(prefix == p0 && version == v0 && network == n0 && bytes.Equal(data, d0), "wrong-fields", "%q is decoded to prefix %q network %d version %d data %s, want %q %d %d %s", tail(text), prefix, network, version, short(data), p0, n0, v0, short(d0))
			s.Did("texts decoded")
		default:
			s.Did("texts refused")
		}
		if isScript {
			s.Check(valid == (verr == nil), "validation", "ValidateAddress(%q) returns %v and %v", tail(text), valid, verr)
			if intact {
				s.Check(valid, "intact-refused", "ValidateAddress refuses the intact %q: %v", tail(text), verr)
			}
			s.Check(ok || !valid, "accepted-damaged", "ValidateAddress accepts the damaged %q", tail(text))
		} else if _, a := ref.P2PKHAddress(text); !a {
			s.Check(!valid && verr != nil, "accepted-damaged", "ValidateAddress accepts %q", tail(text))
		}
	}
	for i, n := 0, s.Range(1, 3); i < n; i++ {
		r := s.NewNode(fmt.Sprintf("receiver%d", i))
		r.OnRestart = func() {
			if b, ok := r.Disk.Read("text"); ok {
				judge(string(b), false)
				s.Probe("text read after a crash")
			}
		}
		rs = append(rs, r)
	}
	gen := func() string {
		prefix := []string{"bitcoin-script", "bitcoin-template"}[s.Intn(2)]
		nets := []int{1, 2, 15, 16, 17, 99, 100, 127, 128, 254, 255}
		network, version := nets[s.Intn(11)], nets[s.Intn(11)]
		switch s.Intn(6) {
		case 3, 4:
			network, version = 1+s.Intn(255), 1+s.Intn(255)
		case 5: // related numbers
			n := 1 + s.Intn(255)
			network, version = n, []int{n, n << 4 & 0xff, n >> 4, n<<4&0xff | n>>4, 0xff - n, n + 1, n - 1, n ^ 0x10, n << 1 & 0xff}[s.Intn(9)]
			if version == 0 || version > 255 {
				version = n
			}
			if s.Intn(2) == 1 {
				network, version = version, network
			}
		}
		data := genScript(s, s.Intn(10) == 9)
		x := append(make([]byte, 0, len(data)+16), data...)
		var t string
		s.Call("EncodeBIP276", func() { t = address.EncodeBIP276(prefix, network, version, x) })
		s.Check(bytes.Equal(x, data), "input-changed", "EncodeBIP276 changed the data")
		if w := ref.BIP276(prefix, network, version, data); t != w {
			s.Fail("encoded-wrong", "EncodeBIP276(%q, network %d, version %d, %s) gives %q, want %q", prefix, network, version, short(data), tail(t), tail(w))
		}
		return t
	}
	for k, n := 0, 3+s.Intn(18); k < n; k++ {
		s.Begin()
		r := rs[s.Intn(len(rs))]
		at := s.Choose(180_000)
		s.End()
		s.At(at, func() {
			pub.Do("publish", func() {
				t := gen()
				s.Net.Send(pub, r, "text", []byte(t), bipDamage, func(b []byte, damaged bool) {
					judge(string(b), !damaged)
					s.Logf("%s judged %q", r.Name, tail(string(b)))
					r.Disk.Write("text", b)
					if s.Intn(2) == 1 {
						r.Disk.Sync()
					}
				})
			})
		})
	}
	s.Chaos(true, true, true)
	s.RunUntil(s.Healed())
	before := decoded
	s.After(1000, func() {
		pub.Do("publish", func() {
			t := gen()
			s.Net.Send(pub, rs[0], "text", []byte(t), nil, func(b []byte, _ bool) { judge(string(b), true) })
		})
	})
	s.RunUntil(s.Now() + 60_000_000)
	s.Check(decoded > before, "no-progress", "an intact text was not decoded although faults stopped")
}
