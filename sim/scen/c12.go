package scen

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/output"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C12", Run: runC12, Quick: 180000, Deep: 3000000,
		Files: []string{"script/address/Address.go", "script/address/AddressValidation.go", "script/Script.go", "transaction/output/Output.go", "transaction/Transaction.go"},
		Real:  []string{"address.NewFromPublicKey, NewFromPublicKeyString, NewFromPublicKeyHash, NewFromString, ValidateAddress", "script and output NewP2PKHFromAddress", "Transaction.PayTo", "block.GetCoinbaseParts"},
		Stub:  []string{"payees publishing addresses over a network that alters, cuts, extends and repeats them", "payers building transactions, with crashes and recovery", "clock"},
		Rule:  "a run is 1..3 payers paying 3..20 addresses that reach them intact or damaged; non-trivial: an address was paid and one was refused everywhere; distinct: hash of the event log and of the task switch order",
	})
}

// genHash is a public key hash, extreme now and then.
func genHash(s *sim) []byte {
	switch s.Weighted(6, 1, 1, 1, 1, 2) {
	case 1:
		return make([]byte, 20)
	case 2:
		return bytes.Repeat([]byte{0xff}, 20)
	case 3:
		return append(make([]byte, 19), 1)
	case 4:
		return append([]byte{1}, make([]byte, 19)...)
	case 5:
		z := 1 + s.Intn(6)
		return append(make([]byte, z), s.Bytes(20-z)...)
	}
	return s.Bytes(20)
}

// lookalikes are characters taken for another.
var lookalikes = map[byte][]string{'1': {"l", "I", "|"}, 'L': {"1"}, 'o': {"0", "O"}, 'B': {"8"}, '8': {"B"}, 'S': {"5"}, '5': {"S"}, 'A': {"\u0410"}, 'a': {"\u0430"}, 'e': {"\u0435"},
	'Z': {"2"}, '2': {"Z"}, 'u': {"v"}, 'v': {"u"}, 'n': {"m"}, 'm': {"n", "rn"}, 'G': {"6"}, '6': {"G"}, '9': {"g"}, 'g': {"9"}}

// nearSum turns a four-byte checksum into one that careless comparisons take
// for it; others are bytes it could be wrongly computed over.
func nearSum(s *sim, c []byte, others ...[]byte) {
	i := s.Intn(4)
	j := (i + 1 + s.Intn(3)) % 4
	switch s.Intn(12) {
	case 0: // two bytes swapped
		c[i], c[j] = c[j], c[i]
	case 1: // all bytes reversed
		copy(c, ref.Rev(c))
	case 2: // the same bits flipped in two bytes: bytes folded with XOR
		b := byte(1 + s.Intn(255))
		c[i], c[j] = c[i]^b, c[j]^b
	case 3: // bytes summed
		b := byte(1 + s.Intn(255))
		c[i], c[j] = c[i]+b, c[j]-b
	case 4: // one byte right only
		x := c[i]
		copy(c, s.Bytes(4))
		c[i] = x
	case 5: // one byte wrong only
		c[i] = byte(s.Intn(256))
	case 6: // one byte zero
		c[i] = 0
	case 7:
		copy(c, make([]byte, 4))
	case 8:
		copy(c, []byte{0xff, 0xff, 0xff, 0xff})
	case 9: // hashed once
		h := sha256.Sum256(others[s.Intn(len(others))])
		copy(c, h[:4])
	case 10: // of other bytes
		copy(c, ref.Sha256d(others[s.Intn(len(others))])[:4])
	case 11: // the end of the hash, or the middle
		copy(c, ref.Sha256d(others[s.Intn(len(others))])[4*(1+s.Intn(7)):])
	}
}

// addressDamage damages an address the way typing, copying, wrapping and
// attackers do.
func addressDamage(s *sim, b, prev []byte) ([]byte, string) {
	t := string(b)
	switch s.Weighted(10, 2, 2, 2, 1, 1, 1, 1, 2, 2) {
	case 9: // a checksum much like the right one
		if x, ok := ref.UnBase58(t); ok && len(x) == 25 {
			nearSum(s, x[21:], x[:21], x[1:21])
			return []byte(ref.Base58(x)), "near checksum"
		}
	case 1: // leading 1s
		switch s.Intn(3) {
		case 0:
			return []byte("1" + t), "leading 1 added"
		case 1:
			if len(t) > 0 {
				return []byte(t[1:]), "first character lost"
			}
		case 2:
			return append(bytes.Repeat([]byte("1"), 1+s.Intn(30)), t...), "many leading 1s"
		}
	case 2: // white space and wrapping
		w := []string{" ", "\n", "\t", "\r\n", "\x00", "\u00a0", "\"", ",", "-", "?", "?amount=1", "#", "/", ";", ":", "=", "&", "+", ".", "@", "<", ">", "'", "%20", "\u200b", "\ufeff", "x", "()"}[s.Intn(28)]
		switch s.Intn(3) {
		case 0:
			return []byte(w + t), "space before"
		case 1:
			return []byte(t + w), "space after"
		}
		i := s.Intn(len(t) + 1)
		return []byte(t[:i] + w + t[i:]), "space inside"
	case 3:
		if len(t) > 0 {
			for i, k := s.Intn(len(t)), 0; k < len(t); i, k = (i+1)%len(t), k+1 {
				if l := lookalikes[t[i]]; l != nil {
					return []byte(t[:i] + l[s.Intn(len(l))] + t[i+1:]), "lookalike"
				}
			}
		}
	case 4: // another kind of text with a right checksum
		p, ok := ref.P2PKHAddress(t)
		if !ok {
			break
		}
		switch s.Intn(6) {
		case 4, 5: // more than 25 bytes, the last 25 of them an address
			x, _ := ref.UnBase58(t)
			return []byte(ref.Base58(append([]byte{byte(1 + s.Intn(255))}, x...))), "a byte before the decoded bytes"
		case 0:
			return []byte(ref.CheckEncode([]byte{5, 0xc4, 0x80, 1, 0x6e, 0x70, 0xef, 0xff}[s.Intn(8)], p)), "another version"
		case 1:
			return []byte(ref.CheckEncode([]byte{0, 0x6f}[s.Intn(2)], p[:s.Intn(20)])), "hash cut"
		case 2:
			return []byte(ref.CheckEncode([]byte{0, 0x6f}[s.Intn(2)], append(p, s.Bytes(1+s.Intn(3))...))), "hash extended"
		case 3: // no checksum, or half of it
			x, _ := ref.UnBase58(t)
			return []byte(ref.Base58(x[:21+s.Intn(4)])), "checksum cut"
		}
	case 5: // one bit of the decoded bytes
		if x, ok := ref.UnBase58(t); ok && len(x) == 25 {
			i := []int{0, 1, 20, 21, 22, 23, 24, s.Intn(25)}[s.Intn(8)]
			x[i] ^= 1 << s.Intn(8)
			return []byte(ref.Base58(x)), "bit of the decoded bytes"
		}
	case 6:
		return []byte([]string{"bitcoin:", "bitcoin-script:", "bitcoincash:"}[s.Intn(3)] + t), "prefix"
	case 7:
		return []byte(t + string(prev)), "two addresses run together"
	case 8:
		x := []byte(t)
		for i := range x {
			if s.Intn(2) == 1 && (x[i] >= 'a' && x[i] <= 'z' || x[i] >= 'A' && x[i] <= 'Z') {
				x[i] ^= 0x20
			}
		}
		return x, "case"
	}
	return kernel.TextDamage(ref.B58+"0OIl")(s, b, prev)
}

func runC12(s *kernel.Sim) {
	s.Heal(200_000)
	s.Net.Swarm(true)
	s.SwarmPreempt()
	payee := s.NewNode("payee")
	type payer struct {
		*kernel.Node
		t *transaction.Transaction
		m *ref.Tx
	}
	var ps []*payer
	start := genSpend(s, nil, s.Intn(3))
	for i, n := 0, s.Range(1, 3); i < n; i++ {
		p := &payer{Node: s.NewNode(fmt.Sprintf("payer%d", i)), t: toLib(start), m: start.Clone()}
		p.OnRestart = func() {
			b, _ := p.Disk.Read("tx")
			if m, err := ref.Decode(b); err == nil {
				p.m = m
			} else {
				p.m = start.Clone()
			}
			p.t = toLib(p.m)
		}
		ps = append(ps, p)
	}
	paid := 0
	same := func(p *payer, what string) {
		if d := sameAll(p.t, p.m); d != "" {
			s.Fail("tx-changed", "after %s: %s", what, d)
		}
	}
	pay := func(p *payer, text string, sats uint64, damaged bool) {
		pkh, ok := ref.P2PKHAddress(text)
		if !damaged {
			s.Check(ok, "derived-wrong", "the derived address %q is not an address", text)
		}
		verdict := func(how string, accepted bool, err error) {
			if accepted == ok {
				return
			}
			if ok {
				s.Fail("refused", "%s refuses the address %q: %v", how, text, err)
			}
			s.Fail("accepted-damaged", "%s accepts %q, which is no address", how, text)
		}
		want := ref.P2PKH(pkh)
		for _, k := range s.Perm(6) {
			var err error
			switch k {
			case 0:
				var v bool
				s.Call("ValidateAddress", func() { v, err = address.ValidateAddress(text) })
				verdict("ValidateAddress", v, err)
				verdict("ValidateAddress", err == nil, err)
			case 1:
				var a *address.Address
				s.Call("address.NewFromString", func() { a, err = address.NewFromString(text) })
				verdict("address.NewFromString", err == nil, err)
				if ok {
					s.Check(a != nil && a.AddressString == text && a.PublicKeyHash == hex.EncodeToString(pkh), "wrong-hash", "address %q is parsed as %+v, want hash %x", text, a, pkh)
				}
			case 2:
				var x *script.Script
				s.Call("script.NewP2PKHFromAddress", func() { x, err = script.NewP2PKHFromAddress(text) })
				verdict("script.NewP2PKHFromAddress", err == nil, err)
				if ok && !bytes.Equal(bytesOf(x), want) {
					s.Fail("wrong-hash", "script.NewP2PKHFromAddress(%q) gives %x, want %x", text, bytesOf(x), want)
				}
			case 3:
				var o *output.Output
				sc := len(p.t.Outputs) - 1
				if sc >= 0 && s.Intn(4) == 3 { // the payer edits a payment made before
					sc = s.Intn(sc + 1)
					if b := bytesOf(p.t.Outputs[sc].LockingScript); len(b) > 0 {
						i := s.Intn(len(b))
						b[i] ^= 0x55
						p.m.Outs[sc].Script = append([]byte{}, b...)
						same(p, "editing an earlier output")
					}
				}
				s.Call("output.NewP2PKHFromAddress", func() { o, err = output.NewP2PKHFromAddress(text, sats) })
				verdict("output.NewP2PKHFromAddress", err == nil, err)
				if ok && (o == nil || o.Satoshis != sats || !bytes.Equal(bytesOf(o.LockingScript), want)) {
					s.Fail("wrong-hash", "output.NewP2PKHFromAddress(%q) gives another output", text)
				}
			case 4:
				s.Call("Transaction.PayTo", func() { err = p.t.PayTo(text, sats) })
				verdict("Transaction.PayTo", err == nil, err)
				if ok {
					p.m.Outs = append(p.m.Outs, ref.Out{Sats: sats, Script: want})
				}
				same(p, fmt.Sprintf("PayTo(%q)", text))
			case 5:
				var c2 []byte
				s.Call("GetCoinbaseParts", func() { _, c2, err = block.GetCoinbaseParts(5, sats, "", "x", text, nil) })
				verdict("block.GetCoinbaseParts", err == nil, err)
				if ok {
					w := append([]byte{0xff, 0xff, 0xff, 0xff, 1}, (&ref.Out{Sats: sats, Script: want}).Encode()...)
					w = append(w, 0, 0, 0, 0)
					s.Check(bytes.Equal(c2, w), "wrong-hash", "GetCoinbaseParts pays %x, want %x", c2, w)
				}
			}
			same(p, "handling an address")
		}
		if ok {
			s.Did("addresses paid")
			if !damaged {
				paid++
			} else {
				s.Probe("damage left an address valid")
			}
		} else {
			s.Did("texts refused everywhere")
		}
		s.Logf("%s handled %q", p.Name, text)
		p.Disk.Write("tx", p.m.Encode())
		if s.Intn(2) == 1 {
			p.Disk.Sync()
		}
	}
	derive := func() string {
		main := s.Intn(2) == 0
		v := byte(0)
		if !main {
			v = 0x6f
		}
		var a *address.Address
		var err error
		var h []byte
		switch s.Intn(4) {
		case 0:
			k := keyAt(s.Intn(nKeys))
			h = k.pkh
			s.Call("address.NewFromPublicKey", func() { a, err = address.NewFromPublicKey(k.priv.PubKey(), main) })
		case 1:
			k := keyAt(s.Intn(nKeys))
			h = k.pkh
			s.Call("address.NewFromPublicKeyString", func() { a, err = address.NewFromPublicKeyString(hex.EncodeToString(k.pub), main) })
		case 2:
			k := keyAt(s.Intn(nKeys)).priv.PubKey().SerializeUncompressed()
			h = ref.Hash160(k)
			s.Call("address.NewFromPublicKeyString", func() { a, err = address.NewFromPublicKeyString(hex.EncodeToString(k), main) })
		case 3:
			h = genHash(s)
			x := append(make([]byte, 0, 32), h...)
			s.Call("address.NewFromPublicKeyHash", func() { a, err = address.NewFromPublicKeyHash(x, main) })
			s.Check(bytes.Equal(x, h), "input-changed", "deriving an address changed the hash")
		}
		s.Check(err == nil && a != nil, "derive-refused", "deriving an address: %v", err)
		want := ref.CheckEncode(v, h)
		s.Check(a.AddressString == want && a.PublicKeyHash == hex.EncodeToString(h), "derived-wrong", "hash %x gives address %s, want %s", h, a.AddressString, want)
		return want
	}
	for k, n := 0, long(s, 3+s.Intn(18)); k < n; k++ {
		s.Begin()
		p := ps[s.Intn(len(ps))]
		sats := genSats(s)
		at := s.Choose(180_000)
		s.End()
		s.At(at, func() {
			payee.Do("publish", func() {
				text := derive()
				s.Net.Send(payee, p.Node, "address", []byte(text), addressDamage, func(b []byte, damaged bool) { pay(p, string(b), sats, damaged) })
			})
		})
	}
	if s.Intn(3) == 2 { // texts that never were addresses
		s.At(s.Choose(180_000), func() {
			ps[0].Do("paste", func() {
				odd := []string{"", "1", "11111111111111111111111111111111111", "bitcoin-script:", ref.CheckEncode(5, genHash(s)), ref.CheckEncode(0xc4, genHash(s)), ref.CheckEncode(0, nil),
					ref.CheckEncode(0, make([]byte, 32)), "0x" + hex.EncodeToString(genHash(s)), hex.EncodeToString(genHash(s)), ref.BIP276("bitcoin-script", 1, 1, ref.P2PKH(genHash(s)))}
				i := s.Intn(len(odd))
				if i == len(odd)-1 { // valid, but not to be paid
					var err error
					s.Call("Transaction.PayTo", func() { err = ps[0].t.PayTo(odd[i], 1) })
					s.Check(err != nil, "accepted-damaged", "PayTo accepts %q", odd[i])
					same(ps[0], "refusing a payment")
					return
				}
				pay(ps[0], odd[i], 1, true)
			})
		})
	}
	s.Chaos(true, true, true)
	s.RunUntil(s.Healed())
	before := paid
	s.After(1000, func() {
		payee.Do("publish", func() {
			text := derive()
			s.Net.Send(payee, ps[0].Node, "address", []byte(text), nil, func(b []byte, damaged bool) { pay(ps[0], string(b), 1, damaged) })
		})
	})
	s.RunUntil(s.Now() + 60_000_000)
	s.Check(paid > before, "no-progress", "an intact address was not paid although faults stopped")
}
