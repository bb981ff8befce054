// Package ref holds small independent models of the formats libsv implements:
// the oracles of the simulation. Nothing here calls libsv.
package ref

import (
	"bytes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/crypto/ripemd160"
)

func Sha256d(b []byte) []byte {
	a := sha256.Sum256(b)
	c := sha256.Sum256(a[:])
	return c[:]
}

func Hash160(b []byte) []byte {
	a := sha256.Sum256(b)
	r := ripemd160.New()
	r.Write(a[:])
	return r.Sum(nil)
}

func Rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i, x := range b {
		r[len(b)-1-i] = x
	}
	return r
}

// VarInt encodes a count.
func VarInt(n uint64) []byte {
	switch {
	case n < 253:
		return []byte{byte(n)}
	case n <= 0xffff:
		return []byte{253, byte(n), byte(n >> 8)}
	case n <= 0xffffffff:
		return binary.LittleEndian.AppendUint32([]byte{254}, uint32(n))
	}
	return binary.LittleEndian.AppendUint64([]byte{255}, n)
}

// Reader reads wire formats; Err is set when bytes run out.
type Reader struct {
	B   []byte
	Off int
	Err error
}

var ErrShort = errors.New("bytes end early")

func (r *Reader) Take(n uint64) []byte {
	if r.Err != nil || n > uint64(len(r.B)-r.Off) {
		r.Err = ErrShort
		return nil
	}
	b := r.B[r.Off : r.Off+int(n)]
	r.Off += int(n)
	return b
}
func (r *Reader) Uint(n int) uint64 {
	b := r.Take(uint64(n))
	var v uint64
	for i := len(b) - 1; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v
}
func (r *Reader) VarInt() uint64 {
	switch p := r.Uint(1); p {
	case 253:
		return r.Uint(2)
	case 254:
		return r.Uint(4)
	case 255:
		return r.Uint(8)
	default:
		return p
	}
}

// In, Out and Tx are the reference transaction. IDs are in display order hex.
type In struct {
	PrevID  string
	PrevIdx uint32
	Script  []byte
	Seq     uint32
	// what is spent; not serialised
	PrevScript []byte
	HasPrev    bool
	PrevSats   uint64
}
type Out struct {
	Sats   uint64
	Script []byte
}
type Tx struct {
	Version uint32
	Ins     []In
	Outs    []Out
	Lock    uint32
}

// Clone makes a deep copy.
func (t *Tx) Clone() *Tx {
	c := *t
	c.Ins = append([]In{}, t.Ins...)
	c.Outs = append([]Out{}, t.Outs...)
	for i := range c.Ins {
		c.Ins[i].Script = append([]byte{}, c.Ins[i].Script...)
		c.Ins[i].PrevScript = append([]byte{}, c.Ins[i].PrevScript...)
	}
	for i := range c.Outs {
		c.Outs[i].Script = append([]byte{}, c.Outs[i].Script...)
	}
	return &c
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic("ref: bad hex " + s)
	}
	return b
}

func u32(b []byte, v uint32) []byte { return binary.LittleEndian.AppendUint32(b, v) }
func u64(b []byte, v uint64) []byte { return binary.LittleEndian.AppendUint64(b, v) }

func (i *In) Encode() []byte {
	b := Rev(unhex(i.PrevID))
	b = u32(b, i.PrevIdx)
	b = append(b, VarInt(uint64(len(i.Script)))...)
	b = append(b, i.Script...)
	return u32(b, i.Seq)
}

func (o *Out) Encode() []byte {
	b := u64(nil, o.Sats)
	b = append(b, VarInt(uint64(len(o.Script)))...)
	return append(b, o.Script...)
}

func (t *Tx) Encode() []byte {
	b := u32(nil, t.Version)
	b = append(b, VarInt(uint64(len(t.Ins)))...)
	for i := range t.Ins {
		b = append(b, t.Ins[i].Encode()...)
	}
	b = append(b, VarInt(uint64(len(t.Outs)))...)
	for i := range t.Outs {
		b = append(b, t.Outs[i].Encode()...)
	}
	return u32(b, t.Lock)
}

func (t *Tx) ID() string { return hex.EncodeToString(Rev(Sha256d(t.Encode()))) }

func (r *Reader) In() (i In) {
	i.PrevID = hex.EncodeToString(Rev(r.Take(32)))
	i.PrevIdx = uint32(r.Uint(4))
	i.Script = append([]byte{}, r.Take(r.VarInt())...)
	i.Seq = uint32(r.Uint(4))
	return
}

func (r *Reader) Out() (o Out) {
	o.Sats = r.Uint(8)
	o.Script = append([]byte{}, r.Take(r.VarInt())...)
	return
}

// Decode reads exactly one transaction.
func Decode(b []byte) (*Tx, error) {
	r := &Reader{B: b}
	t := &Tx{Version: uint32(r.Uint(4))}
	for n := r.VarInt(); n > 0 && r.Err == nil; n-- {
		i := r.In()
		if r.Err == nil {
			t.Ins = append(t.Ins, i)
		}
	}
	for n := r.VarInt(); n > 0 && r.Err == nil; n-- {
		o := r.Out()
		if r.Err == nil {
			t.Outs = append(t.Outs, o)
		}
	}
	t.Lock = uint32(r.Uint(4))
	if r.Err != nil {
		return nil, r.Err
	}
	if r.Off != len(b) {
		return nil, errors.New("bytes left over")
	}
	return t, nil
}

// SigHash is the BIP143 digest with ForkID, in the order that is signed.
func SigHash(t *Tx, idx int, flag byte) []byte {
	zero := make([]byte, 32)
	prevouts, seqs, outs := zero, zero, zero
	base := flag & 0x1f
	if flag&0x80 == 0 {
		var b []byte
		for _, i := range t.Ins {
			b = append(b, Rev(unhex(i.PrevID))...)
			b = u32(b, i.PrevIdx)
		}
		prevouts = Sha256d(b)
		if base != 2 && base != 3 {
			var b []byte
			for _, i := range t.Ins {
				b = u32(b, i.Seq)
			}
			seqs = Sha256d(b)
		}
	}
	if base != 2 && base != 3 {
		var b []byte
		for _, o := range t.Outs {
			b = append(b, o.Encode()...)
		}
		outs = Sha256d(b)
	} else if base == 3 && idx < len(t.Outs) {
		outs = Sha256d(t.Outs[idx].Encode())
	}
	in := t.Ins[idx]
	b := u32(nil, t.Version)
	b = append(b, prevouts...)
	b = append(b, seqs...)
	b = append(b, Rev(unhex(in.PrevID))...)
	b = u32(b, in.PrevIdx)
	b = append(b, VarInt(uint64(len(in.PrevScript)))...)
	b = append(b, in.PrevScript...)
	b = u64(b, in.PrevSats)
	b = u32(b, in.Seq)
	b = append(b, outs...)
	b = u32(b, t.Lock)
	b = u32(b, uint32(flag))
	return Sha256d(b)
}

const B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func Base58(b []byte) string {
	x := new(big.Int).SetBytes(b)
	var r []byte
	m := new(big.Int)
	for x.Sign() > 0 {
		x.DivMod(x, big.NewInt(58), m)
		r = append(r, B58[m.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		r = append(r, '1')
	}
	return string(Rev(r))
}

func UnBase58(s string) ([]byte, bool) {
	x := new(big.Int)
	for i := 0; i < len(s); i++ {
		k := strings.IndexByte(B58, s[i])
		if k < 0 {
			return nil, false
		}
		x.Mul(x, big.NewInt(58)).Add(x, big.NewInt(int64(k)))
	}
	n := 0
	for n < len(s) && s[n] == '1' {
		n++
	}
	return append(make([]byte, n), x.Bytes()...), true
}

// CheckEncode is base58check.
func CheckEncode(version byte, payload []byte) string {
	b := append([]byte{version}, payload...)
	return Base58(append(b, Sha256d(b)[:4]...))
}

// CheckDecode undoes CheckEncode.
func CheckDecode(s string) (version byte, payload []byte, ok bool) {
	b, ok := UnBase58(s)
	if !ok || len(b) < 5 {
		return 0, nil, false
	}
	n := len(b) - 4
	if !bytes.Equal(Sha256d(b[:n])[:4], b[n:]) {
		return 0, nil, false
	}
	return b[0], b[1:n], true
}

// P2PKHAddress reports the hash a supported address pays to.
func P2PKHAddress(s string) ([]byte, bool) {
	v, p, ok := CheckDecode(s)
	if !ok || len(p) != 20 || v != 0 && v != 0x6f {
		return nil, false
	}
	return p, true
}

// P2PKH is the locking script paying to a public key hash.
func P2PKH(h []byte) []byte {
	return append(append([]byte{0x76, 0xa9, 20}, h...), 0x88, 0xac)
}

// PushPrefix is the shortest length prefix of a non-empty push.
func PushPrefix(n int) []byte {
	switch {
	case n <= 75:
		return []byte{byte(n)}
	case n <= 0xff:
		return []byte{0x4c, byte(n)}
	case n <= 0xffff:
		return []byte{0x4d, byte(n), byte(n >> 8)}
	}
	return binary.LittleEndian.AppendUint32([]byte{0x4e}, uint32(n))
}

// Push is PushPrefix and the data.
func Push(d []byte) []byte { return append(PushPrefix(len(d)), d...) }

// ParseScript splits a script into opcodes (one byte) and pushed data.
func ParseScript(b []byte) (parts [][]byte, ok bool) {
	r := &Reader{B: b}
	for r.Off < len(b) {
		op := r.Take(1)
		var n uint64
		switch {
		case op[0] >= 1 && op[0] <= 75:
			n = uint64(op[0])
		case op[0] == 0x4c:
			n = r.Uint(1)
		case op[0] == 0x4d:
			n = r.Uint(2)
		case op[0] == 0x4e:
			n = r.Uint(4)
		default:
			parts = append(parts, op)
			continue
		}
		d := r.Take(n)
		if r.Err != nil {
			return parts, false
		}
		parts = append(parts, d)
	}
	return parts, true
}

// LastOps counts how many of a script's last n bytes are opcodes by themselves,
// up to the first that is not.
func LastOps(b []byte, n int) int {
	for k := 0; k < n; k++ {
		if len(b) == 0 {
			return k
		}
		if _, ok := ParseScript(b[:len(b)-1]); !ok || b[len(b)-1] >= 1 && b[len(b)-1] <= 0x4e {
			return k
		}
		b = b[:len(b)-1]
	}
	return n
}

var halfOrder, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0", 16)

// Strict says whether a signature (without its flag) is encoded the one way the
// network accepts: strict DER, low S. It returns "" or what is wrong.
func Strict(b []byte) string {
	if len(b) < 8 || len(b) > 72 || b[0] != 0x30 || int(b[1]) != len(b)-2 {
		return "not a sequence of the stated size"
	}
	num := func(p []byte) ([]byte, []byte, bool) {
		if len(p) < 3 || p[0] != 2 || p[1] == 0 || int(p[1]) > len(p)-2 {
			return nil, nil, false
		}
		v := p[2 : 2+int(p[1])]
		if v[0]&0x80 != 0 || len(v) > 1 && v[0] == 0 && v[1]&0x80 == 0 {
			return nil, nil, false
		}
		return v, p[2+len(v):], true
	}
	_, rest, ok := num(b[2:])
	if !ok {
		return "R is not a minimal positive number"
	}
	v, rest, ok := num(rest)
	if !ok || len(rest) != 0 {
		return "S is not a minimal positive number, or something follows it"
	}
	if new(big.Int).SetBytes(v).Cmp(halfOrder) > 0 {
		return "S is high"
	}
	return ""
}

// PubForm says whether b has the form of a public key.
func PubForm(b []byte) bool {
	return len(b) == 33 && (b[0] == 2 || b[0] == 3) || len(b) == 65 && (b[0] == 4 || b[0] == 6 || b[0] == 7)
}

// MerkleRoot hashes transaction hashes (wire order) up to the root.
func MerkleRoot(hashes [][]byte) []byte {
	l := append([][]byte{}, hashes...)
	for len(l) > 1 {
		if len(l)%2 == 1 {
			l = append(l, l[len(l)-1])
		}
		var n [][]byte
		for i := 0; i < len(l); i += 2 {
			n = append(n, Sha256d(append(append([]byte{}, l[i]...), l[i+1]...)))
		}
		l = n
	}
	return l[0]
}

// MerklePath lists the siblings (wire order) of position i, bottom up.
func MerklePath(hashes [][]byte, i int) (path [][]byte) {
	l := append([][]byte{}, hashes...)
	for len(l) > 1 {
		if len(l)%2 == 1 {
			l = append(l, l[len(l)-1])
		}
		path = append(path, l[i^1])
		var n [][]byte
		for k := 0; k < len(l); k += 2 {
			n = append(n, Sha256d(append(append([]byte{}, l[k]...), l[k+1]...)))
		}
		l = n
		i /= 2
	}
	return
}

// FromPath recomputes a root from a leaf, its position and siblings.
// ok is false when the position does not fit the path.
func FromPath(leaf []byte, i int64, path [][]byte) (root []byte, ok bool) {
	h := leaf
	if i < 0 {
		return nil, false
	}
	for _, p := range path {
		if i&1 == 1 {
			h = Sha256d(append(append([]byte{}, p...), h...))
		} else {
			h = Sha256d(append(append([]byte{}, h...), p...))
		}
		i >>= 1
	}
	return h, i == 0
}

// Target expands compact bits; ok is false for negative or too large targets.
func Target(bits uint32) (t *big.Int, ok bool) {
	e := int(bits >> 24)
	t = big.NewInt(int64(bits & 0x7fffff))
	if e >= 3 {
		t.Lsh(t, uint(8*(e-3)))
	} else {
		t.Rsh(t, uint(8*(3-e)))
	}
	if bits&0x800000 != 0 && t.Sign() != 0 {
		return t.Neg(t), false
	}
	return t, t.BitLen() <= 256
}

// Coinbase builds the coinbase transaction a pool wants: extra is the 12 bytes
// of extra nonce.
func Coinbase(height uint32, value uint64, witness []byte, text string, pkh []byte, minerID []byte, extra []byte) *Tx {
	data := append([]byte{3, byte(height), byte(height >> 8), byte(height >> 16)}, text...)
	if len(data) > 88 {
		data = data[:88]
	}
	data = append(data, extra...)
	t := &Tx{Version: 1, Ins: []In{{PrevID: strings.Repeat("00", 32), PrevIdx: 0xffffffff, Script: data, Seq: 0xffffffff}}}
	t.Outs = append(t.Outs, Out{value, P2PKH(pkh)})
	if len(witness) > 0 {
		t.Outs = append(t.Outs, Out{0, witness})
	}
	if len(minerID) > 0 {
		t.Outs = append(t.Outs, Out{0, minerID})
	}
	return t
}

// Header builds a block header. Hash and bits are in display order.
func Header(version uint32, prev string, root []byte, time, bits, nonce uint32) []byte {
	b := u32(nil, version)
	b = append(b, Rev(unhex(prev))...)
	b = append(b, root...)
	b = u32(b, time)
	b = u32(b, bits)
	return u32(b, nonce)
}

// BIP276 encodes; UnBIP276 decodes exactly what BIP276 produces (hex digits of
// the data may have any case).
func BIP276(prefix string, network, version int, data []byte) string {
	p := fmt.Sprintf("%s:%02x%02x%s", prefix, network, version, hex.EncodeToString(data))
	return p + hex.EncodeToString(Sha256d([]byte(p))[:4])
}

func UnBIP276(t string) (prefix string, network, version int, data []byte, ok bool) {
	i := strings.IndexByte(t, ':')
	if i < 1 || len(t)-i-1 < 12 {
		return
	}
	b, err := hex.DecodeString(t[i+1:])
	if err != nil {
		return
	}
	prefix, network, version, data = t[:i], int(b[0]), int(b[1]), b[2:len(b)-4]
	ok = strings.EqualFold(BIP276(prefix, network, version, data), t)
	return
}

// Multisig is an m-of-n redeem script over keys in ascending order.
func Multisig(m int, keys [][]byte) []byte {
	k := append([][]byte{}, keys...)
	sort.Slice(k, func(i, j int) bool { return bytes.Compare(k[i], k[j]) < 0 })
	b := []byte{0x50 + byte(m)}
	for _, x := range k {
		b = append(append(b, byte(len(x))), x...)
	}
	return append(b, 0x50+byte(len(k)), 0xae)
}

// Open decrypts a ciphertext made of a 16-byte vector and the CFB encryption
// of the base64 text of the plaintext.
func Open(c cipher.Block, b []byte) ([]byte, error) {
	if len(b) < 16 {
		return nil, ErrShort
	}
	out := make([]byte, len(b)-16)
	feed := b[:16]
	ks := make([]byte, 16)
	for i := 16; i < len(b); i += 16 {
		c.Encrypt(ks, feed)
		n := min(16, len(b)-i)
		for j := 0; j < n; j++ {
			out[i-16+j] = b[i+j] ^ ks[j]
		}
		if n == 16 {
			feed = b[i : i+16]
		}
	}
	return base64.StdEncoding.DecodeString(string(out))
}
