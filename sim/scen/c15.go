package scen

import (
	"bytes"
	"crypto/cipher"
	"fmt"

	"github.com/libsv/libsv/crypto"

	"verif.local/sim/kernel"
)

func init() {
	register(&Scenario{
		ID: "C15", Run: runC15, Quick: 900000, Deep: 9000000,
		Files: []string{"crypto/Encryption.go"},
		Real:  []string{"crypto.Encrypt, crypto.Decrypt", "crypto/aes and crypto/cipher of the Go library"},
		Stub:  []string{"the writer's disk, which loses and tears writes", "readers that share the bytes they read in memory and are preempted anywhere in a call", "network, randomness source, clock"},
		Rule:  "a run is a writer storing 1..8 ciphertexts and 1..4 readers decrypting shared copies 3..30 times; non-trivial: an intact ciphertext was decrypted; distinct: hash of the event log and of the task switch order",
	})
}

// stored is one ciphertext and what it holds.
type stored struct {
	c    cipher.Block
	text []byte
	ct   []byte // as encrypted
	mem  []byte // the readers' shared copy, with spare capacity
	full []byte // mem with its spare capacity, as it was
	cut  bool   // mem is not what was encrypted
}

func runC15(s *kernel.Sim) {
	s.Heal(150_000)
	s.Net.Swarm(true)
	s.SwarmPreempt()
	simRandom(s).mode = s.Intn(2)
	writer := s.NewNode("writer")
	var readers []*kernel.Node
	for i, n := 0, s.Range(1, 4); i < n; i++ {
		readers = append(readers, s.NewNode(fmt.Sprintf("reader%d", i)))
	}
	var all []*stored
	byName := map[string]*stored{}
	decrypted := 0
	share := func(b []byte) (mem, full []byte) {
		buf := append(append(make([]byte, 0, len(b)+32), b...), bytes.Repeat([]byte{0xCC}, 32)...)
		return buf[:len(b)], append([]byte{}, buf...)
	}
	// read decrypts the shared bytes once, perhaps while others do
	read := func(n *kernel.Node, e *stored, c cipher.Block) {
		var p []byte
		var err error
		s.Call("Decrypt", func() { p, err = crypto.Decrypt(c, e.mem) })
		if !bytes.Equal(e.mem[:len(e.full)], e.full) {
			s.Fail("ciphertext-changed", "decrypting changed the stored bytes from %s to %s", short(e.full[:len(e.mem)]), short(e.mem))
		}
		switch {
		case len(e.mem) < 16:
			s.Check(err != nil, "torn-accepted", "Decrypt accepts a ciphertext of %d bytes", len(e.mem))
			s.Did("ciphertexts torn inside the vector refused")
		case !e.cut && c == e.c:
			s.Check(err == nil, "intact-refused", "Decrypt refuses an intact ciphertext of %d bytes: %v", len(e.mem), err)
			s.Check(bytes.Equal(p, e.text), "wrong-plaintext", "Decrypt gives %s, want %s", short(p), short(e.text))
			s.Did("ciphertexts decrypted")
			decrypted++
		default:
			s.Did("damaged ciphertexts or wrong keys")
		}
		if err == nil {
			for i := range p { // the plaintext belongs to the reader
				p[i] ^= 0x5A
			}
			if !bytes.Equal(e.mem[:len(e.full)], e.full) {
				s.Fail("plaintext-shares", "the plaintext shares memory with the stored ciphertext")
			}
		}
		s.Logf("%s read %d bytes, error %v", n.Name, len(e.mem), err != nil)
	}
	write := func(k int) *stored {
		e := &stored{c: genCipher(s), text: genPlain(s)}
		if s.Intn(150) == 149 { // a long one
			n := 1 + s.Intn(3300)
			if s.Intn(20) == 19 {
				n *= 17
				s.Probe("plaintext of more than 200 KB possible")
			}
			e.text = bytes.Repeat(s.Bytes(61), n)
		}
		x, full := share(e.text)
		var err error
		s.Call("Encrypt", func() { e.ct, err = crypto.Encrypt(e.c, x) })
		s.Check(err == nil, "encrypt-failed", "Encrypt fails: %v", err)
		s.Check(bytes.Equal(x[:len(full)], full), "input-changed", "encrypting changed the plaintext from %s to %s", short(full[:len(x)]), short(x))
		ct := e.ct
		e.ct = append([]byte{}, ct...)
		for i := range x {
			x[i] ^= 0xA5 // the writer reuses its buffer
		}
		s.Check(bytes.Equal(ct, e.ct), "input-shared", "the ciphertext shares memory with the plaintext")
		e.mem, e.full = share(e.ct)
		name := fmt.Sprint("c", k)
		byName[name] = e
		if writer.Disk.Write(name, e.ct) && s.Intn(2) == 1 {
			writer.Disk.Sync()
		}
		all = append(all, e)
		s.Logf("writer stored %d bytes", len(e.ct))
		return e
	}
	// every ciphertext is read back after a restart
	writer.OnRestart = func() {
		for k := 0; k < 8; k++ {
			b, ok := writer.Disk.Read(fmt.Sprint("c", k))
			e := byName[fmt.Sprint("c", k)]
			if !ok || e == nil {
				continue
			}
			f := &stored{c: e.c, text: e.text, ct: e.ct, cut: !bytes.Equal(b, e.ct)}
			f.mem, f.full = share(b)
			if f.cut {
				s.Probe("torn ciphertext read after a crash")
			} else {
				s.Probe("ciphertext read after a crash")
			}
			read(writer, f, f.c)
		}
	}
	m := 1 + s.Intn(8)
	for k := 0; k < m; k++ {
		s.Begin()
		at := s.Choose(60_000)
		s.End()
		k := k
		s.At(at, func() { writer.Do("write", func() { write(k) }) })
	}
	for k, n := 0, long(s, 3+s.Intn(28)); k < n; k++ {
		s.Begin()
		r := readers[s.Intn(len(readers))]
		at := 5_000 + s.Choose(140_000)
		if s.Intn(3) == 2 {
			at = 70_000 // together
		}
		pick, kind := s.Intn(8), s.Intn(8)
		s.End()
		s.At(at, func() {
			if len(all) == 0 {
				return
			}
			e := all[pick%len(all)]
			switch kind {
			case 7: // a wrong key
				r.Do("read", func() { read(r, e, genCipher(s)) })
			case 5, 6: // a copy over the network
				s.Net.Send(writer, r, "ciphertext", e.ct, kernel.BytesDamage, func(b []byte, damaged bool) {
					f := &stored{c: e.c, text: e.text, ct: e.ct, cut: damaged}
					f.mem, f.full = share(b)
					for i := s.Intn(3); i >= 0; i-- {
						read(r, f, f.c)
					}
				})
			default: // the bytes every reader shares
				r.Do("read", func() { read(r, e, e.c) })
			}
		})
	}
	s.Chaos(true, true, true)
	s.RunUntil(s.Healed())
	var last *stored
	s.At(s.Healed()+1000, func() { writer.Do("write", func() { last = write(m) }) })
	s.RunUntil(s.Now() + 60_000_000)
	if last == nil {
		s.Fail("no-progress", "a ciphertext was not stored although faults stopped")
	}
	before := decrypted
	for _, r := range readers {
		r.Do("read", func() { read(r, last, last.c) })
	}
	s.RunUntil(s.Now() + 60_000_000)
	s.Check(decrypted == before+len(readers), "no-progress", "a stored ciphertext was not decrypted although faults stopped")
}
