package scen

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/rand"
	"errors"
	"fmt"
	"io"

	"github.com/libsv/libsv/crypto"

	"verif.local/sim/hook"
	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C14", Run: runC14, Quick: 1200000, Deep: 10000000,
		Files: []string{"crypto/Encryption.go"},
		Real:  []string{"crypto.Encrypt", "crypto/aes and crypto/cipher of the Go library"},
		Stub:  []string{"the system randomness source (crypto/rand.Reader), which splits, delays, cuts off and refuses reads", "the parties that encrypt, which crash and are preempted anywhere in a call", "clock"},
		Rule:  "a run is 1..5 parties encrypting 2..24 messages against one randomness source; non-trivial: an IV was traced to the bytes delivered to its call; distinct: hash of the event log and of the task switch order",
	})
}

// rngCall is what the randomness source did during one call of Encrypt.
type rngCall struct {
	got    []byte
	failed error
	plan   int // bytes until the source fails, -1: never
	err    error
	reads  int
	once   bool  // the source recovers after failing once
	down   error // what the next read returns
}

// rng is the simulated system randomness source.
type rng struct {
	s     *kernel.Sim
	calls map[uintptr]*rngCall // by the thread that is in the call
	other *rngCall             // reads made by anyone else
	mode  int                  // how reads are split
	yield bool                 // whether a read may block
	zeros int
	seed  uint64
	sent  uint64
}

var rngErrs = []error{io.EOF, io.ErrUnexpectedEOF, errors.New("read random: input/output error"), io.ErrNoProgress}

func (r *rng) Read(p []byte) (int, error) {
	c := r.calls[hook.Self()]
	if c == nil {
		c = r.other
	}
	c.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if r.yield && r.s.Intn(3) == 2 && hook.Yield() {
		r.s.Fault("randomness source blocks")
	}
	if c.down != nil {
		e := c.down
		if c.once {
			c.down = nil
			r.s.Fault("randomness source recovers within a call")
		}
		return 0, e
	}
	n := len(p)
	switch r.mode {
	case 1: // short reads
		n = 1 + r.s.Intn(len(p))
	case 2:
		n = 1
	case 3:
		if r.zeros < 3 && r.s.Intn(4) == 3 {
			r.zeros++
			r.s.Fault("empty read")
			return 0, nil
		}
		r.zeros = 0
		n = 1 + r.s.Intn(len(p))
	}
	var err error
	if c.plan >= 0 && n >= c.plan {
		n = c.plan
		c.failed, c.down = c.err, c.err
		err = c.err
		r.s.Fault("randomness source fails")
		if n > 0 && r.s.Intn(2) == 1 {
			err = nil // the bytes first, the error with the next read
		} else if c.once {
			c.down = nil
			r.s.Fault("randomness source recovers within a call")
		}
		c.plan = -1
	} else if c.plan >= 0 {
		c.plan -= n
	}
	if n < len(p) && err == nil {
		r.s.Fault("short read")
	}
	for i := range p[:n] { // no two deliveries are alike
		r.sent++
		p[i] = byte(kernel.Hash("rng", r.seed, r.sent))
	}
	c.got = append(c.got, p[:n]...)
	return n, err
}

// simRandom replaces the system randomness source for the rest of the run.
func simRandom(s *kernel.Sim) *rng {
	r := &rng{s: s, calls: map[uintptr]*rngCall{}, other: &rngCall{plan: -1}, seed: s.Choose(1 << 30)}
	rand.Reader = r
	return r
}

// encrypt is one call of Encrypt by a party.
func (r *rng) encrypt(c cipher.Block, text []byte, plan int, e error, once bool) (ct []byte, err error, call *rngCall) {
	call = &rngCall{plan: plan, err: e, once: once}
	g := hook.Self()
	r.calls[g] = call
	defer delete(r.calls, g)
	r.s.Call("Encrypt", func() { ct, err = crypto.Encrypt(c, text) })
	return
}

func genPlain(s *sim) []byte {
	switch s.Weighted(16, 12, 8, 1) {
	case 3:
		return s.Bytes(s.Intn(6000))
	case 1:
		return s.Bytes([]int{0, 1, 2, 3, 11, 12, 13, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 49}[s.Intn(19)])
	case 2:
		return bytes.Repeat([]byte{[]byte{0, 'A', 0xff}[s.Intn(3)]}, s.Intn(70))
	}
	return s.Bytes(s.Intn(200))
}

func genCipher(s *sim) cipher.Block {
	c, err := aes.NewCipher(s.Bytes([]int{16, 24, 32}[s.Intn(3)]))
	if err != nil {
		panic(err)
	}
	return c
}

func runC14(s *kernel.Sim) {
	s.Heal(100_000)
	s.SwarmPreempt()
	r := simRandom(s)
	r.mode = s.Intn(4)
	r.yield = s.Intn(3) == 2
	failing := []int{0, 100, 400}[s.Intn(3)]
	ciphers := []cipher.Block{genCipher(s)}
	if s.Intn(2) == 1 {
		ciphers = append(ciphers, genCipher(s))
	}
	var ns []*kernel.Node
	for i, n := 0, s.Range(1, 5); i < n; i++ {
		ns = append(ns, s.NewNode(fmt.Sprintf("party%d", i)))
	}
	type sent struct {
		iv   string
		call *rngCall
	}
	var all []sent
	okAfter := 0
	one := func(n *kernel.Node, plan int, e error, once bool) {
		c := ciphers[s.Intn(len(ciphers))]
		text := genPlain(s)
		x := append(make([]byte, 0, len(text)+24), text...)
		ct, err, call := r.encrypt(c, x, plan, e, once)
		switch {
		case err != nil:
			s.Check(ct == nil, "ciphertext-with-error", "Encrypt returns the error %v and the ciphertext %s", err, short(ct))
			if call.failed == nil {
				s.Fail("spurious-error", "Encrypt fails with %v although the randomness source delivered every byte asked of it", err)
			}
			s.Did("encryption refused without randomness")
			s.Logf("%s no ciphertext: %v", n.Name, err)
			return
		case call.failed != nil && len(call.got) < 16:
			s.Fail("no-randomness", "Encrypt returns the ciphertext %s although the randomness source failed (%v) after %d bytes", short(ct), call.failed, len(call.got))
		}
		if len(ct) < 16 {
			s.Fail("short-ciphertext", "Encrypt returns %d bytes for a plaintext of %d", len(ct), len(text))
		}
		iv := ct[:16]
		src := call.got
		if len(src) == 0 {
			src = r.other.got
		}
		if !bytes.Contains(src, iv) {
			s.Fail("iv-not-random", "the IV %x is not made of the bytes the randomness source delivered during the call (%s)", iv, short(src))
		}
		p, derr := ref.Open(c, ct)
		if derr != nil || !bytes.Equal(p, text) {
			s.Fail("not-encrypted", "the ciphertext %s decrypts to %s (%v) with its IV, want %s", short(ct), short(p), derr, short(text))
		}
		for _, o := range all {
			if o.iv == string(iv) && o.call != call {
				s.Fail("iv-reused", "two ciphertexts begin with the same IV %x", iv)
			}
		}
		all = append(all, sent{string(iv), call})
		if n := 16 + (len(text)+2)/3*4; len(ct) != n {
			s.Fail("ciphertext-size", "a plaintext of %d bytes gives a ciphertext of %d bytes, want %d", len(text), len(ct), n)
		}
		if !s.Faulty() {
			okAfter++
		}
		s.Did("initialisation vector traced to its call")
		s.Logf("%s ciphertext %x", n.Name, iv[:4])
		// the caller's buffers are its own afterwards
		for i := range ct {
			ct[i] = 0xEE
		}
		for i := range x {
			x[i] = 0xDD
		}
	}
	for k, m := 0, 2+s.Intn(23); k < m; k++ {
		s.Begin()
		n := ns[s.Intn(len(ns))]
		at := s.Choose(90_000)
		if s.Intn(3) == 2 {
			at = 10_000 // together
		}
		plan, e := -1, error(nil)
		if s.Chance(failing, 1000) {
			plan = s.Intn(19)
			e = rngErrs[s.Intn(len(rngErrs))]
		}
		once := s.Intn(2) == 1
		s.End()
		s.At(at, func() { n.Do("encrypt", func() { one(n, plan, e, once) }) })
	}
	s.Chaos(true, false, true)
	s.RunUntil(s.Healed())
	s.At(s.Healed()+1000, func() {
		r.mode, r.yield = 0, false
		for _, n := range ns {
			n.Do("encrypt", func() { one(n, -1, nil, false) })
		}
	})
	s.RunUntil(s.Now() + 60_000_000)
	s.Check(okAfter >= len(ns), "no-progress", "encryption still fails after the randomness source recovered")
}
