package scen

import (
	"bufio"
	"crypto/rand"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"

	"github.com/libsv/libsv/transaction/signature"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C24", Run: runC24, Quick: 9000, Deep: 300000,
		Files: []string{"transaction/Transaction.go", "transaction/SignatureHash.go", "transaction/signature/InternalSigner.go", "transaction/input/Input.go", "transaction/output/Output.go",
			"script/Script.go", "script/OpPushdata.go", "script/RedeemScript.go", "script/address/Address.go", "script/address/AddressValidation.go", "script/address/BIP276.go",
			"block/GetCoinbaseParts.go", "block/GetMerkleBranches.go", "block/BuildMerkleRootFromCoinbase.go", "block/Difficulty.go", "crypto/Encryption.go", "crypto/Hash.go", "utils/ByteManipulation.go", "utils/VarInt.go"},
		Real: []string{"every exported function of libsv, called by the handlers of a process that lives through the whole run (and the runs before it) and by a process started afresh at every restart"},
		Stub: []string{"clients over a network that loses, repeats and delays questions", "crashes: the restarted process is a new operating system process that is asked one question at a time", "the randomness source: constant bytes", "clock"},
		Rule: "a run is 4..40 questions, many of them repeated or nearly equal, to 1..3 handlers of an old process and to a process that crashes and starts anew; non-trivial: an answer of the old process was compared with one of the new process; distinct: hash of the event log and of the task switch order",
	})
}

// question is one call with all that it is given.
type question struct {
	Seed    uint64 // of the objects
	Variant int    // what is changed in them
	Op      int
	A, B    int
}

func (q question) String() string {
	return fmt.Sprintf("%s(%d.%d, %d, %d)", c09ops[q.Op].name, q.Seed, q.Variant, q.A, q.B)
}

// flipped copies b with a bit changed at its start, middle or end.
func flipped(b []byte, v int) []byte {
	if len(b) == 0 {
		return b
	}
	x := append([]byte{}, b...)
	x[(len(x)-1)*(v%3)/2] ^= 1
	return x
}

// flippedHex does so to a digit.
func flippedHex(t string, v int) string {
	if b, err := hex.DecodeString(t); err == nil {
		return hex.EncodeToString(flipped(b, v))
	}
	return t
}

// askModel is what the objects of a question are built from. Variants differ
// in one bit at the same place of everything, and the last in how text is
// written.
func askModel(seed uint64, v int) *c09Model {
	g := &kernel.Sim{Source: kernel.NewSource(kernel.Hash("question", seed)), Stats: kernel.NewStats()}
	m := genC09(g, 1)
	switch v {
	case 0:
		return m
	case 4:
		for i, a := range m.addrs {
			m.addrs[i] = []string{a + " ", " " + a, a + "\n", "1" + a}[(i+int(seed))%4]
		}
		m.badAddr = strings.ToUpper(m.badAddr)
		for _, l := range [][]string{m.hexes, m.template, m.branches, m.asm} {
			for i := range l {
				l[i] = strings.ToUpper(l[i])
			}
		}
		for i, b := range m.bips {
			m.bips[i] = []string{strings.ToUpper(b), b + " ", b[:len(b)-8] + strings.ToUpper(b[len(b)-8:])}[(i+int(seed))%3]
		}
		m.elec = strings.ToUpper(m.elec)
		return m
	}
	v--
	for _, l := range append(append([][]*ref.Tx{}, m.txs...), m.priv...) {
		for _, t := range l {
			switch v % 3 {
			case 0:
				t.Version ^= 1
			case 1:
				if len(t.Ins) > 0 {
					i := &t.Ins[len(t.Ins)/2]
					i.Seq ^= 1
					i.PrevSats ^= 1
				}
			case 2:
				if n := len(t.Outs); n > 0 {
					t.Outs[n-1].Sats ^= 1
				} else {
					t.Lock ^= 1
				}
			}
		}
	}
	for i := range m.scripts {
		m.scripts[i] = flipped(m.scripts[i], v)
	}
	for i := range m.parts {
		m.parts[i] = flipped(m.parts[i], v)
	}
	for i := range m.pubs {
		m.pubs[i] = append([]byte{m.pubs[i][0] ^ 1}, m.pubs[i][1:]...)
	}
	// of a list, the element in the middle, the first and last, or all
	for _, l := range [][]string{m.template, m.branches} {
		for i := range l {
			if edge := i == 0 || i == len(l)-1; v%3 == 2 || edge == (v%3 == 1) || len(l) < 3 {
				l[i] = flippedHex(l[i], v)
			}
		}
	}
	for i := range m.hexes {
		m.hexes[i] = flippedHex(m.hexes[i], v)
	}
	m.leaf, m.hash32, m.plain = flipped(m.leaf, v), flipped(m.hash32, v), flipped(m.plain, v)
	m.c1, m.c2, m.key = flipped(m.c1, v), flipped(m.c2, v), flipped(m.key, v)
	for i, a := range m.addrs {
		if h, ok := ref.P2PKHAddress(a); ok { // the other network, or another hash
			n := byte(0)
			if a[0] == '1' == (v%3 == 0) {
				n = 0x6f
			}
			if v%3 != 0 {
				h = flipped(h, v)
			}
			m.addrs[i] = ref.CheckEncode(n, h)
		}
	}
	m.badAddr = m.addrs[v%3]
	for i, b := range m.bips {
		if v%3 == 0 { // damaged
			m.bips[i] = string(flipped([]byte(b), 2))
		} else {
			m.bips[i] = ref.BIP276("bitcoin-script", 1+(v+i)%255, 1+i, pick(m.scripts, i))
		}
	}
	for i := range m.varints {
		m.varints[i] = flipped(m.varints[i], v)
	}
	switch v % 3 {
	case 0:
		m.tmpl.height ^= 1
	case 1:
		m.tmpl.value ^= 1
	case 2:
		m.tmpl.miner = flipped(m.tmpl.miner, v)
	}
	return m
}

// signer lives as long as the process, whose owner changes its key and flag.
// One call uses it at a time.
var (
	signer signature.InternalSigner
	busy   bool
)

// answer asks the library. What the call was given and what it returned is
// then overwritten by its owner.
func (q question) answer(m *c09Model) string {
	f := newFix(m, 1)
	if m.share && !busy { // and others use a new one each time
		busy = true
		defer func() { busy = false }()
		signer.PrivateKey, signer.SigHashFlag = f.signer.PrivateKey, f.signer.SigHashFlag
		f.signer = &signer
	}
	r := res{keep: true}
	c09ops[q.Op].run(f, 0, q.A, q.B, &r)
	for _, b := range append(f.bufs, r.kept...) {
		for i := range b {
			b[i] ^= 0x55
		}
	}
	for _, l := range f.strs {
		for i := range l {
			l[i] = "overwritten"
		}
	}
	for _, l := range f.lists {
		clear(l)
	}
	return string(r.b)
}

// Answers is the new process: it answers questions one at a time.
func Answers(in io.Reader, out io.Writer) {
	rand.Reader = zeroRand{}
	r := bufio.NewReader(in)
	dec := json.NewDecoder(r)
	if dec.Decode(&kernel.Novel) != nil {
		return
	}
	s := &kernel.Sim{Source: kernel.NewSource(0), Stats: kernel.NewStats()}
	enc := json.NewEncoder(out)
	for {
		var q question
		if dec.Decode(&q) != nil {
			return
		}
		m := askModel(q.Seed, q.Variant)
		var a string
		func() {
			defer func() {
				if v := recover(); v != nil {
					a = fmt.Sprint("failure: ", v)
				}
			}()
			s.Call(c09ops[q.Op].name, func() { a = q.answer(m) })
		}()
		enc.Encode(a)
	}
}

// newcomer is a process that starts anew after every crash.
type newcomer struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	enc *json.Encoder
	dec *json.Decoder
}

func (n *newcomer) stop() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

func (n *newcomer) ask(s *sim, q question) string {
	if n.cmd == nil {
		self, err := os.Executable()
		if err != nil {
			panic(&kernel.Internal{Msg: err.Error()})
		}
		n.cmd = exec.Command(self, "answers")
		n.in, _ = n.cmd.StdinPipe()
		out, _ := n.cmd.StdoutPipe()
		if err := n.cmd.Start(); err != nil {
			n.cmd = nil
			panic(&kernel.Internal{Msg: "cannot start a process: " + err.Error()})
		}
		n.enc, n.dec = json.NewEncoder(n.in), json.NewDecoder(out)
		n.enc.Encode(kernel.Novel)
		s.Count("processes started")
	}
	n.enc.Encode(q)
	var a string
	if err := n.dec.Decode(&a); err != nil {
		s.Fail("fresh-died", "a new process that is asked for %v dies", q)
	}
	return a
}

func runC24(s *kernel.Sim) {
	rand.Reader = zeroRand{}
	s.Heal(150_000)
	s.Net.Swarm(false)
	s.SwarmPreempt()
	client := s.NewNode("client")
	var old []*kernel.Node
	for i, n := 0, s.Range(1, 3); i < n; i++ {
		old = append(old, s.NewNode(fmt.Sprintf("handler%d", i)))
	}
	young := s.NewNode("newcomer")
	proc := &newcomer{}
	defer proc.stop()
	starts := 1 + s.Intn(2)
	young.OnRestart = func() {
		if starts > 1 {
			starts--
			proc.stop()
		}
	}
	total := 0
	for _, o := range c09ops {
		total += o.weight
	}
	pickOp := func() int {
		if s.Intn(4) == 3 {
			return s.Intn(len(c09ops))
		}
		v := s.Intn(total)
		for i, o := range c09ops {
			if v -= o.weight; v < 0 {
				return i
			}
		}
		return 0
	}
	seeds := []uint64{s.Choose(1 << 20)}
	for i, n := 0, s.Intn(4); i < n; i++ {
		seeds = append(seeds, s.Choose(1<<20))
	}
	few := []int{pickOp(), pickOp(), pickOp()}
	focus := s.Intn(2) == 1
	var asked []question
	gen := func() question {
		if len(asked) > 0 {
			q := asked[s.Intn(len(asked))]
			switch s.Intn(8) {
			case 0, 1:
				return q
			case 2:
				q.Variant = s.Intn(5)
				return q
			case 3:
				q.B = (q.B + 1) % 256
				return q
			case 4:
				q.Seed = seeds[s.Intn(len(seeds))]
				return q
			case 5:
				q.A = s.Intn(256)
				return q
			}
		}
		q := question{seeds[s.Intn(len(seeds))], 0, pickOp(), s.Intn(256), s.Intn(256)}
		if focus {
			q.Op = few[s.Intn(3)]
		}
		return q
	}
	models := map[[2]uint64]*c09Model{}
	model := func(q question) *c09Model {
		k := [2]uint64{q.Seed, uint64(q.Variant)}
		if models[k] == nil {
			models[k] = askModel(q.Seed, q.Variant)
		}
		return models[k]
	}
	first := map[question]string{}
	who := map[question]string{}
	compare := func(q question, a, by string) {
		was, ok := first[q]
		if !ok {
			first[q], who[q] = a, by
			s.Logf("%s answers %v", by, q)
			return
		}
		if was != a {
			s.Fail("answer-differs", "%v gives %s at the %s and %s at the %s", q, tail(was), who[q], tail(a), by)
		}
		s.Count("answers compared")
		if (who[q] == "newcomer") != (by == "newcomer") {
			s.Did("answers compared with those of a new process")
		}
		s.Logf("%s answers %v again", by, q)
	}
	askOld := func(n *kernel.Node, q question) {
		m := model(q)
		var a string
		s.Call(c09ops[q.Op].name, func() { a = q.answer(m) })
		compare(q, a, n.Name)
	}
	askYoung := func(q question) { compare(q, proc.ask(s, q), young.Name) }
	for k, n := 0, 4+s.Intn(37); k < n; k++ {
		s.Begin()
		q := gen()
		asked = append(asked, q)
		o := old[s.Intn(len(old))]
		at := s.Choose(140_000)
		if s.Intn(3) == 2 {
			at = 70_000 // together
		}
		also := s.Intn(5) == 4
		burst := 0
		switch s.Weighted(550, 50, 1) {
		case 1:
			burst = 20
		case 2: // kept busy for long
			burst = 300 + s.Intn(1000)
			q.Op = s.Intn(len(c09ops))
			asked[len(asked)-1] = q
		}
		s.End()
		s.At(at, func() {
			client.Do("ask", func() {
				s.Net.Send(client, o, "question", nil, nil, func([]byte, bool) {
					askOld(o, q)
					for i := 0; i < burst; i++ {
						p := q
						p.B = (q.B + i) % 256
						askOld(o, p)
					}
				})
				if also {
					s.Net.Send(client, young, "question", nil, nil, func([]byte, bool) { askYoung(q) })
				}
			})
		})
	}
	s.Chaos(true, true, true)
	s.RunUntil(s.Healed())
	// after faults have stopped a newly started process and the old one agree
	if s.Intn(2) == 0 && starts > 1 {
		proc.stop()
	}
	done := 0
	last := 1 + s.Intn(3)
	for i := 0; i < last; i++ {
		q := asked[s.Intn(len(asked))]
		if i == 0 {
			q = asked[len(asked)-1]
		}
		s.Net.Send(client, old[0], "question", nil, nil, func([]byte, bool) { askOld(old[0], q); done++ })
		s.Net.Send(client, young, "question", nil, nil, func([]byte, bool) { askYoung(q); done++ })
	}
	s.RunUntil(s.Now() + 60_000_000)
	s.Check(done == 2*last, "no-progress", "%d of %d questions were answered although faults stopped", done, 2*last)
}
