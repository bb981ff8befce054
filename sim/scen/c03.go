package scen

import (
	"bytes"
	"fmt"

	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C03", Run: runC03, Quick: 450000, Deep: 5000000,
		Files: []string{"transaction/input/Input.go", "transaction/output/Output.go", "utils/VarInt.go"},
		Real:  []string{"input.NewFromBytes", "output.NewFromBytes", "VarInt decoding"},
		Stub:  []string{"byte stream cut into pieces, with delays and reconnections", "the reader's buffer and its recovery", "clock"},
		Rule:  "a run is 1..3 streams of 1..12 records, each delivered in arbitrary pieces to a reader that decodes, compacts and reuses one buffer, crashes and reconnects; non-trivial: at least one record was decoded and compared and one incomplete record refused; distinct: hash of the event log and of the task switch order",
	})
}

type record struct {
	in   *ref.In
	out  *ref.Out
	raw  []byte
	odd  bool // encoded with a longer length than needed
	evil bool // its length is hostile: it never completes
}

func genRecord(s *sim) *record {
	s.Begin()
	defer s.End()
	r := &record{}
	lenAt := 36
	var huge []byte
	if s.Intn(100_000) == 99_999 {
		huge = bytes.Repeat(s.Bytes(251), 1<<24/251+1)
		s.Probe("script of more than 16 MiB")
	}
	if s.Intn(2) == 0 {
		r.in = &ref.In{PrevID: genTxID(s), PrevIdx: s.U32(), Script: genScript(s, s.Intn(6) == 5), Seq: genSeq(s)}
		if huge != nil {
			r.in.Script = huge
		}
		r.raw = r.in.Encode()
	} else {
		lenAt = 8
		r.out = &ref.Out{Sats: genSats(s), Script: genScript(s, s.Intn(6) == 5)}
		if huge != nil {
			r.out.Script = huge
		}
		r.raw = r.out.Encode()
	}
	switch s.Weighted(20, 2, 2) {
	case 1:
		n := (&ref.Reader{B: r.raw, Off: lenAt})
		v := n.VarInt()
		e := append([]byte{0xff}, ref.VarInt(1<<63 | v)[1:]...)
		e[8] &= 0x7f
		switch k := s.Intn(3); {
		case k == 1 && v <= 0xffff:
			e = []byte{0xfd, byte(v), byte(v >> 8)}
		case k == 2:
			e = []byte{0xfe, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
		}
		if bytes.Equal(e, r.raw[lenAt:n.Off]) {
			break
		}
		r.raw = append(append(append([]byte{}, r.raw[:lenAt]...), e...), r.raw[n.Off:]...)
		r.odd = true
	case 2:
		h := []uint64{1 << 31, 1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 4, 1<<64 - 5, 1<<64 - 9, 1<<64 - 40, 1<<64 - 41, 1<<64 - 45, 1<<64 - 49, 1<<63 - 4, 1<<63 - 41, 1<<63 - 45, 1<<63 - 49, 1 << 40}
		n := (&ref.Reader{B: r.raw, Off: lenAt})
		n.VarInt()
		r.raw = append(append(append([]byte{}, r.raw[:lenAt]...), ref.VarInt(h[s.Intn(len(h))])...), r.raw[n.Off:]...)
		r.evil = true
	}
	return r
}

func runC03(s *kernel.Sim) {
	s.Heal(300_000)
	s.SwarmPreempt()

	// decode tries to read one record at the start of b.
	decode := func(r *record, b []byte) (n int, ok bool) {
		keep := append([]byte{}, b...)
		var err error
		complete := len(b) >= len(r.raw) && !r.evil
		if r.in != nil {
			var i *input.Input
			s.Call("input.NewFromBytes", func() { i, n, err = input.NewFromBytes(b) })
			if err == nil && complete {
				switch {
				case i == nil || i.PreviousTxID != r.in.PrevID || i.PreviousTxOutIndex != r.in.PrevIdx || i.SequenceNumber != r.in.Seq || !bytes.Equal(bytesOf(i.UnlockingScript), r.in.Script):
					s.Fail("wrong-record", "input record %s decoded to other fields", short(r.raw))
				}
			}
		} else {
			var o *output.Output
			s.Call("output.NewFromBytes", func() { o, n, err = output.NewFromBytes(b) })
			if err == nil && complete {
				if o == nil || o.Satoshis != r.out.Sats || !bytes.Equal(bytesOf(o.LockingScript), r.out.Script) {
					s.Fail("wrong-record", "output record %s decoded to other fields", short(r.raw))
				}
			}
		}
		s.Check(bytes.Equal(b, keep), "input-changed", "decoding changed the bytes given")
		switch {
		case err == nil && !complete:
			s.Fail("decoded-early", "a record of %d bytes was decoded from its first %d bytes (hostile length: %v)", len(r.raw), len(b), r.evil)
		case err == nil && n != len(r.raw):
			s.Fail("wrong-size", "a record of %d bytes reports size %d", len(r.raw), n)
		case err != nil && complete && !r.odd:
			s.Fail("refused-complete", "a complete record %s was refused: %v", short(r.raw), err)
		case err != nil:
			s.Count("incomplete records refused")
			return 0, complete // an odd complete record may be refused
		}
		s.Did("records decoded and compared")
		return n, true
	}

	var finish []func()
	for k, ns := 0, s.Range(1, 3); k < ns; k++ {
		var recs []*record
		var stream []byte
		var ends []int
		for i, n := 0, s.Range(1, 12); i < n; i++ {
			r := genRecord(s)
			recs = append(recs, r)
			stream = append(stream, r.raw...)
			ends = append(ends, len(stream))
			if r.evil {
				stream = append(stream, s.Bytes(s.Intn(80))...)
				break // nothing can be read behind it
			}
		}
		total := len(recs)
		if recs[total-1].evil {
			total--
		}
		n := s.NewNode(fmt.Sprintf("reader%d", k))
		disk := func() int { // records known to be handled
			b, ok := n.Disk.Read("done")
			if !ok || len(b) != 2 {
				return 0
			}
			return int(b[0])
		}
		// volatile state
		var arena, buf []byte
		done, got, gen := 0, 0, 0
		start := func() int {
			if done == 0 {
				return 0
			}
			return ends[done-1]
		}
		connect := func() {
			gen++
			arena = make([]byte, 0, len(stream)+s.Intn(64))
			buf = arena
			got = start()
		}
		connect()
		var piece func(g int)
		piece = func(g int) {
			if g != gen {
				return // an old connection
			}
			if got < len(stream) {
				left := len(stream) - got
				c := 1
				switch s.Weighted(3, 3, 2, 1) {
				case 0:
					c = 1 + s.Intn(min(left, 4))
				case 1:
					c = 1 + s.Intn(min(left, 64))
				case 2:
					c = 1 + s.Intn(left)
				case 3: // exactly to, just before or just behind a boundary
					e := ends[min(done, len(ends)-1)] - got + s.Intn(3) - 1
					c = max(1, min(e, left))
				}
				buf = append(buf, stream[got:got+c]...)
				got += c
			}
			for done < len(recs) {
				sz, ok := decode(recs[done], buf)
				if !ok {
					break
				}
				if sz == 0 {
					sz = len(recs[done].raw)
				}
				// keep the rest, move it to the front: old bytes stay behind it
				rest := copy(arena[:cap(arena)], buf[sz:])
				buf = arena[:rest]
				done++
				if s.Intn(3) == 0 || done == total {
					n.Disk.Write("done", []byte{byte(done), 1})
					n.Disk.Sync()
				}
			}
			if done < total || got < len(stream) {
				d := s.Choose(3000) + 1
				if s.Faulty() && s.Chance(1, 40) {
					s.Fault("connection reset")
					s.Logf("%s reconnects at record %d", n.Name, done)
					connect()
					d += 2000
				}
				g := gen
				n.After(d, "piece", func() { piece(g) })
			}
		}
		n.OnRestart = func() {
			done = disk()
			connect()
			piece(gen)
		}
		n.Do("piece", func() { piece(gen) })
		// every cut of one short record
		r := recs[s.Intn(len(recs))]
		if len(r.raw) < 300 {
			lim := len(r.raw)
			n.After(uint64(s.Intn(1000)), "all cuts", func() {
				spare := append(append([]byte{}, r.raw...), r.raw...)
				for c := 0; c < lim; c++ {
					decode(r, spare[:c])
				}
				decode(r, spare)
			})
		}
		finish = append(finish, func() {
			s.Check(done >= total, "no-progress", "only %d of %d records were read although the whole stream arrived", done, total)
		})
	}
	s.Chaos(true, false, true)
	s.RunUntil(600_000_000)
	for _, f := range finish {
		f()
	}
}
