package scen

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"syscall"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/output"

	"verif.local/sim/kernel"
	"verif.local/sim/ref"
)

func init() {
	register(&Scenario{
		ID: "C17", Run: runC17, Quick: 240000, Deep: 5000000,
		Files: []string{"script/Script.go", "script/OpPushdata.go", "transaction/output/Output.go"},
		Real:  []string{"output.NewOpReturn, NewOpReturnParts", "Script.AppendPushData, AppendPushDataHexString, AppendPushDataString, AppendPushDataArray, AppendPushDataStrings, AppendOpCode", "script.EncodeParts, GetPushDataPrefix, DecodeParts", "transaction parsing and serialisation at every hop"},
		Stub:  []string{"relays and readers over a network that loses, repeats, delays and reorders", "publishers that crash, reuse their buffers and are preempted between any two statements", "an item of more than 4 GiB is a mapping without memory behind it", "clock"},
		Rule:  "a run is 1..3 publishers building scripts with 1..30 append operations, relayed over 1..3 hops to readers; non-trivial: a reader compared every item of a relayed script; distinct: hash of the event log and of the task switch order",
	})
}

var huge []byte

// hugeItem is a data item of more than 4 GiB that occupies no memory.
func hugeItem() []byte {
	if huge == nil {
		b, err := syscall.Mmap(-1, 0, 1<<32+16, syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
		if err != nil {
			panic(&kernel.Internal{Msg: "mmap: " + err.Error()})
		}
		huge = b
	}
	return huge
}

var dataLens = []int{1, 2, 74, 75, 76, 77, 254, 255, 256, 257, 511, 512, 65533, 65534, 65535, 65536, 65537, 70000, 131072}

// genItem is a non-empty data item.
func genItem(s *sim, big bool) []byte {
	n := 1 + s.Intn(40)
	switch s.Weighted(3, 3, 1) {
	case 1:
		k := len(dataLens)
		if !big {
			k = 12
		}
		n = dataLens[s.Intn(k)]
	case 2:
		n = 1 + s.Intn([]int{700, 700, 5000, 70000}[s.Intn(4)])
		if !big && n > 700 {
			n = 1 + n%5000
		}
	}
	if s.Intn(6) == 5 {
		return bytes.Repeat([]byte{[]byte{0, 0x01, 0x4c, 0x4d, 0x4e, 0x6a, 0xff}[s.Intn(7)]}, n)
	}
	return s.Bytes(n)
}

func runC17(s *kernel.Sim) {
	s.Heal(200_000)
	s.Net.Swarm(false)
	s.SwarmPreempt()
	big := s.Intn(6) == 5
	var relays, pubs []*kernel.Node
	for i, n := 0, s.Range(1, 3); i < n; i++ {
		relays = append(relays, s.NewNode(fmt.Sprintf("relay%d", i)))
	}
	reader := s.NewNode("reader")
	read := 0
	// recover compares the scripts of a relayed transaction with what was put in
	recover := func(b []byte, want [][][]byte) {
		var t *transaction.Transaction
		var err error
		s.Call("NewFromBytes", func() { t, err = transaction.NewFromBytes(b) })
		s.Check(err == nil && len(t.Outputs) == len(want), "relay-refused", "a relayed transaction with %d data outputs is not rebuilt: %v", len(want), err)
		for k, items := range want {
			var parts [][]byte
			s.Call("DecodeParts", func() { parts, err = script.DecodeParts(bytesOf(t.Outputs[k].LockingScript)) })
			if err != nil || len(parts) != len(items) {
				s.Fail("data-lost", "output %d gives %d parts (%v), want %d", k, len(parts), err, len(items))
			}
			for i, w := range items {
				if !bytes.Equal(parts[i], w) {
					s.Fail("data-lost", "output %d part %d is %s, want %s", k, i, short(parts[i]), short(w))
				}
				s.Count("items recovered")
			}
		}
		read++
		s.Did("scripts recovered by a reader")
		s.Logf("%d outputs recovered", len(want))
	}
	var hop func(i int, b []byte, want [][][]byte, from *kernel.Node)
	hop = func(i int, b []byte, want [][][]byte, from *kernel.Node) {
		if i == len(relays) {
			s.Net.Send(from, reader, "tx", b, nil, func(b []byte, _ bool) { recover(b, want) })
			return
		}
		r := relays[i]
		s.Net.Send(from, r, "tx", b, nil, func(b []byte, _ bool) {
			var t *transaction.Transaction
			var err error
			var c []byte
			s.Call("NewFromBytes", func() { t, err = transaction.NewFromBytes(b) })
			s.Check(err == nil, "relay-refused", "a transaction with %d data outputs is refused: %v", len(want), err)
			s.Call("ToBytes", func() { c = t.ToBytes() })
			s.Check(bytes.Equal(c, b), "relay-changed", "%s changes the transaction it relays", r.Name)
			hop(i+1, c, want, r)
		})
	}
	// script building: every step is compared with the model at once
	type built struct {
		sc    *script.Script
		model []byte
		items [][]byte // opcodes and data in order
	}
	same := func(b *built, after string) {
		if !bytes.Equal(*b.sc, b.model) {
			s.Fail("script-wrong", "after %s the script is %s, want %s", after, short(*b.sc), short(b.model))
		}
	}
	scrub := func(x []byte) {
		for i := range x { // the caller reuses its buffer
			x[i] = 0xBB
		}
	}
	items := func(n int) (d [][]byte, raw []byte) {
		for i := 0; i < n; i++ {
			x := genItem(s, big)
			d = append(d, x)
			raw = append(raw, ref.Push(x)...)
		}
		return
	}
	copies := func(d [][]byte) (c [][]byte) {
		for _, x := range d {
			c = append(c, append(make([]byte, 0, len(x)+4), x...))
		}
		return
	}
	step := func(b *built) {
		s.Begin()
		defer s.End()
		switch s.Weighted(4, 2, 2, 3, 2, 2, 3) {
		case 0:
			d, raw := items(1)
			c := copies(d)
			var err error
			s.Call("AppendPushData", func() { err = b.sc.AppendPushData(c[0]) })
			s.Check(err == nil, "append-refused", "AppendPushData refuses %d bytes: %v", len(d[0]), err)
			s.Check(bytes.Equal(c[0], d[0]), "item-changed", "AppendPushData changed the item")
			b.model, b.items = append(b.model, raw...), append(b.items, d...)
			same(b, fmt.Sprintf("AppendPushData of %d bytes", len(d[0])))
			scrub(c[0])
			same(b, "reuse of the item's buffer")
		case 1:
			d, raw := items(1)
			h := hex.EncodeToString(d[0])
			if s.Intn(2) == 1 {
				h = fmt.Sprintf("%X", d[0])
			}
			var err error
			s.Call("AppendPushDataHexString", func() { err = b.sc.AppendPushDataHexString(h) })
			s.Check(err == nil, "append-refused", "AppendPushDataHexString refuses %d bytes: %v", len(d[0]), err)
			b.model, b.items = append(b.model, raw...), append(b.items, d...)
			same(b, fmt.Sprintf("AppendPushDataHexString of %d bytes", len(d[0])))
		case 2:
			d, raw := items(1)
			var err error
			s.Call("AppendPushDataString", func() { err = b.sc.AppendPushDataString(string(d[0])) })
			s.Check(err == nil, "append-refused", "AppendPushDataString refuses %d bytes: %v", len(d[0]), err)
			b.model, b.items = append(b.model, raw...), append(b.items, d...)
			same(b, fmt.Sprintf("AppendPushDataString of %d bytes", len(d[0])))
		case 3:
			d, raw := items(s.Intn(6))
			c := copies(d)
			var err error
			s.Call("AppendPushDataArray", func() { err = b.sc.AppendPushDataArray(c) })
			s.Check(err == nil, "append-refused", "AppendPushDataArray refuses %d items: %v", len(d), err)
			b.model, b.items = append(b.model, raw...), append(b.items, d...)
			same(b, fmt.Sprintf("AppendPushDataArray of %d items", len(d)))
			for i := range c {
				s.Check(bytes.Equal(c[i], d[i]), "item-changed", "AppendPushDataArray changed item %d", i)
				scrub(c[i])
			}
			same(b, "reuse of the items' buffers")
		case 4:
			d, raw := items(s.Intn(6))
			var t []string
			for _, x := range d {
				t = append(t, string(x))
			}
			var err error
			s.Call("AppendPushDataStrings", func() { err = b.sc.AppendPushDataStrings(t) })
			s.Check(err == nil, "append-refused", "AppendPushDataStrings refuses %d items: %v", len(d), err)
			b.model, b.items = append(b.model, raw...), append(b.items, d...)
			same(b, fmt.Sprintf("AppendPushDataStrings of %d items", len(d)))
		case 5:
			op := byte(0x4f + s.Intn(0xb1))
			if s.Intn(8) == 7 {
				op = 0
			}
			s.Call("AppendOpCode", func() { b.sc.AppendOpCode(op) })
			b.model, b.items = append(b.model, op), append(b.items, []byte{op})
			same(b, fmt.Sprintf("AppendOpCode %#x", op))
		case 6: // a request that must fail
			var err error
			what := ""
			switch s.Intn(6) {
			case 4:
				var o *output.Output
				what = "NewOpReturn of over 4 GiB"
				s.Call("NewOpReturn", func() { o, err = output.NewOpReturn(hugeItem()[:1<<32+s.Intn(3)]) })
				s.Check(o == nil, "bad-accepted", "%s returns an output", what)
				s.Fault("item over 4 GiB")
			case 5:
				d, _ := items(s.Intn(4))
				i := s.Intn(len(d) + 1)
				d = append(append(append([][]byte{}, d[:i]...), hugeItem()), d[i:]...)
				var o *output.Output
				what = fmt.Sprintf("NewOpReturnParts with item %d of over 4 GiB", i)
				s.Call("NewOpReturnParts", func() { o, err = output.NewOpReturnParts(d) })
				s.Check(o == nil, "bad-accepted", "%s returns an output", what)
				s.Fault("item over 4 GiB")
			case 0, 1:
				h := hex.EncodeToString(genItem(s, false))
				switch s.Intn(3) {
				case 0:
					h = h[:len(h)-1]
				case 1:
					i := s.Intn(len(h))
					h = h[:i] + string("gG xZ\n-"[s.Intn(7)]) + h[i+1:]
				case 2:
					h = "0x" + h
				}
				what = "AppendPushDataHexString of a damaged text"
				s.Call("AppendPushDataHexString", func() { err = b.sc.AppendPushDataHexString(h) })
			case 2:
				d := hugeItem()
				d = d[:1<<32+s.Intn(3)]
				what = fmt.Sprintf("AppendPushData of %d bytes", len(d))
				s.Call("AppendPushData", func() { err = b.sc.AppendPushData(d) })
				s.Fault("item over 4 GiB")
			case 3:
				d, _ := items(s.Intn(4))
				i := s.Intn(len(d) + 1)
				d = append(append(append([][]byte{}, d[:i]...), hugeItem()), d[i:]...)
				what = fmt.Sprintf("AppendPushDataArray with item %d of over 4 GiB", i)
				s.Call("AppendPushDataArray", func() { err = b.sc.AppendPushDataArray(d) })
				s.Fault("item over 4 GiB")
			}
			s.Check(err != nil, "bad-accepted", "%s succeeds", what)
			same(b, "the failed "+what)
			s.Count("appends refused")
		}
	}
	fresh := func() *built {
		b := &built{}
		switch s.Intn(3) {
		case 0:
			b.sc = &script.Script{}
		case 1: // grows in place
			x := make(script.Script, 0, 1+s.Intn(400))
			b.sc = &x
		case 2:
			x := genItem(s, false)
			b.model = ref.Push(x)
			b.items = [][]byte{x}
			b.sc = newScript(b.model)
		}
		return b
	}
	opReturn := func() (*output.Output, [][]byte) {
		var o *output.Output
		var err error
		var raw []byte
		var d [][]byte
		if s.Intn(2) == 0 {
			d, raw = items(1)
			c := copies(d)
			s.Call("NewOpReturn", func() { o, err = output.NewOpReturn(c[0]) })
			defer scrub(c[0])
		} else {
			n := s.Intn(6)
			if s.Intn(20) == 19 {
				n = s.Intn(300)
			}
			d, raw = items(n)
			c := copies(d)
			s.Call("NewOpReturnParts", func() { o, err = output.NewOpReturnParts(c) })
			for i := range c {
				defer scrub(c[i])
			}
		}
		s.Check(err == nil && o != nil, "append-refused", "no data output for %d items: %v", len(d), err)
		w := append([]byte{0x00, 0x6a}, raw...)
		s.Check(bytes.Equal(bytesOf(o.LockingScript), w), "script-wrong", "the data output of %d items is %s, want %s", len(d), short(bytesOf(o.LockingScript)), short(w))
		s.Check(o.Satoshis == 0, "script-wrong", "the data output holds %d satoshis", o.Satoshis)
		return o, append([][]byte{{0x00}, {0x6a}}, d...)
	}
	prefix := func() {
		n := []int{1, 75, 76, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1}[s.Intn(12)]
		var p []byte
		var err error
		s.Call("GetPushDataPrefix", func() { p, err = script.GetPushDataPrefix(hugeItem()[:n]) })
		if n >= 1<<32 {
			s.Check(err != nil, "bad-accepted", "GetPushDataPrefix of %d bytes gives %x", n, p)
			return
		}
		s.Check(err == nil && bytes.Equal(p, ref.PushPrefix(n)), "prefix-wrong", "GetPushDataPrefix of %d bytes gives %x, %v, want %x", n, p, err, ref.PushPrefix(n))
	}
	publish := func(p *kernel.Node) {
		t := transaction.New()
		var want [][][]byte
		var open []*built
		for i, n := 0, 1+s.Intn(3); i < n; i++ {
			if s.Intn(3) == 0 {
				o, w := opReturn()
				t.AddOutput(o)
				want = append(want, w)
				continue
			}
			b := fresh()
			open = append(open, b)
			t.AddOutput(&output.Output{Satoshis: uint64(i), LockingScript: b.sc})
			want = append(want, nil)
		}
		if len(open) > 0 {
			for i, n := 0, 1+s.Intn(12); i < n; i++ {
				step(open[s.Intn(len(open))])
			}
		}
		for _, b := range open {
			same(b, "everything")
			for k := range want {
				if t.Outputs[k].LockingScript == b.sc {
					want[k] = b.items
				}
			}
		}
		if s.Intn(4) == 3 {
			prefix()
		}
		var raw []byte
		s.Call("ToBytes", func() { raw = t.ToBytes() })
		s.Logf("%s publishes %d outputs, %d bytes", p.Name, len(want), len(raw))
		hop(0, raw, want, p)
	}
	for i, n := 0, s.Range(1, 3); i < n; i++ {
		pubs = append(pubs, s.NewNode(fmt.Sprintf("publisher%d", i)))
	}
	for k, n := 0, 1+s.Intn(4); k < n; k++ {
		s.Begin()
		p := pubs[s.Intn(len(pubs))]
		at := s.Choose(120_000)
		s.End()
		s.At(at, func() { p.Do("publish", func() { publish(p) }) })
	}
	s.Chaos(true, true, true)
	s.RunUntil(s.Healed())
	before := read
	s.After(1000, func() { pubs[0].Do("publish", func() { publish(pubs[0]) }) })
	s.RunUntil(s.Now() + 60_000_000)
	s.Check(read > before, "no-progress", "published data did not reach the reader although faults stopped")
}
