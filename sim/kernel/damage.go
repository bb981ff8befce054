package kernel

// Truncate cuts b short; half of the time near its end.
func Truncate(s *Sim, b, _ []byte) ([]byte, string) {
	if len(b) == 0 {
		return b, "truncate"
	}
	if s.Intn(2) == 0 {
		return b[:s.Intn(len(b))], "truncate"
	}
	k := 1 + s.Intn(min(len(b), 12))
	return b[:len(b)-k], "truncate"
}

// Extend appends bytes: random ones, zeros, or the start of another message.
func Extend(s *Sim, b, prev []byte) ([]byte, string) {
	k := 1 + s.Intn(12)
	switch s.Intn(3) {
	case 0:
		return append(b, make([]byte, k)...), "extend"
	case 1:
		return append(b, s.Bytes(k)...), "extend"
	}
	if len(prev) == 0 {
		prev = b
	}
	if len(prev) == 0 {
		return append(b, s.Bytes(k)...), "extend"
	}
	return append(b, prev[:1+s.Intn(len(prev))]...), "extend"
}

// Flip changes 1..4 bits.
func Flip(s *Sim, b, _ []byte) ([]byte, string) {
	if len(b) == 0 {
		return b, "bit flip"
	}
	for i, k := 0, 1+s.Intn(4); i < k; i++ {
		b[s.Intn(len(b))] ^= 1 << s.Intn(8)
	}
	return b, "bit flip"
}

// SetByte overwrites one byte with a value that often means something.
func SetByte(s *Sim, b, _ []byte) ([]byte, string) {
	if len(b) == 0 {
		return b, "byte change"
	}
	v := []byte{0, 1, 0x4b, 0x4c, 0x4d, 0x4e, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff}
	b[s.Intn(len(b))] = v[s.Intn(len(v))]
	return b, "byte change"
}

// Chunk deletes, repeats, moves or clears a range.
func Chunk(s *Sim, b, prev []byte) ([]byte, string) {
	if len(b) < 2 {
		return Flip(s, b, prev)
	}
	i := s.Intn(len(b))
	n := 1 + s.Intn(min(len(b)-i, 40))
	c := append([]byte{}, b[i:i+n]...)
	switch s.Intn(4) {
	case 0:
		return append(b[:i:i], b[i+n:]...), "chunk lost"
	case 1:
		return append(append(b[:i+n:i+n], c...), b[i+n:]...), "chunk repeated"
	case 2:
		for k := i; k < i+n; k++ {
			b[k] = 0
		}
		return b, "chunk cleared"
	}
	rest := append(b[:i:i], b[i+n:]...)
	j := s.Intn(len(rest) + 1)
	return append(append(append([]byte{}, rest[:j]...), c...), rest[j:]...), "chunk moved"
}

// Splice joins the start of one message with the end of another.
func Splice(s *Sim, b, prev []byte) ([]byte, string) {
	if len(prev) == 0 || len(b) == 0 {
		return Flip(s, b, prev)
	}
	return append(append([]byte{}, b[:s.Intn(len(b)+1)]...), prev[s.Intn(len(prev)):]...), "splice"
}

// BytesDamage picks any byte-level damage.
func BytesDamage(s *Sim, b, prev []byte) ([]byte, string) {
	if len(Novel.Words) > 0 && s.Intn(6) == 5 {
		return wordDamage(s, b)
	}
	switch s.Weighted(4, 3, 2, 2, 2, 1) {
	case 0:
		return Truncate(s, b, prev)
	case 1:
		return Flip(s, b, prev)
	case 2:
		return Extend(s, b, prev)
	case 3:
		return SetByte(s, b, prev)
	case 4:
		return Chunk(s, b, prev)
	}
	return Splice(s, b, prev)
}

// wordDamage puts a novel word into b.
func wordDamage(s *Sim, b []byte) ([]byte, string) {
	if len(b) == 0 || s.Intn(2) == 1 {
		w := Novel.Words[s.Intn(len(Novel.Words))]
		i := []int{0, len(b), s.Intn(len(b) + 1)}[s.Intn(3)]
		if s.Intn(4) == 3 && i == len(b) {
			w = append(append([]byte{}, w...), b[:s.Intn(len(b)+1)]...)
		}
		return append(append(append([]byte{}, b[:i]...), w...), b[i:]...), "word added"
	}
	s.word(b)
	return b, "word overwritten"
}

// TextDamage damages a text made of characters of alphabet: characters
// altered, lost, added, repeated, swapped, cut off.
func TextDamage(alphabet string) Damager {
	return func(s *Sim, b, prev []byte) ([]byte, string) {
		if len(b) == 0 {
			return append(b, alphabet[s.Intn(len(alphabet))]), "character added"
		}
		if len(Novel.Words) > 0 && s.Intn(6) == 5 {
			return wordDamage(s, b)
		}
		if s.Intn(24) == 23 { // one end all alike
			n := 1 + s.Intn(min(len(b), 12))
			c := []byte{'0', b[len(b)-1], alphabet[0], alphabet[s.Intn(len(alphabet))]}[s.Intn(4)]
			t := b[len(b)-n:]
			if s.Intn(4) == 3 {
				t = b[:n]
			}
			for i := range t {
				t[i] = c
			}
			return b, "characters overwritten"
		}
		k := 1
		if s.Intn(4) == 3 {
			k = 1 + s.Intn(3)
		}
		what := ""
		for ; k > 0 && len(b) > 0; k-- {
			i := s.Intn(len(b))
			if s.Intn(3) == 2 { // the ends matter most
				i = []int{0, len(b) - 1}[s.Intn(2)]
			}
			ch := alphabet[s.Intn(len(alphabet))]
			if s.Intn(8) == 7 {
				ch = byte(s.Intn(256))
			}
			switch s.Weighted(4, 3, 2, 2, 2, 1, 1) {
			case 0:
				b[i] = ch
				what = "character altered"
			case 1:
				b = append(b[:i:i], b[i+1:]...)
				what = "character lost"
			case 2:
				b = append(append(b[:i:i], ch), b[i:]...)
				what = "character added"
			case 3:
				b = append(append(b[:i:i], b[i]), b[i:]...)
				what = "character repeated"
			case 4:
				j := (i + 1) % len(b)
				b[i], b[j] = b[j], b[i]
				what = "characters swapped"
			case 5:
				b = b[:i]
				what = "text cut"
			case 6:
				if b[i] >= 'a' && b[i] <= 'z' || b[i] >= 'A' && b[i] <= 'Z' {
					b[i] ^= 0x20
				}
				what = "case changed"
			}
		}
		return b, what
	}
}
