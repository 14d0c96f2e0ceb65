package main

import (
	"bytes"
	"unicode"
	"unicode/utf8"

	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
	"golang.org/x/text/transform"
)

// docEnc is an encoding a document can be written in. Not every character is
// in every encoding, so each has substitutes for those that are not.
type docEnc struct {
	names []string
	enc   encoding.Encoding
	multi bool // more than one byte to a character

	letters, symbols []rune // that it has
	to               map[rune]rune
}

var docEncs = []*docEnc{
	{names: []string{"EUC-JP", "euc-jp"}, enc: japanese.EUCJP, multi: true},
	{names: []string{"Shift_JIS", "cp932", "shiftjis"}, enc: japanese.ShiftJIS, multi: true},
	{names: []string{"ISO-2022-JP", "iso-2022-jp"}, enc: japanese.ISO2022JP, multi: true},
	{names: []string{"EUC-KR"}, enc: korean.EUCKR, multi: true},
	{names: []string{"Big5", "big5"}, enc: traditionalchinese.Big5, multi: true},
	{names: []string{"HZ-GB2312"}, enc: simplifiedchinese.HZGB2312, multi: true},
	{names: []string{"ISO-8859-1", "windows1252"}, enc: charmap.Windows1252},
	{names: []string{"ISO-8859-15"}, enc: charmap.ISO8859_15},
	{names: []string{"ISO-8859-5"}, enc: charmap.ISO8859_5},
	{names: []string{"ISO-8859-7"}, enc: charmap.ISO8859_7},
	{names: []string{"KOI8R"}, enc: charmap.KOI8R},
	{names: []string{"windows1251", "Windows1251"}, enc: charmap.Windows1251},
	{names: []string{"cp437"}, enc: charmap.CodePage437},
	{names: []string{"cp866"}, enc: charmap.CodePage866},
	{names: []string{"ISO-8859-2"}, enc: charmap.ISO8859_2},
	{names: []string{"ISO-8859-3"}, enc: charmap.ISO8859_3},
	{names: []string{"ISO-8859-4"}, enc: charmap.ISO8859_4},
	{names: []string{"ISO-8859-6"}, enc: charmap.ISO8859_6},
	{names: []string{"ISO-8859-8"}, enc: charmap.ISO8859_8},
	{names: []string{"ISO-8859-10"}, enc: charmap.ISO8859_10},
	{names: []string{"ISO-8859-13"}, enc: charmap.ISO8859_13},
	{names: []string{"ISO-8859-14"}, enc: charmap.ISO8859_14},
	{names: []string{"ISO-8859-16"}, enc: charmap.ISO8859_16},
	{names: []string{"koir8u"}, enc: charmap.KOI8U},
	{names: []string{"macintosh"}, enc: charmap.Macintosh},
	{names: []string{"macintoshcyrillic"}, enc: charmap.MacintoshCyrillic},
	{names: []string{"windows1250"}, enc: charmap.Windows1250},
	{names: []string{"windows1253"}, enc: charmap.Windows1253},
	{names: []string{"windows1254"}, enc: charmap.Windows1254},
	{names: []string{"windows1255"}, enc: charmap.Windows1255},
	{names: []string{"windows1256"}, enc: charmap.Windows1256},
	{names: []string{"windows1257"}, enc: charmap.Windows1257},
	{names: []string{"windows1258"}, enc: charmap.Windows1258},
	{names: []string{"windows874"}, enc: charmap.Windows874},
}

// the characters of the generator's vocabulary
var vocab = func() map[rune]bool {
	m := map[rune]bool{}
	for _, l := range [][]string{elemNames, attNames, words, piTargets, piData, comments, cdatas} {
		for _, s := range l {
			for _, r := range s {
				m[r] = true
			}
		}
	}
	return m
}()

func (e *docEnc) one(r rune) bool {
	b, err := e.enc.NewEncoder().Bytes([]byte(string(r)))
	if err != nil {
		return false
	}
	back, err := e.enc.NewDecoder().Bytes(b)
	return err == nil && string(back) == string(r) && (e.multi || len(b) == 1)
}

func (e *docEnc) init() {
	if e.to != nil {
		return
	}
	e.to = map[rune]rune{}
	for _, x := range [][2]rune{{0xC0, 0x17F}, {0x391, 0x3CE}, {0x410, 0x44F}, {0x3041, 0x3096}, {0x5D0, 0x5EA}, {0x621, 0x64A}, {0xE01, 0xE2E}, {0x4E00, 0x4E80}, {0xAC00, 0xAC40}} {
		for r := x[0]; r <= x[1] && len(e.letters) < 24; r++ {
			if unicode.IsLetter(r) && !vocab[r] && e.one(r) {
				e.letters = append(e.letters, r)
			}
		}
	}
	for r := rune(0xA1); r < 0x2600 && len(e.symbols) < 12; r++ {
		if !unicode.IsLetter(r) && !unicode.IsMark(r) && unicode.IsGraphic(r) && !vocab[r] && e.one(r) {
			e.symbols = append(e.symbols, r)
		}
	}
}

// sub is the character written for r.
func (e *docEnc) sub(r rune) rune {
	if r < 0x80 {
		return r
	}
	if x, ok := e.to[r]; ok {
		return x
	}
	x := r
	if !e.one(r) {
		l := e.symbols
		if unicode.IsLetter(r) {
			l = e.letters
		}
		// in the order of the vocabulary, so that it does not depend on the runs before
		k := 0
		for q := rune(0x80); q < r; q++ {
			if vocab[q] && unicode.IsLetter(q) == unicode.IsLetter(r) {
				k++
			}
		}
		x = l[k%len(l)]
	}
	e.to[r] = x
	return x
}

// encode rewrites a document in another encoding. It leaves it alone when the
// encoding cannot say it.
func (e *docEnc) encode(m *Model) bool {
	e.init()
	if len(e.letters) < 10 || len(e.symbols) == 0 {
		return false
	}
	src := m.Bytes
	off := make([]int, len(src)+1)
	var plain, out bytes.Buffer
	enc := e.enc.NewEncoder()
	var dst [64]byte
	for i := 0; i < len(src); {
		r, n := utf8.DecodeRune(src[i:])
		r = e.sub(r)
		plain.WriteRune(r)
		in := []byte(string(r))
		nd, ns, err := enc.Transform(dst[:], in, false)
		if err == transform.ErrShortSrc || err != nil || ns != len(in) {
			return false
		}
		for k := 0; k < n; k++ {
			off[i+k] = out.Len()
		}
		out.Write(dst[:nd])
		i += n
		off[i] = out.Len()
	}
	back, err := e.enc.NewDecoder().Bytes(out.Bytes())
	if err != nil || !bytes.Equal(back, plain.Bytes()) {
		return false
	}
	subs := func(s string) string {
		var o []rune
		for _, r := range s {
			o = append(o, e.sub(r))
		}
		return string(o)
	}
	done := map[*string]bool{}
	for i := range m.Evs {
		ev := &m.Evs[i]
		for j := range ev.A {
			if !done[&ev.A[j]] { // an entity's events can share their arguments
				done[&ev.A[j]] = true
				ev.A[j] = subs(ev.A[j])
			}
		}
		ev.End, ev.Beg = off[ev.End], off[ev.Beg]
		ev.Seg = append([]Seg(nil), ev.Seg...)
		for j := range ev.Seg {
			s := &ev.Seg[j]
			s.Beg, s.End, s.Enc = off[s.Beg], off[s.End], true
			s.N *= 3
		}
	}
	m.RootEnd = off[m.RootEnd]
	for i := range m.Cuts {
		m.Cuts[i] = off[m.Cuts[i]]
	}
	m.Bytes = out.Bytes()
	return true
}
