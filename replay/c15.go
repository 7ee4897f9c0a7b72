package replay

import (
	"testing"
	"unicode"
)

func TestVerifC15(t *testing.T) {
	v := vStart(t)
	al := []rune{'a', 'B', 'z', '0', '9', '\'', '\'', ' ', ' ', '-', '.', ',', '_', '\n', '\t', 'é', 'Ç', '中', '٣', '½', 'Ⅷ', '²', '\u0301', '’', '`', '"', '\u00a0', '\u200b', '😀', 'ª', '\x00', '+', '@', '/', 'ß', 'İ'}
	for v.more(150000) {
		n := v.num(14)
		if v.r.Intn(40) == 0 {
			n = v.num(300)
		}
		rs := make([]rune, n)
		for i := range rs {
			switch v.r.Intn(8) {
			case 0:
				rs[i] = rune(v.r.Intn(0x3000))
			case 1:
				rs[i] = 'a'
			default:
				rs[i] = al[v.r.Intn(len(al))]
			}
		}
		text := string(rs)
		if len(v.dict.Str) > 0 && v.r.Intn(6) == 0 {
			text += " " + v.dict.Str[v.r.Intn(len(v.dict.Str))] + " " + text
		}
		v.kase("Tokenize(%q)", text)
		var want []string
		cur := ""
		for _, r := range text {
			if unicode.IsLetter(r) || unicode.IsNumber(r) || r == '\'' {
				cur += string(r)
				continue
			}
			if cur != "" {
				want = append(want, cur)
			}
			cur = ""
		}
		if cur != "" {
			want = append(want, cur)
		}
		v.try(func() {
			got := NewStandard().Tokenize(text)
			if len(got) != len(want) {
				v.fail("got %q, want %q", got, want)
			}
			for i := range got {
				if got[i] != want[i] {
					v.fail("got %q, want %q", got, want)
				}
			}
		})
	}
	// every character on its own
	for r := rune(0); r < 0x20000; r++ {
		if r >= 0xd800 && r < 0xe000 {
			continue
		}
		tok := unicode.IsLetter(r) || unicode.IsNumber(r) || r == '\''
		text := "x" + string(r) + "y"
		n := 2
		if tok {
			n = 1
		}
		if r&0xff == 0 {
			v.kase("Tokenize of x+c+y for c from %U", r)
		}
		if got := NewStandard().Tokenize(text); len(got) != n {
			v.kase("Tokenize(%q)", text)
			v.fail("got %q", got)
		}
	}
	v.ok()
}
