package replay

import (
	"reflect"
	"strings"
	"testing"
	"unicode"

	"github.com/sira-serverless-ir-arch/goirlib/filter/stemmer"
	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/porter2"
	"golang.org/x/text/runes"
	"golang.org/x/text/transform"
	"golang.org/x/text/unicode/norm"
)

const vEnStop = "a an and are as at be but by for if in into is it no not of on or such that the their then there these they this to was will with"
const vPtStop = "a ainda alem ambas ambos antes ao aonde aos apos aquele aqueles as assim com como contra contudo cuja cujas cujo cujos da das de dela dele deles demais depois desde desta deste dispoe dispoem diversa diversas diversos do dos durante e ela elas ele eles em entao entre essa essas esse esses esta estas este estes ha isso isto logo mais mas mediante menos mesma mesmas mesmo mesmos na nas nao nem nesse neste nos o os ou outra outras outro outros pelas pelo pelos perante pois por porque portanto proprio propios quais qual qualquer quando quanto que quem quer se seja sem sendo seu seus sob sobre sua suas tal tambem teu teus toda todas todo todos tua tuas tudo um uma umas uns"

func TestVerifC16(t *testing.T) {
	v := vStart(t)
	words := func(s string) map[string]bool {
		m := map[string]bool{}
		for _, w := range strings.Fields(s) {
			m[w] = true
		}
		return m
	}
	for _, c := range []struct {
		l language.Language
		w map[string]bool
	}{{language.English, words(vEnStop)}, {language.Portuguese, words(vPtStop)}} {
		v.kase("GetWords(%q)", c.l)
		v.try(func() {
			got := language.GetWords(c.l)
			for w, b := range got {
				if b != c.w[w] {
					v.fail("%q in the list: %v", w, b)
				}
			}
			for w := range c.w {
				if !got[w] {
					v.fail("%q is missing", w)
				}
			}
		})
	}
	for _, l := range append([]string{"", "en", "pt", "ES", "EN ", "PT-BR", "English", "Portuguese"}, v.dict.Str...) {
		if l == string(language.English) || l == string(language.Portuguese) {
			continue
		}
		v.kase("GetWords(%q)", l)
		if !v.panics(func() { language.GetWords(language.Language(l)) }) {
			v.fail("an unknown language is accepted")
		}
	}
	for a := -3; a < 40; a++ {
		if stemmer.StemmerAlgorithm(a) == stemmer.Snowball {
			continue
		}
		v.kase("Stemmer{%v}", a)
		if !v.panics(func() { NewStemmer(stemmer.StemmerAlgorithm(a)).Process([]string{"running"}) }) ||
			!v.panics(func() { NewStemmer(stemmer.StemmerAlgorithm(a)).Process(nil) }) {
			v.fail("an unknown stemming algorithm is accepted")
		}
	}
	// the reference results
	if v := porter2.Stem("running"); v != "run" {
		t.Skip("stemmer library changed")
	}
	fold := func(w string) string {
		s, _, _ := transform.String(transform.Chain(norm.NFD, runes.Remove(runes.In(unicode.Mn)), norm.NFC), w)
		return s
	}
	pool := []string{"", "a", "The", "the", "São", "coração", "RUNNING", "running", "flies", "Ação", "ÉCOLE", "e\u0301a", "ǅ", "İ", "ß", "ÇÃÕ", "naïve", "o'neil", "don't",
		"不", "가각", "ﬁ", "Ⅷ", "nationally", "happiness", "\u0301", "de", "não", "that", "such", "THE", "of", "x", "σς", "generously", "skies", "dying", "ñandú", "\xff", "\u0323\u0307s"}
	stop := map[string]bool{}
	for v.more(3000) {
		n := v.num(8)
		if v.r.Intn(25) == 0 {
			n = v.num([]int{300, 2500, 12000}[v.r.Intn(3)])
		}
		in := v.words(n, pool)
		each := func(name string, f Filter, g func(string) string) {
			x := append([]string{}, in...)
			v.kase("%s.Process(%q)", name, in)
			v.try(func() {
				got := f.Process(x)
				if len(got) != len(in) {
					v.fail("%d outputs for %d terms: %q", len(got), len(in), got)
				}
				for i := range in {
					if got[i] != g(in[i]) {
						v.fail("term %d (%q) became %q, want %q", i, in[i], got[i], g(in[i]))
					}
				}
			})
		}
		each("Lowercase", NewLowercase(), strings.ToLower)
		each("ASCII", NewASCII(), fold)
		each("Stemmer", NewStemmer(stemmer.Snowball), porter2.Stem)
		if v.r.Intn(3) == 0 {
			stop = words(vEnStop)
		} else {
			stop = map[string]bool{}
			for i := v.r.Intn(5); i > 0; i-- {
				stop[v.str(pool)] = v.r.Intn(6) > 0
				if len(in) > 0 {
					stop[in[v.r.Intn(len(in))]] = v.r.Intn(3) > 0
				}
			}
		}
		x := append([]string{}, in...)
		v.kase("StopWords{%v}.Process(%q)", stop, in)
		v.try(func() {
			got := NewStopWords(stop).Process(x)
			want := []string{}
			for _, w := range in {
				if !stop[w] {
					want = append(want, w)
				}
			}
			if len(got) != len(want) || len(want) > 0 && !reflect.DeepEqual(got, want) {
				v.fail("got %q, want %q", got, want)
			}
		})
	}
	v.ok()
}
