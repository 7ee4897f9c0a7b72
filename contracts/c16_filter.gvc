// C16: filters map terms one by one; stop words are dropped, the rest kept in order

macro lower(w) = ext(string, "strings.ToLower", w)

func (filter.Lowercase).Process(l, text) returns (r)
  modifies elems(text)
  ensures [C16, C22] count: len(r) == len(text)
  ensures [C16, C22] each: forall j int :: {r[j]} {old(text[j])} 0 <= j && j < len(text) ==> r[j] == lower(old(text[j]))
  inv [C16, C22] (s []string, i iter) :: forall j int :: {s[j]} 0 <= j && j < i ==> s[j] == lower(old(text[j]))
  inv [C16, C22] (s []string, i iter) :: forall j int :: {s[j]} i <= j && j < len(text) ==> s[j] == old(text[j])
  inv [C16, C22] (s []string, i iter) :: len(s) == i

// accent folding: decompose, drop non-spacing marks, recompose
fun chain3(a any, b any, c any) any
fun xform(t any, w string) string

extern golang.org/x/text/transform.Chain(ts) returns (r)
  ensures len(ts) == 3 ==> r == chain3(ts[0], ts[1], ts[2])
extern golang.org/x/text/transform.String(t, s) returns (r, n, err)
  pure
  ensures r == xform(t, s)
fun runesIn(t *unicode.RangeTable) any
fun runesRemove(s any) runes.Transformer
extern golang.org/x/text/runes.In(rt) returns (r)
  pure
  ensures r == runesIn(rt)
extern golang.org/x/text/runes.Remove(s) returns (r)
  pure
  ensures r == runesRemove(s)

macro fold(w) = xform(chain3(box(norm.Form, norm.NFD), box(runes.Transformer, runesRemove(runesIn(unicode.Mn))), box(norm.Form, norm.NFC)), w)

func (*filter.ASCII).Process(a, text) returns (r)
  ensures [C16, C22] count: len(r) == len(text)
  ensures [C16, C22] each: forall j int :: {r[j]} 0 <= j && j < len(text) ==> r[j] == fold(text[j])
  inv [C16, C22] (s []string, i iter) :: forall j int :: {s[j]} 0 <= j && j < i ==> s[j] == fold(text[j])
  inv [C16, C22] (s []string, i iter) :: len(s) == i

func (*filter.Stemmer).Process(s, text) returns (r)
  requires s != nil
  maypanic s.Algorithm != stemmer.Snowball
  ensures [C16, C22] known: s.Algorithm == stemmer.Snowball
  ensures [C16, C22] count: len(r) == len(text)
  ensures [C16, C22] each: forall j int :: {r[j]} 0 <= j && j < len(text) ==> r[j] == ext(string, "github.com/sira-serverless-ir-arch/porter2.Stem", text[j])
  inv [C16, C22] (s []string, i iter) :: forall j int :: {s[j]} 0 <= j && j < i ==> s[j] == ext(string, "github.com/sira-serverless-ir-arch/porter2.Stem", text[j])

// number of terms kept among the first n
recfun nkeep(a arr(int, string), o int, n int, w arr(string, bool)) int =
  n <= 0 ? 0 : nkeep(a, o, n - 1, w) + (w[a[ix(o, n - 1)]] ? 0 : 1)

lemma nkeep_bounds (a arr(int, string), o int, n int, w arr(string, bool)) induct n :: {nkeep(a, o, n, w)} 0 <= nkeep(a, o, n, w) && (n >= 0 ==> nkeep(a, o, n, w) <= n)

macro kept(j, text, w) = nkeep(old(elems(text)), off(text), j, old(vals(w)))

func (*filter.StopWords).Process(s, text) returns (r)
  requires s != nil
  ensures [C16, C22] count: len(r) == kept(len(text), text, s.Words)
  ensures [C16, C22] kept: forall j int :: {old(text[j])} 0 <= j && j < len(text) && !old(s.Words[text[j]]) ==> r[kept(j, text, s.Words)] == old(text[j])
  inv [C16, C22] (t []string, i iter) :: len(t) == kept(i, text, s.Words)
  inv [C16, C22] (t []string, i iter) :: forall j int :: {old(text[j])} 0 <= j && j < i && !old(s.Words[text[j]]) ==> kept(j, text, s.Words) < len(t) && t[kept(j, text, s.Words)] == old(text[j])

func language.GetWords(l) returns (r)
  maypanic l != language.English && l != language.Portuguese
  ensures [C16, C22] en: l == language.English ==> r == language.StopWordsEnglish
  ensures [C16, C22] pt: l == language.Portuguese ==> r == language.StopWordsPortuguese
  ensures [C16, C22] known: l == language.English || l == language.Portuguese
