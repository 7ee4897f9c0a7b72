// C15: tokens are the maximal runs of letters, numbers and apostrophes.
// strings.FieldsFunc is trusted to split around the maximal runs of the
// characters its predicate accepts; the predicate is judged as a set.

fun tokSep() set(rune)
axiom tokSep_def (c rune) :: {c in tokSep()} c in tokSep() <==> !(ext(bool, "unicode.IsLetter", c) || ext(bool, "unicode.IsNumber", c) || c == 39)

macro ntok(text) = ext(int, "strings.FieldsFunc.len", text, tokSep())
macro tok(text) = ext(arr(int, string), "strings.FieldsFunc.elems", text, tokSep())

func (*tokenizer.Standard).Tokenize(s, text) returns (r)
  ensures [C15, C22] count: len(r) == ntok(text)
  ensures [C15, C22] new: fresh(r)
  ensures [C15, C22] tokens: forall i int :: {r[i]} {tok(text)[i]} 0 <= i && i < len(r) ==> r[i] == tok(text)[i]
