// C17: term frequencies

// number of occurrences of t among the n entries of a starting at o
recfun cnt(a arr(int, string), o int, n int, t string) int =
  n <= 0 ? 0 : cnt(a, o, n - 1, t) + (a[ix(o, n - 1)] == t ? 1 : 0)

lemma cnt_nonneg (a arr(int, string), o int, n int, t string) induct n :: {cnt(a, o, n, t)} cnt(a, o, n, t) >= 0

func metric.TermFrequency(terms) returns (r)
  ensures [C17, C22] new: r != nil && fresh(r)
  ensures [C17, C22] counts: forall t string :: {r[t]} r[t] == cnt(elems(terms), off(terms), len(terms), t)
  ensures [C17, C22] keys: forall t string :: {t in r} t in r <==> cnt(elems(terms), off(terms), len(terms), t) > 0
  inv [C17, C22] (m map[string]int, i iter) :: m != nil &&
     (forall t string :: {m[t]} m[t] == cnt(elems(terms), off(terms), i, t)) &&
     (forall t string :: {t in m} t in m <==> cnt(elems(terms), off(terms), i, t) > 0)
