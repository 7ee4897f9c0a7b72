// C20: ranked search

// what the index answers for a list of terms on a field
fun iHas(s any, e arr(int, string), o int, n int, f string, d string) bool
fun iAvg(s any, e arr(int, string), o int, n int, f string) real
fun iTotal(s any, e arr(int, string), o int, n int, f string) real
fun iCounts(s any, e arr(int, string), o int, n int, f string) arr(string, int)
fun iTF(s any, e arr(int, string), o int, n int, f string, d string) arr(string, int)
fun iLen(s any, e arr(int, string), o int, n int, f string, d string) int

extern (index.Index).Search(s, terms, fieldName) returns (r)
  ensures forall d string :: {d in r.FieldDocuments} {iHas(s, elems(terms), off(terms), len(terms), fieldName, d)} d in r.FieldDocuments <==> iHas(s, elems(terms), off(terms), len(terms), fieldName, d)
  ensures forall d string :: {r.FieldDocuments[d]} d in r.FieldDocuments ==> vals(r.FieldDocuments[d].TF) == iTF(s, elems(terms), off(terms), len(terms), fieldName, d) && r.FieldDocuments[d].Length == iLen(s, elems(terms), off(terms), len(terms), fieldName, d)
  ensures vals(r.NumFieldsWithTerm) == iCounts(s, elems(terms), off(terms), len(terms), fieldName)
  ensures r.AvgDocLength == iAvg(s, elems(terms), off(terms), len(terms), fieldName)
  ensures r.TotalDocuments == iTotal(s, elems(terms), off(terms), len(terms), fieldName)

// names for the matches and scores of the queries of one call (defined by the
// requires clauses of Search below)
fun qHas(j int, d string) bool
fun qScore(j int, d string) real

macro contrib(j, d) = qHas(j, d) ? qScore(j, d) : 0.0

// total score of d, and whether d matches, over the first n queries / over
// those of them in g
recfun totalOf(n int, d string) real = n <= 0 ? 0.0 : totalOf(n - 1, d) + contrib(n - 1, d)
recfun matched(n int, d string) bool = n <= 0 ? false : matched(n - 1, d) || qHas(n - 1, d)
recfun totalIn(g set(int), n int, d string) real = n <= 0 ? 0.0 : totalIn(g, n - 1, d) + ((n - 1) in g ? contrib(n - 1, d) : 0.0)
recfun matchedIn(g set(int), n int, d string) bool = n <= 0 ? false : matchedIn(g, n - 1, d) || ((n - 1) in g && qHas(n - 1, d))

lemma [C20] matched_means (n int, d string, j int) induct n :: {matched(n, d), qHas(j, d)} 0 <= j && j < n && qHas(j, d) ==> matched(n, d)
lemma [C20] unmatched_zero (n int, d string) induct n :: {totalOf(n, d)} !matched(n, d) ==> totalOf(n, d) == 0.0
lemma [C20] none_total (g set(int), n int, d string) induct n :: {totalIn(g, n, d)} (forall j int :: {j in g} !(j in g)) ==> totalIn(g, n, d) == 0.0
lemma [C20] none_matched (g set(int), n int, d string) induct n :: {matchedIn(g, n, d)} (forall j int :: {j in g} !(j in g)) ==> !matchedIn(g, n, d)
lemma [C20] all_total (g set(int), n int, d string) induct n :: {totalIn(g, n, d)} (forall j int :: {j in g} 0 <= j && j < n ==> j in g) ==> totalIn(g, n, d) == totalOf(n, d)
lemma [C20] all_matched (g set(int), n int, d string) induct n :: {matchedIn(g, n, d)} (forall j int :: {j in g} 0 <= j && j < n ==> j in g) ==> matchedIn(g, n, d) == matched(n, d)
lemma [C20] more_total (g set(int), h set(int), k int, n int, d string) induct n :: {totalIn(h, n, d), totalIn(g, n, d), k in h}
  !(k in g) && k in h && 0 <= k && (forall j int :: {j in h} j != k ==> (j in h <==> j in g)) ==> totalIn(h, n, d) == totalIn(g, n, d) + (k < n ? contrib(k, d) : 0.0)
lemma [C20] more_matched (g set(int), h set(int), k int, n int, d string) induct n :: {matchedIn(h, n, d), matchedIn(g, n, d), k in h}
  !(k in g) && k in h && 0 <= k && (forall j int :: {j in h} j != k ==> (j in h <==> j in g)) ==> (matchedIn(h, n, d) <==> matchedIn(g, n, d) || (k < n && qHas(k, d)))

func (*search.Standard).Search(s, query) returns (r)
  requires s != nil && s.Index != nil
  requires forall j int, d string :: {qHas(j, d)} 0 <= j && j < len(query) ==> (qHas(j, d) <==> iHas(s.Index, elems(query[j].Terms), off(query[j].Terms), len(query[j].Terms), query[j].FieldName, d))
  requires forall j int, d string :: {qScore(j, d)} 0 <= j && j < len(query) ==> qScore(j, d) == bm25(elems(query[j].Terms), off(query[j].Terms), len(query[j].Terms), 1.2, 0.75, query[j].Boost, iAvg(s.Index, elems(query[j].Terms), off(query[j].Terms), len(query[j].Terms), query[j].FieldName), iTotal(s.Index, elems(query[j].Terms), off(query[j].Terms), len(query[j].Terms), query[j].FieldName), iCounts(s.Index, elems(query[j].Terms), off(query[j].Terms), len(query[j].Terms), query[j].FieldName), iTF(s.Index, elems(query[j].Terms), off(query[j].Terms), len(query[j].Terms), query[j].FieldName, d), real(iLen(s.Index, elems(query[j].Terms), off(query[j].Terms), len(query[j].Terms), query[j].FieldName, d)))
  ensures [C20] matches: forall x int :: {r[x]} 0 <= x && x < len(r) ==> matched(len(query), r[x].Id)
  ensures [C20] score: forall x int :: {r[x]} 0 <= x && x < len(r) ==> r[x].Score == totalOf(len(query), r[x].Id)
  ensures [C20] once: forall x int, y int :: {r[x], r[y]} 0 <= x && x < y && y < len(r) ==> r[x].Id != r[y].Id
  ensures [C20] all: forall d string :: matched(len(query), d) ==> (exists x int :: 0 <= x && x < len(r) && r[x].Id == d)
  ensures [C20] order: forall x int, y int :: {r[x], r[y]} 0 <= x && x < y && y < len(r) ==> r[x].Score >= r[y].Score

  // a list filled from a map
  inv (b []model.DocumentScore, v visited string, n iter) :: forall x int :: {b[x]} 0 <= x && x < n ==> b[x].Id in v
  inv (b []model.DocumentScore, n iter) :: forall x int, y int :: {b[x], b[y]} 0 <= x && x < y && y < n ==> b[x].Id != b[y].Id
  inv (b []model.DocumentScore, v visited string, n iter) :: forall d string :: {d in v} d in v ==> (exists x int :: 0 <= x && x < n && b[x].Id == d)
  inv (b []model.DocumentScore, n iter, t map[string]float64) :: forall x int :: {b[x]} 0 <= x && x < n ==> b[x].Score == t[b[x].Id]
  inv (b []model.DocumentScore, n iter, k outerit) :: forall x int :: {b[x]} 0 <= x && x < n ==> b[x].Score == qScore(k, b[x].Id)
  // messages of the workers
  inv (c chan []model.DocumentScore) :: forall k int :: {msg(c, k)} 0 <= k && k < nsent(c) ==> fresh(msg(c, k))
  inv (c chan []model.DocumentScore) :: forall k int, x int :: {msg(c, k)[x]} 0 <= k && k < nsent(c) && 0 <= x && x < len(msg(c, k)) ==> qHas(k, msg(c, k)[x].Id) && msg(c, k)[x].Score == qScore(k, msg(c, k)[x].Id)
  inv (c chan []model.DocumentScore) :: forall k int, x int, y int :: {msg(c, k)[x], msg(c, k)[y]} 0 <= k && k < nsent(c) && 0 <= x && x < y && y < len(msg(c, k)) ==> msg(c, k)[x].Id != msg(c, k)[y].Id
  inv (c chan []model.DocumentScore) :: forall k int, d string :: {qHas(k, d), msg(c, k)} 0 <= k && k < nsent(c) && qHas(k, d) ==> (exists x int :: 0 <= x && x < len(msg(c, k)) && msg(c, k)[x].Id == d)
  // adding up
  inv (c chan []model.DocumentScore, t map[string]float64) :: forall d string :: {t[d]} {d in t} t[d] == totalIn(gotidx(c), nsent(c), d)
  inv (c chan []model.DocumentScore, t map[string]float64) :: forall d string :: {t[d]} {d in t} {matched(nsent(c), d)} d in t <==> matchedIn(gotidx(c), nsent(c), d)
  inv (m []model.DocumentScore, t map[string]float64, n iter) :: forall y int :: {m[y]} 0 <= y && y < n ==> m[y].Id in t && t[m[y].Id] == loopold(t[m[y].Id]) + m[y].Score
  inv (m []model.DocumentScore, t map[string]float64, n iter) :: forall d string :: {t[d]} {d in t} (forall y int :: {m[y]} 0 <= y && y < n ==> m[y].Id != d) ==> t[d] == loopold(t[d]) && (d in t <==> loopold(d in t))
