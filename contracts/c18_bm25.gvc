// C18: BM25 and idf over the reals (floating point is treated as mathematical)

fun ln(x real) real
axiom ln_one () :: ln(1.0) == 0.0
axiom ln_mono (x real, y real) :: {ln(x), ln(y)} 0.0 < x && x < y ==> ln(x) < ln(y)

extern math.Log(x) returns (r)
  pure
  ensures r == ln(x)

macro idfarg(N, n) = 1.0 + (N - n + 0.5) / (n + 0.5)
macro idf(N, n) = ln(idfarg(N, n))

func metric.IdfBM25(totalDocs, numDocsWithTerm) returns (r)
  pure
  ensures [C18,C20] formula: r == idf(totalDocs, numDocsWithTerm)
  ensures [C18] positive: 0.0 <= numDocsWithTerm && numDocsWithTerm <= totalDocs ==> r > 0.0

// idf never increases with the number of documents of the term
lemma [C18] idfarg_form (N real, n real) :: 0.0 <= n ==> idfarg(N, n) == (N + 1.0) / (n + 0.5)
lemma [C18] inv_mono (c real, x real, y real) :: 0.0 <= c && 0.0 < x && x <= y ==> c / y <= c / x
lemma [C18] idfarg_mono (N real, n real, m real) :: 0.0 <= n && n <= m && 0.0 <= N ==> idfarg(N, m) <= idfarg(N, n) && 0.0 < idfarg(N, m)
lemma [C18] idf_mono (N real, n real, m real) :: {idf(N, n), idf(N, m)} 0.0 <= n && n <= m && 0.0 <= N ==> idf(N, m) <= idf(N, n)

// contribution of one query term
macro tfpart(tf, k1, b, len, avg) = (tf * (k1 + 1.0)) / (tf + k1 * (1.0 - b + b * (len / avg)))
define termscore(k1 real, b real, boost real, avg real, N real, n real, tf real, len real) real =
   (boost == 0.0 ? 1.0 : boost) * idf(N, n) * tfpart(tf, k1, b, len, avg)

lemma [C18] termscore_zero (k1 real, b real, boost real, avg real, N real, n real, len real) ::
   k1 > 0.0 && 0.0 <= b && b < 1.0 && avg > 0.0 && len >= 0.0 ==> termscore(k1, b, boost, avg, N, n, 0.0, len) == 0.0
lemma [C18] termscore_nonneg (k1 real, b real, boost real, avg real, N real, n real, tf real, len real) ::
   k1 > 0.0 && 0.0 <= b && b < 1.0 && avg > 0.0 && len >= 0.0 && boost >= 0.0 && tf >= 0.0 && 0.0 <= n && n <= N ==> termscore(k1, b, boost, avg, N, n, tf, len) >= 0.0

recfun bm25(q arr(int, string), o int, i int, k1 real, b real, boost real, avg real, N real, nd arr(string, int), tf arr(string, int), len real) real =
   i <= 0 ? 0.0 : bm25(q, o, i - 1, k1, b, boost, avg, N, nd, tf, len) +
      termscore(k1, b, boost, avg, N, real(nd[q[ix(o, i - 1)]]), real(tf[q[ix(o, i - 1)]]), len)

lemma [C18] bm25_nonneg (q arr(int, string), o int, i int, k1 real, b real, boost real, avg real, N real, nd arr(string, int), tf arr(string, int), len real) induct i ::
   {bm25(q, o, i, k1, b, boost, avg, N, nd, tf, len)}
   k1 > 0.0 && 0.0 <= b && b < 1.0 && avg > 0.0 && len >= 0.0 && boost >= 0.0 &&
   (forall j int :: {q[j]} real(tf[q[j]]) >= 0.0 && 0.0 <= real(nd[q[j]]) && real(nd[q[j]]) <= N)
   ==> bm25(q, o, i, k1, b, boost, avg, N, nd, tf, len) >= 0.0

func similarity.BM25(query, k1, b, boost, avgDocLength, totalDocs, numDocsWithTerm, field) returns (r)
  ensures [C18,C20] sum: r == bm25(elems(query), off(query), len(query), k1, b, boost, avgDocLength, totalDocs, vals(numDocsWithTerm), vals(field.TF), real(field.Length))
  inv [C18,C20] (s float64, i iter) :: s == bm25(elems(query), off(query), i, k1, b, boost, avgDocLength, totalDocs, vals(numDocsWithTerm), vals(field.TF), real(field.Length))
