// C22: the HTTP handlers and the full text pipeline

// ---- what the pipeline makes of a text, from its tokens: the number of terms
// of the first n tokens and how many of them are t (w: stop words, ch: the
// accent folding chain)
macro pword(ch, text, j) = xform(ch, ext(string, "github.com/sira-serverless-ir-arch/porter2.Stem", lower(tok(text)[j])))
recfun npipe(text string, n int, w arr(string, bool)) int =
  n <= 0 ? 0 : npipe(text, n - 1, w) + (w[lower(tok(text)[n - 1])] ? 0 : 1)
recfun pcnt(ch any, text string, n int, w arr(string, bool), t string) int =
  n <= 0 ? 0 : pcnt(ch, text, n - 1, w, t) + (!w[lower(tok(text)[n - 1])] && pword(ch, text, n - 1) == t ? 1 : 0)

macro foldchain() = chain3(box(norm.Form, norm.NFD), box(runes.Transformer, runesRemove(runesIn(unicode.Mn))), box(norm.Form, norm.NFC))
macro stopw() = vals(language.StopWordsEnglish)
macro nterms(text) = npipe(text, ntok(text), stopw())
macro isPipe(r, text) = len(r) == nterms(text) &&
  (forall j int :: {tok(text)[j]} 0 <= j && j < ntok(text) && !stopw()[lower(tok(text)[j])] ==> r[npipe(text, j, stopw())] == pword(foldchain(), text, j))

lemma npipe_bounds (text string, n int, w arr(string, bool)) induct n :: {npipe(text, n, w)} 0 <= npipe(text, n, w) && (n >= 0 ==> npipe(text, n, w) <= n)
lemma [C22] npipe_grows (text string, j int, n int, w arr(string, bool)) induct n :: {npipe(text, j, w), npipe(text, n, w)}
  0 <= j && j < n && !w[lower(tok(text)[j])] ==> npipe(text, j, w) < npipe(text, n, w)
lemma [C22] nkeep_npipe (a arr(int, string), o int, n int, w arr(string, bool), text string) induct n :: {nkeep(a, o, n, w), npipe(text, n, w)}
  (forall i int :: {a[ix(o, i)]} 0 <= i && i < n ==> a[ix(o, i)] == lower(tok(text)[i])) ==> nkeep(a, o, n, w) == npipe(text, n, w)
lemma [C22] cnt_pipe (e arr(int, string), o int, ch any, text string, n int, w arr(string, bool), t string) induct n :: {cnt(e, o, npipe(text, n, w), t), pcnt(ch, text, n, w, t)}
  (forall j int :: {tok(text)[j]} 0 <= j && j < n && !w[lower(tok(text)[j])] ==> e[ix(o, npipe(text, j, w))] == pword(ch, text, j)) ==> cnt(e, o, npipe(text, n, w), t) == pcnt(ch, text, n, w, t)

func main.Preprocessing(text) returns (r)
  ensures [C22] pipeline: isPipe(r, text)
  ensures [C22] counts: forall t string :: {cnt(elems(r), off(r), len(r), t)} cnt(elems(r), off(r), len(r), t) == pcnt(foldchain(), text, ntok(text), stopw(), t)

// ---- gin: a request and the answers given to it
ghost bodyOK arr(int, bool)
ghost bodyDoc arr(int, main.Document)
ghost answers arr(int, int)
ghost status arr(int, int)
ghost answer arr(int, any)

extern (*github.com/gin-gonic/gin.Context).ShouldBindJSON(c, obj) returns (err)
  requires istype(*main.Document, obj)
  modifies fieldif(main.Document, Id, x, x == ref(unbox(*main.Document, obj))), fieldif(main.Document, Title, x, x == ref(unbox(*main.Document, obj))), fieldif(main.Document, Text, x, x == ref(unbox(*main.Document, obj)))
  ensures err == nil <==> bodyOK[ref(c)]
  ensures err == nil ==> *unbox(*main.Document, obj) == bodyDoc[ref(c)]
extern (*github.com/gin-gonic/gin.Context).JSON(c, code, obj)
  modifies ghostat(answers, ref(c)), ghostat(status, ref(c)), ghostat(answer, ref(c))
  ensures answers[ref(c)] == old(answers[ref(c)]) + 1 && status[ref(c)] == code && answer[ref(c)] == obj
extern (*github.com/gin-gonic/gin.Context).IndentedJSON(c, code, obj)
  modifies ghostat(answers, ref(c)), ghostat(status, ref(c)), ghostat(answer, ref(c))
  ensures answers[ref(c)] == old(answers[ref(c)]) + 1 && status[ref(c)] == code && answer[ref(c)] == obj
extern (*github.com/gin-gonic/gin.Context).AbortWithStatusJSON(c, code, obj)
  modifies ghostat(answers, ref(c)), ghostat(status, ref(c)), ghostat(answer, ref(c))
  ensures answers[ref(c)] == old(answers[ref(c)]) + 1 && status[ref(c)] == code && answer[ref(c)] == obj

fun urlArg(u *url.URL, k string) string
fun urlOf(v url.Values) *url.URL
extern (*net/url.URL).Query(u) returns (v)
  requires u != nil
  ensures v != nil && fresh(v) && urlOf(v) == u
extern (net/url.Values).Get(v, k) returns (r)
  ensures r == urlArg(urlOf(v), k)
extern (*github.com/gin-gonic/gin.Context).Query(c, k) returns (r)
  ensures r == urlArg(c.Request.URL, k)

// ---- the index and the search behind the handlers
ghost dHas arr(string, arr(string, bool))                 // document, field
ghost dLen arr(string, arr(string, int))
ghost dTF arr(string, arr(string, arr(string, int)))
ghost dTerm arr(string, arr(string, arr(string, bool)))
extern (index.Index).IndexDocument(s, documentId, document)
  requires forall i int, j int :: {document.Fields[i], document.Fields[j]} 0 <= i && i < j && j < len(document.Fields) ==> document.Fields[i].Name != document.Fields[j].Name
  modifies ghostat(dHas, documentId), ghostat(dLen, documentId), ghostat(dTF, documentId), ghostat(dTerm, documentId)
  // (consequences of the clauses below, stated for the positions a caller is likely to use)
  ensures (len(document.Fields) > 0 ==> dHas[documentId][document.Fields[0].Name]) && (len(document.Fields) > 1 ==> dHas[documentId][document.Fields[1].Name]) && (len(document.Fields) > 2 ==> dHas[documentId][document.Fields[2].Name]) && (len(document.Fields) > 3 ==> dHas[documentId][document.Fields[3].Name])
  ensures forall f string :: {dHas[documentId][f]} dHas[documentId][f] <==> old(dHas[documentId][f]) || (exists j int :: {document.Fields[j]} 0 <= j && j < len(document.Fields) && document.Fields[j].Name == f)
  ensures forall j int :: {document.Fields[j]} 0 <= j && j < len(document.Fields) ==> dHas[documentId][document.Fields[j].Name] && dLen[documentId][document.Fields[j].Name] == document.Fields[j].Length &&
     (forall t string :: {dTF[documentId][document.Fields[j].Name][t]} {dTerm[documentId][document.Fields[j].Name][t]} (dTerm[documentId][document.Fields[j].Name][t] <==> t in document.Fields[j].TF) && dTF[documentId][document.Fields[j].Name][t] == document.Fields[j].TF[t])
  ensures forall f string :: {dLen[documentId][f]} {dTF[documentId][f]} {dTerm[documentId][f]} (forall j int :: {document.Fields[j]} 0 <= j && j < len(document.Fields) ==> document.Fields[j].Name != f) ==> dLen[documentId][f] == old(dLen[documentId][f]) && dTF[documentId][f] == old(dTF[documentId][f]) && dTerm[documentId][f] == old(dTerm[documentId][f])

// the index hands each field to the store, once
extern (storage.Storage).SaveOrUpdate(s, documentId, field)
  modifies ghostat(dHas, documentId), ghostat(dLen, documentId), ghostat(dTF, documentId), ghostat(dTerm, documentId)
  ensures dHas[documentId][field.Name] && dLen[documentId][field.Name] == field.Length && (forall t string :: {dTF[documentId][field.Name][t]} {dTerm[documentId][field.Name][t]} (dTerm[documentId][field.Name][t] <==> t in field.TF) && dTF[documentId][field.Name][t] == field.TF[t])
  ensures forall f string :: {dHas[documentId][f]} {dLen[documentId][f]} {dTF[documentId][f]} {dTerm[documentId][f]} f != field.Name ==> dHas[documentId][f] == old(dHas[documentId][f]) && dLen[documentId][f] == old(dLen[documentId][f]) && dTF[documentId][f] == old(dTF[documentId][f]) && dTerm[documentId][f] == old(dTerm[documentId][f])
macro dKept(id, f) = dHas[id][f] == old(dHas[id][f]) && dLen[id][f] == old(dLen[id][f]) && dTF[id][f] == old(dTF[id][f]) && dTerm[id][f] == old(dTerm[id][f])
macro dSaved(id, x) = dHas[id][x.Name] && dLen[id][x.Name] == x.Length && (forall t string :: {dTF[id][x.Name][t]} {dTerm[id][x.Name][t]} (dTerm[id][x.Name][t] <==> t in x.TF) && dTF[id][x.Name][t] == x.TF[t])
func (*index.InvertedIndex).IndexDocument(i, documentId, document)
  requires i != nil && (forall i int, j int :: {document.Fields[i], document.Fields[j]} 0 <= i && i < j && j < len(document.Fields) ==> document.Fields[i].Name != document.Fields[j].Name)
  requires i.Storage != nil
  modifies ghostat(dHas, documentId), ghostat(dLen, documentId), ghostat(dTF, documentId), ghostat(dTerm, documentId)
  ensures [C22] known: forall f string :: {dHas[documentId][f]} dHas[documentId][f] <==> old(dHas[documentId][f]) || (exists j int :: {document.Fields[j]} 0 <= j && j < len(document.Fields) && document.Fields[j].Name == f)
  ensures [C22] saved: forall j int :: {document.Fields[j]} 0 <= j && j < len(document.Fields) ==> dSaved(documentId, document.Fields[j])
  ensures [C22] others: forall f string :: {dLen[documentId][f]} {dTF[documentId][f]} {dTerm[documentId][f]} (forall j int :: {document.Fields[j]} 0 <= j && j < len(document.Fields) ==> document.Fields[j].Name != f) ==> dKept(documentId, f)
  inv (n iter) :: forall f string :: {dHas[documentId][f]} dHas[documentId][f] <==> old(dHas[documentId][f]) || (exists j int :: {document.Fields[j]} 0 <= j && j < n && document.Fields[j].Name == f)
  inv (n iter) :: forall j int :: {document.Fields[j]} 0 <= j && j < n ==> dSaved(documentId, document.Fields[j])
  inv (n iter) :: forall f string :: {dLen[documentId][f]} {dTF[documentId][f]} {dTerm[documentId][f]} (forall j int :: {document.Fields[j]} 0 <= j && j < n ==> document.Fields[j].Name != f) ==> dKept(documentId, f)

ghost asked arr(int, string)      // 0: the query text of the request
ghost searched arr(int, int)      // 0: how many searches the request made
ghost hits arr(int, int)
ghost hit arr(int, model.DocumentScore)
extern (search.Search).Search(s, query) returns (r)
  requires (forall j int :: {query[j]} 0 <= j && j < len(query) ==> (query[j].FieldName == "title" || query[j].FieldName == "text") && isPipe(query[j].Terms, asked[0]))
  requires (0 < len(query) && query[0].FieldName == "title" || 1 < len(query) && query[1].FieldName == "title" || (exists j int :: {query[j]} 0 <= j && j < len(query) && query[j].FieldName == "title")) && (0 < len(query) && query[0].FieldName == "text" || 1 < len(query) && query[1].FieldName == "text" || (exists j int :: {query[j]} 0 <= j && j < len(query) && query[j].FieldName == "text"))
  requires forall i int, j int :: {query[i], query[j]} 0 <= i && i < j && j < len(query) ==> query[i].FieldName != query[j].FieldName
  modifies ghostat(searched, 0), ghostat(hits, 0), ghostif(hit, x, true)
  ensures searched[0] == old(searched[0]) + 1 && hits[0] == len(r) && (forall x int :: {r[x]} {hit[x]} 0 <= x && x < len(r) ==> hit[x] == r[x])

macro bdoc(c) = bodyDoc[ref(c)]
macro indexed(d, f, text) = dHas[d][f] && dLen[d][f] == nterms(text) && (forall t string :: {dTF[d][f][t]} {dTerm[d][f][t]} dTF[d][f][t] == pcnt(foldchain(), text, ntok(text), stopw(), t) && (dTerm[d][f][t] <==> pcnt(foldchain(), text, ntok(text), stopw(), t) > 0))

func handler.POST_nir(c)
  noframe
  requires c != nil && answers[ref(c)] == 0 && (forall d string, f string :: {dHas[d][f]} !dHas[d][f])
  ensures [C22] answered: answers[ref(c)] == 1
  ensures [C22] rejected: !bodyOK[ref(c)] || bdoc(c).Id == "" ==> status[ref(c)] >= 400 && (forall d string, f string :: {dHas[d][f]} !dHas[d][f])
  ensures [C22] accepted: bodyOK[ref(c)] && bdoc(c).Id != "" ==> status[ref(c)] >= 200 && status[ref(c)] < 300
  ensures [C22] id: bodyOK[ref(c)] && bdoc(c).Id != "" ==> indexed(bdoc(c).Id, "id", bdoc(c).Id)
  ensures [C22] title: bodyOK[ref(c)] && bdoc(c).Id != "" ==> indexed(bdoc(c).Id, "title", bdoc(c).Title)
  ensures [C22] text: bodyOK[ref(c)] && bdoc(c).Id != "" ==> indexed(bdoc(c).Id, "text", bdoc(c).Text)
  ensures [C22] onlythese: forall d string, f string :: {dHas[d][f]} dHas[d][f] ==> d == bdoc(c).Id && (f == "id" || f == "title" || f == "text")

macro body(c) = unbox(main.Result, answer[ref(c)])
func handler.GET_nir(c)
  noframe
  requires c != nil && c.Request != nil && c.Request.URL != nil && answers[ref(c)] == 0 && searched[0] == 0 && asked[0] == urlArg(c.Request.URL, "query")
  ensures [C22] answered: answers[ref(c)] == 1 && status[ref(c)] == 200 && istype(main.Result, answer[ref(c)])
  ensures [C22] searched: searched[0] == 1
  ensures [C22] number: len(body(c).QueryResults) == (hits[0] < 10 ? hits[0] : 10)
  ensures [C22] ranked: forall i int :: {body(c).QueryResults[i]} 0 <= i && i < len(body(c).QueryResults) ==> body(c).QueryResults[i].Document.Id == hit[i].Id && body(c).QueryResults[i].Similarity == hit[i].Score
  inv (q []main.QueryResult, i iter) :: forall j int :: {q[j]} 0 <= j && j < i ==> q[j].Document.Id == hit[j].Id && q[j].Similarity == hit[j].Score
  inv (q []model.Query, i iter) :: len(q) == i
  inv (q []model.Query, S seq []string, i iter) :: forall j int :: {q[j]} 0 <= j && j < i ==> q[j].FieldName == S[j]
  inv (q []model.Query, t []string, i iter) :: forall j int :: {q[j]} 0 <= j && j < i ==> q[j].Terms == t
