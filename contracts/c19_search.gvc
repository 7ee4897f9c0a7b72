// C19: searching the index

// what the store holds (it is not changed while a search runs)
fun sLists(s any, f string, t string, d string) bool
fun sHas(s any, f string, d string) bool
fun sField(s any, f string, d string) model.Field
fun sCount(s any, f string, t string) int
fun sSize(s any, f string) int
fun sLength(s any, f string) int

extern (storage.Storage).GetDocuments(s, fieldName, term) returns (r, ok)
  ensures forall d string :: {d in r.data} {sLists(s, fieldName, term, d)} (ok && d in r.data) <==> sLists(s, fieldName, term, d)
  ensures ok ==> r.data != nil
extern (storage.Storage).GetFields(s, documentId, fieldName) returns (r)
  ensures r != nil && fresh(r)
  ensures forall d string :: {d in r} {r[d]} d in r ==> sHas(s, fieldName, d) && r[d] == sField(s, fieldName, d) && (exists j int :: {documentId[j]} 0 <= j && j < len(documentId) && documentId[j] == d)
  ensures forall j int :: {documentId[j]} 0 <= j && j < len(documentId) && sHas(s, fieldName, documentId[j]) ==> documentId[j] in r
extern (storage.Storage).GetFieldLength(s, fieldName) returns (r)
  ensures r == sLength(s, fieldName)
extern (storage.Storage).GetFieldSize(s, fieldName) returns (r)
  ensures r == sSize(s, fieldName)
extern (storage.Storage).GetNumberFieldTerm(s, fieldName, terms) returns (r)
  ensures r != nil && fresh(r)
  ensures forall j int :: {terms[j]} 0 <= j && j < len(terms) ==> terms[j] in r && r[terms[j]] == sCount(s, fieldName, terms[j])
extern (storage.Storage).GetIndex(s, fieldName) returns (r)

macro hit(s, terms, n, f, d) = exists j int :: {terms[j]} 0 <= j && j < n && sLists(s, f, terms[j], d)

func (*index.InvertedIndex).Search(i, terms, fieldName) returns (r)
  requires i != nil && i.Storage != nil
  ensures [C19] found: forall d string :: {d in r.FieldDocuments} d in r.FieldDocuments ==> hit(i.Storage, terms, len(terms), fieldName, d) && sHas(i.Storage, fieldName, d) && r.FieldDocuments[d] == sField(i.Storage, fieldName, d)
  ensures [C19] all: forall j int, d string :: {terms[j], sLists(i.Storage, fieldName, terms[j], d)} 0 <= j && j < len(terms) && sLists(i.Storage, fieldName, terms[j], d) && sHas(i.Storage, fieldName, d) ==> d in r.FieldDocuments
  ensures [C19] counts: forall j int :: {terms[j]} 0 <= j && j < len(terms) ==> terms[j] in r.NumFieldsWithTerm && r.NumFieldsWithTerm[terms[j]] == sCount(i.Storage, fieldName, terms[j])
  ensures [C19] total: r.TotalDocuments == real(sSize(i.Storage, fieldName))
  ensures [C19] average: sSize(i.Storage, fieldName) != 0 ==> r.AvgDocLength == real(sLength(i.Storage, fieldName)) / real(sSize(i.Storage, fieldName))

  // start of the first workers
  inv (c chan string, n iter) :: forall d string :: {d in sent(c)} d in sent(c) ==> hit(i.Storage, terms, n, fieldName, d)
  inv (c chan string, n iter) :: forall j int, d string :: {terms[j], sLists(i.Storage, fieldName, terms[j], d)} 0 <= j && j < n && sLists(i.Storage, fieldName, terms[j], d) ==> d in sent(c)
  inv (c chan string, v visited string) :: forall d string :: {d in sent(c)} d in sent(c) <==> loopold(d in sent(c)) || d in v
  // collecting the ids
  inv (c chan string, h map[string]bool) :: forall d string :: {d in rcvd(c)} {d in h} d in rcvd(c) <==> d in h
  inv (c chan string, h map[string]struct{}) :: forall d string :: {d in rcvd(c)} {d in h} d in rcvd(c) <==> d in h
  inv (c chan string, b [][]string) :: forall d string :: {d in rcvd(c)} d in rcvd(c) ==> (exists x int, y int :: 0 <= x && x < len(b) && 0 <= y && y < len(b[x]) && b[x][y] == d)
  inv (c chan string, b [][]string) :: forall x int, y int :: {b[x][y]} 0 <= x && x < len(b) && 0 <= y && y < len(b[x]) ==> b[x][y] in sent(c)
  inv (b [][]string) :: forall x int :: {b[x]} 0 <= x && x < len(b) ==> b[x] == nil || fresh(b[x])
  inv (b [][]string) :: forall x int, y int :: {b[x], b[y]} 0 <= x && x < y && y < len(b) ==> b[x] == nil || arr(b[x]) != arr(b[y])
  // start of the second workers
  inv (c chan map[string]model.Field, a chan string) :: forall m map[string]model.Field, d string :: {m in sent(c), d in m} m in sent(c) && d in m ==> sHas(i.Storage, fieldName, d) && m[d] == sField(i.Storage, fieldName, d) && d in sent(a)
  inv (c chan map[string]model.Field) :: forall m map[string]model.Field :: {m in sent(c)} m in sent(c) ==> m != nil && fresh(m)
  inv (c chan map[string]model.Field) :: forall d string :: {carried(c, d)} carried(c, d) ==> carrier(c, d) in sent(c) && d in carrier(c, d)
  inv (c chan map[string]model.Field, b [][]string, n iter) :: forall x int, y int :: {b[x][y]} 0 <= x && x < n && 0 <= y && y < len(b[x]) && sHas(i.Storage, fieldName, b[x][y]) ==> carried(c, b[x][y])
  inv (c chan map[string]model.Field, b [][]string) :: forall x int, y int :: {b[x][y]} 0 <= x && x < len(b) && 0 <= y && y < len(b[x]) && sHas(i.Storage, fieldName, b[x][y]) ==> carried(c, b[x][y])
  inv (c chan map[string]model.Field, v visited string) :: forall d string :: {d in v} d in v ==> carried(c, d)
  inv (c chan map[string]model.Field) :: forall d string :: {carried(c, d)} loopold(carried(c, d)) ==> carried(c, d)
  // collecting the fields
  inv (c chan map[string]model.Field) :: forall m map[string]model.Field :: {m in rcvd(c)} m in rcvd(c) ==> m in sent(c)
  inv (c chan map[string]model.Field, o map[string]model.Field) :: forall m map[string]model.Field, d string :: {m in rcvd(c), d in m} m in rcvd(c) && d in m ==> d in o
  inv (v visited string, o map[string]model.Field) :: forall d string :: {d in v} {d in o} d in v ==> d in o
  inv (v visited string, o map[string]model.Field) :: forall d string :: {d in o} loopold(d in o) ==> d in o
  inv (a chan string, o map[string]model.Field) :: forall d string :: {d in o} d in o ==> sHas(i.Storage, fieldName, d) && o[d] == sField(i.Storage, fieldName, d) && d in sent(a)
