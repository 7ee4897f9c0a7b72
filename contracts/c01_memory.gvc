// C01-C03: the in-memory store

// representation: distinct maps and sets everywhere, and the postings are
// exactly the terms of the stored fields
macro memMaps(m) = m != nil && m.Index != nil && m.FieldDocument != nil && m.FieldLength != nil && m.FieldSize != nil && m.NumberFieldTerm != nil &&
   m.FieldLength != m.FieldSize
macro memDocs(m) = (forall d string :: {d in m.FieldDocument} {m.FieldDocument[d]} d in m.FieldDocument ==> m.FieldDocument[d] != nil && allocated(m.FieldDocument[d])) &&
   (forall d string, e string :: {m.FieldDocument[d], m.FieldDocument[e]} d in m.FieldDocument && e in m.FieldDocument && d != e ==> m.FieldDocument[d] != m.FieldDocument[e])
macro memTF(m) = forall d string, f string :: {f in m.FieldDocument[d]} {m.FieldDocument[d][f]} d in m.FieldDocument && f in m.FieldDocument[d] ==>
     m.FieldDocument[d][f].Name == f && notcounter(m, m.FieldDocument[d][f].TF)
macro memHeldX(m, except) = forall d string, f string :: {f in m.FieldDocument[d]} held(m, d, f) && f != except ==> f in m.NumberFieldTerm
macro notcounter(m, x) = allocated(x) && x != m.FieldLength && x != m.FieldSize && (forall g string :: {m.NumberFieldTerm[g]} g in m.NumberFieldTerm ==> x == nil || x != m.NumberFieldTerm[g])
macro memIndex(m) = (forall f string :: {f in m.Index} {m.Index[f]} f in m.Index ==> m.Index[f] != nil && allocated(m.Index[f])) &&
   (forall f string, g string :: {m.Index[f], m.Index[g]} f in m.Index && g in m.Index && f != g ==> m.Index[f] != m.Index[g])
macro memSets(m) = (forall f string, t string :: {t in m.Index[f]} {m.Index[f][t]} f in m.Index && t in m.Index[f] ==>
       m.Index[f][t] != nil && allocated(m.Index[f][t]) && m.Index[f][t].data != nil && allocated(m.Index[f][t].data)) &&
   (forall f string, t string, g string, u string :: {m.Index[f][t].data, m.Index[g][u].data} f in m.Index && t in m.Index[f] && g in m.Index && u in m.Index[g] && (f != g || t != u) ==>
       m.Index[f][t] != m.Index[g][u] && m.Index[f][t].data != m.Index[g][u].data)
macro memNF(m) = (forall f string :: {f in m.NumberFieldTerm} {m.NumberFieldTerm[f]} f in m.NumberFieldTerm ==> m.NumberFieldTerm[f] != nil && allocated(m.NumberFieldTerm[f]) && m.NumberFieldTerm[f] != m.FieldLength && m.NumberFieldTerm[f] != m.FieldSize) &&
   (forall f string, g string :: {m.NumberFieldTerm[f], m.NumberFieldTerm[g]} f in m.NumberFieldTerm && g in m.NumberFieldTerm && f != g ==> m.NumberFieldTerm[f] != m.NumberFieldTerm[g])
macro memShape(m) = memMaps(m) && memDocs(m) && memTF(m) && memIndex(m) && memSets(m) && memNF(m) &&
   (forall d string, f string :: {f in m.FieldDocument[d]} held(m, d, f) ==> f in m.NumberFieldTerm)

// d is listed under term t of field f / the stored field f of d has t
macro listed(m, f, t, d) = f in m.Index && t in m.Index[f] && d in m.Index[f][t].data
macro held(m, d, f) = d in m.FieldDocument && f in m.FieldDocument[d]
macro contains(m, f, t, d) = held(m, d, f) && t in m.FieldDocument[d][f].TF

macro memPost(m) = forall f string, t string, d string :: {d in m.Index[f][t].data} {t in m.FieldDocument[d][f].TF} listed(m, f, t, d) <==> contains(m, f, t, d)
macro memCount(m) = forall f string, t string :: {m.NumberFieldTerm[f][t]} m.NumberFieldTerm[f][t] == ((f in m.Index && t in m.Index[f]) ? len(m.Index[f][t].data) : 0)

func storage.NewMemory() returns (r)
  ensures [C01] shape: istype(*storage.Memory, r) && memShape(unbox(*storage.Memory, r)) && memPost(unbox(*storage.Memory, r))
  ensures [C03] empty: forall d string :: {d in unbox(*storage.Memory, r).FieldDocument} !(d in unbox(*storage.Memory, r).FieldDocument)
  ensures [C02] zero: istype(*storage.Memory, r) && memCount(unbox(*storage.Memory, r)) && (forall f string :: unbox(*storage.Memory, r).FieldSize[f] == 0 && unbox(*storage.Memory, r).FieldLength[f] == 0)

func (*storage.Memory).SaveOrUpdate(m, documentId, field)
  requires memShape(m) && memPost(m) && memCount(m) && notcounter(m, field.TF)
  noframe
  ensures [C01, C02, C03] shape: memShape(m)
  ensures [C01] exact: memPost(m)
  ensures [C03] stored: held(m, documentId, field.Name) && m.FieldDocument[documentId][field.Name] == field
  ensures [C03] others: forall d string, f string :: {m.FieldDocument[d][f]} {f in m.FieldDocument[d]} d != documentId || f != field.Name ==> (held(m, d, f) <==> old(held(m, d, f))) && (held(m, d, f) ==> m.FieldDocument[d][f] == old(m.FieldDocument[d][f]))
  ensures [C03] given: forall t string :: {field.TF[t]} {t in field.TF} (t in field.TF <==> old(t in field.TF)) && field.TF[t] == old(field.TF[t])
  ensures [C03] kept: forall d string, f string, t string :: {m.FieldDocument[d][f].TF[t]} (d != documentId || f != field.Name) && held(m, d, f) ==> m.FieldDocument[d][f].TF[t] == old(m.FieldDocument[d][f].TF[t]) && (t in m.FieldDocument[d][f].TF <==> old(t in m.FieldDocument[d][f].TF))
  inv [C03] forall t string :: {field.TF[t]} field.TF[t] == old(field.TF[t])
  inv [C03] forall d string, f string, t string :: {m.FieldDocument[d][f].TF[t]} held(m, d, f) ==> m.FieldDocument[d][f].TF[t] == loopold(m.FieldDocument[d][f].TF[t])
  ensures [C02] counts: memCount(m)
  ensures [C02] size: m.FieldSize[field.Name] == old(m.FieldSize[field.Name]) + (old(held(m, documentId, field.Name)) ? 0 : 1)
  ensures [C02] length: m.FieldLength[field.Name] == old(m.FieldLength[field.Name]) + field.Length - (old(held(m, documentId, field.Name)) ? old(m.FieldDocument[documentId][field.Name].Length) : 0)
  ensures [C02] otherfields: forall f string :: {m.FieldSize[f]} {m.FieldLength[f]} f != field.Name ==> m.FieldSize[f] == old(m.FieldSize[f]) && m.FieldLength[f] == old(m.FieldLength[f])
  inv memMaps(m) && m.FieldSize == old(m.FieldSize) && m.FieldLength == old(m.FieldLength) && m.Index == old(m.Index) && m.FieldDocument == old(m.FieldDocument) && m.NumberFieldTerm == old(m.NumberFieldTerm)
  inv memDocs(m)
  inv memTF(m)
  inv memHeldX(m, field.Name)
  inv memIndex(m)
  inv memSets(m)
  inv memNF(m)
  inv notcounter(m, field.TF)
  inv forall f string :: {m.FieldSize[f]} m.FieldSize[f] == loopold(m.FieldSize[f])
  inv forall f string :: {m.FieldLength[f]} m.FieldLength[f] == loopold(m.FieldLength[f])
  inv forall f string, t string, d string :: {t in m.FieldDocument[d][f].TF} contains(m, f, t, d) <==> loopold(contains(m, f, t, d))
  inv forall t string :: {t in field.TF} t in field.TF <==> old(t in field.TF)
  inv [C01, C02] (v visited string) :: forall f string, t string, d string :: {d in m.Index[f][t].data} listed(m, f, t, d) <==> old(contains(m, f, t, d)) && !(d == documentId && f == field.Name && t in v)
  inv [C01, C02] (v visited string) :: forall f string, t string, d string :: {d in m.Index[f][t].data} listed(m, f, t, d) <==> ((d != documentId || f != field.Name) ? old(contains(m, f, t, d)) : t in v)
  inv [C02] memCount(m)
  inv [C02] (v visited string) :: forall f string, t string :: {m.NumberFieldTerm[f][t]} m.NumberFieldTerm[f][t] == ((f in m.Index && t in m.Index[f]) ? len(m.Index[f][t].data) : 0) - ((f == field.Name && t in v) ? 1 : 0)
  inv [C02] (v visited string, x map[string]int) :: forall f string, t string :: {m.NumberFieldTerm[f][t]} (f == field.Name ? x[t] : m.NumberFieldTerm[f][t]) == ((f in m.Index && t in m.Index[f]) ? len(m.Index[f][t].data) : 0) - ((f == field.Name && t in field.TF && !(t in v)) ? 1 : 0)
  inv (x map[string]int) :: x != nil && allocated(x) && x != m.FieldLength && x != m.FieldSize && x != field.TF && (forall g string :: {m.NumberFieldTerm[g]} g in m.NumberFieldTerm && g != field.Name ==> m.NumberFieldTerm[g] != x) && (field.Name in m.NumberFieldTerm ==> m.NumberFieldTerm[field.Name] == x)

// the copies handed out: fresh sets, one for each term visited
macro freshSets(p) = p != nil && fresh(p) && (forall t string :: {p[t]} {t in p} t in p ==> p[t] != nil && fresh(p[t]) && p[t].data != nil && fresh(p[t].data))
macro copied(c, r, v) = c != nil && fresh(c) && c.data != nil && fresh(c.data) && c.data != r && (forall e string :: {e in c.data} e in c.data <==> e in v)
macro unshared(p, c) = c != nil && fresh(c) && c.data != nil && fresh(c.data) && (forall t string :: {p[t]} t in p ==> p[t] != c && p[t].data != c.data)

func (*storage.Memory).GetDocuments(m, fieldName, term) returns (r, ok)
  requires memShape(m) && memPost(m)
  ensures [C01] listed: forall d string :: {d in r.data} ok && d in r.data <==> contains(m, fieldName, term, d)
  ensures [C01] none: !ok ==> r.data == nil
  inv [C01] (c *model.Set, v visited string, r ranged map[string]bool) :: copied(c, r, v)
  inv [C01] memShape(m)
  inv [C01] forall f string, t string, d string :: {d in m.Index[f][t].data} listed(m, f, t, d) <==> old(listed(m, f, t, d))

func (*storage.Memory).GetIndex(m, fieldName) returns (r)
  requires memShape(m)
  ensures [C01] terms: forall t string :: {t in r} t in r <==> fieldName in m.Index && t in m.Index[fieldName]
  ensures [C01] sets: forall t string, d string :: {d in r[t].data} t in r ==> r[t] != nil && (d in r[t].data <==> listed(m, fieldName, t, d))
  inv [C01, C26] (p map[string]*model.Set) :: freshSets(p)
  inv [C01] (p map[string]*model.Set, v visited string, r ranged map[string]*model.Set) :: p != r && (forall t string :: {t in p} t in p <==> t in v)
  inv [C01] (p map[string]*model.Set) :: forall t string, d string :: {d in p[t].data} t in p ==> (d in p[t].data <==> listed(m, fieldName, t, d))
  inv [C01] (c *model.Set, v visited string, r ranged map[string]bool) :: copied(c, r, v)
  inv [C01] (c *model.Set, p map[string]*model.Set) :: unshared(p, c)
  inv [C01] memIndex(m) && memSets(m)
  inv [C01] forall f string, t string, d string :: {d in m.Index[f][t].data} listed(m, f, t, d) <==> old(listed(m, f, t, d))

func (*storage.Memory).GetFieldSize(m, fieldName) returns (r)
  requires memShape(m)
  ensures [C02] size: r == m.FieldSize[fieldName]

func (*storage.Memory).GetFieldLength(m, fieldName) returns (r)
  requires memShape(m)
  ensures [C02] length: r == m.FieldLength[fieldName]

func (*storage.Memory).GetNumberFieldTerm(m, fieldName, terms) returns (r)
  requires memShape(m) && memCount(m)
  ensures [C02] new: r != nil && fresh(r)
  ensures [C02] counts: forall j int :: {terms[j]} 0 <= j && j < len(terms) ==> terms[j] in r && r[terms[j]] == m.NumberFieldTerm[fieldName][terms[j]]
  inv [C02] (t map[string]int, i iter) :: t != nil && (forall j int :: {terms[j]} 0 <= j && j < i ==> terms[j] in t && t[terms[j]] == m.NumberFieldTerm[fieldName][terms[j]])

func (*storage.Memory).GetFields(m, documentId, fieldName) returns (r)
  requires memShape(m)
  ensures [C03] new: r != nil && fresh(r)
  ensures [C03] exact: forall d string :: {d in r} {r[d]} (d in r ==> held(m, d, fieldName) && r[d] == m.FieldDocument[d][fieldName])
  ensures [C03] all: forall j int :: {documentId[j]} 0 <= j && j < len(documentId) && held(m, documentId[j], fieldName) ==> documentId[j] in r
  ensures [C03] only: forall d string :: {d in r} d in r ==> (exists j int :: {documentId[j]} 0 <= j && j < len(documentId) && documentId[j] == d)
  inv [C03] (x map[string]model.Field) :: x != nil && (forall d string :: {d in x} {x[d]} d in x ==> held(m, d, fieldName) && x[d] == m.FieldDocument[d][fieldName])
  inv [C03] (x map[string]model.Field, i iter) :: forall j int :: {documentId[j]} 0 <= j && j < i && held(m, documentId[j], fieldName) ==> documentId[j] in x
  inv [C03] (x map[string]model.Field, i iter) :: forall d string :: {d in x} d in x ==> (exists j int :: {documentId[j]} 0 <= j && j < i && documentId[j] == d)
