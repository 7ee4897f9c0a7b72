// C04, C05, C24: the disk store

ghost given arr(int, bool)

// ---- stored records

macro docPath(root, id) = pjoin(pjoin(pjoin(root, "docs"), "metrics"), docName(id))
macro docFileOK(root, id) = fsHas[docPath(root, id)] ==> gzOK(fsData[docPath(root, id)]) && fmOK(gunzip(fsData[docPath(root, id)]))
macro docRec(root, id) = gunzip(fsData[docPath(root, id)])

func (*storage.DiskIO).LoadFieldDocumentOnHD(d, documentId) returns (r, ok)
  requires d != nil && docFileOK(d.RootFolder, documentId)
  modifies ghostif(rdLeft, x, !old(allocated(x)))
  ensures [C05, C06, C07, C23, C24] found: ok <==> fsHas[docPath(d.RootFolder, documentId)]
  ensures new: ok ==> r != nil && fresh(r)
  ensures [C05, C06, C07, C23, C24] fields: ok ==> (forall f string :: {f in r} {fmHas(docRec(d.RootFolder, documentId), f)} f in r <==> fmHas(docRec(d.RootFolder, documentId), f))
  ensures [C05, C06, C07, C24] values: ok ==> (forall f string :: {r[f]} f in r ==> r[f].Name == fmName(docRec(d.RootFolder, documentId), f) && r[f].Length == fmLen(docRec(d.RootFolder, documentId), f) && r[f].TF != nil && fresh(r[f].TF))
  ensures [C05, C06, C07, C24] terms: ok ==> (forall f string, t string :: {t in r[f].TF} {kvHas(docRec(d.RootFolder, documentId), fmFld(docRec(d.RootFolder, documentId), f), 8, t)} f in r ==> (t in r[f].TF <==> fmTF(docRec(d.RootFolder, documentId), f, t)))
  ensures [C05, C06, C07, C24] counts: ok ==> (forall f string, t string :: {r[f].TF[t]} f in r && t in r[f].TF ==> r[f].TF[t] == fmTFVal(docRec(d.RootFolder, documentId), f, t))

// ---- representation of the disk store
macro dkMaps(d) = d != nil && d.index != nil && d.fieldLength != nil && d.fieldSize != nil && d.numberFieldTerm != nil && d.fieldLength != d.fieldSize &&
   d.indexCh != nil && d.fieldCh != nil && d.numberFieldTermCh != nil && d.documentFieldCh != nil
macro dkIndex(d) = (forall f string :: {f in d.index} {d.index[f]} f in d.index ==> d.index[f] != nil && allocated(d.index[f])) &&
   (forall f string, g string :: {d.index[f], d.index[g]} f in d.index && g in d.index && f != g ==> d.index[f] != d.index[g])
macro dkSets(d) = (forall f string, t string :: {t in d.index[f]} {d.index[f][t]} f in d.index && t in d.index[f] ==>
       d.index[f][t] != nil && allocated(d.index[f][t]) && d.index[f][t].data != nil && allocated(d.index[f][t].data)) &&
   (forall f string, t string, g string, u string :: {d.index[f][t].data, d.index[g][u].data} f in d.index && t in d.index[f] && g in d.index && u in d.index[g] && (f != g || t != u) ==>
       d.index[f][t] != d.index[g][u] && d.index[f][t].data != d.index[g][u].data)
macro dkNF(d) = (forall f string :: {f in d.numberFieldTerm} {d.numberFieldTerm[f]} f in d.numberFieldTerm && d.numberFieldTerm[f] != nil ==> allocated(d.numberFieldTerm[f]) && d.numberFieldTerm[f] != d.fieldLength && d.numberFieldTerm[f] != d.fieldSize) &&
   (forall f string, g string :: {d.numberFieldTerm[f], d.numberFieldTerm[g]} f in d.numberFieldTerm && g in d.numberFieldTerm && f != g && d.numberFieldTerm[f] != nil ==> d.numberFieldTerm[f] != d.numberFieldTerm[g])
macro dkTF(d, x) = allocated(x) && x != d.fieldLength && x != d.fieldSize && (x == nil || (forall g string :: {d.numberFieldTerm[g]} g in d.numberFieldTerm ==> x != d.numberFieldTerm[g]))

// the cache
macro dpage(e) = unbox(*cache.Page[map[string]model.Field], e.Value)
macro dlMap(l) = forall k string :: {k in l.cache} {l.cache[k]} k in l.cache ==> l.cache[k] != nil && lowner[ref(l.cache[k])] == ref(l.pages) && dpage(l.cache[k]).key == k
macro dlList(l) = forall e *list.Element :: {lowner[ref(e)]} lowner[ref(e)] == ref(l.pages) ==> e != nil && allocated(e) &&
      istype(*cache.Page[map[string]model.Field], e.Value) && dpage(e) != nil && allocated(dpage(e)) &&
      dpage(e).key in l.cache && l.cache[dpage(e).key] == e &&
      lrank[ref(e)] <= ltop[ref(l.pages)] && lbot[ref(l.pages)] <= lrank[ref(e)]
macro dlOK(l) = l != nil && l.cache != nil && l.pages != nil && len(l.cache) == llen[ref(l.pages)] && dlMap(l) && dlList(l) && lruRanks(l) && lbot[ref(l.pages)] <= ltop[ref(l.pages)] &&
   (len(l.cache) <= l.capacity || l.capacity <= 0 && len(l.cache) == 0)
macro cached(d, id) = id in d.fieldDocumentCache.cache
macro crec(d, id) = dpage(d.fieldDocumentCache.cache[id]).value
macro dkCache(d) = dlOK(d.fieldDocumentCache) && (forall k string :: {k in d.fieldDocumentCache.cache} cached(d, k) ==> crec(d, k) != nil && allocated(crec(d, k)))
macro dkDisk(d) = forall k string :: {docName(k)} docFileOK(d.diskIO.RootFolder, k)
macro dkShape(d) = dkMaps(d) && dkIndex(d) && dkSets(d) && dkNF(d)

// the store's own maps have not been handed to a writer
macro dkOwn(d) = !given[ref(d.index)] && !given[ref(d.fieldSize)] && !given[ref(d.fieldLength)] && !given[ref(d.numberFieldTerm)] &&
   (forall f string :: {d.index[f]} f in d.index ==> !given[ref(d.index[f])]) && (forall f string, t string :: {d.index[f][t]} f in d.index && t in d.index[f] ==> !given[ref(d.index[f][t].data)]) &&
   (forall f string :: {d.numberFieldTerm[f]} f in d.numberFieldTerm && d.numberFieldTerm[f] != nil ==> !given[ref(d.numberFieldTerm[f])])

macro dlisted(d, f, t, x) = f in d.index && t in d.index[f] && x in d.index[f][t].data
// document x has field f in the cache or, when it is not cached, on disk
macro pers(d, x, f) = fsHas[docPath(d.diskIO.RootFolder, x)] && fmHas(docRec(d.diskIO.RootFolder, x), f)
macro holds(d, x, f) = cached(d, x) ? f in crec(d, x) : pers(d, x, f)
macro unknown(d, x, f) = !holds(d, x, f) && (forall t string :: {t in d.index[f]} !dlisted(d, f, t, x))

func (*storage.Disk).SaveOrUpdate(d, documentId, field)
  requires dkShape(d) && dkCache(d) && dkDisk(d) && dkTF(d, field.TF)
  noframe
  ensures [C04, C05] shape: dkShape(d) && dkTF(d, field.TF)
  ensures [C04] listed: old(unknown(d, documentId, field.Name)) ==> (forall f string, t string, x string :: {x in d.index[f][t].data} dlisted(d, f, t, x) <==> old(dlisted(d, f, t, x)) || f == field.Name && x == documentId && t in field.TF)
  ensures [C04] size: old(unknown(d, documentId, field.Name)) ==> d.fieldSize[field.Name] == old(d.fieldSize[field.Name]) + 1
  ensures [C04] length: old(unknown(d, documentId, field.Name)) ==> d.fieldLength[field.Name] == old(d.fieldLength[field.Name]) + field.Length
  ensures [C04] otherfields: forall f string :: {d.fieldSize[f]} {d.fieldLength[f]} f != field.Name ==> d.fieldSize[f] == old(d.fieldSize[f]) && d.fieldLength[f] == old(d.fieldLength[f])
  ensures [C04] counts: old(unknown(d, documentId, field.Name)) ==> (forall f string, t string :: {d.numberFieldTerm[f][t]} d.numberFieldTerm[f][t] == old(d.numberFieldTerm[f][t]) + ((f == field.Name && t in field.TF) ? 1 : 0))
  opt given C05
  requires [C05] dkOwn(d) && (forall x int :: {given[x]} !allocated(x) ==> !given[x])
  inv [C05] dkOwn(d)
  inv [C05] (x map[string]int) :: !given[ref(x)]
  inv [C05] (m map[string]model.Field) :: !given[ref(m)]
  ensures [C05] own: dkOwn(d) && (forall x int :: {given[x]} !allocated(x) ==> !given[x])
  requires [C05, C23] (forall m storage.FieldSizeLengthTransferData :: {m in sent(d.fieldCh)} !(m in sent(d.fieldCh))) && (forall m storage.IndexTransferData :: {m in sent(d.indexCh)} !(m in sent(d.indexCh))) && (forall m storage.NumberFieldTermTransferData :: {m in sent(d.numberFieldTermCh)} !(m in sent(d.numberFieldTermCh))) && (forall m storage.DocumentFieldTransferData :: {m in sent(d.documentFieldCh)} !(m in sent(d.documentFieldCh))) && nsent(d.documentFieldCh) == 0
  ensures [C05] totals: mk(storage.FieldSizeLengthTransferData, FieldName, field.Name, Size, d.fieldSize[field.Name], Length, d.fieldLength[field.Name]) in sent(d.fieldCh)
  ensures [C05] totalsonly: forall m storage.FieldSizeLengthTransferData :: {m in sent(d.fieldCh)} m in sent(d.fieldCh) ==> m == mk(storage.FieldSizeLengthTransferData, FieldName, field.Name, Size, d.fieldSize[field.Name], Length, d.fieldLength[field.Name])
  ensures [C05] postings: forall t string :: {t in field.TF} t in field.TF ==> mk(storage.IndexTransferData, FieldName, field.Name, Term, t, DocumentId, documentId) in sent(d.indexCh)
  ensures [C05] postingsonly: forall m storage.IndexTransferData :: {m in sent(d.indexCh)} m in sent(d.indexCh) ==> m.FieldName == field.Name && m.DocumentId == documentId && m.Term in field.TF
  ensures [C05] counts: forall t string :: {t in field.TF} t in field.TF ==> mk(storage.NumberFieldTermTransferData, FieldName, field.Name, Term, t, Size, d.numberFieldTerm[field.Name][t]) in sent(d.numberFieldTermCh)
  ensures [C05] countsonly: forall m storage.NumberFieldTermTransferData :: {m in sent(d.numberFieldTermCh)} m in sent(d.numberFieldTermCh) ==> m.FieldName == field.Name && m.Term in field.TF && m.Size == d.numberFieldTerm[field.Name][m.Term]
  ensures [C05, C23] record: nsent(d.documentFieldCh) > 0
  ensures [C05] recordnew: forall m storage.DocumentFieldTransferData :: {m in sent(d.documentFieldCh)} m in sent(d.documentFieldCh) ==> m.DocumentId == documentId && m.Field != nil && field.Name in m.Field && m.Field[field.Name] == field
  ensures [C23] recordid: forall m storage.DocumentFieldTransferData :: {m in sent(d.documentFieldCh)} m in sent(d.documentFieldCh) ==> m.DocumentId == documentId
  ensures [C23] files: forall q string :: {fsHas[q]} {fsData[q]} fsHas[q] == old(fsHas[q]) && fsData[q] == old(fsData[q])
  inv [C23] forall q string :: {fsHas[q]} {fsData[q]} fsHas[q] == old(fsHas[q]) && fsData[q] == old(fsData[q])
  ensures [C05] recordfields: forall m storage.DocumentFieldTransferData, f string :: {f in m.Field, m in sent(d.documentFieldCh)} m in sent(d.documentFieldCh) && f != field.Name ==> (f in m.Field <==> old(holds(d, documentId, f)))
  ensures [C05] recordcached: forall m storage.DocumentFieldTransferData, f string :: {m.Field[f], m in sent(d.documentFieldCh)} m in sent(d.documentFieldCh) && f != field.Name && f in m.Field && old(cached(d, documentId)) ==> m.Field[f] == old(crec(d, documentId)[f])
  ensures [C05] recordstored: forall m storage.DocumentFieldTransferData, f string :: {m.Field[f], m in sent(d.documentFieldCh)} m in sent(d.documentFieldCh) && f != field.Name && f in m.Field && !old(cached(d, documentId)) ==> m.Field[f].Name == fmName(docRec(d.diskIO.RootFolder, documentId), f) && m.Field[f].Length == fmLen(docRec(d.diskIO.RootFolder, documentId), f)
  ensures [C05] recordterms: forall m storage.DocumentFieldTransferData, f string, t string :: {t in m.Field[f].TF, m in sent(d.documentFieldCh)} m in sent(d.documentFieldCh) && f != field.Name && f in m.Field && !old(cached(d, documentId)) ==> (t in m.Field[f].TF <==> fmTF(docRec(d.diskIO.RootFolder, documentId), f, t)) && (t in m.Field[f].TF ==> m.Field[f].TF[t] == fmTFVal(docRec(d.diskIO.RootFolder, documentId), f, t))
  inv [C05] (v visited string) :: forall t string :: {t in v} t in v ==> mk(storage.IndexTransferData, FieldName, field.Name, Term, t, DocumentId, documentId) in sent(d.indexCh)
  inv [C05] (v visited string) :: forall m storage.IndexTransferData :: {m in sent(d.indexCh)} m in sent(d.indexCh) ==> m.FieldName == field.Name && m.DocumentId == documentId && m.Term in v
  inv [C05] forall m storage.IndexTransferData :: {m in sent(d.indexCh)} !(m in sent(d.indexCh))
  inv [C05] (v visited string, x map[string]int) :: forall t string :: {t in v} t in v ==> mk(storage.NumberFieldTermTransferData, FieldName, field.Name, Term, t, Size, x[t]) in sent(d.numberFieldTermCh)
  inv [C05] (v visited string, x map[string]int) :: forall m storage.NumberFieldTermTransferData :: {m in sent(d.numberFieldTermCh)} m in sent(d.numberFieldTermCh) ==> m.FieldName == field.Name && m.Term in v && m.Size == x[m.Term]
  inv [C05] (v visited string) :: forall t string :: {t in v} t in v ==> mk(storage.NumberFieldTermTransferData, FieldName, field.Name, Term, t, Size, d.numberFieldTerm[field.Name][t]) in sent(d.numberFieldTermCh)
  inv [C05] (v visited string) :: forall m storage.NumberFieldTermTransferData :: {m in sent(d.numberFieldTermCh)} m in sent(d.numberFieldTermCh) ==> m.FieldName == field.Name && m.Term in v && m.Size == d.numberFieldTerm[field.Name][m.Term]
  inv [C05] (v visited string, m map[string]model.Field, r ranged map[string]model.Field) :: m != nil && m != r && (forall f string :: {f in m} f in m <==> f in v)
  inv [C05] (v visited string, m map[string]model.Field, r ranged map[string]model.Field) :: forall f string :: {m[f]} f in m ==> m[f] == r[f]
  inv dkMaps(d) && d.index == old(d.index) && d.fieldSize == old(d.fieldSize) && d.fieldLength == old(d.fieldLength) && d.numberFieldTerm == old(d.numberFieldTerm)
  inv dkIndex(d)
  inv dkSets(d)
  inv dkNF(d)
  inv dkTF(d, field.TF)
  ensures [C05] given: forall t string :: {field.TF[t]} {t in field.TF} (t in field.TF <==> old(t in field.TF)) && field.TF[t] == old(field.TF[t])
  inv forall t string :: {t in field.TF} t in field.TF <==> old(t in field.TF)
  inv [C05] forall t string :: {field.TF[t]} field.TF[t] == old(field.TF[t])
  inv forall f string :: {d.fieldSize[f]} d.fieldSize[f] == loopold(d.fieldSize[f])
  inv forall f string :: {d.fieldLength[f]} d.fieldLength[f] == loopold(d.fieldLength[f])
  inv [C04] (v visited string) :: forall f string, t string, x string :: {x in d.index[f][t].data} dlisted(d, f, t, x) <==> loopold(dlisted(d, f, t, x)) || f == field.Name && x == documentId && t in v
  inv [C04] (v visited string) :: forall f string, t string :: {d.numberFieldTerm[f][t]} d.numberFieldTerm[f][t] == loopold(d.numberFieldTerm[f][t]) + ((f == field.Name && t in v) ? 1 : 0)
  inv [C04] (v visited string, x map[string]int) :: forall f string, t string :: {d.numberFieldTerm[f][t]} (f == field.Name ? x[t] : d.numberFieldTerm[f][t]) == loopold(d.numberFieldTerm[f][t]) + ((f == field.Name && t in v) ? 1 : 0)
  inv (x map[string]int) :: x != nil && allocated(x) && x != d.fieldLength && x != d.fieldSize && x != field.TF && (forall g string :: {d.numberFieldTerm[g]} g in d.numberFieldTerm && g != field.Name ==> d.numberFieldTerm[g] != x) && (field.Name in d.numberFieldTerm && d.numberFieldTerm[field.Name] != nil ==> d.numberFieldTerm[field.Name] == x)

func (*storage.Disk).GetDocuments(d, fieldName, term) returns (r, ok)
  requires dkShape(d)
  ensures [C04] listed: forall x string :: {x in r.data} {x in d.index[fieldName][term].data} ok && x in r.data <==> dlisted(d, fieldName, term, x)
  inv [C04] (c *model.Set, v visited string, r ranged map[string]bool) :: copied(c, r, v)
  inv [C04] dkShape(d)
  inv [C04] forall f string, t string, x string :: {x in d.index[f][t].data} dlisted(d, f, t, x) <==> old(dlisted(d, f, t, x))

func (*storage.Disk).GetIndex(d, fieldName) returns (r)
  requires dkShape(d)
  ensures [C04] terms: forall t string :: {t in r} t in r <==> fieldName in d.index && t in d.index[fieldName]
  ensures [C04] sets: forall t string, x string :: {x in r[t].data} t in r ==> r[t] != nil && (x in r[t].data <==> dlisted(d, fieldName, t, x))
  inv [C04, C26] (p map[string]*model.Set) :: freshSets(p)
  inv [C04] (p map[string]*model.Set, v visited string, r ranged map[string]*model.Set) :: p != r && (forall t string :: {t in p} t in p <==> t in v)
  inv [C04] (p map[string]*model.Set) :: forall t string, x string :: {x in p[t].data} t in p ==> (x in p[t].data <==> dlisted(d, fieldName, t, x))
  inv [C04] (c *model.Set, v visited string, r ranged map[string]bool) :: copied(c, r, v)
  inv [C04] (c *model.Set, p map[string]*model.Set) :: unshared(p, c)
  inv [C04] dkIndex(d) && dkSets(d)
  inv [C04] forall f string, t string, x string :: {x in d.index[f][t].data} dlisted(d, f, t, x) <==> old(dlisted(d, f, t, x))

func (*storage.Disk).GetFieldSize(d, fieldName) returns (r)
  requires dkShape(d)
  ensures [C04] size: r == d.fieldSize[fieldName]

func (*storage.Disk).GetFieldLength(d, fieldName) returns (r)
  requires dkShape(d)
  ensures [C04] length: r == d.fieldLength[fieldName]

func (*storage.Disk).GetNumberFieldTerm(d, fieldName, terms) returns (r)
  requires dkShape(d)
  ensures [C04] new: r != nil && fresh(r)
  ensures [C04] counts: forall j int :: {terms[j]} 0 <= j && j < len(terms) ==> terms[j] in r && r[terms[j]] == d.numberFieldTerm[fieldName][terms[j]]
  inv [C04] (t map[string]int, i iter) :: t != nil && (forall j int :: {terms[j]} 0 <= j && j < i ==> terms[j] in t && t[terms[j]] == d.numberFieldTerm[fieldName][terms[j]])


// ---- C24: reading fields
// the record the store holds for document x: the cached one, or the one on disk
macro hName(d, x, f) = cached(d, x) ? crec(d, x)[f].Name : fmName(docRec(d.diskIO.RootFolder, x), f)
macro hLen(d, x, f) = cached(d, x) ? crec(d, x)[f].Length : fmLen(docRec(d.diskIO.RootFolder, x), f)
macro hTF(d, x, f, t) = cached(d, x) ? t in crec(d, x)[f].TF : fmTF(docRec(d.diskIO.RootFolder, x), f, t)
macro hVal(d, x, f, t) = cached(d, x) ? crec(d, x)[f].TF[t] : fmTFVal(docRec(d.diskIO.RootFolder, x), f, t)
// the cached record has been flushed: field f of it is what the file holds
macro flushed(d, x, f) = (f in crec(d, x) <==> pers(d, x, f)) && (f in crec(d, x) ==> crec(d, x)[f].Name == fmName(docRec(d.diskIO.RootFolder, x), f) && crec(d, x)[f].Length == fmLen(docRec(d.diskIO.RootFolder, x), f) &&
   (forall t string :: {t in crec(d, x)[f].TF} {fmTF(docRec(d.diskIO.RootFolder, x), f, t)} t in crec(d, x)[f].TF <==> fmTF(docRec(d.diskIO.RootFolder, x), f, t)) &&
   (forall t string :: {crec(d, x)[f].TF[t]} t in crec(d, x)[f].TF ==> crec(d, x)[f].TF[t] == fmTFVal(docRec(d.diskIO.RootFolder, x), f, t)))
// the read does not push an unflushed record out of the cache (known finding)
macro keeps(d, ids, x, f) = !cached(d, x) || len(d.fieldDocumentCache.cache) + len(ids) <= d.fieldDocumentCache.capacity || flushed(d, x, f)

func (*storage.Disk).GetFields(d, documentId, fieldName) returns (r)
  requires dkShape(d) && dkCache(d) && dkDisk(d)
  noframe
  ensures [C24] new: r != nil && fresh(r)
  ensures [C24] listed: forall x string :: {x in r} x in r ==> (exists j int :: {documentId[j]} 0 <= j && j < len(documentId) && documentId[j] == x)
  ensures [C24] found: forall j int :: {documentId[j]} 0 <= j && j < len(documentId) && old(holds(d, documentId[j], fieldName)) && old(keeps(d, documentId, documentId[j], fieldName)) ==> documentId[j] in r
  ensures [C24] only: forall x string :: {x in r} x in r && old(keeps(d, documentId, x, fieldName)) ==> old(holds(d, x, fieldName)) && r[x].Name == old(hName(d, x, fieldName)) && r[x].Length == old(hLen(d, x, fieldName))
  ensures [C24] terms: forall x string, t string :: {t in r[x].TF} x in r && old(keeps(d, documentId, x, fieldName)) ==> (t in r[x].TF <==> old(hTF(d, x, fieldName, t)))
  ensures [C24] counts: forall x string, t string :: {r[x].TF[t]} x in r && t in r[x].TF && old(keeps(d, documentId, x, fieldName)) ==> r[x].TF[t] == old(hVal(d, x, fieldName, t))
  ensures [C24] later: forall x string, f string :: {fmHas(docRec(d.diskIO.RootFolder, x), f)} {f in crec(d, x)} old(keeps(d, documentId, x, f)) ==> (holds(d, x, f) <==> old(holds(d, x, f))) && (holds(d, x, f) ==> hName(d, x, f) == old(hName(d, x, f)) && hLen(d, x, f) == old(hLen(d, x, f)))
  ensures [C24] laterterms: forall x string, f string, t string :: {t in crec(d, x)[f].TF} {fmTF(docRec(d.diskIO.RootFolder, x), f, t)} old(keeps(d, documentId, x, f)) && holds(d, x, f) ==> (hTF(d, x, f, t) <==> old(hTF(d, x, f, t))) && (hTF(d, x, f, t) ==> hVal(d, x, f, t) == old(hVal(d, x, f, t)))
  ensures [C24] shape: dkShape(d) && dkCache(d) && dkDisk(d)
  ensures [C24] postings: d.index == old(d.index) && (forall f string, t string, x string :: {x in d.index[f][t].data} dlisted(d, f, t, x) <==> old(dlisted(d, f, t, x)))
  ensures [C24] stats: forall f string :: {d.fieldSize[f]} {d.fieldLength[f]} d.fieldSize[f] == old(d.fieldSize[f]) && d.fieldLength[f] == old(d.fieldLength[f])
  ensures [C24] termstats: forall f string, t string :: {d.numberFieldTerm[f][t]} d.numberFieldTerm[f][t] == old(d.numberFieldTerm[f][t])
  ensures [C24] files: forall p string :: {fsHas[p]} {fsData[p]} fsHas[p] == old(fsHas[p]) && fsData[p] == old(fsData[p])
  inv dkMaps(d)
  inv dkIndex(d)
  inv dkSets(d)
  inv dkNF(d)
  inv dkCache(d)
  inv dkDisk(d)
  inv d.index == old(d.index) && d.fieldSize == old(d.fieldSize) && d.fieldLength == old(d.fieldLength) && d.numberFieldTerm == old(d.numberFieldTerm) && d.fieldDocumentCache == old(d.fieldDocumentCache) && d.diskIO.RootFolder == old(d.diskIO.RootFolder)
  inv (m map[string]model.Field) :: m != nil
  inv forall p string :: {fsHas[p]} {fsData[p]} fsHas[p] == old(fsHas[p]) && fsData[p] == old(fsData[p])
  // the result is none of the cached records
  inv [C24] (m map[string]model.Field) :: fresh(m) && (forall k string :: {k in d.fieldDocumentCache.cache} cached(d, k) ==> crec(d, k) != m)
  // a cached record is the one cached at the start, or was loaded from disk
  inv [C24] forall k string :: {k in d.fieldDocumentCache.cache} cached(d, k) ==> old(cached(d, k)) && crec(d, k) == old(crec(d, k)) || fresh(crec(d, k)) && fsHas[docPath(d.diskIO.RootFolder, k)]
  inv [C24] forall k string, f string :: {f in crec(d, k)} cached(d, k) && fresh(crec(d, k)) ==> (f in crec(d, k) <==> pers(d, k, f))
  inv [C24] forall k string, f string :: {crec(d, k)[f]} cached(d, k) && fresh(crec(d, k)) && f in crec(d, k) ==> crec(d, k)[f].TF != nil && allocated(crec(d, k)[f].TF) && fresh(crec(d, k)[f].TF)
  inv [C24] forall k string, f string :: {crec(d, k)[f]} cached(d, k) && fresh(crec(d, k)) && f in crec(d, k) ==> crec(d, k)[f].Name == fmName(docRec(d.diskIO.RootFolder, k), f)
  inv [C24] forall k string, f string :: {crec(d, k)[f]} cached(d, k) && fresh(crec(d, k)) && f in crec(d, k) ==> crec(d, k)[f].Length == fmLen(docRec(d.diskIO.RootFolder, k), f)
  inv [C24] forall k string, f string, t string :: {t in crec(d, k)[f].TF} cached(d, k) && fresh(crec(d, k)) && f in crec(d, k) ==> (t in crec(d, k)[f].TF <==> fmTF(docRec(d.diskIO.RootFolder, k), f, t))
  inv [C24] forall k string, f string, t string :: {crec(d, k)[f].TF[t]} cached(d, k) && fresh(crec(d, k)) && f in crec(d, k) && t in crec(d, k)[f].TF ==> crec(d, k)[f].TF[t] == fmTFVal(docRec(d.diskIO.RootFolder, k), f, t)
  inv [C24] forall k string :: {old(cached(d, k))} old(cached(d, k)) && old(len(d.fieldDocumentCache.cache)) + len(documentId) <= d.fieldDocumentCache.capacity ==> cached(d, k) && crec(d, k) == old(crec(d, k))
  inv [C24] (i iter) :: len(d.fieldDocumentCache.cache) <= old(len(d.fieldDocumentCache.cache)) + i && i <= len(documentId)
  inv [C24] (m map[string]model.Field, i iter) :: forall x string :: {x in m} x in m ==> (exists j int :: {documentId[j]} 0 <= j && j < i && documentId[j] == x)
  inv [C24] (m map[string]model.Field, i iter) :: forall j int :: {documentId[j]} 0 <= j && j < i && old(holds(d, documentId[j], fieldName)) && old(keeps(d, documentId, documentId[j], fieldName)) ==> documentId[j] in m
  inv [C24] (m map[string]model.Field) :: forall x string :: {x in m} x in m && old(keeps(d, documentId, x, fieldName)) ==> old(holds(d, x, fieldName)) && m[x].Name == old(hName(d, x, fieldName)) && m[x].Length == old(hLen(d, x, fieldName))
  inv [C24] (m map[string]model.Field) :: forall x string, t string :: {t in m[x].TF} x in m && old(keeps(d, documentId, x, fieldName)) ==> (t in m[x].TF <==> old(hTF(d, x, fieldName, t)))
  inv [C24] (m map[string]model.Field) :: forall x string, t string :: {m[x].TF[t]} x in m && t in m[x].TF && old(keeps(d, documentId, x, fieldName)) ==> m[x].TF[t] == old(hVal(d, x, fieldName, t))
