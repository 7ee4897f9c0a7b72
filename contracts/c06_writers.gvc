// C06: the background writers. A writer waits for messages and ticks; the
// events record in ghost state what it was told (pending since the last tick,
// pending at the last tick, latest values) and the files at the last tick.

ghost flushed arr(int, bool)      // 0: the last event was a tick
ghost fsHas0 arr(string, bool)
ghost fsData0 arr(string, Blob)

// the channel that a started writer serves, the folder it writes to
ghost served arr(int, bool)
ghost servedRoot arr(int, string)
extern event.serves(d, c)
  modifies ghostat(served, ref(c)), ghostat(servedRoot, ref(c))
  ensures served[ref(c)] && servedRoot[ref(c)] == d.RootFolder

// ---- totals of fields
ghost tPend arr(string, bool)
ghost tPend0 arr(string, bool)
ghost tSize arr(string, int)
ghost tLen arr(string, int)

extern event.totals(m)
  modifies ghostat(flushed, 0), ghostat(tPend, m.FieldName), ghostat(tSize, m.FieldName), ghostat(tLen, m.FieldName)
  ensures !flushed[0] && tPend[m.FieldName] && tSize[m.FieldName] == m.Size && tLen[m.FieldName] == m.Length && plain(m.FieldName)
extern event.totalsTick()
  modifies ghostat(flushed, 0), ghostif(fsHas0, q, true), ghostif(fsData0, q, true), ghostif(tPend, f, true), ghostif(tPend0, f, true)
  ensures flushed[0] && (forall q string :: {fsHas0[q]} fsHas0[q] == fsHas[q]) && (forall q string :: {fsData0[q]} fsData0[q] == fsData[q])
  ensures (forall f string :: {tPend0[f]} tPend0[f] == old(tPend[f])) && (forall f string :: {tPend[f]} !tPend[f])

func (*storage.DiskIO).SaveFieldSizeLengthOnDisc(d, data)
  requires d != nil
  langrule !flushed[0] && (forall f string :: {tPend[f]} !tPend[f])
  onstart [C05] event.serves
  onrecv data: event.totals
  ontick event.totalsTick
  always [C06] written: flushed[0] ==> (forall f string :: {tPend0[f]} tPend0[f] ==> fsHas[mfile(d.RootFolder, f)] && gzOK(fsData[mfile(d.RootFolder, f)]) && fsOK(gunzip(fsData[mfile(d.RootFolder, f)])))
  always [C06] latest: flushed[0] ==> (forall f string :: {tPend0[f]} tPend0[f] && fits32(tSize[f]) && fits32(tLen[f]) ==> fsName(gunzip(fsData[mfile(d.RootFolder, f)])) == f && fsSize(gunzip(fsData[mfile(d.RootFolder, f)])) == tSize[f] && fsLength(gunzip(fsData[mfile(d.RootFolder, f)])) == tLen[f])
  always [C06] others: flushed[0] ==> (forall q string :: {fsHas[q]} {fsData[q]} !helperName(pbase(q)) && (forall f string :: {tPend0[f]} tPend0[f] ==> q != mfile(d.RootFolder, f)) ==> fsHas[q] == fsHas0[q] && fsData[q] == fsData0[q])
  inv (a map[string]int) :: a != nil && fresh(a)
  inv (a map[string]int, b map[string]int) :: a != b
  inv (a map[string]int, o toploop) :: forall f string :: {f in a} {tPend[f]} f in a <==> tPend[f]
  inv (a map[string]int) :: forall f string :: {a[f]} f in a ==> a[f] == tSize[f]
  inv (a map[string]int) :: forall f string :: {a[f]} f in a ==> a[f] == tLen[f]
  inv (o toploop) :: forall f string :: {tPend[f]} tPend[f] ==> plain(f)
  inv (o inloop) :: forall f string :: {tPend0[f]} tPend0[f] ==> plain(f)
  // flushing
  inv (a map[string]int, v visited string, o inloop) :: forall f string :: {f in a} {tPend0[f]} f in a <==> tPend0[f] && !v[f]
  inv (a map[string]int, o inloop) :: forall f string :: {f in a} {tPend0[f]} f in a <==> tPend0[f]
  inv (v visited string, o inloop) :: forall f string :: {v[f]} v[f] ==> tPend0[f]
  inv (v visited string, o inloop) :: forall f string :: {v[f]} v[f] ==> fsHas[mfile(d.RootFolder, f)] && gzOK(fsData[mfile(d.RootFolder, f)]) && fsOK(gunzip(fsData[mfile(d.RootFolder, f)]))
  inv (v visited string, o inloop) :: forall f string :: {v[f]} v[f] && fits32(tSize[f]) && fits32(tLen[f]) ==> fsName(gunzip(fsData[mfile(d.RootFolder, f)])) == f && fsSize(gunzip(fsData[mfile(d.RootFolder, f)])) == tSize[f] && fsLength(gunzip(fsData[mfile(d.RootFolder, f)])) == tLen[f]
  inv (v visited string, o inloop) :: forall q string :: {fsHas[q]} {fsData[q]} !helperName(pbase(q)) && (forall f string :: {v[f]} {mfile(d.RootFolder, f)} v[f] ==> q != mfile(d.RootFolder, f)) ==> fsHas[q] == fsHas0[q] && fsData[q] == fsData0[q]

// ---- per-term document counts
ghost nPend arr(string, arr(string, bool))
ghost nPend0 arr(string, arr(string, bool))
ghost nSize arr(string, arr(string, int))
macro nfDecodes(q) = gzOK(fsData[q]) && nfOK(gunzip(fsData[q]))

extern event.count(m)
  modifies ghostat(flushed, 0), ghostat(nPend, m.FieldName), ghostat(nSize, m.FieldName)
  ensures !flushed[0] && plain(m.FieldName)
  ensures (forall t string :: {nPend[m.FieldName][t]} nPend[m.FieldName][t] <==> old(nPend[m.FieldName][t]) || t == m.Term)
  ensures (forall t string :: {nSize[m.FieldName][t]} nSize[m.FieldName][t] == (t == m.Term ? m.Size : old(nSize[m.FieldName][t])))
extern event.countTick()
  modifies ghostat(flushed, 0), ghostif(fsHas0, q, true), ghostif(fsData0, q, true), ghostif(nPend, f, true), ghostif(nPend0, f, true)
  ensures flushed[0] && (forall q string :: {fsHas0[q]} fsHas0[q] == fsHas[q]) && (forall q string :: {fsData0[q]} fsData0[q] == fsData[q])
  ensures (forall f string, t string :: {nPend0[f][t]} nPend0[f][t] == old(nPend[f][t])) && (forall f string, t string :: {nPend[f][t]} !nPend[f][t])

func (*storage.DiskIO).SaveNumberFieldTermOnDisk(d, data)
  requires d != nil
  requires forall f string :: {fsHas[nfile(d.RootFolder, f)]} plain(f) && fsHas[nfile(d.RootFolder, f)] ==> nfDecodes(nfile(d.RootFolder, f))
  langrule !flushed[0] && (forall f string, t string :: {nPend[f][t]} !nPend[f][t])
  onstart [C05] event.serves
  onrecv data: event.count
  ontick event.countTick
  always [C06] decodable: forall f string :: {fsHas[nfile(d.RootFolder, f)]} plain(f) && fsHas[nfile(d.RootFolder, f)] ==> nfDecodes(nfile(d.RootFolder, f))
  always [C06] terms: flushed[0] ==> (forall f string, t string :: {nPend0[f][t]} nPend0[f][t] ==> fsHas[nfile(d.RootFolder, f)] && nfHas(gunzip(fsData[nfile(d.RootFolder, f)]), t))
  always [C06] latest: flushed[0] ==> (forall f string, t string :: {nPend0[f][t]} nPend0[f][t] && fits32(nSize[f][t]) ==> nfVal(gunzip(fsData[nfile(d.RootFolder, f)]), t) == nSize[f][t])
  always [C06] kept: flushed[0] ==> (forall f string, t string :: {nfHas(gunzip(fsData0[nfile(d.RootFolder, f)]), t)} plain(f) && fsHas0[nfile(d.RootFolder, f)] && nfHas(gunzip(fsData0[nfile(d.RootFolder, f)]), t) ==> fsHas[nfile(d.RootFolder, f)] && nfHas(gunzip(fsData[nfile(d.RootFolder, f)]), t) && (nPend0[f][t] || nfVal(gunzip(fsData[nfile(d.RootFolder, f)]), t) == nfVal(gunzip(fsData0[nfile(d.RootFolder, f)]), t)))
  always [C06] nothingnew: flushed[0] ==> (forall f string, t string :: {nfHas(gunzip(fsData[nfile(d.RootFolder, f)]), t)} plain(f) && fsHas[nfile(d.RootFolder, f)] && nfHas(gunzip(fsData[nfile(d.RootFolder, f)]), t) ==> nPend0[f][t] || fsHas0[nfile(d.RootFolder, f)] && nfHas(gunzip(fsData0[nfile(d.RootFolder, f)]), t))
  always [C06] others: flushed[0] ==> (forall q string :: {fsHas[q]} {fsData[q]} !helperName(pbase(q)) && (forall f string :: {nfile(d.RootFolder, f)} plain(f) ==> q != nfile(d.RootFolder, f)) ==> fsHas[q] == fsHas0[q] && fsData[q] == fsData0[q])
  inv (a map[string]map[string]int) :: a != nil && fresh(a)
  inv (a map[string]map[string]int) :: (forall f string :: {f in a} {a[f]} f in a ==> plain(f) && a[f] != nil && fresh(a[f]) && a[f] != a) && (forall f string, g string :: {a[f], a[g]} f in a && g in a && f != g ==> a[f] != a[g])
  inv (a map[string]map[string]int, o toploop) :: forall f string, t string :: {t in a[f]} {nPend[f][t]} f in a && t in a[f] <==> nPend[f][t]
  inv (a map[string]map[string]int, o toploop) :: forall f string, t string :: {a[f][t]} f in a && t in a[f] ==> a[f][t] == nSize[f][t]
  inv (o toploop) :: forall f string, t string :: {nPend[f][t]} nPend[f][t] ==> plain(f)
  // flushing
  inv (R ranged map[string]map[string]int, a map[string]map[string]int, v visited string, o inloop) :: forall f string, t string :: {t in a[f]} {nPend0[f][t]} !v[f] ==> (f in a && t in a[f] <==> nPend0[f][t])
  inv (a map[string]map[string]int, v outervis string, o inloop) :: forall f string, t string :: {t in a[f]} {nPend0[f][t]} !v[f] ==> (f in a && t in a[f] <==> nPend0[f][t])
  inv (R ranged map[string]map[string]int, a map[string]map[string]int, v visited string, o inloop) :: forall f string, t string :: {a[f][t]} !v[f] && f in a && t in a[f] ==> a[f][t] == nSize[f][t]
  inv (a map[string]map[string]int, v outervis string, o inloop) :: forall f string, t string :: {a[f][t]} !v[f] && f in a && t in a[f] ==> a[f][t] == nSize[f][t]
  inv (R ranged map[string]map[string]int, a map[string]map[string]int, v visited string, o inloop) :: forall f string :: {f in a} {v[f]} f in a ==> !v[f]
  inv (R ranged map[string]map[string]int, v visited string, o inloop) :: forall f string :: {v[f]} v[f] ==> plain(f)
  inv (o inloop) :: forall f string, t string :: {nPend0[f][t]} nPend0[f][t] ==> plain(f)
  inv (R ranged map[string]map[string]int, v visited string, o inloop) :: forall f string :: {v[f]} v[f] ==> fsHas[nfile(d.RootFolder, f)] && nfDecodes(nfile(d.RootFolder, f))
  inv (R ranged map[string]map[string]int, v visited string, o inloop) :: forall f string, t string :: {v[f], nPend0[f][t]} v[f] && nPend0[f][t] ==> nfHas(gunzip(fsData[nfile(d.RootFolder, f)]), t)
  inv (R ranged map[string]map[string]int, v visited string, o inloop) :: forall f string, t string :: {v[f], nPend0[f][t]} v[f] && nPend0[f][t] && fits32(nSize[f][t]) ==> nfVal(gunzip(fsData[nfile(d.RootFolder, f)]), t) == nSize[f][t]
  inv (R ranged map[string]map[string]int, v visited string, o inloop) :: forall f string, t string :: {v[f], nfHas(gunzip(fsData0[nfile(d.RootFolder, f)]), t)} v[f] && fsHas0[nfile(d.RootFolder, f)] && nfHas(gunzip(fsData0[nfile(d.RootFolder, f)]), t) ==> nfHas(gunzip(fsData[nfile(d.RootFolder, f)]), t) && (nPend0[f][t] || nfVal(gunzip(fsData[nfile(d.RootFolder, f)]), t) == nfVal(gunzip(fsData0[nfile(d.RootFolder, f)]), t))
  inv (R ranged map[string]map[string]int, v visited string, o inloop) :: forall f string, t string :: {v[f], nfHas(gunzip(fsData[nfile(d.RootFolder, f)]), t)} v[f] && nfHas(gunzip(fsData[nfile(d.RootFolder, f)]), t) ==> nPend0[f][t] || fsHas0[nfile(d.RootFolder, f)] && nfHas(gunzip(fsData0[nfile(d.RootFolder, f)]), t)
  inv (R ranged map[string]map[string]int, v visited string, o inloop) :: forall q string :: {fsHas[q]} {fsData[q]} !helperName(pbase(q)) && (forall f string :: {v[f]} {nfile(d.RootFolder, f)} v[f] ==> q != nfile(d.RootFolder, f)) ==> fsHas[q] == fsHas0[q] && fsData[q] == fsData0[q]
  inv (o inloop) :: forall f string :: {fsHas[nfile(d.RootFolder, f)]} {fsHas0[nfile(d.RootFolder, f)]} plain(f) && fsHas0[nfile(d.RootFolder, f)] ==> gzOK(fsData0[nfile(d.RootFolder, f)]) && nfOK(gunzip(fsData0[nfile(d.RootFolder, f)]))
  inv (o inloop) :: forall f string :: {fsHas[nfile(d.RootFolder, f)]} plain(f) && fsHas[nfile(d.RootFolder, f)] ==> nfDecodes(nfile(d.RootFolder, f))
  // merging with the file
  inv (m map[string]int, w visited string, D ranged map[string]int, o inloop) :: forall t string :: {t in m} {w[t]} t in m <==> loopold(t in m) || w[t]
  inv (m map[string]int, w visited string, D ranged map[string]int, o inloop) :: forall t string :: {m[t]} t in m ==> m[t] == (loopold(t in m) ? loopold(m[t]) : D[t])
  inv (m map[string]int, w visited string, D ranged map[string]int, o inloop) :: forall t string :: {m[t]} t in m ==> m[t] == (w[t] ? D[t] : loopold(m[t]))
  inv (a map[string]map[string]int, m map[string]int, o inloop) :: forall f string, t string :: {t in a[f]} {a[f][t]} f in a && a[f] != m ==> (t in a[f] <==> loopold(t in a[f])) && a[f][t] == loopold(a[f][t])

// ---- posting fragments
// uuid.New is assumed to give a name that no file has.
fun uuidStr(u github.com/google/uuid.UUID) string
extern github.com/google/uuid.New() returns (u)
  ensures plain(uuidStr(u)) && okesc(uuidStr(u)) && nosep(uuidStr(u)) && (forall q string :: {fsHas[q]} pbase(q) == uuidStr(u) ==> !fsHas[q])
extern (github.com/google/uuid.UUID).String(u) returns (r)
  pure
  ensures r == uuidStr(u)

ghost iPend arr(string, arr(string, arr(string, bool)))
ghost iPend0 arr(string, arr(string, arr(string, bool)))
extern event.posting(m)
  modifies ghostat(flushed, 0), ghostat(iPend, m.FieldName)
  ensures !flushed[0] && plain(m.FieldName)
  ensures (forall t string, x string :: {iPend[m.FieldName][t][x]} iPend[m.FieldName][t][x] <==> old(iPend[m.FieldName][t][x]) || t == m.Term && x == m.DocumentId)
extern event.postingTick()
  modifies ghostat(flushed, 0), ghostif(fsHas0, q, true), ghostif(fsData0, q, true), ghostif(iPend, f, true), ghostif(iPend0, f, true)
  ensures flushed[0] && (forall q string :: {fsHas0[q]} fsHas0[q] == fsHas[q]) && (forall q string :: {fsData0[q]} fsData0[q] == fsData[q])
  ensures (forall f string, t string, x string :: {iPend0[f][t][x]} iPend0[f][t][x] == old(iPend[f][t][x])) && (forall f string, t string, x string :: {iPend[f][t][x]} !iPend[f][t][x])

func (*storage.DiskIO).SaveIndexOnDisk(d, indexCh)
  requires d != nil
  requires forall f string, n string :: {frag(d.RootFolder, f, n)} plain(f) && plain(n) && !helperName(n) ==> ixFileOK(frag(d.RootFolder, f, n))
  langrule !flushed[0] && (forall f string, t string, x string :: {iPend[f][t][x]} !iPend[f][t][x])
  onstart [C05] event.serves
  onrecv indexCh: event.posting
  ontick event.postingTick
  crash [C06] whole: forall f string, n string :: {fsHas[frag(d.RootFolder, f, n)]} plain(f) && plain(n) && !helperName(n) ==> ixFileOK(frag(d.RootFolder, f, n))
  always [C06] whole: forall f string, n string :: {frag(d.RootFolder, f, n)} plain(f) && plain(n) && !helperName(n) ==> ixFileOK(frag(d.RootFolder, f, n))
  always [C06] postings: flushed[0] ==> (forall f string, t string, x string :: {iPend0[f][t][x]} iPend0[f][t][x] ==> (exists n string :: {fsHas[frag(d.RootFolder, f, n)]} plain(n) && ixfHas(frag(d.RootFolder, f, n), t, x)))
  always [C06] kept: flushed[0] ==> (forall q string :: {fsHas[q]} {fsData[q]} fsHas0[q] && !helperName(pbase(q)) ==> fsHas[q] && fsData[q] == fsData0[q])
  always [C06] nothingnew: flushed[0] ==> (forall f string, n string, t string, x string :: {ixHas(gunzip(fsData[frag(d.RootFolder, f, n)]), t, x)} plain(f) && plain(n) && !fsHas0[frag(d.RootFolder, f, n)] && ixfHas(frag(d.RootFolder, f, n), t, x) ==> iPend0[f][t][x])
  always [C06] others: flushed[0] ==> (forall q string :: {fsHas[q]} {fsData[q]} fsHas[q] && !fsHas0[q] && !helperName(pbase(q)) ==> (exists f string, n string :: {frag(d.RootFolder, f, n)} plain(f) && plain(n) && q == frag(d.RootFolder, f, n)))
  inv (a map[string]map[string]map[string]bool) :: a != nil && fresh(a)
  inv (a map[string]map[string]map[string]bool) :: (forall f string :: {f in a} {a[f]} f in a ==> plain(f) && a[f] != nil && fresh(a[f]) && a[f] != a) && (forall f string, g string :: {a[f], a[g]} f in a && g in a && f != g ==> a[f] != a[g])
  inv (a map[string]map[string]map[string]bool) :: (forall f string, t string :: {t in a[f]} {a[f][t]} f in a && t in a[f] ==> a[f][t] != nil && fresh(a[f][t])) && (forall f string, t string, g string, u string :: {a[f][t], a[g][u]} f in a && t in a[f] && g in a && u in a[g] && (f != g || t != u) ==> a[f][t] != a[g][u])
  inv (a map[string]map[string]map[string]bool, o toploop) :: forall f string, t string, x string :: {x in a[f][t]} {iPend[f][t][x]} f in a && t in a[f] && x in a[f][t] <==> iPend[f][t][x]
  inv (o toploop) :: forall f string, t string, x string :: {iPend[f][t][x]} iPend[f][t][x] ==> plain(f)
  // flushing
  inv (a map[string]map[string]map[string]bool, o inloop) :: forall f string, t string, x string :: {x in a[f][t]} {iPend0[f][t][x]} f in a && t in a[f] && x in a[f][t] <==> iPend0[f][t][x]
  inv (o inloop) :: forall f string, t string, x string :: {iPend0[f][t][x]} iPend0[f][t][x] ==> plain(f)
  inv (R ranged map[string]map[string]map[string]bool, v visited string, o inloop) :: forall f string :: {v[f]} v[f] ==> plain(f)
  inv (R ranged map[string]map[string]map[string]bool, v visited string, o inloop) :: forall f string, t string, x string :: {v[f], iPend0[f][t][x]} v[f] && iPend0[f][t][x] ==> (exists n string :: {fsHas[frag(d.RootFolder, f, n)]} plain(n) && ixfHas(frag(d.RootFolder, f, n), t, x))
  inv (o inloop) :: forall f string, n string :: {frag(d.RootFolder, f, n)} plain(f) && plain(n) && !helperName(n) ==> ixFileOK(frag(d.RootFolder, f, n))
  inv (o inloop) :: forall q string :: {fsHas[q]} {fsData[q]} fsHas0[q] && !helperName(pbase(q)) ==> fsHas[q] && fsData[q] == fsData0[q]
  inv (o inloop) :: forall f string, n string, t string, x string :: {ixHas(gunzip(fsData[frag(d.RootFolder, f, n)]), t, x)} plain(f) && plain(n) && !fsHas0[frag(d.RootFolder, f, n)] && ixfHas(frag(d.RootFolder, f, n), t, x) ==> iPend0[f][t][x]
  inv (o inloop) :: forall q string :: {fsHas[q]} {fsData[q]} fsHas[q] && !fsHas0[q] && !helperName(pbase(q)) ==> (exists f string, n string :: {frag(d.RootFolder, f, n)} plain(f) && plain(n) && q == frag(d.RootFolder, f, n))

// ---- document records
ghost dPend arr(string, arr(string, bool))
ghost dPend0 arr(string, arr(string, bool))
ghost dId arr(string, bool)
ghost dLast arr(int, string)
ghost dId0 arr(string, bool)
ghost dFld arr(string, arr(string, model.Field))
macro doc0(root, id) = gunzip(fsData0[docPath(root, id)])
macro isFld(B, f, v) = fmHas(B, f) && fmName(B, f) == v.Name && (fits32(v.Length) ==> fmLen(B, f) == v.Length)

extern event.document(m)
  modifies ghostat(flushed, 0), ghostat(dLast, 0), ghostat(dPend, m.DocumentId), ghostat(dFld, m.DocumentId), ghostat(dId, m.DocumentId)
  ensures !flushed[0] && dId[m.DocumentId] && dLast[0] == m.DocumentId
  ensures (forall f string :: {dPend[m.DocumentId][f]} {f in m.Field} dPend[m.DocumentId][f] <==> old(dPend[m.DocumentId][f]) || f in m.Field)
  ensures (forall f string :: {dFld[m.DocumentId][f]} dFld[m.DocumentId][f] == (f in m.Field ? m.Field[f] : old(dFld[m.DocumentId][f])))
extern event.documentTick()
  modifies ghostat(flushed, 0), ghostif(fsHas0, q, true), ghostif(fsData0, q, true), ghostif(dPend, f, true), ghostif(dPend0, f, true), ghostif(dId, f, true), ghostif(dId0, f, true)
  ensures (forall f string :: {dId0[f]} dId0[f] == old(dId[f])) && (forall f string :: {dId[f]} !dId[f])
  ensures flushed[0] && (forall q string :: {fsHas0[q]} fsHas0[q] == fsHas[q]) && (forall q string :: {fsData0[q]} fsData0[q] == fsData[q])
  ensures (forall f string, t string :: {dPend0[f][t]} dPend0[f][t] == old(dPend[f][t])) && (forall f string, t string :: {dPend[f][t]} !dPend[f][t])

func (*storage.DiskIO).SaveDocumentFieldOnDisk(d, data)
  requires d != nil
  requires forall i string :: {docPath(d.RootFolder, i)} docFileOK(d.RootFolder, i)
  langrule !flushed[0] && (forall i string :: {dId[i]} !dId[i]) && (forall i string, f string :: {dPend[i][f]} !dPend[i][f])
  onstart [C05] event.serves
  onrecv data: event.document
  ontick event.documentTick
  always [C06, C23] decodable: forall i string :: {docPath(d.RootFolder, i)} docFileOK(d.RootFolder, i)
  always [C06] written: flushed[0] ==> (forall i string, f string :: {dPend0[i][f]} dPend0[i][f] ==> fsHas[docPath(d.RootFolder, i)] && isFld(docRec(d.RootFolder, i), f, dFld[i][f]))
  always [C06] terms: flushed[0] ==> (forall i string, f string, t string :: {dPend0[i][f], kvHas(docRec(d.RootFolder, i), fmFld(docRec(d.RootFolder, i), f), 8, t)} {t in dFld[i][f].TF} dPend0[i][f] ==> (fmTF(docRec(d.RootFolder, i), f, t) <==> t in dFld[i][f].TF))
  always [C06] counts: flushed[0] ==> (forall i string, f string, t string :: {dFld[i][f].TF[t]} dPend0[i][f] && t in dFld[i][f].TF && fits32(dFld[i][f].TF[t]) ==> fmTFVal(docRec(d.RootFolder, i), f, t) == dFld[i][f].TF[t])
  always [C06] kept: flushed[0] ==> (forall i string, f string :: {fmHas(doc0(d.RootFolder, i), f)} fsHas0[docPath(d.RootFolder, i)] && fmHas(doc0(d.RootFolder, i), f) ==> fsHas[docPath(d.RootFolder, i)] && fmHas(docRec(d.RootFolder, i), f) && (dPend0[i][f] || fmName(docRec(d.RootFolder, i), f) == fmName(doc0(d.RootFolder, i), f) && fmLen(docRec(d.RootFolder, i), f) == fmLen(doc0(d.RootFolder, i), f)))
  always [C06] keptterms: flushed[0] ==> (forall i string, f string, t string :: {kvHas(doc0(d.RootFolder, i), fmFld(doc0(d.RootFolder, i), f), 8, t)} {kvHas(docRec(d.RootFolder, i), fmFld(docRec(d.RootFolder, i), f), 8, t)} fsHas0[docPath(d.RootFolder, i)] && fmHas(doc0(d.RootFolder, i), f) && !dPend0[i][f] ==> (fmTF(docRec(d.RootFolder, i), f, t) <==> fmTF(doc0(d.RootFolder, i), f, t)))
  always [C06] keptcounts: flushed[0] ==> (forall i string, f string, t string :: {kvHas(doc0(d.RootFolder, i), fmFld(doc0(d.RootFolder, i), f), 8, t)} fsHas0[docPath(d.RootFolder, i)] && fmHas(doc0(d.RootFolder, i), f) && !dPend0[i][f] && fmTF(doc0(d.RootFolder, i), f, t) ==> fmTFVal(docRec(d.RootFolder, i), f, t) == fmTFVal(doc0(d.RootFolder, i), f, t))
  always [C06] nothingnew: flushed[0] ==> (forall i string, f string :: {fmHas(docRec(d.RootFolder, i), f)} fsHas[docPath(d.RootFolder, i)] && fmHas(docRec(d.RootFolder, i), f) ==> dPend0[i][f] || fsHas0[docPath(d.RootFolder, i)] && fmHas(doc0(d.RootFolder, i), f))
  always [C06, C23] others: flushed[0] ==> (forall q string :: {fsHas[q]} {fsData[q]} !helperName(pbase(q)) && (forall i string :: {dId0[i]} dId0[i] ==> q != docPath(d.RootFolder, i)) ==> fsHas[q] == fsHas0[q] && fsData[q] == fsData0[q])
  always [C23] own: flushed[0] ==> (forall i string :: {dId0[i]} dId0[i] ==> fsHas[docPath(d.RootFolder, i)])
  crash [C23] contained: forall q string :: {fsHas[q]} {fsData[q]} pdir(q) != pjoin(pjoin(d.RootFolder, "docs"), "metrics") ==> same(q)
  inv (a map[string]map[string]model.Field) :: a != nil && fresh(a)
  inv (a map[string]map[string]model.Field) :: (forall i string :: {i in a} {a[i]} i in a ==> a[i] != nil && fresh(a[i]) && a[i] != a) && (forall i string, g string :: {a[i], a[g]} i in a && g in a && i != g ==> a[i] != a[g])
  inv (a map[string]map[string]model.Field, o toploop) :: forall i string, f string :: {f in a[i]} {dPend[i][f]} i in a && f in a[i] <==> dPend[i][f]
  inv (a map[string]map[string]model.Field, o toploop) :: forall i string, f string :: {a[i][f]} i in a && f in a[i] ==> a[i][f] == dFld[i][f]
  inv (a map[string]map[string]model.Field, o toploop) :: forall i string :: {i in a} {dId[i]} i in a <==> dId[i]
  inv (R ranged map[string]map[string]model.Field, v visited string, o inloop) :: forall i string :: {v[i]} v[i] ==> dId0[i]
  inv (R ranged map[string]map[string]model.Field, a map[string]map[string]model.Field, v visited string, o inloop) :: forall i string :: {i in a} {dId0[i]} i in a <==> dId0[i] && !v[i]
  inv (R ranged map[string]map[string]model.Field, a map[string]map[string]model.Field, v visited string, o inloop) :: forall i string :: {i in a} {dId0[i]} i in a <==> dId0[i]
  // receiving
  inv (a map[string]map[string]model.Field, m map[string]model.Field, w visited string, D ranged map[string]model.Field) :: forall f string :: {f in m} {w[f]} f in m <==> loopold(f in m) || w[f]
  inv (a map[string]map[string]model.Field, m map[string]model.Field, w visited string, D ranged map[string]model.Field) :: forall f string :: {m[f]} f in m ==> m[f] == (w[f] ? D[f] : loopold(m[f]))
  inv (a map[string]map[string]model.Field, w visited string, D ranged map[string]model.Field) :: dLast[0] in a && (forall i string, f string :: {f in a[i]} i in a && f in a[i] <==> loopold(i in a && f in a[i]) || i == dLast[0] && w[f])
  inv (a map[string]map[string]model.Field, w visited string, D ranged map[string]model.Field) :: forall i string, f string :: {a[i][f]} i in a && f in a[i] ==> a[i][f] == (i == dLast[0] && w[f] ? D[f] : loopold(a[i][f]))
  inv (a map[string]map[string]model.Field, m map[string]model.Field) :: forall i string, f string :: {f in a[i]} {a[i][f]} i in a && a[i] != m ==> (f in a[i] <==> loopold(f in a[i])) && a[i][f] == loopold(a[i][f])
  // flushing
  inv (R ranged map[string]map[string]model.Field, a map[string]map[string]model.Field, v visited string, o inloop) :: forall i string, f string :: {f in a[i]} {dPend0[i][f]} !v[i] ==> (i in a && f in a[i] <==> dPend0[i][f])
  inv (R ranged map[string]map[string]model.Field, a map[string]map[string]model.Field, v visited string, o inloop) :: forall i string, f string :: {a[i][f]} !v[i] && i in a && f in a[i] ==> a[i][f] == dFld[i][f]
  inv (a map[string]map[string]model.Field, v outervis string, o inloop) :: forall i string, f string :: {f in a[i]} {dPend0[i][f]} !v[i] ==> (i in a && f in a[i] <==> dPend0[i][f])
  inv (a map[string]map[string]model.Field, v outervis string, o inloop) :: forall i string, f string :: {a[i][f]} !v[i] && i in a && f in a[i] ==> a[i][f] == dFld[i][f]
  inv (R ranged map[string]map[string]model.Field, a map[string]map[string]model.Field, v visited string, o inloop) :: forall f string :: {f in a} {v[f]} f in a ==> !v[f]
  inv (o inloop) :: forall i string :: {docPath(d.RootFolder, i)} docFileOK(d.RootFolder, i)
  inv (o inloop) :: forall i string :: {fsHas0[docPath(d.RootFolder, i)]} fsHas0[docPath(d.RootFolder, i)] ==> gzOK(fsData0[docPath(d.RootFolder, i)]) && fmOK(doc0(d.RootFolder, i))
  inv (R ranged map[string]map[string]model.Field, v visited string, o inloop) :: forall i string, f string :: {v[i], dPend0[i][f]} v[i] && dPend0[i][f] ==> fsHas[docPath(d.RootFolder, i)] && isFld(docRec(d.RootFolder, i), f, dFld[i][f])
  inv (R ranged map[string]map[string]model.Field, v visited string, o inloop) :: forall i string, f string, t string :: {v[i], kvHas(docRec(d.RootFolder, i), fmFld(docRec(d.RootFolder, i), f), 8, t)} {v[i], t in dFld[i][f].TF} v[i] && dPend0[i][f] ==> (fmTF(docRec(d.RootFolder, i), f, t) <==> t in dFld[i][f].TF)
  inv (R ranged map[string]map[string]model.Field, v visited string, o inloop) :: forall i string, f string, t string :: {v[i], dFld[i][f].TF[t]} v[i] && dPend0[i][f] && t in dFld[i][f].TF && fits32(dFld[i][f].TF[t]) ==> fmTFVal(docRec(d.RootFolder, i), f, t) == dFld[i][f].TF[t]
  inv (R ranged map[string]map[string]model.Field, v visited string, o inloop) :: forall i string, f string :: {v[i], fmHas(doc0(d.RootFolder, i), f)} v[i] && fsHas0[docPath(d.RootFolder, i)] && fmHas(doc0(d.RootFolder, i), f) ==> fsHas[docPath(d.RootFolder, i)] && fmHas(docRec(d.RootFolder, i), f) && (dPend0[i][f] || fmName(docRec(d.RootFolder, i), f) == fmName(doc0(d.RootFolder, i), f) && fmLen(docRec(d.RootFolder, i), f) == fmLen(doc0(d.RootFolder, i), f))
  inv (R ranged map[string]map[string]model.Field, v visited string, o inloop) :: forall i string, f string, t string :: {v[i], kvHas(doc0(d.RootFolder, i), fmFld(doc0(d.RootFolder, i), f), 8, t)} {v[i], kvHas(docRec(d.RootFolder, i), fmFld(docRec(d.RootFolder, i), f), 8, t)} v[i] && fsHas0[docPath(d.RootFolder, i)] && fmHas(doc0(d.RootFolder, i), f) && !dPend0[i][f] ==> (fmTF(docRec(d.RootFolder, i), f, t) <==> fmTF(doc0(d.RootFolder, i), f, t))
  inv (R ranged map[string]map[string]model.Field, v visited string, o inloop) :: forall i string, f string, t string :: {v[i], kvHas(doc0(d.RootFolder, i), fmFld(doc0(d.RootFolder, i), f), 8, t)} v[i] && fsHas0[docPath(d.RootFolder, i)] && fmHas(doc0(d.RootFolder, i), f) && !dPend0[i][f] && fmTF(doc0(d.RootFolder, i), f, t) ==> fmTFVal(docRec(d.RootFolder, i), f, t) == fmTFVal(doc0(d.RootFolder, i), f, t)
  inv (R ranged map[string]map[string]model.Field, v visited string, o inloop) :: forall i string, f string :: {v[i], fmHas(docRec(d.RootFolder, i), f)} v[i] && fsHas[docPath(d.RootFolder, i)] && fmHas(docRec(d.RootFolder, i), f) ==> dPend0[i][f] || fsHas0[docPath(d.RootFolder, i)] && fmHas(doc0(d.RootFolder, i), f)
  inv (R ranged map[string]map[string]model.Field, v visited string, o inloop) :: forall q string :: {fsHas[q]} {fsData[q]} !helperName(pbase(q)) && (forall i string :: {v[i]} {docPath(d.RootFolder, i)} v[i] ==> q != docPath(d.RootFolder, i)) ==> fsHas[q] == fsHas0[q] && fsData[q] == fsData0[q]
  inv [C23] (o toploop) :: forall q string :: {fsHas[q]} {fsData[q]} pdir(q) != pjoin(pjoin(d.RootFolder, "docs"), "metrics") ==> same(q)
  inv [C23] (o inloop) :: forall q string :: {fsHas[q]} {fsData[q]} pdir(q) != pjoin(pjoin(d.RootFolder, "docs"), "metrics") ==> same(q)
  inv [C23] (R ranged map[string]map[string]model.Field, v visited string, o inloop) :: forall i string :: {v[i]} v[i] ==> fsHas[docPath(d.RootFolder, i)]
  // merging with the file
  inv (m map[string]model.Field, w visited string, D ranged map[string]model.Field, o inloop) :: forall f string :: {m[f]} f in m ==> m[f] == (loopold(f in m) ? loopold(m[f]) : D[f])
