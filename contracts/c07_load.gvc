// C07, C10: reading the files of a store, merging posting fragments

// directories; a path is not both a file and a directory
ghost fsDir arr(string, bool)
fun plen(p string) int
axiom path_clean (a string, b string) :: {pjoin(a, b)} pclean(pjoin(a, b)) == pjoin(a, b)
axiom path_depth (a string, b string) :: {pjoin(a, b)} plain(b) ==> plen(pjoin(a, b)) == plen(pclean(a)) + 1

fun deName(e any) string
fun deDir(e any) bool
extern (io/fs.DirEntry).Name(e) returns (r)
  pure
  ensures r == deName(e)
extern (io/fs.DirEntry).IsDir(e) returns (r)
  pure
  ensures r == deDir(e)
extern os.ReadDir(name) returns (r, err)
  ensures err == nil ==> (forall j int :: {r[j]} 0 <= j && j < len(r) ==> r[j] != nil && plain(deName(r[j])) && (deDir(r[j]) ? fsDir[pjoin(name, deName(r[j]))] : fsHas[pjoin(name, deName(r[j]))]))
  ensures err == nil ==> (forall n string :: {fsDir[pjoin(name, n)]} plain(n) && fsDir[pjoin(name, n)] ==> (exists j int :: {r[j]} 0 <= j && j < len(r) && deDir(r[j]) && deName(r[j]) == n))
  ensures err == nil ==> (forall n string :: {fsHas[pjoin(name, n)]} plain(n) && fsHas[pjoin(name, n)] ==> (exists j int :: {r[j]} 0 <= j && j < len(r) && !deDir(r[j]) && deName(r[j]) == n))
  ensures err == nil ==> (forall i int, j int :: {r[i], r[j]} 0 <= i && i < j && j < len(r) ==> deName(r[i]) != deName(r[j]))

func file.ListDirectories(path) returns (r)
  ensures [C07, C10] only: forall j int :: {r[j]} 0 <= j && j < len(r) ==> plain(r[j]) && fsDir[pjoin(path, r[j])] && r[j] != "docs"
  ensures [C07, C10] all: forall n string :: {fsDir[pjoin(path, n)]} plain(n) && fsDir[pjoin(path, n)] && n != "docs" ==> (exists j int :: {r[j]} 0 <= j && j < len(r) && r[j] == n)
  ensures [C07, C10] once: forall i int, j int :: {r[i], r[j]} 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
  inv (s []string) :: forall j int :: {s[j]} 0 <= j && j < len(s) ==> plain(s[j]) && fsDir[pjoin(path, s[j])] && s[j] != "docs"
  inv (s []string, e []io/fs.DirEntry, i iter) :: forall j int :: {s[j]} 0 <= j && j < len(s) ==> (exists k int :: {e[k]} 0 <= k && k < i && deDir(e[k]) && deName(e[k]) == s[j])
  inv (s []string, e []io/fs.DirEntry, i iter) :: forall k int :: {e[k]} 0 <= k && k < i && deDir(e[k]) && deName(e[k]) != "docs" ==> (exists j int :: {s[j]} 0 <= j && j < len(s) && deName(e[k]) == s[j])
  inv (s []string) :: forall i int, j int :: {s[i], s[j]} 0 <= i && i < j && j < len(s) ==> s[i] != s[j]

func file.ListFiles(path) returns (r)
  ensures [C07, C10] only: forall j int :: {r[j]} 0 <= j && j < len(r) ==> plain(r[j]) && fsHas[pjoin(path, r[j])]
  ensures [C07, C10] all: forall n string :: {fsHas[pjoin(path, n)]} plain(n) && fsHas[pjoin(path, n)] ==> (exists j int :: {r[j]} 0 <= j && j < len(r) && r[j] == n)
  ensures [C07, C10] once: forall i int, j int :: {r[i], r[j]} 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
  inv (s []string) :: forall j int :: {s[j]} 0 <= j && j < len(s) ==> plain(s[j]) && fsHas[pjoin(path, s[j])]
  inv (s []string, e []io/fs.DirEntry, i iter) :: forall j int :: {s[j]} 0 <= j && j < len(s) ==> (exists k int :: {e[k]} 0 <= k && k < i && !deDir(e[k]) && deName(e[k]) == s[j])
  inv (s []string, e []io/fs.DirEntry, i iter) :: forall k int :: {e[k]} 0 <= k && k < i && !deDir(e[k]) ==> (exists j int :: {s[j]} 0 <= j && j < len(s) && deName(e[k]) == s[j])
  inv (s []string) :: forall i int, j int :: {s[i], s[j]} 0 <= i && i < j && j < len(s) ==> s[i] != s[j]

macro isField(root, f) = plain(f) && fsDir[pjoin(root, f)] && f != "docs"
macro mfile(root, f) = pjoin(pjoin(root, f), "metrics")
macro nfile(root, f) = pjoin(pjoin(root, f), "nfterm")
macro ifile(root, f) = pjoin(pjoin(root, f), "index")
macro tdir(root, f) = pjoin(pjoin(root, f), "temp")

func (*storage.DiskIO).LoadFieldSizeLengthOnHD(d) returns (size, length, err)
  requires d != nil
  requires forall f string :: {fsHas[mfile(d.RootFolder, f)]} isField(d.RootFolder, f) && fsHas[mfile(d.RootFolder, f)] ==> gzOK(fsData[mfile(d.RootFolder, f)]) && fsOK(gunzip(fsData[mfile(d.RootFolder, f)])) && fsName(gunzip(fsData[mfile(d.RootFolder, f)])) == f
  modifies ghostif(rdLeft, x, !old(allocated(x)))
  ensures [C07] ok: err == nil && size != nil && length != nil && fresh(size) && fresh(length) && size != length
  ensures [C07] fields: forall f string :: {f in size} {f in length} {fsHas[mfile(d.RootFolder, f)]} (f in size <==> isField(d.RootFolder, f) && fsHas[mfile(d.RootFolder, f)]) && (f in length <==> f in size)
  ensures [C07] sizes: forall f string :: {size[f]} f in size ==> size[f] == fsSize(gunzip(fsData[mfile(d.RootFolder, f)]))
  ensures [C07] lengths: forall f string :: {length[f]} f in length ==> length[f] == fsLength(gunzip(fsData[mfile(d.RootFolder, f)]))
  inv (m map[string]int) :: m != nil && fresh(m)
  inv (m map[string]int) :: forall f string :: {f in m} f in m ==> isField(d.RootFolder, f) && fsHas[mfile(d.RootFolder, f)]
  inv (m map[string]int, s []string, i iter) :: forall j int :: {s[j]} 0 <= j && j < i && fsHas[mfile(d.RootFolder, s[j])] ==> s[j] in m
  inv (m map[string]int) :: forall f string :: {m[f]} f in m ==> m[f] == fsSize(gunzip(fsData[mfile(d.RootFolder, f)]))
  inv (m map[string]int) :: forall f string :: {m[f]} f in m ==> m[f] == fsLength(gunzip(fsData[mfile(d.RootFolder, f)]))

func (*storage.DiskIO).LoadNumberFieldTermOnHD(d) returns (r, err)
  requires d != nil
  requires forall f string :: {fsHas[nfile(d.RootFolder, f)]} isField(d.RootFolder, f) && fsHas[nfile(d.RootFolder, f)] ==> gzOK(fsData[nfile(d.RootFolder, f)]) && nfOK(gunzip(fsData[nfile(d.RootFolder, f)]))
  modifies ghostif(rdLeft, x, !old(allocated(x)))
  ensures [C07] ok: err == nil && r != nil && fresh(r)
  ensures [C07] fields: forall f string :: {f in r} {fsHas[nfile(d.RootFolder, f)]} f in r <==> isField(d.RootFolder, f) && fsHas[nfile(d.RootFolder, f)]
  ensures [C07] terms: forall f string, t string :: {t in r[f]} f in r ==> (t in r[f] <==> nfHas(gunzip(fsData[nfile(d.RootFolder, f)]), t))
  ensures [C07] counts: forall f string, t string :: {r[f][t]} f in r && t in r[f] ==> r[f][t] == nfVal(gunzip(fsData[nfile(d.RootFolder, f)]), t)
  ensures [C07] shape: (forall f string :: {r[f]} f in r ==> r[f] != nil && fresh(r[f])) && (forall f string, g string :: {r[f], r[g]} f in r && g in r && f != g ==> r[f] != r[g])
  inv (m map[string]map[string]int) :: m != nil && fresh(m)
  inv (m map[string]map[string]int) :: (forall f string :: {m[f]} f in m ==> m[f] != nil && fresh(m[f])) && (forall f string, g string :: {m[f], m[g]} f in m && g in m && f != g ==> m[f] != m[g])
  inv (m map[string]map[string]int) :: forall f string :: {f in m} f in m ==> isField(d.RootFolder, f) && fsHas[nfile(d.RootFolder, f)]
  inv (m map[string]map[string]int, s []string, i iter) :: forall j int :: {s[j]} 0 <= j && j < i && fsHas[nfile(d.RootFolder, s[j])] ==> s[j] in m
  inv (m map[string]map[string]int, s []string, i iter) :: forall f string :: {f in m} f in m ==> (exists j int :: {s[j]} 0 <= j && j < i && s[j] == f)
  inv (m map[string]map[string]int) :: forall f string, t string :: {t in m[f]} f in m ==> (t in m[f] <==> nfHas(gunzip(fsData[nfile(d.RootFolder, f)]), t))
  inv (m map[string]map[string]int) :: forall f string, t string :: {m[f][t]} f in m && t in m[f] ==> m[f][t] == nfVal(gunzip(fsData[nfile(d.RootFolder, f)]), t)

// ---- postings
macro ixFileOK(p) = fsHas[p] ==> gzOK(fsData[p]) && ixOK(gunzip(fsData[p]))
macro ixfTerm(p, t) = fsHas[p] && ixTerm(gunzip(fsData[p]), t)
macro ixfHas(p, t, x) = fsHas[p] && ixTerm(gunzip(fsData[p]), t) && ixHas(gunzip(fsData[p]), t, x)
macro tdOK(td) = td != nil && (forall t string :: {t in td} {td[t]} t in td ==> td[t] != nil && allocated(td[t]) && td[t].data != nil && allocated(td[t].data)) &&
  (forall t string, u string :: {td[t].data, td[u].data} t in td && u in td && t != u ==> td[t] != td[u] && td[t].data != td[u].data)
macro tdFresh(td) = fresh(td) && (forall t string :: {td[t]} t in td ==> fresh(td[t]) && fresh(td[t].data))

func storage.LoadTermDocumentsFromIndex(field, rootFolder) returns (r, err)
  requires ixFileOK(ifile(rootFolder, field))
  modifies ghostif(rdLeft, x, !old(allocated(x)))
  ensures [C07, C10] ok: err == nil && tdOK(r) && tdFresh(r)
  ensures [C07, C10] terms: forall t string :: {t in r} t in r <==> ixfTerm(ifile(rootFolder, field), t)
  ensures [C07, C10] sets: forall t string, x string :: {x in r[t].data} t in r ==> (x in r[t].data <==> ixfHas(ifile(rootFolder, field), t, x))
  inv (td map[string]*model.Set) :: tdOK(td) && tdFresh(td)
  inv (td map[string]*model.Set, v visited string, D ranged map[string]map[string]bool) :: forall t string :: {t in td} {t in v} t in td <==> t in v
  inv (td map[string]*model.Set, v visited string, D ranged map[string]map[string]bool) :: forall t string, x string :: {x in td[t].data} t in td ==> (x in td[t].data <==> x in D[t])
  inv (td map[string]*model.Set, s *model.Set) :: s != nil && s.data != nil && fresh(s) && fresh(s.data) && (forall t string :: {td[t]} t in td ==> td[t] != s && td[t].data != s.data)
  inv (s *model.Set, w visited string) :: forall x string :: {x in s.data} x in s.data <==> x in w
  inv (td map[string]*model.Set, s *model.Set) :: forall t string, x string :: {x in td[t].data} t in td ==> (x in td[t].data <==> loopold(x in td[t].data))

// ---- merging the fragments of a field into its index file
macro frag(root, f, n) = pjoin(tdir(root, f), n)
// the postings of field f: its index file and its fragments
macro rep(root, f, t, x) = ixfHas(ifile(root, f), t, x) || (exists n string :: {fsHas[frag(root, f, n)]} plain(n) && ixfHas(frag(root, f, n), t, x))
macro repT(root, f, t) = ixfTerm(ifile(root, f), t) || (exists n string :: {fsHas[frag(root, f, n)]} plain(n) && ixfTerm(frag(root, f, n), t))
macro same(q) = fsHas[q] == old(fsHas[q]) && fsData[q] == old(fsData[q])
macro ixMaps(ix) = ix != nil && (forall f string :: {f in ix} {ix[f]} f in ix ==> ix[f] != nil && fresh(ix[f])) &&
   (forall f string, g string :: {ix[f], ix[g]} f in ix && g in ix && f != g ==> ix[f] != ix[g])
macro ixSets(ix) = (forall f string, t string :: {t in ix[f]} {ix[f][t]} f in ix && t in ix[f] ==> ix[f][t] != nil && fresh(ix[f][t]) && ix[f][t].data != nil && fresh(ix[f][t].data)) &&
   (forall f string, t string, g string, u string :: {ix[f][t].data, ix[g][u].data} f in ix && t in ix[f] && g in ix && u in ix[g] && (f != g || t != u) ==> ix[f][t] != ix[g][u] && ix[f][t].data != ix[g][u].data)

func (*storage.DiskIO).LoadIndexOnHD(d) returns (r, err)
  requires d != nil
  requires forall f string :: {pjoin(d.RootFolder, f)} isField(d.RootFolder, f) ==> ixFileOK(ifile(d.RootFolder, f))
  requires forall f string, n string :: {frag(d.RootFolder, f, n)} isField(d.RootFolder, f) && plain(n) ==> ixFileOK(frag(d.RootFolder, f, n))
  noframe
  ensures [C07, C10] shape: err == nil ==> ixMaps(r) && ixSets(r) && fresh(r)
  ensures [C07, C10] fields: err == nil ==> (forall f string :: {f in r} f in r <==> old(isField(d.RootFolder, f)))
  ensures [C07] terms: err == nil ==> (forall f string, t string :: {t in r[f]} f in r ==> (t in r[f] <==> old(repT(d.RootFolder, f, t))))
  ensures [C07, C10] sets: err == nil ==> (forall f string, t string, x string :: {x in r[f][t].data} f in r ==> (t in r[f] && x in r[f][t].data <==> old(rep(d.RootFolder, f, t, x))))
  ensures [C10] whole: err == nil ==> (forall f string :: {pjoin(d.RootFolder, f)} old(isField(d.RootFolder, f)) ==> ixFileOK(ifile(d.RootFolder, f)))
  ensures [C10] merged: err == nil ==> (forall f string, t string, x string :: {ixHas(gunzip(fsData[ifile(d.RootFolder, f)]), t, x)} old(isField(d.RootFolder, f)) ==> (ixfHas(ifile(d.RootFolder, f), t, x) <==> old(rep(d.RootFolder, f, t, x))))
  ensures [C10] removed: err == nil ==> (forall f string, n string :: {fsHas[frag(d.RootFolder, f, n)]} old(isField(d.RootFolder, f)) && plain(n) ==> !fsHas[frag(d.RootFolder, f, n)])
  ensures [C07] dirs: forall q string :: {fsDir[q]} fsDir[q] == old(fsDir[q])
  ensures [C07, C10] others: forall q string :: {fsHas[q]} {fsData[q]} !helperName(pbase(q)) && (forall f string :: {fsDir[pjoin(d.RootFolder, f)]} old(isField(d.RootFolder, f)) ==> q != ifile(d.RootFolder, f) && pdir(q) != tdir(d.RootFolder, f)) ==> same(q)
  crash [C10] decodable: forall f string :: {pjoin(d.RootFolder, f)} old(isField(d.RootFolder, f)) ==> ixFileOK(ifile(d.RootFolder, f))
  crash [C10] keptindex: forall f string, t string, x string :: {fsDir[pjoin(d.RootFolder, f)], ixHas(old(gunzip(fsData[ifile(d.RootFolder, f)])), t, x)} old(isField(d.RootFolder, f)) && old(ixfHas(ifile(d.RootFolder, f), t, x)) ==> rep(d.RootFolder, f, t, x)
  inv [C10] (o toploop) :: forall f string, t string, x string :: {fsDir[pjoin(d.RootFolder, f)], ixHas(old(gunzip(fsData[ifile(d.RootFolder, f)])), t, x)} old(isField(d.RootFolder, f)) && old(ixfHas(ifile(d.RootFolder, f), t, x)) ==> rep(d.RootFolder, f, t, x)
  crash [C10] keptfragments: forall f string, n string, t string, x string :: {ixHas(old(gunzip(fsData[frag(d.RootFolder, f, n)])), t, x)} old(isField(d.RootFolder, f)) && plain(n) && old(ixfHas(frag(d.RootFolder, f, n), t, x)) ==> rep(d.RootFolder, f, t, x)
  inv [C10] (o toploop) :: forall f string, n string, t string, x string :: {ixHas(old(gunzip(fsData[frag(d.RootFolder, f, n)])), t, x)} old(isField(d.RootFolder, f)) && plain(n) && old(ixfHas(frag(d.RootFolder, f, n), t, x)) ==> rep(d.RootFolder, f, t, x)
  crash [C10] nothingnew: forall f string, t string, x string :: {fsDir[pjoin(d.RootFolder, f)], ixHas(old(gunzip(fsData[ifile(d.RootFolder, f)])), t, x)} old(isField(d.RootFolder, f)) && rep(d.RootFolder, f, t, x) ==> old(rep(d.RootFolder, f, t, x))
  inv [C10] (o toploop) :: forall f string, t string, x string :: {fsDir[pjoin(d.RootFolder, f)], ixHas(old(gunzip(fsData[ifile(d.RootFolder, f)])), t, x)} old(isField(d.RootFolder, f)) && rep(d.RootFolder, f, t, x) ==> old(rep(d.RootFolder, f, t, x))
  inv [C10] (ix map[string]map[string]*model.Set, o toploop) :: forall f string :: {f in ix} f in ix ==> ixFileOK(ifile(d.RootFolder, f))
  inv [C10] (ix map[string]map[string]*model.Set, o toploop) :: forall f string, t string, x string :: {ixHas(gunzip(fsData[ifile(d.RootFolder, f)]), t, x)} f in ix ==> (ixfHas(ifile(d.RootFolder, f), t, x) <==> old(rep(d.RootFolder, f, t, x)))
  inv [C10] (ix map[string]map[string]*model.Set, o toploop) :: forall f string, n string :: {fsHas[frag(d.RootFolder, f, n)]} f in ix && plain(n) ==> !fsHas[frag(d.RootFolder, f, n)]
  inv [C07, C10] (o toploop) :: forall q string :: {fsHas[q]} {fsData[q]} !helperName(pbase(q)) && (forall f string :: {fsDir[pjoin(d.RootFolder, f)]} old(isField(d.RootFolder, f)) ==> q != ifile(d.RootFolder, f) && pdir(q) != tdir(d.RootFolder, f)) ==> same(q)
  inv [C10] (g outerseq []string, k outerit, fl seq []string, i iter, o inloop) :: forall j int :: {fl[j]} 0 <= j && j < i ==> !fsHas[frag(d.RootFolder, g[k], fl[j])]
  inv [C10] (o inloop) :: forall q string :: {fsHas[q]} {fsData[q]} fsHas[q] ==> loopold(fsHas[q]) && fsData[q] == loopold(fsData[q])
  // the fields listed at the start
  inv [C07, C10] (g outerseq []string, k outerit, fl seq []string, td map[string]*model.Set, i iter) :: forall t string :: {t in td} t in td <==> old(ixfTerm(ifile(d.RootFolder, now(g[k])), t)) || (exists j int :: {fl[j]} 0 <= j && j < i && old(ixfTerm(frag(d.RootFolder, now(g[k]), now(fl[j])), t)))
  inv [C07, C10] (g outerseq []string, k outerit, fl seq []string, td map[string]*model.Set, i iter) :: forall t string, x string :: {x in td[t].data} t in td ==> (x in td[t].data <==> old(ixfHas(ifile(d.RootFolder, now(g[k])), t, x)) || (exists j int :: {fl[j]} 0 <= j && j < i && old(ixfHas(frag(d.RootFolder, now(g[k]), now(fl[j])), t, x))))
  inv (td map[string]*model.Set) :: tdOK(td) && tdFresh(td)
  inv (ix map[string]map[string]*model.Set, td map[string]*model.Set) :: (forall f string :: {ix[f]} f in ix ==> ix[f] != td) && (forall f string, t string, u string :: {ix[f][t], td[u]} f in ix && t in ix[f] && u in td ==> ix[f][t] != td[u] && ix[f][t].data != td[u].data)
  inv (ix map[string]map[string]*model.Set) :: ixMaps(ix) && fresh(ix)
  inv (ix map[string]map[string]*model.Set) :: ixSets(ix)
  inv (ix map[string]map[string]*model.Set, g seq []string, i iter, o toploop) :: forall f string :: {f in ix} f in ix ==> (exists j int :: {g[j]} 0 <= j && j < i && g[j] == f)
  inv (ix map[string]map[string]*model.Set, g seq []string, i iter, o toploop) :: forall j int :: {g[j]} 0 <= j && j < i ==> g[j] in ix
  inv [C07, C10] (ix map[string]map[string]*model.Set, o toploop) :: forall f string, t string :: {t in ix[f]} f in ix ==> (t in ix[f] <==> old(repT(d.RootFolder, f, t)))
  inv [C07, C10] (ix map[string]map[string]*model.Set, o toploop) :: forall f string, t string, x string :: {x in ix[f][t].data} f in ix ==> (t in ix[f] && x in ix[f][t].data <==> old(rep(d.RootFolder, f, t, x)))
  inv [C07, C10] (ix map[string]map[string]*model.Set, o inloop) :: forall f string, t string, x string :: {x in ix[f][t].data} f in ix && t in ix[f] ==> (x in ix[f][t].data <==> loopold(x in ix[f][t].data))
  // the terms of one fragment
  inv (td map[string]*model.Set, v visited string, D ranged map[string]map[string]bool) :: forall t string :: {t in td} {t in v} t in td <==> loopold(t in td) || t in v
  inv (td map[string]*model.Set, v visited string, D ranged map[string]map[string]bool) :: forall t string, x string :: {x in td[t].data} t in td ==> (x in td[t].data <==> loopold(t in td && x in td[t].data) || t in v && x in D[t])
  inv (td map[string]*model.Set, D map[string]map[string]bool, o inloop) :: forall t string, u string :: {D[t], td[u].data} t in D && u in td ==> D[t] != td[u].data
  inv (s *model.Set, D map[string]map[string]bool, o inloop) :: forall t string :: {D[t]} t in D ==> D[t] != s.data
  inv (D map[string]map[string]bool, o inloop) :: forall t string, x string :: {x in D[t]} t in D ==> (x in D[t] <==> loopold(x in D[t]))
  // the documents of one term
  inv (s *model.Set) :: s != nil && s.data != nil && fresh(s) && fresh(s.data)
  inv (s *model.Set, td map[string]*model.Set) :: forall t string :: {td[t]} t in td ==> (td[t] == s <==> td[t].data == s.data)
  inv (s *model.Set, ix map[string]map[string]*model.Set) :: forall f string, t string :: {ix[f][t]} f in ix && t in ix[f] ==> ix[f][t] != s && ix[f][t].data != s.data
  inv (s *model.Set, w visited string) :: forall x string :: {x in s.data} x in s.data <==> loopold(x in s.data) || x in w
  inv (td map[string]*model.Set, s *model.Set) :: forall t string, x string :: {x in td[t].data} t in td && td[t] != s ==> (x in td[t].data <==> loopold(x in td[t].data))
  // the files
  inv (g seq []string, i iter, o toploop) :: forall j int :: {g[j]} i <= j && j < len(g) ==> same(ifile(d.RootFolder, g[j]))
  inv (g seq []string, i iter, o toploop) :: forall j int, n string :: {frag(d.RootFolder, g[j], n)} i <= j && j < len(g) && plain(n) ==> same(frag(d.RootFolder, g[j], n))
  inv (g outerseq []string, k outerit) :: forall q string :: {fsHas[q]} {fsData[q]} pdir(q) != tdir(d.RootFolder, g[k]) ==> fsHas[q] == loopold(fsHas[q]) && fsData[q] == loopold(fsData[q])
  inv (p string, o inloop) :: forall q string :: {fsHas[q]} {fsData[q]} pdir(q) != p ==> fsHas[q] == loopold(fsHas[q]) && fsData[q] == loopold(fsData[q])
  inv [C07, C10] (g seq []string, o toploop) :: forall j int :: {g[j]} 0 <= j && j < len(g) ==> plain(g[j]) && old(fsDir[pjoin(d.RootFolder, now(g[j]))]) && g[j] != "docs"
  inv [C07, C10] (g outerseq []string, o inloop) :: forall j int :: {g[j]} 0 <= j && j < len(g) ==> g[j] == loopold(g[j])
  // the copy that is written
  inv (m map[string]map[string]bool, v visited string, D ranged map[string]*model.Set) :: m != nil && fresh(m) && (forall t string :: {t in m} {t in v} t in m <==> t in v)
  inv (m map[string]map[string]bool, v visited string, D ranged map[string]*model.Set) :: forall t string :: {m[t]} t in m ==> m[t] == D[t].data
