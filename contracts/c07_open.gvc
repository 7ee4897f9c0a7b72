// C07, C05: opening a disk store

macro opened(r) = unbox(*storage.Disk, r)
macro hasTotals(root, f) = isField(root, f) && fsHas[mfile(root, f)]
macro hasCounts(root, f, t) = isField(root, f) && fsHas[nfile(root, f)] && nfHas(gunzip(fsData[nfile(root, f)]), t)

func storage.NewDiskStore(rootFolder, cacheSize) returns (r, err)
  requires forall f string :: {pjoin(rootFolder, f)} isField(rootFolder, f) ==> ixFileOK(ifile(rootFolder, f))
  requires forall f string, n string :: {frag(rootFolder, f, n)} isField(rootFolder, f) && plain(n) ==> ixFileOK(frag(rootFolder, f, n))
  requires forall f string :: {fsHas[mfile(rootFolder, f)]} isField(rootFolder, f) && fsHas[mfile(rootFolder, f)] ==> gzOK(fsData[mfile(rootFolder, f)]) && fsOK(gunzip(fsData[mfile(rootFolder, f)])) && fsName(gunzip(fsData[mfile(rootFolder, f)])) == f
  requires forall f string :: {fsHas[nfile(rootFolder, f)]} isField(rootFolder, f) && fsHas[nfile(rootFolder, f)] ==> gzOK(fsData[nfile(rootFolder, f)]) && nfOK(gunzip(fsData[nfile(rootFolder, f)]))
  noframe
  ensures [C07] opened: err == nil ==> istype(*storage.Disk, r) && fresh(opened(r)) && opened(r).diskIO.RootFolder == rootFolder
  ensures [C07] shape: err == nil ==> dkShape(opened(r))
  ensures [C07] sizes: err == nil ==> (forall f string :: {opened(r).fieldSize[f]} opened(r).fieldSize[f] == (old(hasTotals(rootFolder, f)) ? old(fsSize(gunzip(fsData[mfile(rootFolder, f)]))) : 0))
  ensures [C07] lengths: err == nil ==> (forall f string :: {opened(r).fieldLength[f]} opened(r).fieldLength[f] == (old(hasTotals(rootFolder, f)) ? old(fsLength(gunzip(fsData[mfile(rootFolder, f)]))) : 0))
  ensures [C07] counts: err == nil ==> (forall f string, t string :: {opened(r).numberFieldTerm[f][t]} opened(r).numberFieldTerm[f][t] == (old(hasCounts(rootFolder, f, t)) ? old(nfVal(gunzip(fsData[nfile(rootFolder, f)]), t)) : 0))
  ensures [C07] postings: err == nil ==> (forall f string, t string, x string :: {x in opened(r).index[f][t].data} dlisted(opened(r), f, t, x) <==> old(isField(rootFolder, f)) && old(rep(rootFolder, f, t, x)))
  ensures [C07] cache: err == nil ==> opened(r).fieldDocumentCache != nil && opened(r).fieldDocumentCache.capacity == cacheSize && (forall k string :: {cached(opened(r), k)} !cached(opened(r), k))
  // (the contracts of the loaders are what C07 proves)
  opt callees C05
  // all four writers run, on the store's channels and in its folder
  ensures [C05] served: err == nil ==> serves(rootFolder, opened(r).indexCh) && serves(rootFolder, opened(r).fieldCh) && serves(rootFolder, opened(r).numberFieldTermCh) && serves(rootFolder, opened(r).documentFieldCh)
macro serves(root, c) = c != nil && served[ref(c)] && servedRoot[ref(c)] == root
