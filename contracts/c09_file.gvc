// C09: replacing a file

func file.SecureSaveFile(path, fileName, buff) returns (err)
  requires plain(fileName)
  modifies ghostif(fpath, x, !old(allocated(x))), ghostif(fsHas, q, pdir(q) == pclean(path)), ghostif(fsData, q, pdir(q) == pclean(path))
  crash [C09, C06, C10, C23] kept: old(fsHas[pjoin(path, fileName)]) ==> fsHas[pjoin(path, fileName)] && (fsData[pjoin(path, fileName)] == old(fsData[pjoin(path, fileName)]) || fsData[pjoin(path, fileName)] == blob(buff))
  crash [C09, C06, C10, C23] whole: fsHas[pjoin(path, fileName)] && !old(fsHas[pjoin(path, fileName)]) ==> fsData[pjoin(path, fileName)] == blob(buff)
  crash [C09] others: forall q string :: {fsHas[q]} {fsData[q]} q != pjoin(path, fileName) && !(exists s string :: {fileName + s} pbase(q) == fileName + s) && old(fsHas[q]) ==> fsHas[q] && fsData[q] == old(fsData[q])
  crash [C06, C10, C23] names: forall q string :: {fsHas[q]} {fsData[q]} q != pjoin(path, fileName) && !helperName(pbase(q)) ==> fsHas[q] == old(fsHas[q]) && fsData[q] == old(fsData[q])
  ensures [C09, C06, C10, C23] written: err == nil ==> fsHas[pjoin(path, fileName)] && fsData[pjoin(path, fileName)] == blob(buff)
  ensures [C09, C06, C10, C23] kept: old(fsHas[pjoin(path, fileName)]) ==> fsHas[pjoin(path, fileName)] && (fsData[pjoin(path, fileName)] == old(fsData[pjoin(path, fileName)]) || fsData[pjoin(path, fileName)] == blob(buff))
  ensures [C09, C06, C10, C23] whole: fsHas[pjoin(path, fileName)] && !old(fsHas[pjoin(path, fileName)]) ==> fsData[pjoin(path, fileName)] == blob(buff)
  ensures [C09] others: forall q string :: {fsHas[q]} {fsData[q]} q != pjoin(path, fileName) && !(exists s string :: {fileName + s} pbase(q) == fileName + s) && old(fsHas[q]) ==> fsHas[q] && fsData[q] == old(fsData[q])
  ensures [C06, C07, C10, C23] names: forall q string :: {fsHas[q]} {fsData[q]} q != pjoin(path, fileName) && !helperName(pbase(q)) ==> fsHas[q] == old(fsHas[q]) && fsData[q] == old(fsData[q])
  ensures [C09, C06, C10] helpers: err == nil ==> (forall q string :: {fsHas[q]} q != pjoin(path, fileName) && fsHas[q] ==> old(fsHas[q]) && fsData[q] == old(fsData[q]))
