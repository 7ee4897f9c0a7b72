// The file system and the library functions that reach it. Paths are strings;
// fsHas/fsData describe the regular files. Directories are created on demand
// and are not modelled otherwise. Every other process is assumed to stay out of
// the store's folder; existing files are readable.

ghost fsHas arr(string, bool)
ghost fsData arr(string, Blob)

// pjoin(dir, name): the path of name in dir. plain(n): n is a single path
// component (not empty, no separator, not "." or "..").
fun pjoin(a string, b string) string
fun pclean(a string) string
fun pdir(p string) string
fun pbase(p string) string
fun plain(n string) bool
// nosep(s): s has no separator. helperName(n): n has a percent sign that is not
// followed by two hexadecimal digits; badesc(s): so do all names ending in s.
// (The values on the string constants of the program are supplied by gover.)
fun nosep(s string) bool
fun badesc(s string) bool
fun helperName(n string) bool
axiom path_parts (a string, b string) :: {pjoin(a, b)} plain(b) ==> pdir(pjoin(a, b)) == pclean(a) && pbase(pjoin(a, b)) == b
axiom path_suffix (a string, b string, s string) :: {pjoin(a, b) + s} plain(b) && nosep(s) ==> pjoin(a, b) + s == pjoin(a, b + s)
axiom plain_suffix (n string, s string) :: {n + s} plain(n) && nosep(s) && s != "." && s != ".." ==> plain(n + s)
axiom helper_suffix (n string, s string) :: {n + s} badesc(s) ==> helperName(n + s)
axiom suffix_differs (n string, s string) :: {n + s} s != "" ==> n + s != n

extern path/filepath.Join(elem) returns (r)
  pure
  ensures len(elem) == 2 ==> r == pjoin(elem[0], elem[1])
  ensures len(elem) == 3 ==> r == pjoin(pjoin(elem[0], elem[1]), elem[2])
  ensures len(elem) == 4 ==> r == pjoin(pjoin(pjoin(elem[0], elem[1]), elem[2]), elem[3])

extern fmt.Errorf(format, a) returns (r)
  ensures r != nil

// writing is not atomic: the file may hold anything while it runs
extern os.WriteFile(name, data, perm) returns (err)
  modifies ghostat(fsHas, name), ghostat(fsData, name)
  mid true
  ensures err == nil ==> fsHas[name] && fsData[name] == blob(data)

// renaming replaces the target in one step
extern os.Rename(oldpath, newpath) returns (err)
  modifies ghostat(fsHas, oldpath), ghostat(fsData, oldpath), ghostat(fsHas, newpath), ghostat(fsData, newpath)
  ensures err == nil ==> old(fsHas[oldpath]) && fsHas[newpath] && fsData[newpath] == old(fsData[oldpath])
  ensures err == nil && oldpath != newpath ==> !fsHas[oldpath]
  ensures err != nil ==> fsHas[oldpath] == old(fsHas[oldpath]) && fsData[oldpath] == old(fsData[oldpath]) && fsHas[newpath] == old(fsHas[newpath]) && fsData[newpath] == old(fsData[newpath])

extern os.Remove(name) returns (err)
  modifies ghostat(fsHas, name), ghostat(fsData, name)
  ensures err == nil ==> !fsHas[name]
  ensures err != nil ==> fsHas[name] == old(fsHas[name]) && fsData[name] == old(fsData[name])

extern os.ReadFile(name) returns (r, err)
  ensures err == nil <==> fsHas[name]
  ensures err == nil ==> blob(r) == fsData[name]

extern os.Stat(name) returns (r, err)
  ensures os_missing(err) <==> !fsHas[name]
fun os_missing(e error) bool
extern os.IsNotExist(err) returns (r)
  pure
  ensures r <==> os_missing(err)

extern os.MkdirAll(path, perm) returns (err)

// open files: fpath names the file
ghost fpath arr(int, string)
fun bempty() Blob
fun bcat(a Blob, b Blob) Blob
axiom fs_cat (b Blob) :: {bcat(bempty(), b)} bcat(bempty(), b) == b

extern os.Create(name) returns (f, err)
  modifies ghostat(fsHas, name), ghostat(fsData, name), ghostif(fpath, x, !old(allocated(x)))
  mid fsHas[name] && fsData[name] == bempty() || fsHas[name] == old(fsHas[name]) && fsData[name] == old(fsData[name])
  ensures err == nil ==> f != nil && fresh(f) && fpath[ref(f)] == name && fsHas[name] && fsData[name] == bempty()
  ensures err != nil ==> fsHas[name] == old(fsHas[name]) && fsData[name] == old(fsData[name])

// flags: 577/578 create or truncate, 193/194 create only, 1089/1090 append
extern os.OpenFile(name, flag, perm) returns (f, err)
  modifies ghostat(fsHas, name), ghostat(fsData, name), ghostif(fpath, x, !old(allocated(x)))
  ensures err == nil ==> f != nil && fresh(f) && fpath[ref(f)] == name
  ensures err == nil && (flag == 577 || flag == 578) ==> fsHas[name] && fsData[name] == bempty()
  ensures err == nil && (flag == 193 || flag == 194) ==> !old(fsHas[name]) && fsHas[name] && fsData[name] == bempty()
  ensures err == nil && (flag == 1089 || flag == 1090) ==> fsHas[name] && fsData[name] == (old(fsHas[name]) ? old(fsData[name]) : bempty())
  ensures flag == 0 || err != nil ==> fsHas[name] == old(fsHas[name]) && fsData[name] == old(fsData[name])

extern os.CreateTemp(dir, pattern) returns (f, err)
  modifies ghostif(fsHas, q, !old(fsHas[q])), ghostif(fsData, q, !old(fsHas[q])), ghostif(fpath, x, !old(allocated(x)))
  ensures err == nil ==> f != nil && fresh(f) && !old(fsHas[fpath[ref(f)]]) && fsHas[fpath[ref(f)]] && fsData[fpath[ref(f)]] == bempty() && pdir(fpath[ref(f)]) == pclean(dir) && plain(pbase(fpath[ref(f)])) && pjoin(dir, pbase(fpath[ref(f)])) == fpath[ref(f)]
  ensures forall q string :: {fsHas[q]} err != nil || q != fpath[ref(f)] ==> fsHas[q] == old(fsHas[q]) && fsData[q] == old(fsData[q])

extern (*os.File).Name(f) returns (r)
  pure
  ensures r == fpath[ref(f)]
extern (*os.File).Write(f, b) returns (n, err)
  requires f != nil
  modifies ghostat(fsData, fpath[ref(f)])
  mid true
  ensures err == nil ==> n == len(b) && fsData[fpath[ref(f)]] == bcat(old(fsData[fpath[ref(f)]]), blob(b))
extern (*os.File).Sync(f) returns (err)
  requires f != nil
extern (*os.File).Close(f) returns (err)
extern (*os.File).Chmod(f, mode) returns (err)
