// C08: encoding and decoding records

macro fits32(n) = -2147483648 <= n && n < 2147483648

// ---- the totals of a field: one table with a name and two numbers
macro fsOK(B) = fbTab(B, fbTo(B, 0))
macro fsName(B) = tbStr(B, fbTo(B, 0), 4)
macro fsSize(B) = tbI32(B, fbTo(B, 0), 6)
macro fsLength(B) = tbI32(B, fbTo(B, 0), 8)

func storage.SerializeFieldSizeLength(name, size, length) returns (r)
  modifies ghostif(fbFinal, x, !old(allocated(x))), ghostif(fbDone, x, !old(allocated(x))), ghostif(fbOpen, x, !old(allocated(x))), ghostif(fbCur, x, !old(allocated(x))), ghostif(fbSlots, x, !old(allocated(x))), ghostif(fbAdded, x, !old(allocated(x)))
  ensures [C08, C06] encoded: fsOK(blob(r)) && fsName(blob(r)) == name && fsSize(blob(r)) == size && fsLength(blob(r)) == length

func storage.DeserializeFieldSizeLength(buf) returns (name, size, length)
  requires fsOK(blob(buf))
  ensures [C08, C07] dname: name == fsName(blob(buf))
  ensures [C08, C07] dsize: size == fsSize(blob(buf))
  ensures [C08, C07] dlength: length == fsLength(blob(buf))

// ---- keyed vectors: slot v of the table at p is a vector of tables whose
// first slot is a key; no key occurs twice
fun kvN(B Blob, p int, v int) int
fun kvTab(B Blob, p int, v int, j int) int
fun kvKey(B Blob, p int, v int, j int) string
fun kvHas(B Blob, p int, v int, t string) bool
fun kvIdx(B Blob, p int, v int, t string) int
fun kvKeyOf(B Blob, p int) string
fun kvVec(B Blob, p int, v int) int
axiom kv_vec (B Blob, p int, v int) :: {kvVec(B, p, v)} kvVec(B, p, v) == tbTo(B, p, v)
axiom kv_len (B Blob, p int, v int) :: {kvN(B, p, v)} kvN(B, p, v) == (tbHas(B, p, v) ? fbLen(B, kvVec(B, p, v)) : 0)
axiom kv_tab (B Blob, p int, v int, j int) :: {kvTab(B, p, v, j)} {fbEl(B, kvVec(B, p, v), j)} kvTab(B, p, v, j) == fbEl(B, kvVec(B, p, v), j) && kvKey(B, p, v, j) == kvKeyOf(B, kvTab(B, p, v, j))
axiom kv_keyof (B Blob, p int) :: {kvKeyOf(B, p)} kvKeyOf(B, p) == tbStr(B, p, 4)
axiom kv_key (B Blob, p int, v int, j int) :: {kvKey(B, p, v, j)} kvKey(B, p, v, j) == kvKeyOf(B, kvTab(B, p, v, j))
axiom kv_has (B Blob, p int, v int, j int) :: {kvKey(B, p, v, j)} 0 <= j && j < kvN(B, p, v) ==> kvHas(B, p, v, kvKey(B, p, v, j))
axiom kv_idx (B Blob, p int, v int, t string) :: {kvHas(B, p, v, t)} {kvIdx(B, p, v, t)} kvHas(B, p, v, t) ==> 0 <= kvIdx(B, p, v, t) && kvIdx(B, p, v, t) < kvN(B, p, v) && kvKey(B, p, v, kvIdx(B, p, v, t)) == t
macro kvOK(B, p, v) = fbTab(B, p) && tbVecOK(B, p, v) && (forall j int :: {kvTab(B, p, v, j)} 0 <= j && j < kvN(B, p, v) ==> fbTab(B, kvTab(B, p, v, j))) &&
   (forall i int, j int :: {kvKey(B, p, v, i), kvKey(B, p, v, j)} 0 <= i && i < j && j < kvN(B, p, v) ==> kvKey(B, p, v, i) != kvKey(B, p, v, j))
macro kvAt(B, p, v, t) = kvTab(B, p, v, kvIdx(B, p, v, t))
macro kvVal(B, p, v, t) = tbI32(B, kvAt(B, p, v, t), 6)

// ---- the per-term document counts of a field
macro nfOK(B) = kvOK(B, fbTo(B, 0), 4)
macro nfHas(B, t) = kvHas(B, fbTo(B, 0), 4, t)
macro nfVal(B, t) = kvVal(B, fbTo(B, 0), 4, t)

func storage.DeserializeNumberFieldTerm(buf) returns (r)
  requires nfOK(blob(buf))
  ensures [C08, C06, C07] new: r != nil && fresh(r)
  ensures [C08, C06, C07] keys: forall t string :: {t in r} {kvHas(blob(buf), fbTo(blob(buf), 0), 4, t)} t in r <==> nfHas(blob(buf), t)
  ensures [C08, C06, C07] values: forall t string :: {r[t]} t in r ==> r[t] == nfVal(blob(buf), t)
  inv (m map[string]int) :: m != nil
  inv (i iter) :: kvTab(blob(buf), fbTo(blob(buf), 0), 4, i) == tbElem(blob(buf), fbTo(blob(buf), 0), 4, i) && kvKey(blob(buf), fbTo(blob(buf), 0), 4, i) == kvKeyOf(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, i))
  inv (m map[string]int, i iter) :: forall t string :: {t in m} {kvHas(blob(buf), fbTo(blob(buf), 0), 4, t)} t in m <==> nfHas(blob(buf), t) && kvIdx(blob(buf), fbTo(blob(buf), 0), 4, t) < i
  inv (m map[string]int, i iter) :: forall t string :: {m[t]} t in m ==> m[t] == nfVal(blob(buf), t)

// loops of the encoders: b is the builder, o the offsets written so far
macro fbQuiet(b) = b != nil && !fbDone[ref(b)] && fbOpen[ref(b)] == 0
func storage.SerializeNumberFieldTerm(data) returns (r)
  modifies ghostif(fbFinal, x, !old(allocated(x))), ghostif(fbDone, x, !old(allocated(x))), ghostif(fbOpen, x, !old(allocated(x))), ghostif(fbCur, x, !old(allocated(x))), ghostif(fbSlots, x, !old(allocated(x))), ghostif(fbAdded, x, !old(allocated(x))), ghostif(fbLeft, x, !old(allocated(x))), ghostif(fbSize, x, !old(allocated(x)))
  ensures [C08, C06] ok: nfOK(blob(r))
  ensures [C08, C06] keys: forall t string :: {kvHas(blob(r), fbTo(blob(r), 0), 4, t)} {t in data} nfHas(blob(r), t) <==> t in data
  ensures [C08, C06] values: forall t string :: {data[t]} {kvIdx(blob(r), fbTo(blob(r), 0), 4, t)} t in data && fits32(data[t]) ==> nfVal(blob(r), t) == data[t]
  inv (b *github.com/google/flatbuffers/go.Builder) :: !old(allocated(ref(b)))
  inv (b *github.com/google/flatbuffers/go.Builder) :: fbQuiet(b)
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v visited string) :: forall i int :: {o[i]} 0 <= i && i < len(o) ==> fbNode(fbB(b), o[i]) && fbTab(fbB(b), fbPos(fbB(b), o[i])) && kvKeyOf(fbB(b), fbPos(fbB(b), o[i])) in v && (fits32(data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))]) ==> tbI32(fbB(b), fbPos(fbB(b), o[i]), 6) == data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))])
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v visited string) :: forall i int, j int :: {o[i], o[j]} 0 <= i && i < j && j < len(o) ==> kvKeyOf(fbB(b), fbPos(fbB(b), o[i])) != kvKeyOf(fbB(b), fbPos(fbB(b), o[j]))
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v visited string) :: forall t string :: {t in v} t in v ==> (exists i int :: {o[i]} 0 <= i && i < len(o) && kvKeyOf(fbB(b), fbPos(fbB(b), o[i])) == t)
  inv (b *github.com/google/flatbuffers/go.Builder) :: b != nil && !fbDone[ref(b)] && fbOpen[ref(b)] == 2
  inv (b *github.com/google/flatbuffers/go.Builder, i iter) :: fbLeft[ref(b)] == i + 1
  inv (b *github.com/google/flatbuffers/go.Builder, i iter) :: fbLeft[ref(b)] == fbSize[ref(b)] - i
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT) :: fbSize[ref(b)] == len(o)
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT) :: forall k int :: {fbEl(fbB(b), fbCur[ref(b)], k)} {o[k]} fbLeft[ref(b)] <= k && k < len(o) ==> fbEl(fbB(b), fbCur[ref(b)], k) == fbPos(fbB(b), o[k])

// the table in the second slot of a table
fun tb6(B Blob, p int) int
axiom tb6_def (B Blob, p int) :: {tb6(B, p)} tb6(B, p) == tbTo(B, p, 6)

// ---- the fields of a document: a keyed vector of (name, record)
macro fmOK(B) = kvOK(B, fbTo(B, 0), 4) && (forall j int :: {kvTab(B, fbTo(B, 0), 4, j)} 0 <= j && j < kvN(B, fbTo(B, 0), 4) ==> tbHas(B, kvTab(B, fbTo(B, 0), 4, j), 6) && kvOK(B, tb6(B, kvTab(B, fbTo(B, 0), 4, j)), 8))
macro fmHas(B, f) = kvHas(B, fbTo(B, 0), 4, f)
macro fmFld(B, f) = tb6(B, kvAt(B, fbTo(B, 0), 4, f))
macro fmName(B, f) = tbStr(B, fmFld(B, f), 4)
macro fmLen(B, f) = tbI32(B, fmFld(B, f), 6)
macro fmTF(B, f, t) = kvHas(B, fmFld(B, f), 8, t)
macro fmTFVal(B, f, t) = kvVal(B, fmFld(B, f), 8, t)

func storage.DeserializeFieldMap(buf) returns (r)
  requires fmOK(blob(buf))
  ensures new: r != nil && fresh(r)
  ensures [C08, C05, C06, C07, C23, C24] fields: forall f string :: {f in r} {kvHas(blob(buf), fbTo(blob(buf), 0), 4, f)} f in r <==> fmHas(blob(buf), f)
  ensures [C08, C05, C06, C07, C24] values: forall f string :: {r[f]} f in r ==> r[f].Name == fmName(blob(buf), f) && r[f].Length == fmLen(blob(buf), f) && r[f].TF != nil && fresh(r[f].TF)
  ensures [C08, C05, C06, C07, C24] terms: forall f string, t string :: {t in r[f].TF} f in r ==> (t in r[f].TF <==> fmTF(blob(buf), f, t))
  ensures [C08, C05, C06, C07, C24] counts: forall f string, t string :: {r[f].TF[t]} f in r && t in r[f].TF ==> r[f].TF[t] == fmTFVal(blob(buf), f, t)
  inv (m map[string]model.Field) :: m != nil
  inv (i iter) :: kvTab(blob(buf), fbTo(blob(buf), 0), 4, i) == tbElem(blob(buf), fbTo(blob(buf), 0), 4, i) && kvKey(blob(buf), fbTo(blob(buf), 0), 4, i) == kvKeyOf(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, i))
  inv (m map[string]model.Field, i iter) :: forall f string :: {f in m} {kvHas(blob(buf), fbTo(blob(buf), 0), 4, f)} f in m <==> fmHas(blob(buf), f) && kvIdx(blob(buf), fbTo(blob(buf), 0), 4, f) < i
  inv (m map[string]model.Field, i outerit) :: forall f string :: {f in m} {kvHas(blob(buf), fbTo(blob(buf), 0), 4, f)} f in m <==> fmHas(blob(buf), f) && kvIdx(blob(buf), fbTo(blob(buf), 0), 4, f) < i
  inv (m map[string]model.Field) :: forall f string :: {m[f]} f in m ==> m[f].Name == fmName(blob(buf), f) && m[f].Length == fmLen(blob(buf), f) && m[f].TF != nil && fresh(m[f].TF)
  inv (m map[string]model.Field) :: forall f string, t string :: {t in m[f].TF} f in m ==> (t in m[f].TF <==> fmTF(blob(buf), f, t))
  inv (m map[string]model.Field) :: forall f string, t string :: {m[f].TF[t]} f in m && t in m[f].TF ==> m[f].TF[t] == fmTFVal(blob(buf), f, t)
  inv (m map[string]model.Field, x map[string]int) :: x != nil && (forall f string :: {m[f]} f in m ==> m[f].TF != x)
  inv (m map[string]model.Field, x model.Field) :: x.TF != nil && (forall f string :: {m[f]} f in m ==> m[f].TF != x.TF)
  inv (m map[string]int, i iter, k outerit) :: kvTab(blob(buf), tb6(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)), 8, i) == tbElem(blob(buf), tb6(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)), 8, i) && kvTab(blob(buf), fbTo(blob(buf), 0), 4, k) == kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)
  inv (m map[string]int, i iter, k outerit) :: forall t string :: {t in m} {kvHas(blob(buf), tb6(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)), 8, t)} t in m <==> kvHas(blob(buf), tb6(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)), 8, t) && kvIdx(blob(buf), tb6(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)), 8, t) < i
  inv (m map[string]int, k outerit) :: forall t string :: {m[t]} t in m ==> m[t] == kvVal(blob(buf), tb6(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)), 8, t)
  inv (x model.Field, i iter, k outerit) :: kvTab(blob(buf), tb6(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)), 8, i) == tbElem(blob(buf), tb6(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)), 8, i) && kvTab(blob(buf), fbTo(blob(buf), 0), 4, k) == kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)
  inv (x model.Field, i iter, k outerit) :: forall t string :: {t in x.TF} {kvHas(blob(buf), tb6(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)), 8, t)} t in x.TF <==> kvHas(blob(buf), tb6(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)), 8, t) && kvIdx(blob(buf), tb6(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)), 8, t) < i
  inv (x model.Field, k outerit) :: forall t string :: {x.TF[t]} t in x.TF ==> x.TF[t] == kvVal(blob(buf), tb6(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)), 8, t)

macro fieldOf(B, p) = tb6(B, p)
func storage.SerializeFieldMap(data) returns (r)
  modifies ghostif(fbFinal, x, !old(allocated(x))), ghostif(fbDone, x, !old(allocated(x))), ghostif(fbOpen, x, !old(allocated(x))), ghostif(fbCur, x, !old(allocated(x))), ghostif(fbSlots, x, !old(allocated(x))), ghostif(fbAdded, x, !old(allocated(x))), ghostif(fbLeft, x, !old(allocated(x))), ghostif(fbSize, x, !old(allocated(x)))
  ensures [C08, C06, C23] ok: fmOK(blob(r))
  ensures [C08, C06] fields: forall f string :: {kvHas(blob(r), fbTo(blob(r), 0), 4, f)} {f in data} fmHas(blob(r), f) <==> f in data
  ensures [C08, C06] names: forall f string :: {data[f]} {kvIdx(blob(r), fbTo(blob(r), 0), 4, f)} f in data ==> fmName(blob(r), f) == data[f].Name
  ensures [C08, C06] lengths: forall f string :: {data[f]} {kvIdx(blob(r), fbTo(blob(r), 0), 4, f)} f in data && fits32(data[f].Length) ==> fmLen(blob(r), f) == data[f].Length
  ensures [C08, C06] terms: forall f string, t string :: {t in data[f].TF} {kvHas(blob(r), fmFld(blob(r), f), 8, t)} f in data ==> (fmTF(blob(r), f, t) <==> t in data[f].TF)
  ensures [C08, C06] counts: forall f string, t string :: {data[f].TF[t]} {kvIdx(blob(r), fmFld(blob(r), f), 8, t)} f in data && t in data[f].TF && fits32(data[f].TF[t]) ==> fmTFVal(blob(r), f, t) == data[f].TF[t]
  inv (b *github.com/google/flatbuffers/go.Builder) :: !old(allocated(ref(b)))
  inv (b *github.com/google/flatbuffers/go.Builder) :: fbQuiet(b)
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v visited string) :: forall i int :: {o[i]} 0 <= i && i < len(o) ==> fbNode(fbB(b), o[i]) && fbTab(fbB(b), fbPos(fbB(b), o[i])) && kvKeyOf(fbB(b), fbPos(fbB(b), o[i])) in v && tbHas(fbB(b), fbPos(fbB(b), o[i]), 6) && kvOK(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), 8)
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v visited string) :: forall i int :: {o[i]} 0 <= i && i < len(o) ==> tbStr(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), 4) == data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].Name
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v visited string) :: forall i int :: {o[i]} 0 <= i && i < len(o) && fits32(data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].Length) ==> tbI32(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), 6) == data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].Length
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v visited string) :: forall i int, t string :: {o[i], kvHas(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), 8, t)} {o[i], t in data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].TF} 0 <= i && i < len(o) ==> (kvHas(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), 8, t) <==> t in data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].TF)
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v visited string) :: forall i int, t string :: {o[i], kvIdx(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), 8, t)} {o[i], data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].TF[t]} 0 <= i && i < len(o) && t in data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].TF && fits32(data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].TF[t]) ==> kvVal(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), 8, t) == data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].TF[t]
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v visited string) :: forall i int, j int :: {o[i], o[j]} 0 <= i && i < j && j < len(o) ==> kvKeyOf(fbB(b), fbPos(fbB(b), o[i])) != kvKeyOf(fbB(b), fbPos(fbB(b), o[j]))
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v visited string) :: forall t string :: {t in v} t in v ==> (exists i int :: {o[i]} 0 <= i && i < len(o) && kvKeyOf(fbB(b), fbPos(fbB(b), o[i])) == t)
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v visited string, m ranged map[string]int) :: forall i int :: {o[i]} 0 <= i && i < len(o) ==> fbNode(fbB(b), o[i]) && fbTab(fbB(b), fbPos(fbB(b), o[i])) && kvKeyOf(fbB(b), fbPos(fbB(b), o[i])) in v && (fits32(m[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))]) ==> tbI32(fbB(b), fbPos(fbB(b), o[i]), 6) == m[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))])
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v outervis string) :: forall i int :: {o[i]} 0 <= i && i < len(o) ==> fbNode(fbB(b), o[i]) && fbTab(fbB(b), fbPos(fbB(b), o[i])) && kvKeyOf(fbB(b), fbPos(fbB(b), o[i])) in v && tbHas(fbB(b), fbPos(fbB(b), o[i]), 6) && kvOK(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), 8)
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v outervis string) :: forall i int :: {o[i]} 0 <= i && i < len(o) ==> tbStr(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), 4) == data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].Name
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v outervis string) :: forall i int :: {o[i]} 0 <= i && i < len(o) && fits32(data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].Length) ==> tbI32(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), 6) == data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].Length
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v outervis string) :: forall i int, t string :: {o[i], kvHas(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), 8, t)} {o[i], t in data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].TF} 0 <= i && i < len(o) ==> (kvHas(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), 8, t) <==> t in data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].TF)
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v outervis string) :: forall i int, t string :: {o[i], kvIdx(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), 8, t)} {o[i], data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].TF[t]} 0 <= i && i < len(o) && t in data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].TF && fits32(data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].TF[t]) ==> kvVal(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), 8, t) == data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))].TF[t]
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v outervis string) :: forall i int, j int :: {o[i], o[j]} 0 <= i && i < j && j < len(o) ==> kvKeyOf(fbB(b), fbPos(fbB(b), o[i])) != kvKeyOf(fbB(b), fbPos(fbB(b), o[j]))
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v outervis string) :: forall t string :: {t in v} t in v ==> (exists i int :: {o[i]} 0 <= i && i < len(o) && kvKeyOf(fbB(b), fbPos(fbB(b), o[i])) == t)
  inv (b *github.com/google/flatbuffers/go.Builder) :: b != nil && !fbDone[ref(b)] && fbOpen[ref(b)] == 2
  inv (b *github.com/google/flatbuffers/go.Builder, i iter) :: fbLeft[ref(b)] == i + 1
  inv (b *github.com/google/flatbuffers/go.Builder, i iter) :: fbLeft[ref(b)] == fbSize[ref(b)] - i
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT) :: fbSize[ref(b)] == len(o)
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT) :: forall k int :: {fbEl(fbB(b), fbCur[ref(b)], k)} {o[k]} fbLeft[ref(b)] <= k && k < len(o) ==> fbEl(fbB(b), fbCur[ref(b)], k) == fbPos(fbB(b), o[k])

// ---- posting index: a keyed vector of (term, table with a vector of document ids)
fun svVec(B Blob, p int) int
fun svN(B Blob, p int) int
axiom sv_vec (B Blob, p int) :: {svVec(B, p)} svVec(B, p) == tbTo(B, p, 4)
axiom sv_len (B Blob, p int) :: {svN(B, p)} svN(B, p) == (tbHas(B, p, 4) ? fbLen(B, svVec(B, p)) : 0)
fun svStr(B Blob, p int, j int) string
fun svHas(B Blob, p int, x string) bool
fun svIdx(B Blob, p int, x string) int
axiom sv_str (B Blob, p int, j int) :: {svStr(B, p, j)} {fbEl(B, svVec(B, p), j)} svStr(B, p, j) == blobstr(fbBytes(B, fbEl(B, svVec(B, p), j)))
axiom sv_has (B Blob, p int, j int) :: {svStr(B, p, j)} 0 <= j && j < svN(B, p) ==> svHas(B, p, svStr(B, p, j))
axiom sv_idx (B Blob, p int, x string) :: {svHas(B, p, x)} svHas(B, p, x) ==> 0 <= svIdx(B, p, x) && svIdx(B, p, x) < svN(B, p) && svStr(B, p, svIdx(B, p, x)) == x
macro ixOK(B) = kvOK(B, fbTo(B, 0), 4) && (forall j int :: {kvTab(B, fbTo(B, 0), 4, j)} 0 <= j && j < kvN(B, fbTo(B, 0), 4) ==> tbHas(B, kvTab(B, fbTo(B, 0), 4, j), 6) && fbTab(B, tb6(B, kvTab(B, fbTo(B, 0), 4, j))) && tbVecOK(B, tb6(B, kvTab(B, fbTo(B, 0), 4, j)), 4))
macro ixTerm(B, t) = kvHas(B, fbTo(B, 0), 4, t)
macro ixDoc(B, t) = tb6(B, kvAt(B, fbTo(B, 0), 4, t))
macro ixHas(B, t, x) = svHas(B, ixDoc(B, t), x)

func storage.DeserializeIndex(buf) returns (r)
  requires ixOK(blob(buf))
  ensures [C08, C07, C10] new: r != nil && fresh(r)
  ensures [C08, C07, C10] terms: forall t string :: {t in r} {kvHas(blob(buf), fbTo(blob(buf), 0), 4, t)} t in r <==> ixTerm(blob(buf), t)
  ensures [C08, C07, C10] sets: forall t string, x string :: {x in r[t]} {svHas(blob(buf), ixDoc(blob(buf), t), x)} t in r ==> (x in r[t] <==> ixHas(blob(buf), t, x))
  ensures [C08, C07, C10] marks: forall t string, x string :: {r[t][x]} t in r && x in r[t] ==> r[t][x]
  ensures [C08, C07, C10] own: forall t string, u string :: {r[t], r[u]} t in r && u in r && t != u ==> r[t] != r[u]
  ensures [C08, C07, C10] fresh: forall t string :: {r[t]} t in r ==> r[t] != nil && fresh(r[t])
  inv (m map[string]map[string]bool) :: m != nil
  inv (i iter) :: kvTab(blob(buf), fbTo(blob(buf), 0), 4, i) == tbElem(blob(buf), fbTo(blob(buf), 0), 4, i) && kvKey(blob(buf), fbTo(blob(buf), 0), 4, i) == kvKeyOf(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, i))
  inv (m map[string]map[string]bool, i iter) :: forall f string :: {f in m} {kvHas(blob(buf), fbTo(blob(buf), 0), 4, f)} f in m <==> ixTerm(blob(buf), f) && kvIdx(blob(buf), fbTo(blob(buf), 0), 4, f) < i
  inv (m map[string]map[string]bool, i outerit) :: forall f string :: {f in m} {kvHas(blob(buf), fbTo(blob(buf), 0), 4, f)} f in m <==> ixTerm(blob(buf), f) && kvIdx(blob(buf), fbTo(blob(buf), 0), 4, f) < i
  inv (m map[string]map[string]bool) :: forall f string :: {m[f]} f in m ==> m[f] != nil && fresh(m[f])
  inv (m map[string]map[string]bool) :: forall f string, x string :: {x in m[f]} {svHas(blob(buf), ixDoc(blob(buf), f), x)} f in m ==> (x in m[f] <==> ixHas(blob(buf), f, x))
  inv (m map[string]map[string]bool) :: forall f string, x string :: {m[f][x]} f in m && x in m[f] ==> m[f][x]
  inv (m map[string]map[string]bool) :: forall f string, g string :: {m[f], m[g]} f in m && g in m && f != g ==> m[f] != m[g]
  inv (m map[string]map[string]bool, x map[string]bool) :: x != nil && (forall f string :: {m[f]} f in m ==> m[f] != x)
  inv (x map[string]bool, i iter, k outerit) :: svStr(blob(buf), tb6(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)), i) == blobstr(fbBytes(blob(buf), fbEl(blob(buf), svVec(blob(buf), tb6(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, k))), i)))
  inv (x map[string]bool, i iter, k outerit) :: forall s string :: {s in x} s in x ==> x[s] && svHas(blob(buf), tb6(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)), s)
  inv (x map[string]bool, i iter, k outerit) :: forall j int :: {svStr(blob(buf), tb6(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)), j)} 0 <= j && j < i ==> svStr(blob(buf), tb6(blob(buf), kvTab(blob(buf), fbTo(blob(buf), 0), 4, k)), j) in x

func storage.SerializeIndex(data) returns (r)
  modifies ghostif(fbFinal, x, !old(allocated(x))), ghostif(fbDone, x, !old(allocated(x))), ghostif(fbOpen, x, !old(allocated(x))), ghostif(fbCur, x, !old(allocated(x))), ghostif(fbSlots, x, !old(allocated(x))), ghostif(fbAdded, x, !old(allocated(x))), ghostif(fbLeft, x, !old(allocated(x))), ghostif(fbSize, x, !old(allocated(x)))
  ensures [C08, C06, C10] ok: ixOK(blob(r))
  ensures [C08, C06, C10] terms: forall t string :: {kvHas(blob(r), fbTo(blob(r), 0), 4, t)} {t in data} ixTerm(blob(r), t) <==> t in data
  ensures [C08, C06, C10] sets: forall t string, x string :: {svHas(blob(r), ixDoc(blob(r), t), x)} {x in data[t]} t in data ==> (ixHas(blob(r), t, x) <==> x in data[t])
  inv (b *github.com/google/flatbuffers/go.Builder) :: !old(allocated(ref(b)))
  inv (b *github.com/google/flatbuffers/go.Builder) :: fbQuiet(b)
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v visited string, m ranged map[string]bool) :: forall i int :: {o[i]} 0 <= i && i < len(o) ==> fbNode(fbB(b), o[i]) && blobstr(fbBytes(fbB(b), fbPos(fbB(b), o[i]))) in v
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v visited string, m ranged map[string]bool) :: forall x string :: {x in v} x in v ==> (exists i int :: {o[i]} 0 <= i && i < len(o) && blobstr(fbBytes(fbB(b), fbPos(fbB(b), o[i]))) == x)
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v visited string) :: forall i int :: {o[i]} 0 <= i && i < len(o) ==> fbNode(fbB(b), o[i]) && fbTab(fbB(b), fbPos(fbB(b), o[i])) && kvKeyOf(fbB(b), fbPos(fbB(b), o[i])) in v && tbHas(fbB(b), fbPos(fbB(b), o[i]), 6) && fbTab(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i]))) && tbVecOK(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), 4)
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v visited string) :: forall i int, x string :: {o[i], svHas(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), x)} {o[i], x in data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))]} 0 <= i && i < len(o) ==> (svHas(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), x) <==> x in data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))])
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v visited string) :: forall i int, j int :: {o[i], o[j]} 0 <= i && i < j && j < len(o) ==> kvKeyOf(fbB(b), fbPos(fbB(b), o[i])) != kvKeyOf(fbB(b), fbPos(fbB(b), o[j]))
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v visited string) :: forall t string :: {t in v} t in v ==> (exists i int :: {o[i]} 0 <= i && i < len(o) && kvKeyOf(fbB(b), fbPos(fbB(b), o[i])) == t)
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v outervis string) :: forall i int :: {o[i]} 0 <= i && i < len(o) ==> fbNode(fbB(b), o[i]) && fbTab(fbB(b), fbPos(fbB(b), o[i])) && kvKeyOf(fbB(b), fbPos(fbB(b), o[i])) in v && tbHas(fbB(b), fbPos(fbB(b), o[i]), 6) && fbTab(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i]))) && tbVecOK(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), 4)
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v outervis string) :: forall i int, x string :: {o[i], svHas(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), x)} {o[i], x in data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))]} 0 <= i && i < len(o) ==> (svHas(fbB(b), fieldOf(fbB(b), fbPos(fbB(b), o[i])), x) <==> x in data[kvKeyOf(fbB(b), fbPos(fbB(b), o[i]))])
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v outervis string) :: forall i int, j int :: {o[i], o[j]} 0 <= i && i < j && j < len(o) ==> kvKeyOf(fbB(b), fbPos(fbB(b), o[i])) != kvKeyOf(fbB(b), fbPos(fbB(b), o[j]))
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT, v outervis string) :: forall t string :: {t in v} t in v ==> (exists i int :: {o[i]} 0 <= i && i < len(o) && kvKeyOf(fbB(b), fbPos(fbB(b), o[i])) == t)
  inv (b *github.com/google/flatbuffers/go.Builder) :: b != nil && !fbDone[ref(b)] && fbOpen[ref(b)] == 2
  inv (b *github.com/google/flatbuffers/go.Builder, i iter) :: fbLeft[ref(b)] == i + 1
  inv (b *github.com/google/flatbuffers/go.Builder, i iter) :: fbLeft[ref(b)] == fbSize[ref(b)] - i
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT) :: fbSize[ref(b)] == len(o)
  inv (b *github.com/google/flatbuffers/go.Builder, o []github.com/google/flatbuffers/go.UOffsetT) :: forall k int :: {fbEl(fbB(b), fbCur[ref(b)], k)} {o[k]} fbLeft[ref(b)] <= k && k < len(o) ==> fbEl(fbB(b), fbCur[ref(b)], k) == fbPos(fbB(b), o[k])
