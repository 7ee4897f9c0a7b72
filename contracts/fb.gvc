// The flatbuffers library. A finished buffer B is read through these functions
// of B and a position; the builder is described by the buffer it will finish
// (fbFinal) and by where in it each offset it returned will be (fbPos): content
// written is never changed afterwards. Buffers stay below 2 GB (the library
// panics beyond that).

fun fbOff(B Blob, p int, v int) int
fun fbI32(B Blob, p int) int
fun fbTo(B Blob, p int) int
fun fbBytes(B Blob, p int) Blob
fun fbLen(B Blob, p int) int
fun fbTab(B Blob, p int) bool
fun fbVec(B Blob, p int) bool
fun fbNode(B Blob, o int) bool
fun fbPos(B Blob, o int) int
fun fbEl(B Blob, q int, j int) int
axiom fb_el (B Blob, q int, j int) :: {fbEl(B, q, j)} fbEl(B, q, j) == fbTo(B, q + 4 + 4 * j)
axiom fb_off (B Blob, p int, v int) :: {fbOff(B, p, v)} 0 <= fbOff(B, p, v) && fbOff(B, p, v) < 65536 && (fbTab(B, p) ==> 0 <= p && p + fbOff(B, p, v) < 2147483648)
axiom fb_len (B Blob, p int) :: {fbLen(B, p)} 0 <= fbLen(B, p) && (fbVec(B, p) ==> 0 <= p && p + 4 + 4 * fbLen(B, p) < 2147483648)
axiom fb_i32 (B Blob, p int) :: {fbI32(B, p)} -2147483648 <= fbI32(B, p) && fbI32(B, p) < 2147483648

// reading
extern github.com/google/flatbuffers/go.GetUOffsetT(buf) returns (r)
  ensures r == fbTo(blob(buf), 0)
extern (*github.com/google/flatbuffers/go.Table).Offset(t, v) returns (r)
  requires fbTab(blob(t.Bytes), t.Pos)
  ensures r == fbOff(blob(t.Bytes), t.Pos, v)
extern (*github.com/google/flatbuffers/go.Table).GetInt32(t, p) returns (r)
  ensures r == fbI32(blob(t.Bytes), p)
extern (*github.com/google/flatbuffers/go.Table).ByteVector(t, p) returns (r)
  ensures blob(r) == fbBytes(blob(t.Bytes), fbTo(blob(t.Bytes), p))
extern (*github.com/google/flatbuffers/go.Table).Vector(t, o) returns (r)
  requires fbVec(blob(t.Bytes), fbTo(blob(t.Bytes), t.Pos + o))
  ensures r == fbTo(blob(t.Bytes), t.Pos + o) + 4
extern (*github.com/google/flatbuffers/go.Table).VectorLen(t, o) returns (r)
  requires fbVec(blob(t.Bytes), fbTo(blob(t.Bytes), t.Pos + o))
  ensures r == fbLen(blob(t.Bytes), fbTo(blob(t.Bytes), t.Pos + o))
extern (*github.com/google/flatbuffers/go.Table).Indirect(t, p) returns (r)
  ensures r == fbTo(blob(t.Bytes), p)

// a field of a table: a string, a number, a table, a vector
macro tbHas(B, p, v) = fbOff(B, p, v) != 0
macro tbAt(B, p, v) = p + fbOff(B, p, v)
macro tbStr(B, p, v) = tbHas(B, p, v) ? blobstr(fbBytes(B, fbTo(B, tbAt(B, p, v)))) : ""
macro tbI32(B, p, v) = tbHas(B, p, v) ? fbI32(B, tbAt(B, p, v)) : 0
macro tbTo(B, p, v) = fbTo(B, tbAt(B, p, v))
macro tbLen(B, p, v) = tbHas(B, p, v) ? fbLen(B, tbTo(B, p, v)) : 0
macro tbElem(B, p, v, j) = fbEl(B, tbTo(B, p, v), j)
macro tbVecOK(B, p, v) = tbHas(B, p, v) ==> fbVec(B, tbTo(B, p, v))

// building: at most one of an object and a vector is open (fbOpen: 0 none, 1
// object, 2 vector), nothing is added once the buffer is finished
ghost fbFinal arr(int, Blob)
ghost fbDone arr(int, bool)
ghost fbOpen arr(int, int)
ghost fbCur arr(int, int)
ghost fbSlots arr(int, int)
ghost fbAdded arr(int, arr(int, bool))
ghost fbLeft arr(int, int)
ghost fbSize arr(int, int)

extern github.com/google/flatbuffers/go.NewBuilder(n) returns (b)
  modifies ghostif(fbFinal, x, !old(allocated(x))), ghostif(fbDone, x, !old(allocated(x))), ghostif(fbOpen, x, !old(allocated(x)))
  ensures b != nil && fresh(b) && !fbDone[ref(b)] && fbOpen[ref(b)] == 0
macro fbIdle(b) = b != nil && !fbDone[ref(b)] && fbOpen[ref(b)] == 0
macro fbB(b) = fbFinal[ref(b)]
macro fbIsOff(o) = 0 < o && o < 2147483648
extern (*github.com/google/flatbuffers/go.Builder).CreateString(b, s) returns (o)
  requires fbIdle(b)
  ensures fbIsOff(o) && fbNode(fbB(b), o) && fbBytes(fbB(b), fbPos(fbB(b), o)) == strblob(s)
extern (*github.com/google/flatbuffers/go.Builder).CreateSharedString(b, s) returns (o)
  requires fbIdle(b)
  ensures fbIsOff(o) && fbNode(fbB(b), o) && fbBytes(fbB(b), fbPos(fbB(b), o)) == strblob(s)
extern (*github.com/google/flatbuffers/go.Builder).CreateByteString(b, s) returns (o)
  requires fbIdle(b)
  ensures fbIsOff(o) && fbNode(fbB(b), o) && fbBytes(fbB(b), fbPos(fbB(b), o)) == blob(s)
extern (*github.com/google/flatbuffers/go.Builder).StartObject(b, n)
  requires fbIdle(b) && 0 <= n
  modifies ghostat(fbOpen, ref(b)), ghostat(fbCur, ref(b)), ghostat(fbSlots, ref(b)), ghostat(fbAdded, ref(b))
  ensures fbOpen[ref(b)] == 1 && fbSlots[ref(b)] == n && (forall i int :: {fbAdded[ref(b)][i]} !fbAdded[ref(b)][i])
macro fbSlotOK(b, k) = b != nil && !fbDone[ref(b)] && fbOpen[ref(b)] == 1 && 0 <= k && k < fbSlots[ref(b)] && !fbAdded[ref(b)][k]
extern (*github.com/google/flatbuffers/go.Builder).PrependInt32Slot(b, k, x, d)
  requires fbSlotOK(b, k)
  modifies ghostat(fbAdded, ref(b))
  ensures forall i int :: {fbAdded[ref(b)][i]} fbAdded[ref(b)][i] <==> old(fbAdded[ref(b)][i]) || i == k
  ensures (fbOff(fbB(b), fbCur[ref(b)], 4 + 2 * k) == 0 <==> x == d) && (x != d ==> fbI32(fbB(b), fbCur[ref(b)] + fbOff(fbB(b), fbCur[ref(b)], 4 + 2 * k)) == x)
extern (*github.com/google/flatbuffers/go.Builder).PrependUOffsetTSlot(b, k, x, d)
  requires fbSlotOK(b, k) && (x == d || fbNode(fbB(b), x))
  modifies ghostat(fbAdded, ref(b))
  ensures forall i int :: {fbAdded[ref(b)][i]} fbAdded[ref(b)][i] <==> old(fbAdded[ref(b)][i]) || i == k
  ensures (fbOff(fbB(b), fbCur[ref(b)], 4 + 2 * k) == 0 <==> x == d) && (x != d ==> fbTo(fbB(b), fbCur[ref(b)] + fbOff(fbB(b), fbCur[ref(b)], 4 + 2 * k)) == fbPos(fbB(b), x))
extern (*github.com/google/flatbuffers/go.Builder).EndObject(b) returns (o)
  requires b != nil && !fbDone[ref(b)] && fbOpen[ref(b)] == 1
  modifies ghostat(fbOpen, ref(b)), ghostat(fbCur, ref(b))
  ensures fbOpen[ref(b)] == 0 && fbIsOff(o) && fbNode(fbB(b), o) && fbPos(fbB(b), o) == old(fbCur[ref(b)]) && fbTab(fbB(b), fbPos(fbB(b), o))
extern (*github.com/google/flatbuffers/go.Builder).StartVector(b, size, n, align) returns (o)
  requires fbIdle(b) && size == 4 && 0 <= n
  modifies ghostat(fbOpen, ref(b)), ghostat(fbCur, ref(b)), ghostat(fbLeft, ref(b)), ghostat(fbSize, ref(b))
  ensures fbOpen[ref(b)] == 2 && fbLeft[ref(b)] == n && fbSize[ref(b)] == n
extern (*github.com/google/flatbuffers/go.Builder).PrependUOffsetT(b, x)
  requires b != nil && !fbDone[ref(b)] && fbOpen[ref(b)] == 2 && fbLeft[ref(b)] > 0 && fbNode(fbB(b), x)
  modifies ghostat(fbLeft, ref(b))
  ensures fbLeft[ref(b)] == old(fbLeft[ref(b)]) - 1 && fbEl(fbB(b), fbCur[ref(b)], fbLeft[ref(b)]) == fbPos(fbB(b), x)
extern (*github.com/google/flatbuffers/go.Builder).EndVector(b, n) returns (o)
  requires b != nil && !fbDone[ref(b)] && fbOpen[ref(b)] == 2 && fbLeft[ref(b)] == 0 && n == fbSize[ref(b)]
  modifies ghostat(fbOpen, ref(b)), ghostat(fbCur, ref(b))
  ensures fbOpen[ref(b)] == 0 && fbIsOff(o) && fbNode(fbB(b), o) && fbPos(fbB(b), o) == old(fbCur[ref(b)]) && fbVec(fbB(b), fbPos(fbB(b), o)) && fbLen(fbB(b), fbPos(fbB(b), o)) == n
extern (*github.com/google/flatbuffers/go.Builder).CreateVectorOfTables(b, offs) returns (o)
  requires fbIdle(b) && (forall i int :: {offs[i]} 0 <= i && i < len(offs) ==> fbNode(fbB(b), offs[i]))
  ensures fbIsOff(o) && fbNode(fbB(b), o) && fbVec(fbB(b), fbPos(fbB(b), o)) && fbLen(fbB(b), fbPos(fbB(b), o)) == len(offs)
  ensures forall i int :: {offs[i]} {fbEl(fbB(b), fbPos(fbB(b), o), i)} 0 <= i && i < len(offs) ==> fbEl(fbB(b), fbPos(fbB(b), o), i) == fbPos(fbB(b), offs[i])
extern (*github.com/google/flatbuffers/go.Builder).Finish(b, o)
  requires fbIdle(b) && fbNode(fbB(b), o)
  modifies ghostat(fbDone, ref(b))
  ensures fbDone[ref(b)] && fbTo(fbB(b), 0) == fbPos(fbB(b), o)
extern (*github.com/google/flatbuffers/go.Builder).FinishedBytes(b) returns (r)
  requires b != nil && fbDone[ref(b)]
  ensures blob(r) == fbB(b)
