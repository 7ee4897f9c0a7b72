// Compression: compress/gzip and the in-memory readers and writers around it.
// gunzip(gzip(b)) == b is assumed of the library.

fun gunzip(b Blob) Blob
fun gzOf(b Blob) Blob
fun gzOK(b Blob) bool
axiom gz_roundtrip (b Blob) :: {gzOf(b)} gzOK(gzOf(b)) && gunzip(gzOf(b)) == b

// bytes.Buffer: bufUsed is false while it is empty
ghost bufUsed arr(int, bool) of bytes.Buffer
ghost bufData arr(int, Blob)
macro bufHas(r) = bufUsed[r] ? bufData[r] : bempty()
extern (*bytes.Buffer).Bytes(b) returns (r)
  requires b != nil
  ensures blob(r) == bufHas(ref(b))
extern (*bytes.Buffer).Write(b, p) returns (n, err)
  requires b != nil
  modifies ghostat(bufUsed, ref(b)), ghostat(bufData, ref(b))
  ensures err == nil && n == len(p) && bufUsed[ref(b)] && bufData[ref(b)] == bcat(old(bufHas(ref(b))), blob(p))

// gzip.Writer over a bytes.Buffer: the compressed bytes are there after Close
ghost gzDst arr(int, int)
ghost gzBase arr(int, Blob)
ghost gzIn arr(int, Blob)
ghost gzOpen arr(int, bool)
macro bref(w) = ref(unbox(*bytes.Buffer, w))
extern compress/gzip.NewWriter(w) returns (z)
  modifies ghostif(gzDst, x, !old(allocated(x))), ghostif(gzBase, x, !old(allocated(x))), ghostif(gzIn, x, !old(allocated(x))), ghostif(gzOpen, x, !old(allocated(x)))
  ensures z != nil && fresh(z) && gzOpen[ref(z)]
  ensures istype(*bytes.Buffer, w) ==> gzDst[ref(z)] == bref(w) && gzBase[ref(z)] == old(bufHas(bref(w))) && gzIn[ref(z)] == bempty()
extern compress/gzip.NewWriterLevel(w, level) returns (z, err)
  modifies ghostif(gzDst, x, !old(allocated(x))), ghostif(gzBase, x, !old(allocated(x))), ghostif(gzIn, x, !old(allocated(x))), ghostif(gzOpen, x, !old(allocated(x)))
  ensures err == nil <==> -2 <= level && level <= 9
  ensures err == nil ==> z != nil && fresh(z) && gzOpen[ref(z)]
  ensures err == nil && istype(*bytes.Buffer, w) ==> gzDst[ref(z)] == bref(w) && gzBase[ref(z)] == old(bufHas(bref(w))) && gzIn[ref(z)] == bempty()
extern (*compress/gzip.Writer).Write(z, p) returns (n, err)
  requires z != nil
  modifies ghostat(gzIn, ref(z)), ghostat(bufUsed, gzDst[ref(z)]), ghostat(bufData, gzDst[ref(z)])
  ensures gzOpen[ref(z)] ==> err == nil && n == len(p) && gzIn[ref(z)] == bcat(old(gzIn[ref(z)]), blob(p))
extern (*compress/gzip.Writer).Flush(z) returns (err)
  requires z != nil
  modifies ghostat(bufUsed, gzDst[ref(z)]), ghostat(bufData, gzDst[ref(z)])
  ensures gzOpen[ref(z)] ==> err == nil
extern (*compress/gzip.Writer).Close(z) returns (err)
  requires z != nil
  modifies ghostat(gzOpen, ref(z)), ghostat(bufUsed, gzDst[ref(z)]), ghostat(bufData, gzDst[ref(z)])
  ensures old(gzOpen[ref(z)]) ==> err == nil && !gzOpen[ref(z)] && bufUsed[gzDst[ref(z)]] && bufData[gzDst[ref(z)]] == bcat(gzBase[ref(z)], gzOf(gzIn[ref(z)]))
  ensures !old(gzOpen[ref(z)]) ==> err == nil && !gzOpen[ref(z)] && bufUsed[gzDst[ref(z)]] == old(bufUsed[gzDst[ref(z)]]) && bufData[gzDst[ref(z)]] == old(bufData[gzDst[ref(z)]])

// readers: rdLeft is what is still to be read
ghost rdLeft arr(int, Blob)
macro rref(r) = istype(*bytes.Reader, r) ? ref(unbox(*bytes.Reader, r)) : ref(unbox(*compress/gzip.Reader, r))
macro rknown(r) = istype(*bytes.Reader, r) || istype(*compress/gzip.Reader, r)
extern bytes.NewReader(b) returns (r)
  modifies ghostif(rdLeft, x, !old(allocated(x)))
  ensures r != nil && fresh(r) && rdLeft[ref(r)] == blob(b)
extern compress/gzip.NewReader(r) returns (z, err)
  modifies ghostif(rdLeft, x, !old(allocated(x)) || x == rref(r))
  ensures err == nil ==> z != nil && fresh(z)
  ensures istype(*bytes.Reader, r) && gzOK(old(rdLeft[rref(r)])) ==> err == nil && rdLeft[ref(z)] == gunzip(old(rdLeft[rref(r)]))
extern io.ReadAll(r) returns (data, err)
  modifies ghostif(rdLeft, x, x == rref(r))
  ensures rknown(r) ==> err == nil && blob(data) == old(rdLeft[rref(r)])
extern (*compress/gzip.Reader).Close(z) returns (err)
  ensures err == nil

func file.CompressData(buf) returns (r)
  modifies ghostif(bufUsed, x, !old(allocated(x))), ghostif(bufData, x, !old(allocated(x))), ghostif(gzDst, x, !old(allocated(x))), ghostif(gzBase, x, !old(allocated(x))), ghostif(gzIn, x, !old(allocated(x))), ghostif(gzOpen, x, !old(allocated(x)))
  ensures packed: gzOK(blob(r)) && gunzip(blob(r)) == blob(buf)

func file.DecompressData(buf) returns (r)
  requires gzOK(blob(buf))
  modifies ghostif(rdLeft, x, !old(allocated(x)))
  ensures unpacked: blob(r) == gunzip(blob(buf))
