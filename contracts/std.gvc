// helpers of the standard library

extern maps.Copy(dst, src)
  requires dst != nil && dst != src
  modifies map(dst)
  ensures forall k K :: {k in dst} {k in src} k in dst <==> old(k in dst) || k in src
  ensures forall k K :: {dst[k]} k in dst ==> dst[k] == (k in src ? src[k] : old(dst[k]))
extern maps.Clone(m) returns (r)
  ensures (r == nil <==> m == nil) && (r != nil ==> fresh(r))
  ensures forall k K :: {k in r} {k in m} k in r <==> k in m
  ensures forall k K :: {r[k]} k in r ==> r[k] == m[k]
