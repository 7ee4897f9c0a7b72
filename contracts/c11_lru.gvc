addressed cache.Page.value

// C11: the LRU cache. container/list is trusted; its contract orders the
// elements of a list by a rank (higher = nearer to the front).

ghost lowner arr(int, int)
ghost lrank arr(int, int)
ghost llen arr(int, int)
ghost ltop arr(int, int)
ghost lbot arr(int, int)

extern container/list.New() returns (r)
  modifies ghostif(llen, x, !old(allocated(x))), ghostif(ltop, x, !old(allocated(x))), ghostif(lbot, x, !old(allocated(x)))
  ensures r != nil && fresh(r)
  ensures llen[ref(r)] == 0 && ltop[ref(r)] == 0 && lbot[ref(r)] == 0
  ensures forall e int :: {lowner[e]} lowner[e] != ref(r)

extern (*container/list.List).Len(l) returns (r)
  pure
  requires l != nil
  ensures r == llen[ref(l)] && r >= 0

extern (*container/list.List).Back(l) returns (r)
  pure
  requires l != nil
  ensures llen[ref(l)] == 0 ==> r == nil
  ensures llen[ref(l)] > 0 ==> r != nil && lowner[ref(r)] == ref(l) && (forall e int :: {lrank[e]} {lowner[e]} lowner[e] == ref(l) ==> lrank[ref(r)] <= lrank[e])

extern (*container/list.List).Front(l) returns (r)
  pure
  requires l != nil
  ensures llen[ref(l)] == 0 ==> r == nil
  ensures llen[ref(l)] > 0 ==> r != nil && lowner[ref(r)] == ref(l) && (forall e int :: {lrank[e]} {lowner[e]} lowner[e] == ref(l) ==> lrank[e] <= lrank[ref(r)])

extern (*container/list.List).PushFront(l, v) returns (r)
  requires l != nil
  modifies ghostat(llen, ref(l)), ghostat(ltop, ref(l)), ghostif(lowner, x, !old(allocated(x))), ghostif(lrank, x, !old(allocated(x)))
  ensures r != nil && fresh(r) && r.Value == v
  ensures forall x int :: {lowner[x]} x != ref(r) ==> lowner[x] == old(lowner[x])
  ensures lowner[ref(r)] == ref(l) && lrank[ref(r)] == old(ltop[ref(l)]) + 1
  ensures ltop[ref(l)] == old(ltop[ref(l)]) + 1 && llen[ref(l)] == old(llen[ref(l)]) + 1

extern (*container/list.List).PushBack(l, v) returns (r)
  requires l != nil
  modifies ghostat(llen, ref(l)), ghostat(lbot, ref(l)), ghostif(lowner, x, !old(allocated(x))), ghostif(lrank, x, !old(allocated(x)))
  ensures r != nil && fresh(r) && r.Value == v
  ensures forall x int :: {lowner[x]} x != ref(r) ==> lowner[x] == old(lowner[x])
  ensures lowner[ref(r)] == ref(l) && lrank[ref(r)] == old(lbot[ref(l)]) - 1
  ensures lbot[ref(l)] == old(lbot[ref(l)]) - 1 && llen[ref(l)] == old(llen[ref(l)]) + 1

extern (*container/list.List).MoveToFront(l, e)
  requires l != nil && e != nil
  modifies ghostat(ltop, ref(l)), ghostat(lrank, ref(e))
  ensures lowner[ref(e)] == ref(l) ==> lrank[ref(e)] == old(ltop[ref(l)]) + 1 && ltop[ref(l)] == old(ltop[ref(l)]) + 1
  ensures lowner[ref(e)] != ref(l) ==> lrank[ref(e)] == old(lrank[ref(e)]) && ltop[ref(l)] == old(ltop[ref(l)])

extern (*container/list.List).MoveToBack(l, e)
  requires l != nil && e != nil
  modifies ghostat(lbot, ref(l)), ghostat(lrank, ref(e))
  ensures lowner[ref(e)] == ref(l) ==> lrank[ref(e)] == old(lbot[ref(l)]) - 1 && lbot[ref(l)] == old(lbot[ref(l)]) - 1
  ensures lowner[ref(e)] != ref(l) ==> lrank[ref(e)] == old(lrank[ref(e)]) && lbot[ref(l)] == old(lbot[ref(l)])

extern (*container/list.List).Remove(l, e) returns (r)
  requires l != nil && e != nil
  modifies ghostat(llen, ref(l)), ghostat(lowner, ref(e))
  ensures r == e.Value
  ensures old(lowner[ref(e)]) == ref(l) ==> lowner[ref(e)] == 0 && llen[ref(l)] == old(llen[ref(l)]) - 1
  ensures old(lowner[ref(e)]) != ref(l) ==> lowner[ref(e)] == old(lowner[ref(e)]) && llen[ref(l)] == old(llen[ref(l)])

// the page of an element, the recency of an entry
macro pageof(e) = unbox(*cache.Page[T], e.Value)
macro rank(l, k) = lrank[ref(l.cache[k])]

// representation: map and list hold the same elements, one page each
macro lruMap(l) = forall k string :: {k in l.cache} {l.cache[k]} k in l.cache ==> l.cache[k] != nil && lowner[ref(l.cache[k])] == ref(l.pages) && pageof(l.cache[k]).key == k
macro lruList(l) = forall e *list.Element :: {lowner[ref(e)]} lowner[ref(e)] == ref(l.pages) ==> e != nil && allocated(e) &&
      istype(*cache.Page[T], e.Value) && pageof(e) != nil && allocated(pageof(e)) &&
      pageof(e).key in l.cache && l.cache[pageof(e).key] == e &&
      lrank[ref(e)] <= ltop[ref(l.pages)] && lbot[ref(l.pages)] <= lrank[ref(e)]
macro lruRanks(l) = forall e *list.Element, f *list.Element :: {lowner[ref(e)], lowner[ref(f)]} lowner[ref(e)] == ref(l.pages) && lowner[ref(f)] == ref(l.pages) && lrank[ref(e)] == lrank[ref(f)] ==> e == f
macro lruOK(l) = l != nil && l.cache != nil && l.pages != nil && len(l.cache) == llen[ref(l.pages)] && lruMap(l) && lruList(l) && lruRanks(l) &&
  lbot[ref(l.pages)] <= ltop[ref(l.pages)]

func cache.NewLRUCache(capacity) returns (r)
  modifies ghostif(llen, x, !old(allocated(x))), ghostif(ltop, x, !old(allocated(x))), ghostif(lbot, x, !old(allocated(x)))
  ensures [C07, C11] new: fresh(r) && lruOK(r)
  ensures [C07, C11] empty: len(r.cache) == 0 && (forall k string :: {k in r.cache} !(k in r.cache))
  ensures [C07, C11] capacity: r.capacity == capacity

func (*cache.LRUCache).Get(l, key) returns (r, ok)
  requires lruOK(l)
  modifies ghostif(ltop, x, true), ghostif(lrank, x, true), ghostif(lbot, x, true)
  ensures [C11, C04, C05, C23, C24] valid: lruOK(l)
  ensures [C11, C04, C05, C23, C24] hit: key in l.cache ==> ok && r != nil && *r == pageof(l.cache[key]).value
  ensures [C11, C04, C05, C23, C24] miss: !(key in l.cache) ==> !ok && r == nil
  ensures [C11] recent: key in l.cache ==> (forall k string :: {k in l.cache} k in l.cache && k != key ==> rank(l, k) < rank(l, key))
  ensures [C11] order: forall k string, m string :: {k in l.cache, m in l.cache} k in l.cache && m in l.cache && k != key && m != key ==> (rank(l, k) < rank(l, m) <==> old(rank(l, k)) < old(rank(l, m)))

func (*cache.LRUCache).Put(l, key, value)
  requires lruOK(l) && (len(l.cache) <= l.capacity || l.capacity <= 0 && len(l.cache) == 0)
  modifies map(l.cache), ghostif(ltop, x, true), ghostif(lrank, x, true), ghostif(lowner, x, true), ghostif(llen, x, true), ghostif(lbot, x, true), fieldif(cache.Page[T], value, x, old(key in l.cache) && x == old(pageof(l.cache[key])))
  ensures [C11, C04, C05, C23, C24] valid: lruOK(l)
  ensures [C11, C04, C05, C23, C24] bounded: len(l.cache) <= l.capacity || l.capacity <= 0 && len(l.cache) == 0
  ensures [C11, C05, C24] stored: l.capacity > 0 ==> key in l.cache && pageof(l.cache[key]).value == value
  ensures [C11] recent: forall k string :: {k in l.cache} k in l.cache && k != key ==> rank(l, k) < rank(l, key)
  ensures [C11] order: forall k string, m string :: {k in l.cache, m in l.cache} k in l.cache && m in l.cache && k != key && m != key ==> (rank(l, k) < rank(l, m) <==> old(rank(l, k)) < old(rank(l, m)))
  ensures [C11, C05, C24] values: forall k string :: {k in l.cache} k in l.cache && k != key ==> old(k in l.cache) && pageof(l.cache[k]).value == old(pageof(l.cache[k]).value)
  ensures [C11, C24] room: old(key in l.cache) || old(len(l.cache)) < l.capacity ==> (forall k string :: {old(k in l.cache)} old(k in l.cache) ==> k in l.cache)
  ensures [C11] evicted: !old(key in l.cache) && old(len(l.cache)) == l.capacity ==>
     (forall k string :: {old(k in l.cache)} old(k in l.cache) && !(k in l.cache) ==> (forall m string :: {old(m in l.cache)} old(m in l.cache) ==> old(rank(l, k)) <= old(rank(l, m))))
  ensures [C11] one: !old(key in l.cache) && old(len(l.cache)) == l.capacity ==> len(l.cache) == old(len(l.cache))
  ensures [C11, C24] grows: len(l.cache) <= old(len(l.cache)) + 1
