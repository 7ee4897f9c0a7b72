// C13: the sharded map and the local map

macro sharded(m) = m != nil && m.Fragments > 0 && m.Shard != nil &&
   (forall i int :: {i in m.Shard} 0 <= i && i < m.Fragments ==> i in m.Shard) &&
   (forall i int :: {m.Shard[i]} i in m.Shard ==> m.Shard[i] != nil && m.Shard[i].store != nil)

func cache.NewLocalMap() returns (r)
  ensures [C13] new: r != nil && fresh(r) && r.store != nil && fresh(r.store)
  ensures [C13] empty: forall k string :: {k in r.store} !(k in r.store)

func (*cache.LocalMap).Set(l, key, value)
  requires l != nil && l.store != nil
  modifies map(l.store)
  ensures [C13] written: key in l.store && l.store[key] != nil && *l.store[key] == value
  ensures [C13] others: forall k string :: {k in l.store} k != key ==> (k in l.store <==> old(k in l.store)) && l.store[k] == old(l.store[k])

func (*cache.LocalMap).Get(l, key) returns (r, ok)
  requires l != nil && l.store != nil
  ensures [C13] hit: key in l.store ==> ok && r == l.store[key]
  ensures [C13] miss: !(key in l.store) ==> !ok && r == nil

func (*cache.LocalMap).GetData(l) returns (r)
  requires l != nil && l.store != nil
  ensures [C13] data: r != nil && (forall k string :: {k in r} (k in r <==> k in l.store) && r[k] == l.store[k])
  inv [C13] (m map[string]*T, v visited string) :: forall k string :: {k in m} {k in v} (k in m <==> k in v) && (k in v ==> m[k] == l.store[k])

func cache.NewShardMap(fragments) returns (r)
  requires fragments > 0
  ensures [C13] fragments: sharded(r)
  ensures [C13] empty: forall i int, k string :: {k in r.Shard[i].store} i in r.Shard ==> !(k in r.Shard[i].store)
  inv [C13] (m map[int]*cache.LocalMap[T], i iter) :: forall j int :: {j in m} fragments - i <= j && j < fragments ==> j in m
  inv [C13] (m map[int]*cache.LocalMap[T]) :: forall j int :: {m[j]} j in m ==> m[j] != nil && m[j].store != nil && (forall k string :: {k in m[j].store} !(k in m[j].store))
  inv [C13] (m map[int]*cache.LocalMap[T], i iter) :: (forall j int :: {j in m} 0 <= j && j < i ==> j in m) && (forall j int :: {m[j]} j in m ==> m[j] != nil && m[j].store != nil && (forall k string :: {k in m[j].store} !(k in m[j].store)))

func (*cache.Shard).Get(m, key) returns (r, ok)
  requires sharded(m)
  ensures [C13] found: ok && r != nil && r.store != nil
  ensures [C13] fragment: exists i int :: {m.Shard[i]} i in m.Shard && r == m.Shard[i]
  repeats [C13]
