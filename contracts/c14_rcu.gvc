// C14: the read-copy-update map and the buffered map.
//
// The writer is an event loop: a message is a write, a tick asks for a
// publication. Ghost state records every write ever received (rEver, and the
// latest value rVal); a version published after a tick has to be exactly that.

ghost avVal arr(int, any)
extern (*sync/atomic.Value).Load(v) returns (r)
  requires v != nil
  ensures r == avVal[ref(v)]
extern (*sync/atomic.Value).Store(v, x)
  requires v != nil && x != nil
  modifies ghostat(avVal, ref(v)), ghostat(given, ref(unbox(map[string]T, x)))
  ensures avVal[ref(v)] == x && given[ref(unbox(map[string]T, x))]

macro rcell(c) = avVal[ref(&c.data)]
macro rver(c) = unbox(map[string]T, rcell(c))
macro rcuOK(c) = c != nil && c.Ch != nil && rcell(c) != nil && istype(map[string]T, rcell(c)) && rver(c) != nil && allocated(rver(c))

ghost rEver arr(string, bool)
ghost rVal arr(string, TP_T)
ghost pub arr(int, bool)      // 0: the last event was a tick

extern event.put(m)
  modifies ghostat(pub, 0), ghostat(rEver, m.Key), ghostat(rVal, m.Key)
  ensures !pub[0] && rEver[m.Key] && rVal[m.Key] == m.Value
extern event.tick()
  modifies ghostat(pub, 0)
  ensures pub[0]

macro rComplete(c) = (forall k string :: {k in rver(c)} {rEver[k]} k in rver(c) <==> rEver[k]) && (forall k string :: {rver(c)[k]} k in rver(c) ==> rver(c)[k] == rVal[k])

func cache.NewCacheRCU() returns (r)
  modifies ghostif(avVal, x, true)
  ensures [C14] new: r != nil && rcuOK(r)
  ensures [C14] empty: forall k string :: {k in rver(r)} !(k in rver(r))

func (*cache.RCU).Get(c, key) returns (r, ok)
  requires rcuOK(c)
  ensures [C14] found: ok <==> key in rver(c)
  ensures [C14] value: ok ==> r != nil && *r == rver(c)[key]
  ensures [C14] same: rcell(c) == old(rcell(c))

func (*cache.RCU).Put(c, key, value)
  requires rcuOK(c)
  ensures [C14] sent: nsent(c.Ch) == old(nsent(c.Ch)) + 1 && msg(c.Ch, old(nsent(c.Ch))) == mk(cache.TransferData[T], Key, key, Value, value)
  ensures [C14] same: rcell(c) == old(rcell(c)) && (forall k string :: {k in rver(c)} (k in rver(c) <==> old(k in rver(c))) && rver(c)[k] == old(rver(c)[k]))

func (*cache.RCU).writer(c)
  requires rcuOK(c)
  langrule pub[0] && rComplete(c) && given[ref(rver(c))] && (forall x int :: {given[x]} !allocated(x) ==> !given[x])
  opt given C14
  onrecv c.Ch: event.put
  ontick event.tick
  crash [C14] published: rComplete(c)
  always [C14] complete: pub[0] ==> rComplete(c)
  always [C14] handed: rcuOK(c) && given[ref(rver(c))]
  inv (a map[string]T) :: a != nil && fresh(a)
  inv [C14] (a map[string]T) :: !given[ref(a)]
  inv (a map[string]T, b map[string]T) :: a != b
  inv (o toploop) :: forall x int :: {given[x]} !allocated(x) ==> !given[x]
  inv (o inloop) :: forall x int :: {given[x]} !allocated(x) ==> !given[x]
  inv (a map[string]T, o toploop) :: forall k string :: {k in a} {rEver[k]} {k in rver(c)} rEver[k] <==> k in a || k in rver(c)
  inv (a map[string]T, o toploop) :: forall k string :: {a[k]} k in a ==> a[k] == rVal[k]
  inv (a map[string]T, o toploop) :: forall k string :: {rver(c)[k]} {k in rver(c)} k in rver(c) && !(k in a) ==> rver(c)[k] == rVal[k]
  inv (o inloop) :: rcuOK(c) && given[ref(rver(c))]
  // copying
  inv (m map[string]T, w visited string, D ranged map[string]T, o inloop) :: forall k string :: {k in m} {w[k]} k in m <==> loopold(k in m) || w[k]
  inv (m map[string]T, w visited string, D ranged map[string]T, o inloop) :: forall k string :: {m[k]} k in m ==> m[k] == (w[k] ? D[k] : loopold(m[k]))
  inv (m map[string]T, w visited string, D ranged map[string]T, o inloop) :: forall k string :: {m[k]} k in m ==> m[k] == (loopold(k in m) ? loopold(m[k]) : D[k])
  inv (m map[string]T, w visited string, D ranged map[string]T, o inloop) :: forall k string :: {m[k]} k in m ==> m[k] == (w[k] ? loopold(D[k]) : loopold(m[k]))
  inv (w visited string, D ranged map[string]T, o inloop) :: forall k string :: {k in D} {w[k]} k in D <==> loopold(k in D) && !w[k]
  inv (w visited string, D ranged map[string]T, o inloop) :: forall k string :: {D[k]} k in D ==> D[k] == loopold(D[k])

// ---- the buffered map. Publication is the assignment to Data under the
// write lock, so a version counts as published when the lock is released.
macro smOK(s) = s != nil && s.Ch != nil && s.Data != nil && allocated(s.Data)
macro sComplete(s) = (forall k string :: {k in s.Data} {rEver[k]} k in s.Data <==> rEver[k]) && (forall k string :: {s.Data[k]} k in s.Data ==> s.Data[k] == rVal[k])

ghost sVer arr(int, ref)      // 0: the version published when the event came
extern event.bufput(m)
  modifies ghostat(pub, 0), ghostat(sVer, 0), ghostat(rEver, m.Key), ghostat(rVal, m.Key), ghostat(given, ref(i.Data))
  ensures !pub[0] && rEver[m.Key] && rVal[m.Key] == m.Value && given[ref(i.Data)] && sVer[0] == ref(i.Data)
extern event.buftick()
  modifies ghostat(pub, 0), ghostat(sVer, 0), ghostat(given, ref(i.Data))
  ensures pub[0] && given[ref(i.Data)] && sVer[0] == ref(i.Data)

func cache.NewSyncMap() returns (r)
  ensures [C14] new: smOK(r)
  ensures [C14] empty: forall k string :: {k in r.Data} !(k in r.Data)

func (*cache.SyncMap).Get(i, key) returns (r, ok)
  requires i != nil
  ensures [C14] found: ok <==> key in i.Data
  ensures [C14] value: ok ==> r != nil && *r == i.Data[key]

func (*cache.SyncMap).Put(i, key, value)
  requires smOK(i)
  ensures [C14] sent: nsent(i.Ch) == old(nsent(i.Ch)) + 1 && msg(i.Ch, old(nsent(i.Ch))) == mk(cache.TransferData[T], Key, key, Value, value)

func (*cache.SyncMap).writer(i)
  requires smOK(i)
  langrule pub[0] && sComplete(i) && given[ref(i.Data)] && ref(i) != ref(i.Data) && !given[ref(i)] && (forall x int :: {given[x]} !allocated(x) ==> !given[x])
  opt given C14
  opt unlock 1
  onrecv i.Ch: event.bufput
  ontick event.buftick
  crash [C14] published: ref(i.Data) != sVer[0] ==> sComplete(i)
  always [C14] complete: pub[0] ==> sComplete(i)
  always smOK(i) && ref(i) != ref(i.Data) && !given[ref(i)]
  inv (a map[string]T) :: a != nil && fresh(a)
  inv [C14] (a map[string]T, o toploop) :: !given[ref(a)]
  inv [C14] (a map[string]T, o inloop) :: !given[ref(a)]
  inv (a map[string]T, b map[string]T) :: a != b
  inv (a map[string]T, o toploop) :: a != i.Data
  inv (a map[string]T, o inloop) :: a != i.Data
  inv (o toploop) :: forall x int :: {given[x]} !allocated(x) ==> !given[x]
  inv (o inloop) :: forall x int :: {given[x]} !allocated(x) ==> !given[x]
  inv (a map[string]T, o toploop) :: forall k string :: {k in a} {rEver[k]} {k in i.Data} rEver[k] <==> k in a || k in i.Data
  inv (a map[string]T, o toploop) :: forall k string :: {a[k]} k in a ==> a[k] == rVal[k]
  inv (a map[string]T, o toploop) :: forall k string :: {i.Data[k]} {k in i.Data} k in i.Data && !(k in a) ==> i.Data[k] == rVal[k]
  inv (o inloop) :: smOK(i) && given[ref(i.Data)]
  // copying
  inv (m map[string]T, w visited string, D ranged map[string]T, o inloop) :: forall k string :: {k in m} {w[k]} k in m <==> loopold(k in m) || w[k]
  inv (m map[string]T, w visited string, D ranged map[string]T, o inloop) :: forall k string :: {m[k]} k in m ==> m[k] == (w[k] ? D[k] : loopold(m[k]))
  inv (m map[string]T, w visited string, D ranged map[string]T, o inloop) :: forall k string :: {m[k]} k in m ==> m[k] == (loopold(k in m) ? loopold(m[k]) : D[k])
  inv (m map[string]T, w visited string, D ranged map[string]T, o inloop) :: forall k string :: {m[k]} k in m ==> m[k] == (w[k] ? loopold(D[k]) : loopold(m[k]))
  inv (w visited string, D ranged map[string]T, o inloop) :: forall k string :: {k in D} {w[k]} k in D <==> loopold(k in D) && !w[k]
  inv (w visited string, D ranged map[string]T, o inloop) :: forall k string :: {D[k]} k in D ==> D[k] == loopold(D[k])
