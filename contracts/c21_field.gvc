// C21: flattening nested documents

macro ismap(x) = istype(map[string]any, x)
macro asmap(x) = unbox(map[string]any, x)

// key is pre followed by the dot-joined path to a leaf of m at depth at most n, and val its value
recfun isleaf(D arr(map[string]any, set(string)), V arr(map[string]any, arr(string, any)), m map[string]any, pre string, key string, val any, n int) bool =
  n >= 1 && !(forall k string :: {V[m][k]} !(k in D[m] &&
      (ismap(V[m][k]) ? isleaf(D, V, asmap(V[m][k]), pre + k + ".", key, val, n - 1) : key == pre + k && val == V[m][k])))

lemma leaf_value (D arr(map[string]any, set(string)), V arr(map[string]any, arr(string, any)), m map[string]any, pre string, key string, val any, n int) induct n limited ::
  {lim(isleaf(D, V, m, pre, key, val, n))}
  isleaf(D, V, m, pre, key, val, n) ==> !ismap(val) && n >= 1
lemma leaf_base (D arr(map[string]any, set(string)), V arr(map[string]any, arr(string, any)), m map[string]any, pre string, k string) limited ::
  {pre + k, k in D[m], V[m][k]}
  k in D[m] && !ismap(V[m][k]) ==> isleaf(D, V, m, pre, pre + k, V[m][k], 1)
lemma leaf_step (D arr(map[string]any, set(string)), V arr(map[string]any, arr(string, any)), m map[string]any, pre string, k string, key string, val any, n int) limited ::
  {lim(isleaf(D, V, asmap(V[m][k]), pre + k + ".", key, val, n))}
  k in D[m] && ismap(V[m][k]) && isleaf(D, V, asmap(V[m][k]), pre + k + ".", key, val, n) ==> isleaf(D, V, m, pre, key, val, n + 1)

// leaves do not depend on a map that no other map holds
define apart(D arr(map[string]any, set(string)), V arr(map[string]any, arr(string, any)), E arr(map[string]any, set(string)), W arr(map[string]any, arr(string, any)), out map[string]any) bool =
  (forall x map[string]any :: {D[x]} {E[x]} {V[x]} {W[x]} x != out ==> D[x] == E[x] && V[x] == W[x]) &&
  (forall x map[string]any, k string :: {V[x][k]} x != out && ismap(V[x][k]) ==> asmap(V[x][k]) != out)
lemma leaf_frame (D arr(map[string]any, set(string)), V arr(map[string]any, arr(string, any)), E arr(map[string]any, set(string)), W arr(map[string]any, arr(string, any)), out map[string]any, m map[string]any, pre string, key string, val any, n int) induct n limited ::
  {lim(isleaf(D, V, m, pre, key, val, n)), apart(D, V, E, W, out)} {lim(isleaf(E, W, m, pre, key, val, n)), apart(D, V, E, W, out)}
  apart(D, V, E, W, out) && m != out ==> (isleaf(D, V, m, pre, key, val, n) <==> isleaf(E, W, m, pre, key, val, n))

macro unheld(out) = forall x map[string]any, k string :: {x[k]} ismap(x[k]) ==> asmap(x[k]) != out
macro leafF(m, pre, key, val, n) = isleaf(old(heapdom(map[string]any)), old(heapvals(map[string]any)), m, pre, key, val, n)
macro leaf0(m, pre, key, val, n) = lim(isleaf(old(heapdom(map[string]any)), old(heapvals(map[string]any)), m, pre, key, val, n))
macro same0(out) = apart(old(heapdom(map[string]any)), old(heapvals(map[string]any)), heapdom(map[string]any), heapvals(map[string]any), out)

func field.recFlatten(input, output, prefix)
  requires output != nil && input != output && unheld(output)
  modifies map(output)
  ensures [C21] unheld: unheld(output)
  ensures [C21] same: same0(output)
  ensures [C21] kept: forall key string :: {key in output} old(key in output) ==> key in output
  ensures [C21] all: forall key string, val any, n int :: {leaf0(input, prefix, key, val, n)} leafF(input, prefix, key, val, n) ==> key in output
  ensures [C21] only: forall key string :: {key in output} {output[key]} key in output ==> (old(key in output) && output[key] == old(output[key])) || (exists n int :: leaf0(input, prefix, key, output[key], n))
  inv unheld(output)
  inv same0(output)
  inv forall key string :: {key in output} old(key in output) ==> key in output
  inv (v visited string) :: forall k string, key string, val any, n int :: {(leaf0(asmap(old(input[k])), prefix + k + ".", key, val, n))} k in v && ismap(old(input[k])) && leaf0(asmap(old(input[k])), prefix + k + ".", key, val, n) ==> key in output
  inv (v visited string) :: forall k string :: {prefix + k} k in v && !ismap(old(input[k])) ==> prefix + k in output
  inv forall key string :: {key in output} {output[key]} key in output ==> (old(key in output) && output[key] == old(output[key])) || (exists n int :: leaf0(input, prefix, key, output[key], n))

func field.Flatten(input) returns (r)
  langrule forall x map[string]any, k string :: {x[k]} ismap(x[k]) ==> allocated(asmap(x[k]))
  ensures [C21] new: r != nil && fresh(r)
  ensures [C21] same: same0(r)
  ensures [C21] all: forall key string, val any, n int :: {(leaf0(input, "", key, val, n))} leaf0(input, "", key, val, n) ==> key in r
  ensures [C21] only: forall key string :: {key in r} {r[key]} key in r ==> (exists n int :: leaf0(input, "", key, r[key], n))
  ensures [C21] flat: forall key string :: {r[key]} key in r ==> !ismap(r[key])

func field.GetID(input) returns (r)
  inv (v visited string) :: !("Id" in v)
  ensures [C21] text: "Id" in input && istype(string, input["Id"]) ==> r == unbox(string, input["Id"])
  ensures [C21] other: "Id" in input ==> r == ext(string, "fmt.Sprint", input["Id"])
  ensures [C21] none: !("Id" in input) ==> r == ""
