(* std::map: the entries in key order; lookup, hint-less insertion *)
module OMap
  use int.Int
  type key
  type value
  type entry
  type seq
  function length seq : int
  function get seq int : entry
  function inserted seq int entry : seq
  function ekey entry : key
  predicate lt key key
  (* the keys on which lt is a strict weak order (Ord* modules state which) *)
  predicate good key
  predicate same (a b: key) = not (lt a b) /\ not (lt b a)
  predicate ok (m: seq) =
    (forall i: int. 0 <= i < length m -> good (ekey (get m i))) /\
    (forall i j: int. 0 <= i < j < length m -> lt (ekey (get m i)) (ekey (get m j)))
  axiom same_trans: forall a b c: key. good a -> good b -> good c -> same a b -> same b c -> same a c
  (* position of the key, or the number of entries *)
  function idx seq key : int
  axiom idx_range: forall m: seq, k: key. 0 <= idx m k <= length m
  axiom idx_hit: forall m: seq, k: key. idx m k < length m -> same (ekey (get m (idx m k))) k
  axiom idx_miss: forall m: seq, k: key, i: int. idx m k = length m -> 0 <= i < length m -> not (same (ekey (get m i)) k)
  axiom ins_len: forall m: seq, p: int, e: entry. 0 <= p <= length m -> length (inserted m p e) = length m + 1
  axiom ins_get: forall m: seq, p i: int, e: entry. 0 <= p <= length m -> 0 <= i < length m + 1 ->
    get (inserted m p e) i = if i < p then get m i else if i = p then e else get m (i - 1)
  lemma idx_stays: forall m: seq, p: int, e: entry, q: key. 0 <= p <= length m -> idx m q < length m ->
    idx (inserted m p e) q < length (inserted m p e)
    by let j = idx m q in let i = if j < p then j else j + 1 in
       get (inserted m p e) i = get m j /\ same (ekey (get (inserted m p e) i)) q
  lemma idx_new: forall m: seq, p: int, e: entry, q: key. 0 <= p <= length m -> same (ekey e) q ->
    idx (inserted m p e) q < length (inserted m p e)
    by get (inserted m p e) p = e
  lemma idx_unique: forall m: seq, q: key, i: int. ok m -> good q -> 0 <= i < length m -> same (ekey (get m i)) q -> idx m q = i
  lemma idx_same: forall m: seq, q r: key. ok m -> good q -> good r -> same q r -> idx m q = idx m r
  (* two maps with the same keys at the same places *)
  lemma idx_keys: forall m n: seq, q: key. ok m -> good q -> length m = length n -> (forall i: int. 0 <= i < length m -> ekey (get m i) = ekey (get n i)) -> idx n q = idx m q
    by ok n
  lemma idx_ins_old: forall m: seq, p: int, e: entry, q: key. ok (inserted m p e) -> ok m -> good (ekey e) -> good q -> 0 <= p <= length m -> idx m q < length m ->
    get (inserted m p e) (idx (inserted m p e) q) = get m (idx m q)
    by let j = idx m q in let i = if j < p then j else j + 1 in
       get (inserted m p e) i = get m j /\ same (ekey (get (inserted m p e) i)) q /\ idx (inserted m p e) q = i
  lemma idx_ins_new: forall m: seq, p: int, e: entry, q: key. ok (inserted m p e) -> good q -> 0 <= p <= length m -> same (ekey e) q ->
    get (inserted m p e) (idx (inserted m p e) q) = e
    by get (inserted m p e) p = e /\ idx (inserted m p e) q = p
  lemma idx_ins_none: forall m: seq, p: int, e: entry, q: key. 0 <= p <= length m -> idx m q = length m -> not (same (ekey e) q) ->
    idx (inserted m p e) q = length (inserted m p e)
    by forall i: int. 0 <= i < length (inserted m p e) -> not (same (ekey (get (inserted m p e) i)) q)
  val find (m: seq) (k: key) : int
    requires { [@expl:map keys are well separated] ok m }
    requires { [@expl:looked-up key is well separated] good k }
    ensures { result = idx m k }
  val upper_bound (m: seq) (k: key) : int
    requires { [@expl:map keys are well separated] ok m }
    requires { [@expl:looked-up key is well separated] good k }
    ensures { 0 <= result <= length m }
    ensures { forall i: int. 0 <= i < result -> not (lt k (ekey (get m i))) }
    ensures { forall i: int. result <= i < length m -> lt k (ekey (get m i)) }
  val lower_bound (m: seq) (k: key) : int
    requires { [@expl:map keys are well separated] ok m }
    requires { [@expl:looked-up key is well separated] good k }
    ensures { 0 <= result <= length m }
    ensures { forall i: int. 0 <= i < result -> lt (ekey (get m i)) k }
    ensures { forall i: int. result <= i < length m -> not (lt (ekey (get m i)) k) }
  function slot seq key : int
  axiom slot_range: forall m: seq, k: key. 0 <= slot m k <= length m
  val insert (m: seq) (e: entry) : seq
    requires { [@expl:map keys are well separated] ok m }
    requires { [@expl:inserted key is well separated] good (ekey e) }
    ensures { idx m (ekey e) < length m -> result = m }
    ensures { idx m (ekey e) = length m -> result = inserted m (slot m (ekey e)) e }
    ensures { ok result }
end

(* key orders *)
module OrdInt
  use int.Int
  let predicate ilt (a b: int) = a < b
  predicate any_int (_: int) = true
end
module OrdReal
  use real.RealInfix
  let predicate rlt (a b: real) = a <. b
  predicate any_real (_: real) = true
end
module OrdPoint
  use real.RealInfix
  use Geom
  use T_Point
  (* an arbitrary set of points whose coordinates coincide up to the tolerance or
     not, transitively: the sets on which Point::operator< is a strict weak order *)
  predicate good_pt point
  axiom good_x: forall a b c: point. good_pt a -> good_pt b -> good_pt c -> near (px a) (px b) -> near (px b) (px c) -> near (px a) (px c)
  axiom good_y: forall a b c: point. good_pt a -> good_pt b -> good_pt c -> near (py a) (py b) -> near (py b) (py c) -> near (py a) (py c)
  (* only the coordinates matter *)
  axiom good_xy: forall a b: point. good_pt a -> same_xy a b -> good_pt b
  lemma plt_same: forall a b: point. (not (plt a b) /\ not (plt b a)) <-> peq a b
  lemma peq_refl: forall a: point. peq a a
  lemma peq_sym: forall a b: point. peq a b -> peq b a
  lemma peq_trans: forall a b c: point. good_pt a -> good_pt b -> good_pt c -> peq a b -> peq b c -> peq a c
  lemma plt_trans: forall a b c: point. good_pt a -> good_pt b -> good_pt c -> plt a b -> plt b c -> plt a c
  lemma plt_peq: forall a b c: point. good_pt a -> good_pt b -> good_pt c -> plt a b -> peq b c -> plt a c
  lemma peq_plt: forall a b c: point. good_pt a -> good_pt b -> good_pt c -> peq a b -> plt b c -> plt a c
end
