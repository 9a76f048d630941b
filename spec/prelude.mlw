(* Models of the C++ standard containers and arithmetic used by Delynoi.
   Every axiom below is part of the trusted base (see DESIGN.md); spec/sound.mlw
   discharges the sequence, arithmetic and edge-map axioms from Why3's own library. *)

module Num
  use int.Int
  use real.RealInfix
  use real.FromInt

  val predicate req (x y: real) ensures { result <-> x = y }
  let function rneg (x: real) : real = 0.0 -. x
  let function rabs (x: real) : real = if x <. 0.0 then rneg x else x
  let function rmin (x y: real) : real = if y <. x then y else x
  let function rmax (x y: real) : real = if x <. y then y else x
  let function iabs (x: int) : int = if x < 0 then - x else x
  let function imin (x y: int) : int = if y < x then y else x
  let function imax (x y: int) : int = if x < y then y else x
  val function rofi (x: int) : real ensures { result = from_int x }
  let predicate beq (x y: bool) = if x then y else not y

  val rdiv (x y: real) : real
    requires { [@expl:division by zero] y <> 0.0 }
    ensures { result = x /. y }

  (* an IEEE quotient by zero is some value that nothing is known about *)
  val rdivt (x y: real) : real
    ensures { y <> 0.0 -> result = x /. y }

  (* IEEE quotients: finite, +infinity, -infinity or not a number (kinds 0 to 3) *)
  type xreal = { xk: int; xv: real }
  let function xof (x: real) : xreal = { xk = 0; xv = x }
  val xdiv (x y: real) : xreal
    ensures { y <> 0.0 -> result.xk = 0 /\ result.xv = x /. y }
    ensures { y = 0.0 -> if x = 0.0 then result.xk = 3 else result.xk = 1 \/ result.xk = 2 }
  val fin (x: xreal) : real
    requires { [@expl:quotient is finite] x.xk = 0 }
    ensures { result = x.xv }
  let predicate xlt (a b: xreal) =
    a.xk <> 3 && b.xk <> 3 && (if a.xk = 0 && b.xk = 0 then a.xv <. b.xv else a.xk <> b.xk && (a.xk = 2 || b.xk = 1))
  let predicate xle (a b: xreal) =
    a.xk <> 3 && b.xk <> 3 && (if a.xk = 0 && b.xk = 0 then a.xv <=. b.xv else a.xk = 2 || b.xk = 1)
  let predicate xeq (a b: xreal) =
    a.xk <> 3 && b.xk <> 3 && a.xk = b.xk && (if a.xk = 0 then req a.xv b.xv else true)

  (* C++ integer division and remainder by a positive number *)
  function qdiv (a b: int) : int
  function cmod (a b: int) : int
  axiom cmod_spec: forall a b: int. 0 <= a -> 0 < b ->
    a = b * qdiv a b + cmod a b /\ 0 <= cmod a b < b /\ 0 <= qdiv a b <= a
  axiom cmod_small: forall a b: int. 0 <= a < b -> cmod a b = a
  axiom cmod_wrap: forall a b: int. 0 < b -> b <= a < b + b -> cmod a b = a - b
  axiom qdiv_small: forall a b: int. 0 <= a < b -> qdiv a b = 0
  axiom cmod_neg: forall a b: int. a < 0 -> 0 < b -> cmod a b = - cmod (- a) b
  axiom qdiv_neg: forall a b: int. a < 0 -> 0 < b -> qdiv a b = - qdiv (- a) b
  val imod (a b: int) : int
    requires { [@expl:remainder by a positive number] 0 < b }
    ensures { result = cmod a b }
  val idiv (a b: int) : int
    requires { [@expl:quotient by a positive number] 0 < b }
    ensures { result = qdiv a b }

  (* conversion of a floating value to int: truncation towards zero *)
  function rtrunc (x: real) : int
  axiom rtrunc_pos: forall x: real. 0.0 <=. x -> from_int (rtrunc x) <=. x /\ x <. from_int (rtrunc x) +. 1.0
  axiom rtrunc_neg: forall x: real. x <=. 0.0 -> x <=. from_int (rtrunc x) /\ from_int (rtrunc x) -. 1.0 <. x
  val r2i32 (x: real) : int
    requires { [@expl:value representable in int] -. 2147483649.0 <. x /\ x <. 2147483648.0 }
    ensures { result = rtrunc x }
  val r2i64 (x: real) : int
    requires { [@expl:value representable in 64-bit integer] -. 9223372036854775808.0 <=. x /\ x <. 9223372036854775808.0 }
    ensures { result = rtrunc x }

  val function rceil (x: real) : int
  axiom rceil_spec: forall x: real. x <=. from_int (rceil x) /\ from_int (rceil x) -. 1.0 <. x
  val function rfloor (x: real) : int
  axiom rfloor_spec: forall x: real. from_int (rfloor x) <=. x /\ x <. from_int (rfloor x) +. 1.0

  function rsqrt (x: real) : real
  axiom rsqrt_spec: forall x: real. 0.0 <=. x -> 0.0 <=. rsqrt x /\ rsqrt x *. rsqrt x = x
  val csqrt (x: real) : real
    requires { [@expl:square root of a non-negative value] 0.0 <=. x }
    ensures { result = rsqrt x }

  val constant rpi : real
  axiom rpi_pos: 3.0 <. rpi <. 4.0
  val function rcos real : real
  val function rsin real : real
  val function ratan2 real real : real
  (* std::atan2 returns a value in [-pi, pi] *)
  axiom ratan2_range: forall y x: real. rneg rpi <=. ratan2 y x <=. rpi

  (* int utilities::hash32(int): a deterministic function of its argument *)
  val function hash32 int : int

  val havoc_real () : real
  val havoc_int () : int
  val havoc_bool () : bool
end

(* std::uniform_real_distribution, std::uniform_int_distribution: their range is what matters *)
module Dist
  use int.Int
  use real.RealInfix
  type dist_real = { dr_lo: real; dr_hi: real }
  type dist_int = { di_lo: int; di_hi: int }
  let constant dist_real_default : dist_real = { dr_lo = 0.0; dr_hi = 1.0 }
  let constant dist_int_default : dist_int = { di_lo = 0; di_hi = 2147483647 }
  val new_dist_real (a b: real) : dist_real
    requires { [@expl:range of a distribution is not empty] a <=. b }
    ensures { result = { dr_lo = a; dr_hi = b } }
  val new_dist_int (a b: int) : dist_int
    requires { [@expl:range of a distribution is not empty] a <= b }
    ensures { result = { di_lo = a; di_hi = b } }
  val draw_real (d: dist_real) : real ensures { d.dr_lo <=. d.dr_hi -> d.dr_lo <=. result <=. d.dr_hi }
  val draw_int (d: dist_int) : int ensures { d.di_lo <= d.di_hi -> d.di_lo <= result <= d.di_hi }
end

module MSeq
  use int.Int
  type elt
  type t
  val function length t : int
  axiom length_nonneg: forall s: t. 0 <= length s
  val function get t int : elt
  val constant empty : t
  axiom empty_len: length empty = 0
  axiom empty_only: forall s: t. length s = 0 -> s = empty
  val function snoc t elt : t
  axiom snoc_len: forall s: t, x: elt. length (snoc s x) = length s + 1
  axiom snoc_get: forall s: t, x: elt, i: int. 0 <= i <= length s ->
    get (snoc s x) i = if i = length s then x else get s i
  val function set t int elt : t
  axiom set_len: forall s: t, k: int, x: elt. length (set s k x) = length s
  axiom set_get: forall s: t, k i: int, x: elt. 0 <= k < length s -> 0 <= i < length s ->
    get (set s k x) i = if i = k then x else get s i
  val function app t t : t
  axiom app_len: forall a b: t. length (app a b) = length a + length b
  axiom app_get: forall a b: t, i: int. 0 <= i < length a + length b ->
    get (app a b) i = if i < length a then get a i else get b (i - length a)
  val function sub t int int : t
  axiom sub_len: forall s: t, a b: int. 0 <= a <= b -> b <= length s -> length (sub s a b) = b - a
  axiom sub_get: forall s: t, a b i: int. 0 <= a <= b -> b <= length s -> 0 <= i < b - a ->
    get (sub s a b) i = get s (a + i)
  val function erase t int : t
  axiom erase_len: forall s: t, k: int. 0 <= k < length s -> length (erase s k) = length s - 1
  axiom erase_get: forall s: t, k i: int. 0 <= k < length s -> 0 <= i < length s - 1 ->
    get (erase s k) i = if i < k then get s i else get s (i + 1)
  val function inserted t int elt : t
  axiom inserted_len: forall s: t, k: int, x: elt. 0 <= k <= length s -> length (inserted s k x) = length s + 1
  axiom inserted_get: forall s: t, k i: int, x: elt. 0 <= k <= length s -> 0 <= i < length s + 1 ->
    get (inserted s k x) i = if i < k then get s i else if i = k then x else get s (i - 1)
  val function rev t : t
  axiom rev_len: forall s: t. length (rev s) = length s
  axiom rev_get: forall s: t, i: int. 0 <= i < length s -> get (rev s) i = get s (length s - 1 - i)
  val function fill int elt : t
  axiom fill_len: forall n: int, x: elt. 0 <= n -> length (fill n x) = n
  axiom fill_get: forall n i: int, x: elt. 0 <= i < n -> get (fill n x) i = x
  predicate eqs (a b: t) = length a = length b /\ forall i: int. 0 <= i < length a -> get a i = get b i
  axiom ext: forall a b: t. eqs a b -> a = b
  val havoc () : t
  val havoc_elt () : elt
  (* malloc'd array: `bytes' bytes of elements of `sz' bytes *)
  val malloc (bytes sz: int) : t
    requires { 0 < sz }
    ensures { length result * sz = bytes }
end

(* undirected edges: the abstract key of the unordered maps *)
module Edge
  use int.Int
  type edge = { elo: int; ehi: int }
  let function mkedge (a b: int) : edge = if a <= b then { elo = a; ehi = b } else { elo = b; ehi = a }
end

(* std::unordered_map whose key equality is canon-equality *)
module UMap
  use int.Int
  use Edge
  type key
  type value
  type entry
  function canon key : edge
  function ekey entry : key
  function evalue entry : value
  type t
  val predicate mem t edge
  val function get t edge : value
  val function keyof t edge : key
  val function size t : int
  axiom size_nonneg: forall m: t. 0 <= size m
  val constant empty : t
  axiom empty_mem: forall e: edge. not (mem empty e)
  axiom empty_size: size empty = 0
  val function put t key value : t
  axiom put_mem: forall m: t, k: key, v: value, e: edge. mem (put m k v) e <-> (e = canon k \/ mem m e)
  axiom put_get: forall m: t, k: key, v: value, e: edge.
    get (put m k v) e = if e = canon k then v else get m e
  axiom put_keyof: forall m: t, k: key, v: value, e: edge.
    keyof (put m k v) e = if e = canon k && not (mem m e) then k else keyof m e
  axiom put_size: forall m: t, k: key, v: value.
    size (put m k v) = if mem m (canon k) then size m else size m + 1
  axiom keyof_canon: forall m: t, e: edge. mem m e -> canon (keyof m e) = e
  val havoc_value () : value
  val havoc () : t
end
