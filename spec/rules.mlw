(* Generation rules: a rule is a state machine over its argument. A random rule's
   future draws are part of its state. *)
module Rule
  use int.Int
  use real.RealInfix
  use T_Functor
  val function fapply (f: functor) (x: real) : real
  val function fnext (f: functor) (x: real) : functor
end

(* virtual dispatch: a call through the abstract class is a call of the object's own method,
   whose contract is proved (Uniform::apply, ..., RandomIntegerNoise::apply) *)
module Rules
  use int.Int
  use real.RealInfix
  use real.FromInt
  use Num
  use Geom
  use Circ
  use Dist
  use Rule
  use T_Functor
  use T_Constant_c
  use T_Uniform
  use T_Sine
  use T_Cosine
  use T_DisplaceDelta
  use T_ConstantAlternating
  use T_Random_Double
  use T_Random_Integer
  use T_RandomDoubleNoise
  use T_RandomIntegerNoise
  use T_UniqueList_double
  use UL_Real
  use VReal as VReal
  (* amplitude * sin((frequency * x * 180 + phase) degrees) *)
  function sine_val (s: sine) (x: real) : real = s.sine_amplitude *. rsin (rad (s.sine_frecuency *. x *. 180.0) +. rad s.sine_phase)
  function cosine_val (s: cosine) (x: real) : real = s.cosine_amplitude *. rcos (rad (s.cosine_frecuency *. x *. 180.0) +. rad s.cosine_phase)
  (* adds half its delta at every other call, starting with the first *)
  predicate displace_step (s: displacedelta) (x r: real) (s': displacedelta) =
    s'.displacedelta_delta = s.displacedelta_delta /\ (s'.displacedelta_alternating <-> not s.displacedelta_alternating) /\
    r = if s.displacedelta_alternating then x else x +. s.displacedelta_delta /. 2.0
  (* the alternating rule *)
  function cav (s: constantalternating) : VReal.t = uls s.constantalternating_visitedPlaces
  predicate ca_ok (s: constantalternating) = ul_ok s.constantalternating_visitedPlaces
  predicate ca_turn (s: constantalternating) (x: real) = posn (cav s) x + 1 < VReal.length (cav s)
  predicate ca_step (s: constantalternating) (x r: real) (s': constantalternating) =
    ca_ok s' /\
    (s'.constantalternating_delta = if VReal.length (cav s) = 1 then rabs (VReal.get (cav s) 0 -. x) else s.constantalternating_delta) /\
    (cav s' = if ca_turn s x then VReal.snoc VReal.empty x else add (cav s) x) /\
    ((ca_turn s x -> (s'.constantalternating_alternating <-> not s.constantalternating_alternating)) /\ (not (ca_turn s x) -> (s'.constantalternating_alternating <-> s.constantalternating_alternating))) /\
    r = if s'.constantalternating_alternating then x +. s'.constantalternating_delta /. 2.0 else x
  predicate rd_ok (s: random_double) = s.random_double_uni.dr_lo = s.random_double_min /\ s.random_double_uni.dr_hi = s.random_double_max /\ s.random_double_min <=. s.random_double_max
  predicate ri_ok (s: random_integer) =
    s.random_integer_min <=. from_int s.random_integer_uni.di_lo /\ s.random_integer_uni.di_lo <= s.random_integer_uni.di_hi /\ from_int s.random_integer_uni.di_hi <=. s.random_integer_max
  predicate in_range (r lo hi: real) = lo <=. r <=. hi
  (* the underlying rule's value, displaced by no more than m *)
  predicate noisy (r base m: real) = -. m <=. r -. base <=. m
  function dn_max (s: randomdoublenoise) : real = rmax (rabs s.randomdoublenoise_min) (rabs s.randomdoublenoise_max)
  function in_max (s: randomintegernoise) : real = rmax (rabs s.randomintegernoise_min) (rabs s.randomintegernoise_max)
  predicate rdn_ok (s: randomdoublenoise) =
    s.randomdoublenoise_uni.dr_lo <=. s.randomdoublenoise_uni.dr_hi /\ -. dn_max s <=. s.randomdoublenoise_uni.dr_lo /\ s.randomdoublenoise_uni.dr_hi <=. dn_max s
  predicate rin_ok (s: randomintegernoise) =
    s.randomintegernoise_uni.di_lo <= s.randomintegernoise_uni.di_hi /\ -. in_max s <=. from_int s.randomintegernoise_uni.di_lo /\ from_int s.randomintegernoise_uni.di_hi <=. in_max s
end

(* what the rules of the factories do, and how the alternating rule treats the rows of a grid *)
module RulesRows
  use int.Int
  use real.RealInfix
  use Num
  use Rule
  use Rules
  use T_Functor
  use T_ConstantAlternating
  use T_UniqueList_double
  use T_Uniform
  use T_Sine
  use T_Cosine
  use T_DisplaceDelta
  use T_Random_Double
  use T_Random_Integer
  use T_RandomDoubleNoise
  use T_RandomIntegerNoise
  use UL_Real
  use VReal as VReal
  axiom disp_uniform: forall f: functor, x: real. is_uniform f ->
    fapply f x = x *. (as_uniform f).uniform_delta /\ is_uniform (fnext f x) /\ as_uniform (fnext f x) = as_uniform f
  axiom disp_sine: forall f: functor, x: real. is_sine f ->
    fapply f x = sine_val (as_sine f) x /\ is_sine (fnext f x) /\ as_sine (fnext f x) = as_sine f
  axiom disp_cosine: forall f: functor, x: real. is_cosine f ->
    fapply f x = cosine_val (as_cosine f) x /\ is_cosine (fnext f x) /\ as_cosine (fnext f x) = as_cosine f
  axiom disp_displace: forall f: functor, x: real. is_displacedelta f ->
    displace_step (as_displacedelta f) x (fapply f x) (as_displacedelta (fnext f x)) /\ is_displacedelta (fnext f x)
  axiom disp_alternating: forall f: functor, x: real. is_constantalternating f -> ca_ok (as_constantalternating f) ->
    ca_step (as_constantalternating f) x (fapply f x) (as_constantalternating (fnext f x)) /\ is_constantalternating (fnext f x)
  axiom disp_random_double: forall f: functor, x: real. is_random_double f -> rd_ok (as_random_double f) ->
    in_range (fapply f x) (as_random_double f).random_double_min (as_random_double f).random_double_max /\ is_random_double (fnext f x) /\ as_random_double (fnext f x) = as_random_double f
  axiom disp_random_integer: forall f: functor, x: real. is_random_integer f -> ri_ok (as_random_integer f) ->
    in_range (fapply f x) (as_random_integer f).random_integer_min (as_random_integer f).random_integer_max /\ is_random_integer (fnext f x) /\ as_random_integer (fnext f x) = as_random_integer f
  axiom disp_double_noise: forall f: functor, x: real. is_randomdoublenoise f -> rdn_ok (as_randomdoublenoise f) ->
    noisy (fapply f x) (fapply (as_randomdoublenoise f).randomdoublenoise_f x) (dn_max (as_randomdoublenoise f)) /\ is_randomdoublenoise (fnext f x) /\
    as_randomdoublenoise (fnext f x) = { (as_randomdoublenoise f) with randomdoublenoise_f = fnext (as_randomdoublenoise f).randomdoublenoise_f x }
  axiom disp_integer_noise: forall f: functor, x: real. is_randomintegernoise f -> rin_ok (as_randomintegernoise f) ->
    noisy (fapply f x) (fapply (as_randomintegernoise f).randomintegernoise_f x) (in_max (as_randomintegernoise f)) /\ is_randomintegernoise (fnext f x) /\
    as_randomintegernoise (fnext f x) = { (as_randomintegernoise f) with randomintegernoise_f = fnext (as_randomintegernoise f).randomintegernoise_f x }
  lemma constant_rule: forall f: functor, x: real. is_uniform f -> (as_uniform f).uniform_delta = 1.0 -> fapply f x = x
  (* state after the first j coordinates of a row, after r whole rows *)
  let rec function rowst (f: functor) (row: VReal.t) (j: int) : functor variant { j } =
    if j <= 0 then f else fnext (rowst f row (j - 1)) (VReal.get row (j - 1))
  let rec function rowsst (f: functor) (row: VReal.t) (r: int) : functor variant { r } =
    if r <= 0 then f else rowst (rowsst f row (r - 1)) row (VReal.length row)
  let rec predicate odd (r: int) variant { r } = if r <= 0 then false else not (odd (r - 1))
  predicate row_ok (row: VReal.t) = VReal.length row >= 2 /\ distinct row
  function spacing (row: VReal.t) : real = rabs (VReal.get row 0 -. VReal.get row 1)
  predicate prefix (s row: VReal.t) (j: int) = VReal.length s = j /\ forall i: int. 0 <= i < j -> VReal.get s i = VReal.get row i
  function ca (f: functor) : constantalternating = as_constantalternating f
  (* ready for row r: either nothing visited yet, or the whole previous row was visited *)
  predicate row_start (f: functor) (row: VReal.t) (r: int) =
    is_constantalternating f /\ ca_ok (ca f) /\ 0 <= r /\
    if r = 0 then VReal.length (cav (ca f)) = 0 /\ not (ca f).constantalternating_alternating
    else prefix (cav (ca f)) row (VReal.length row) /\ ((ca f).constantalternating_alternating <-> odd (r - 1)) /\ (ca f).constantalternating_delta = spacing row
  predicate row_mid (f: functor) (row: VReal.t) (r j: int) =
    is_constantalternating f /\ ca_ok (ca f) /\ prefix (cav (ca f)) row j /\ ((ca f).constantalternating_alternating <-> odd r) /\
    (j >= 2 \/ r >= 1 -> (ca f).constantalternating_delta = spacing row)
  function row_val (row: VReal.t) (r j: int) : real = if odd r then VReal.get row j +. spacing row /. 2.0 else VReal.get row j
  lemma posn_new: forall s row: VReal.t, j: int. distinct row -> 0 <= j < VReal.length row -> prefix s row j -> posn s (VReal.get row j) = j
  lemma posn_first: forall s row: VReal.t. row_ok row -> prefix s row (VReal.length row) -> posn s (VReal.get row 0) = 0
  lemma first_step: forall f: functor, row: VReal.t, r: int. row_ok row -> row_start f row r ->
    fapply f (VReal.get row 0) = row_val row r 0 /\ row_mid (fnext f (VReal.get row 0)) row r 1
  lemma next_step: forall f: functor, row: VReal.t, r j: int. row_ok row -> 1 <= j < VReal.length row -> 0 <= r -> row_mid f row r j ->
    fapply f (VReal.get row j) = row_val row r j /\ row_mid (fnext f (VReal.get row j)) row r (j + 1)
  let rec lemma in_row (f: functor) (row: VReal.t) (r j: int)
    requires { row_ok row /\ row_start f row r /\ 0 <= r /\ 1 <= j <= VReal.length row }
    ensures { row_mid (rowst f row j) row r j }
    variant { j }
  = if j > 1 then begin in_row f row r (j - 1); assert { rowst f row j = fnext (rowst f row (j - 1)) (VReal.get row (j - 1)) };
      assert { row_mid (fnext (rowst f row (j - 1)) (VReal.get row (j - 1))) row r (j - 1 + 1) } end
    else begin assert { rowst f row 0 = f }; assert { rowst f row 1 = fnext f (VReal.get row 0) }; assert { row_mid (fnext f (VReal.get row 0)) row r 1 } end
  let rec lemma rows (f: functor) (row: VReal.t) (r: int)
    requires { row_ok row /\ row_start f row 0 /\ 0 <= r }
    ensures { row_start (rowsst f row r) row r }
    variant { r }
  = if r > 0 then begin rows f row (r - 1); in_row (rowsst f row (r - 1)) row (r - 1) (VReal.length row);
      assert { rowsst f row r = rowst (rowsst f row (r - 1)) row (VReal.length row) };
      assert { row_mid (rowsst f row r) row (r - 1) (VReal.length row) } end
    else assert { rowsst f row r = f }
  (* every second row is displaced by half its spacing, the others are left in place *)
  let lemma alternating_rows (f: functor) (row: VReal.t) (r j: int)
    requires { row_ok row /\ row_start f row 0 /\ 0 <= r /\ 0 <= j < VReal.length row }
    ensures { fapply (rowst (rowsst f row r) row j) (VReal.get row j) = row_val row r j }
  = rows f row r;
    if j >= 1 then begin in_row (rowsst f row r) row r j;
      assert { row_mid (rowst (rowsst f row r) row j) row r j };
      assert { fapply (rowst (rowsst f row r) row j) (VReal.get row j) = row_val row r j } end
    else begin assert { rowst (rowsst f row r) row 0 = rowsst f row r }; assert { fapply (rowsst f row r) (VReal.get row 0) = row_val row r 0 } end
end

(* grids of generated points *)
module Grid
  use int.Int
  use real.RealInfix
  use Num
  use Geom
  use Box
  use Rule
  use T_Functor
  use T_Point
  use T_BoundingBox
  use T_PointGenerator
  use VPoint as VPoint
  predicate gen_ok (g: pointgenerator) = 0 <= g.pointgenerator_variable <= 2
  (* the point of a cell: x, f(x) displaced; f(y) displaced, y; or each coordinate by its own rule *)
  function gen_x (g: pointgenerator) (x y: real) : real =
    if g.pointgenerator_variable = 0 then x else if g.pointgenerator_variable = 1 then x +. fapply g.pointgenerator_lX y else fapply g.pointgenerator_lX x
  function gen_y (g: pointgenerator) (x y: real) : real =
    if g.pointgenerator_variable = 0 then y +. fapply g.pointgenerator_lY x else if g.pointgenerator_variable = 1 then y else fapply g.pointgenerator_lY y
  let function gen_next (g: pointgenerator) (x y: real) : pointgenerator =
    if g.pointgenerator_variable = 0 then { g with pointgenerator_lY = fnext g.pointgenerator_lY x }
    else if g.pointgenerator_variable = 1 then { g with pointgenerator_lX = fnext g.pointgenerator_lX y }
    else { g with pointgenerator_lX = fnext g.pointgenerator_lX x; pointgenerator_lY = fnext g.pointgenerator_lY y }
  predicate gen_point (p: point) (g: pointgenerator) (x y: real) = px p = gen_x g x y /\ py p = gen_y g x y
  (* evenly spaced grid positions that span the box *)
  function grid_step (lo hi: real) (n: int) : real = if n > 1 then (hi -. lo) /. rofi (n - 1) else 0.0
  function grid_at (lo hi: real) (n k: int) : real = lo +. rofi k *. grid_step lo hi n
  val function gx (b: boundingbox) (nX j: int) : real ensures { result = grid_at (bx0 b) (bx1 b) nX j }
  val function gy (b: boundingbox) (nY i: int) : real ensures { result = grid_at (by0 b) (by1 b) nY i }
  (* the rules' state before cell j of row i *)
  let rec function gen_at (g: pointgenerator) (b: boundingbox) (nX nY i j: int) : pointgenerator variant { i, j } =
    if j <= 0 then (if i <= 0 then g else gen_at g b nX nY (i - 1) nX)
    else gen_next (gen_at g b nX nY i (j - 1)) (gx b nX (j - 1)) (gy b nY i)
  predicate row_done (s: VPoint.t) (base: int) (g: pointgenerator) (b: boundingbox) (nX nY i n: int)
  axiom row_done_def: forall s: VPoint.t, base: int, g: pointgenerator, b: boundingbox, nX nY i n: int [row_done s base g b nX nY i n].
    row_done s base g b nX nY i n <-> forall j: int. 0 <= j < n -> gen_point (VPoint.get s (base + i * nX + j)) (gen_at g b nX nY i j) (gx b nX j) (gy b nY i)
  predicate rows_done (s: VPoint.t) (base: int) (g: pointgenerator) (b: boundingbox) (nX nY n: int)
  axiom rows_done_def: forall s: VPoint.t, base: int, g: pointgenerator, b: boundingbox, nX nY n: int [rows_done s base g b nX nY n].
    rows_done s base g b nX nY n <-> forall i: int. 0 <= i < n -> row_done s base g b nX nY i nX
  lemma cell_row: forall i n nX j: int. 0 <= i < n -> 0 <= j < nX -> i * nX + j < n * nX
  lemma cell_nonneg: forall i nX: int. 0 <= i -> 0 <= nX -> 0 <= i * nX
  lemma row_keep: forall s: VPoint.t, p: point, base: int, g: pointgenerator, b: boundingbox, nX nY i n: int.
    0 <= base -> 0 <= nX -> 0 <= i -> 0 <= n -> base + i * nX + n <= VPoint.length s -> row_done s base g b nX nY i n -> row_done (VPoint.snoc s p) base g b nX nY i n
  lemma row_end: forall i n nX: int. 0 <= i < n -> 0 <= nX -> i * nX + nX <= n * nX
  lemma rows_snoc: forall s: VPoint.t, p: point, base: int, g: pointgenerator, b: boundingbox, nX nY n: int.
    0 <= base -> 0 <= nX -> 0 <= n -> base + n * nX <= VPoint.length s -> rows_done s base g b nX nY n -> rows_done (VPoint.snoc s p) base g b nX nY n
  lemma row_snoc: forall s: VPoint.t, p: point, base: int, g: pointgenerator, b: boundingbox, nX nY i n: int.
    0 <= base -> 0 <= nX -> 0 <= i -> 0 <= n -> VPoint.length s = base + i * nX + n -> row_done s base g b nX nY i n ->
    gen_point p (gen_at g b nX nY i n) (gx b nX n) (gy b nY i) -> row_done (VPoint.snoc s p) base g b nX nY i (n + 1)
end
module GridSpan
  use int.Int
  use real.RealInfix
  use Num
  use Grid
  (* the grid runs from one side of the box to the other, evenly *)
  lemma span_first: forall lo hi: real, n: int. grid_at lo hi n 0 = lo
  lemma span_last: forall lo hi: real, n: int. 2 <= n -> grid_at lo hi n (n - 1) = hi
  lemma span_even: forall lo hi: real, n k: int. 2 <= n -> grid_at lo hi n (k + 1) -. grid_at lo hi n k = (hi -. lo) /. rofi (n - 1)
end
