(* text files: what is written is a sequence of tokens, what is read is a sequence of lines of fields *)
module Tok
  use int.Int
  use real.RealInfix
  type tok = Ch int | IntTok int | RealTok real int bool     (* a real with the stream's precision and fixed notation *)
end
module VTok
  use int.Int
  use Tok
  clone export MSeq with type elt = tok, axiom .
end
module Text
  use int.Int
  use real.RealInfix
  use export Tok
  use ref.Ref
  use VTok as VTok
  type ostream = { os_text: VTok.t; os_prec: int; os_fixed: bool }
  let constant new_ostream : ostream = { os_text = VTok.empty; os_prec = 6; os_fixed = false }
  let function os_char (s: ostream) (c: int) : ostream = { s with os_text = VTok.snoc s.os_text (Ch c) }
  let function os_int (s: ostream) (i: int) : ostream = { s with os_text = VTok.snoc s.os_text (IntTok i) }
  let function os_real (s: ostream) (r: real) : ostream = { s with os_text = VTok.snoc s.os_text (RealTok r s.os_prec s.os_fixed) }
  let function os_str (s: ostream) (t: VTok.t) : ostream = { s with os_text = VTok.app s.os_text t }
  val havoc_ostream () : ostream
  (* the last file written: its name and its text when it was closed *)
  val disk_name : ref VTok.t
  val disk : ref VTok.t
  val constant home : VTok.t      (* the user's folder, with a slash *)
  (* reading *)
  val function tok_atoi VTok.t : int
  val function tok_atof VTok.t : real
  type istream
  val function getline_text istream : VTok.t
  val function getline_rest istream : istream
  val function file_stream VTok.t : istream
  val havoc_istream () : istream
end
module Lines
  use int.Int
  use real.RealInfix
  use Text
  use VTok as VTok
  use VStr as VStr
  (* the fields of a line, separated by white space *)
  val function fields VTok.t : VStr.t
  let rec function skip (s: istream) (k: int) : istream variant { k } = if k <= 0 then s else getline_rest (skip s (k - 1))
  function line (s: istream) (k: int) : VTok.t = getline_text (skip s k)
  function field (s: istream) (k i: int) : VTok.t = VStr.get (fields (line s k)) i
end
module FilePts
  use int.Int
  use real.RealInfix
  use Text
  use Lines
  use T_Point
  use VTok as VTok
  use VStr as VStr
  use VPoint as VPoint
  (* the first n lines after line k hold two coordinates each *)
  predicate pts_ok (s: istream) (k n: int) = forall i: int. 0 <= i < n -> VStr.length (fields (line s (k + i))) >= 2
  function file_pt (s: istream) (k: int) : point = { point_x = tok_atof (field s k 0); point_y = tok_atof (field s k 1); point_isBoundaryPoint = false; point_isEmpty = false }
  (* base followed by the points of the n lines after line k *)
  let rec ghost function with_pts (base: VPoint.t) (s: istream) (k n: int) : VPoint.t variant { n }
  = if n <= 0 then base else VPoint.snoc (with_pts base s k (n - 1)) (file_pt s (k + n - 1))
  let rec lemma with_pts_get (base: VPoint.t) (s: istream) (k n: int)
    requires { 0 <= n }
    ensures { VPoint.length (with_pts base s k n) = VPoint.length base + n }
    ensures { forall j: int. VPoint.length base <= j < VPoint.length base + n -> VPoint.get (with_pts base s k n) j = file_pt s (k + (j - VPoint.length base)) }
    variant { n }
  = if n > 0 then begin
      with_pts_get base s k (n - 1);
      assert { with_pts base s k n = VPoint.snoc (with_pts base s k (n - 1)) (file_pt s (k + n - 1)) }
    end
end
