-------------------------------- MODULE Consts --------------------------------
(* The library's named constants, and the members of the struct API's unions.  *)
(* A constant is a call without inputs that writes (or returns) its value.     *)
EXTENDS Curve

CubeCorner(f) == CASE f = "corner_lbn" -> <<-1, -1, -1>> [] f = "corner_ltn" -> <<-1, 1, -1>> [] f = "corner_rtn" -> <<1, 1, -1>> [] f = "corner_rbn" -> <<1, -1, -1>>
               [] f = "corner_lbf" -> <<-1, -1, 1>>  [] f = "corner_ltf" -> <<-1, 1, 1>>  [] f = "corner_rtf" -> <<1, 1, 1>>  [] f = "corner_rbf" -> <<1, -1, 1>>
(* a swizzle mask holds two bits per component, the last named component lowest *)
Mask(a, n) == LET c[i \in 1..n] == IF i = 1 THEN a[1] ELSE 4 * c[i - 1] + a[i] IN c[n]
Scalar(f) == CASE f = "E" -> KD("2.718281828459045")      [] f = "LOG2E" -> KD("1.4426950408889634")  [] f = "LOG10E" -> KD("0.4342944819032518")
               [] f = "LN2" -> KD("0.6931471805599453")   [] f = "LN10" -> KD("2.302585092994046")
               [] f = "PI" -> KD("3.141592653589793")     [] f = "PI_2" -> KD("1.5707963267948966")   [] f = "PI_4" -> KD("0.7853981633974483")
               [] f = "1_PI" -> KD("0.3183098861837907")  [] f = "2_PI" -> KD("0.6366197723675814")
               [] f = "TAU" -> KD("6.283185307179586")    [] f = "TAU_2" -> KD("3.141592653589793")   [] f = "TAU_4" -> KD("1.5707963267948966")
               [] f = "1_TAU" -> KD("0.15915494309189535") [] f = "2_TAU" -> KD("0.3183098861837907")
               [] f = "2_SQRTPI" -> KD("1.1283791670955126") [] f = "SQRTTAU" -> KD("2.5066282746310002")
               [] f = "SQRT2" -> KD("1.4142135623730951") [] f = "SQRT1_2" -> KD("0.7071067811865476")
(* A type is its components and nothing else, in order, whichever names are used for them.  `lay` is what the build   *)
(* reports: size, alignment, whether alignment is disabled, whether AVX is on, and the offset of every component, once *)
(* per way of naming it.  SIMD loads need 16 bytes (32 for a whole matrix with AVX); everything else may be packed.    *)
NameWays(r, c) == IF c = 1 /\ r = 2 THEN 5 ELSE 3
Alignment(r, c, float, unaligned, avx) ==
  IF ~float \/ unaligned THEN 4
  ELSE IF r = 4 /\ c = 4 THEN (IF avx THEN 32 ELSE 16)
  ELSE IF r = 4 \/ (r = 2 /\ c = 2) THEN 16 ELSE 4
LayoutOK(r, c, float, lay) ==
  /\ lay[3] \in {0, 1} /\ lay[4] \in {0, 1}
  /\ lay[1] = 4 * r * c
  /\ lay[2] = Alignment(r, c, float, lay[3] = 1, lay[4] = 1)
  /\ \A i \in 1..(NameWays(r, c) * r * c) : lay[4 + i] = 4 * ((i - 1) % (r * c))
ConstRel(e, alt) ==
  IF e.f \in {"layout", "ilayout"} THEN LayoutOK(e.n, e.m, e.f = "layout", After(e.pre, alt.w, e.a[1], 4 + NameWays(e.n, e.m) * e.n * e.m)) ELSE TRUE
ConstC(e) ==
  CASE e.f = "one"       -> <<W(e, 1, Const(e.n, 1))>>
    [] e.f = "zero"      -> <<W(e, 1, Zeros(e.n))>>
    [] e.f = "ione"      -> <<I(e, 1, Const(e.n, 1))>>
    [] e.f = "izero"     -> <<I(e, 1, Zeros(e.n))>>
    [] e.f = "black"     -> <<W(e, 1, <<0, 0, 0, 1>>)>>
    [] e.f = "mzero"     -> <<WM(e, 1, ZeroM(e.n, e.m))>>
    [] e.f = "midentity" -> <<WM(e, 1, Ident(e.n))>>
    [] e.f = "beziermat"  -> <<WM(e, 1, BezM)>>
    [] e.f = "hermitemat" -> <<WM(e, 1, HerM)>>
    [] e.f = "qid"       -> <<W(e, 1, QId)>>
    [] e.f = "xup"       -> <<W(e, 1, <<1, 0, 0>>)>>
    [] e.f = "yup"       -> <<W(e, 1, <<0, 1, 0>>)>>
    [] e.f = "zup"       -> <<W(e, 1, <<0, 0, 1>>)>>
    [] e.f = "forward"   -> <<W(e, 1, <<0, 0, -1>>)>>
    [] e.f \in {"corner_lbn", "corner_ltn", "corner_rtn", "corner_rbn", "corner_lbf", "corner_ltf", "corner_rtf", "corner_rbf"} -> <<W(e, 1, CubeCorner(e.f) \o <<1>>)>>
    [] e.f = "int"       -> <<RI(e.n)>>
    [] e.f = "shuffle"   -> <<RI(Mask(e.a, e.n))>>
    [] e.f = "min"       -> <<R(Sel(Lt(S(e, 1), S(e, 2)), S(e, 1), S(e, 2)))>>
    [] e.f = "max"       -> <<R(Sel(Gt(S(e, 1), S(e, 2)), S(e, 1), S(e, 2)))>>
    (* every group of member names is the whole object, in order *)
    [] e.f = "fields"    -> <<I(e, 2, LET v == IV(e, 1, e.n) IN T([i \in 1..(e.n * e.m) |-> v[((i - 1) % e.n) + 1]]))>>
    [] e.f \in {"layout", "ilayout"} -> <<Free(e, 1, 4 + NameWays(e.n, e.m) * e.n * e.m)>>
    [] e.f = "setfields" -> <<I(e, 2, IV(e, 1, e.n * e.m))>>
    [] OTHER             -> <<R(Scalar(e.f))>>
===============================================================================
