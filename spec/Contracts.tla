------------------------------ MODULE Contracts -------------------------------
(* The action of every operation: dispatch on the operation's family. *)
EXTENDS VecOps, IVecOps, MatOps, Noise, Simd

Contract(e) ==
  CASE e.fam = "varith"  -> VArith(e)
    [] e.fam = "vclass"  -> VClass(e)
    [] e.fam = "vinterp" -> VInterp(e)
    [] e.fam = "vgeom"   -> VGeom(e)
    [] e.fam = "ivec"    -> IVec(e)
    [] e.fam = "util"    -> Util(e)
    [] e.fam = "mat"     -> MatC(e)
    [] e.fam = "matinv"  -> MatInv(e)
    [] e.fam = "aff"     -> AffC(e)
    [] e.fam = "aff2"    -> Aff2C(e)
    [] e.fam = "quat"    -> QuatC(e)
    [] e.fam = "qrot"    -> QRotC(e)
    [] e.fam = "qint"    -> QIntC(e)
    [] e.fam = "euler"   -> EulerC(e)
    [] e.fam = "view"    -> ViewC(e)
    [] e.fam = "clip"    -> ClipC(e)
    [] e.fam = "proj"    -> ProjC(e)
    [] e.fam = "frus"    -> FrusC(e)
    [] e.fam = "box"     -> BoxC(e)
    [] e.fam = "ray"     -> RayC(e)
    [] e.fam = "curve"   -> CurveC(e)
    [] e.fam = "ease"    -> EaseC(e)
    [] e.fam = "noise"   -> NoiseC(e)
    [] e.fam = "const"   -> ConstC(e)
    [] e.fam = "simd"    -> SimdC(e)

Relation(e, alt) ==
  CASE e.fam = "vgeom" -> VGeomRel(e, alt)
    [] e.fam = "quat"  -> QuatRel(e, alt)
    [] e.fam = "qrot"  -> QRotRel(e, alt)
    [] e.fam = "qint"  -> QIntRel(e, alt)
    [] e.fam = "euler" -> EulerRel(e, alt)
    [] e.fam = "view"  -> ViewRel(e, alt)
    [] e.fam = "ray"   -> RayRel(e, alt)
    [] e.fam = "curve" -> CurveRel(e, alt)
    [] e.fam = "const" -> ConstRel(e, alt)
    [] OTHER -> TRUE
===============================================================================
