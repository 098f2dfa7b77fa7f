-------------------------------- MODULE MC_Clip -------------------------------
(* C15, C16: every projection maps the corners of the volume it was asked for   *)
(* to the corners of the clip volume of its convention, and decomposition        *)
(* returns what it was made from.                                                *)
EXTENDS MCLib
VARIABLES b, lh, zo
vars == <<b, lh, zo>>
Boxes == {<<l, r, bo, t, n, f>> : l \in {-2, 0, 1}, r \in {3, -4}, bo \in {-1, 1}, t \in {2, -3}, n \in {1, 3}, f \in {2, 7}}
Init == b = << >> /\ lh = 0 /\ zo = 0
Next == b = << >> /\ b' \in Boxes /\ lh' \in {0, 1} /\ zo' \in {0, 1}
Spec == Init /\ [][Next]_vars
ok == b # << >>
mat16(f, args) == AsMat(Res(CallC("clip", lh, zo, f, 0, args \o <<Out(16)>>), Len(args) + 1), 4)
six == T([i \in 1..6 |-> S1(b[i])])
sg == IF lh = 1 THEN 1 ELSE -1                 \* the sign of z in front of the eye
lowz == IF zo = 1 THEN 0 ELSE -1
at(A, x, y, z) == LET c == MulV(A, <<x, y, z, 1>>) IN T([i \in 1..3 |-> Div(c[i], c[4])])
corner(i, j, k) == <<IF i = 0 THEN -1 ELSE 1, IF j = 0 THEN -1 ELSE 1, IF k = 0 THEN lowz ELSE 1>>
two == 0..1
front == b[5] < b[6]
Fr == mat16("frustum", six)
Or == mat16("ortho", six)
X(i) == b[1 + i]  Y(j) == b[3 + j]  Z(k) == b[5 + k]
Frusta == ok /\ front => \A i, j, k \in two :          \* a point of the near rectangle, scaled by z/near at the far plane
   ClV(at(Fr, Div(Mul(X(i), Z(k)), b[5]), Div(Mul(Y(j), Z(k)), b[5]), sg * Z(k)), corner(i, j, k))
Infront == ok => LET w == MulV(Fr, <<0, 0, sg, 1>>)[4] IN Is(w, 1)
Orthos == ok /\ front => \A i, j, k \in two : ClV(at(Or, X(i), Y(j), sg * Z(k)), corner(i, j, k))
Boxed == ok => LET lo == <<-3, b[3], b[5]>> hi == <<b[4] + 4, b[4] + 5, b[6] + 3>> z(k) == IF k = 0 THEN (IF lh = 1 THEN lo[3] ELSE hi[3]) ELSE (IF lh = 1 THEN hi[3] ELSE lo[3])
                   bx == P(lo \o hi) Q == mat16("ortho_aabb", <<bx>>) R1 == mat16("ortho_aabb_p", <<bx, S1(2)>>) R2 == mat16("ortho_aabb_pz", <<bx, S1(2)>>)
                   xs(i, p) == IF i = 0 THEN lo[1] - p ELSE hi[1] + p  ys(j, p) == IF j = 0 THEN lo[2] - p ELSE hi[2] + p
                   zs(k, p) == IF (k = 0) = (lh = 1) THEN lo[3] - p ELSE hi[3] + p IN
   \A i, j, k \in two : /\ ClV(at(Q, xs(i, 0), ys(j, 0), zs(k, 0)), corner(i, j, k))
                        /\ ClV(at(R1, xs(i, 2), ys(j, 2), zs(k, 2)), corner(i, j, k))
                        /\ ClV(at(R2, xs(i, 0), ys(j, 0), zs(k, 2)), corner(i, j, k))
(* a symmetric perspective is the frustum of its opening angle *)
fovy == KD("1.2")
asp == K("1.5")
Ps == mat16("perspective", <<S1(fovy), S1(asp), S1(b[5]), S1(b[6])>>)
Perspectives == ok /\ front => LET t == Mul(Tan(Half(fovy)), b[5]) r == Mul(t, asp) IN
   /\ ClM(Ps, mat16("frustum", <<S1(Opp(r)), S1(r), S1(Opp(t)), S1(t), S1(b[5]), S1(b[6])>>))
   /\ \A i, j, k \in two : LET s == Div(Z(k), b[5]) IN ClV(at(Ps, Mul(IF i = 0 THEN Opp(r) ELSE r, s), Mul(IF j = 0 THEN Opp(t) ELSE t, s), sg * Z(k)), corner(i, j, k))
   /\ ClM(mat16("perspective_default", <<S1(asp)>>), mat16("perspective", <<S1(Pi4), S1(asp), S1(K("0.01")), S1(100)>>))
Defaults == ok => \A q \in 1..2 : LET a == <<2, K("0.5")>>[q] D == mat16("ortho_default", <<S1(a)>>) E == mat16("ortho_default_s", <<S1(a), S1(3)>>)
                       w == IF q = 1 THEN 2 ELSE 1 h == IF q = 1 THEN 1 ELSE 2 IN
   \A i, j, k \in two : LET sx == IF i = 0 THEN -1 ELSE 1 sy == IF j = 0 THEN -1 ELSE 1 IN
     /\ ClV(at(D, sx * w, sy * h, sg * (IF k = 0 THEN -100 ELSE 100)), corner(i, j, k))
     /\ ClV(at(E, sx * 3 * w, sy * 3 * h, sg * (IF k = 0 THEN -103 ELSE 103)), corner(i, j, k))
(* C16 *)
dec(A, f, n) == T([i \in 1..n |-> Res(CallC("clip", lh, zo, f, 0, <<PM1(A)>> \o T([k \in 1..n |-> Out(1)])), i + 1)[1]])
Loose(x, y) == Near(Widen(x, K("1e-4"), K("1e-4")), y)
LooseV(u, v) == \A i \in 1..Len(u) : Loose(u[i], v[i])
Decomposed == ok /\ front => LET A == Fr want == <<b[5], b[6], b[4], b[3], b[1], b[2]>> IN
   /\ LooseV(dec(A, "persp_decomp", 6), want)
   /\ LooseV(Res(CallC("clip", lh, zo, "persp_decompv", 0, <<PM1(A), Out(6)>>), 2), want)
   /\ LooseV(dec(A, "persp_decomp_x", 2), <<b[1], b[2]>>) /\ LooseV(dec(A, "persp_decomp_y", 2), <<b[4], b[3]>>) /\ LooseV(dec(A, "persp_decomp_z", 2), <<b[5], b[6]>>)
   /\ LooseV(dec(A, "persp_decomp_near", 1), <<b[5]>>) /\ LooseV(dec(A, "persp_decomp_far", 1), <<b[6]>>)
   /\ Loose(Ret(CallC("clip", lh, zo, "persp_fovy", 0, <<PM1(Ps)>>)), fovy) /\ Loose(Ret(CallC("clip", lh, zo, "persp_aspect", 0, <<PM1(Ps)>>)), asp)
   /\ LET s == Res(CallC("clip", lh, zo, "persp_sizes", 0, <<PM1(Ps), S1(fovy), Out(4)>>), 3) h(z) == Mul(2, Mul(z, Tan(Half(fovy)))) IN
        LooseV(s, <<Mul(asp, h(b[5])), h(b[5]), Mul(asp, h(b[6])), h(b[6])>>)
   /\ LET q == AsMat(Obj(CallC("clip", lh, zo, "persp_move_far", 0, <<PM1(Ps), S1(5)>>), 1, 16), 4) w == mat16("perspective", <<S1(fovy), S1(asp), S1(b[5]), S1(b[6] + 5)>>) IN
        \A j \in 1..4 : LooseV(q[j], w[j])
   /\ LET q == AsMat(Obj(CallC("clip", lh, zo, "perspective_resize", 0, <<S1(2), PM1(Ps)>>), 2, 16), 4) w == mat16("perspective", <<S1(fovy), S1(2), S1(b[5]), S1(b[6])>>) IN
        \A j \in 1..4 : LooseV(q[j], w[j])
(* the unsuffixed functions are the configured variant *)
Configured == ok => \A cc \in 0..3 : LET A == AsMat(Res(CallC("clip", -1, -1, "frustum", cc, six \o <<Out(16)>>), 7), 4) IN
   (Field(cc, 1, 1) = lh /\ Field(cc, 0, 1) = zo) => ClM(A, Fr)
===============================================================================
