-------------------------------- MODULE Jet --------------------------------
(***************************************************************************)
(* Second-order jets: a real number together with all its first and second *)
(* partial derivatives with respect to P variables, stored as the sequence *)
(*    << value, d_1 .. d_P, d_11, d_21, d_22, d_31, .. , d_PP >>           *)
(* (lower triangle of the Hessian, row by row).  A sequence of length one  *)
(* is a constant.  The ring operations below ARE the definition of "exact  *)
(* first and second derivative" used by the specification: no derivative   *)
(* formula of the implementation is transcribed anywhere.                  *)
(* java/Jet.java evaluates JAdd/JMul/JScale/JUn; spec/MC_Base.tla checks   *)
(* that it agrees with the definitions given here.                         *)
(***************************************************************************)
EXTENDS MLReal

NVars(a) == CHOOSE p \in 0..40 : 1 + p + ((p * (p + 1)) \div 2) = Len(a)
JLen(p)  == 1 + p + ((p * (p + 1)) \div 2)
GPos(i)      == 1 + i                                       \* i in 1..P
HPos(p, i, j) == IF i >= j THEN 1 + p + ((i * (i - 1)) \div 2) + j
                           ELSE 1 + p + ((j * (j - 1)) \div 2) + i
JV(a)        == a[1]
JG(a, i)     == IF Len(a) = 1 THEN 0 ELSE a[GPos(i)]
JH(a, p, i, j) == IF Len(a) = 1 THEN 0 ELSE a[HPos(p, i, j)]

(* the pair (i, j) whose second derivative is stored at position k *)
RowOf(p, k) == CHOOSE i \in 1..p : k > 1 + p + ((i * (i - 1)) \div 2)
                                /\ k <= 1 + p + ((i * (i + 1)) \div 2)
ColOf(p, k) == LET i == RowOf(p, k) IN k - 1 - p - ((i * (i - 1)) \div 2)

JConst(c) == <<c>>
JVar(c, i, p) == Tup([k \in 1..JLen(p) |-> IF k = 1 THEN c ELSE IF k = GPos(i) THEN 1 ELSE 0])

MaxP(a, b) == IF Len(a) = 1 THEN NVars(b) ELSE NVars(a)
Get(a, k) == IF k > Len(a) THEN 0 ELSE a[k]

JAddDef(a, b) == [k \in 1..JLen(MaxP(a, b)) |-> RAdd(Get(a, k), Get(b, k))]
JScaleDef(c, a) == [k \in 1..Len(a) |-> RMul(c, a[k])]
JMulDef(a, b) ==
    LET p == MaxP(a, b) IN
    [k \in 1..JLen(p) |->
        IF k <= 1 THEN RMul(a[1], b[1])
        ELSE IF k <= 1 + p
        THEN RAdd(RMul(a[1], Get(b, k)), RMul(b[1], Get(a, k)))
        ELSE LET i == RowOf(p, k)  j == ColOf(p, k) IN
             RAdd(RAdd(RMul(a[1], Get(b, k)), RMul(b[1], Get(a, k))),
                  RAdd(RMul(Get(a, 1 + i), Get(b, 1 + j)),
                       RMul(Get(a, 1 + j), Get(b, 1 + i))))]
(* f(a) for a real function with f, f', f'' = f0, f1, f2 at the value of a *)
JUnDef(f0, f1, f2, a) ==
    LET p == NVars(a) IN
    [k \in 1..Len(a) |->
        IF k = 1 THEN f0
        ELSE IF k <= 1 + p THEN RMul(f1, a[k])
        ELSE RAdd(RMul(f1, a[k]),
                  RMul(f2, RMul(a[1 + RowOf(p, k)], a[1 + ColOf(p, k)])))]

JAdd(a, b)   == JAddDef(a, b)
JScale(c, a) == JScaleDef(c, a)
JMul(a, b)   == JMulDef(a, b)
JUn(f0, f1, f2, a) == JUnDef(f0, f1, f2, a)

JNeg(a)    == JScale(-1, a)
JSub(a, b) == JAdd(a, JNeg(b))
JExp(a) == LET e == RExp(a[1]) IN JUn(e, e, e, a)
JLn(a)  == JUn(RLn(a[1]), RDiv(1, a[1]), RNeg(RDiv(1, RMul(a[1], a[1]))), a)
JInv(a) == LET r == RDiv(1, a[1]) IN
           JUn(r, RNeg(RMul(r, r)), RMul(2, RMul(r, RMul(r, r))), a)
JDiv(a, b) == JMul(a, JInv(b))
(* 1 / (1 + e^-a) and arctan, from their defining differential equations *)
JExpit(a) == LET s == RDiv(1, RAdd(1, RExp(RNeg(a[1]))))
                 t == RMul(s, RSub(1, s))
             IN JUn(s, t, RMul(t, RSub(1, RMul(2, s))), a)
JAtan(a)  == LET w == RDiv(1, RAdd(1, RMul(a[1], a[1])))
             IN JUn(RAtan(a[1]), w, RNeg(RMul(RMul(2, a[1]), RMul(w, w))), a)
(* a^n, natural number n *)
RECURSIVE JPowN(_, _)
JPowN(a, n) == IF n = 0 THEN JConst(1)
               ELSE IF n = 1 THEN a
               ELSE IF n % 2 = 0 THEN LET h == Tup(JPowN(a, n \div 2)) IN JMul(h, h)
               ELSE JMul(a, JPowN(a, n - 1))
RECURSIVE JSumSeq(_, _)
JSumSeq(s, k) == IF k = 0 THEN JConst(0) ELSE JAdd(JSumSeq(s, k - 1), s[k])
JSum(s) == JSumSeq(s, Len(s))
=============================================================================
