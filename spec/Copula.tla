------------------------------- MODULE Copula -------------------------------
(***************************************************************************)
(* Joint distributions with given margins.  A session draws a family, its    *)
(* parameter and two (possibly unnormalised, possibly batched) marginal mass *)
(* vectors; the joint table is filled cell by cell with the mass the family's *)
(* copula function gives to the cell's rectangle.                             *)
(***************************************************************************)
EXTENDS Arr, Normal, TLC

CONSTANTS NSess, Seed, OutFile, MaxAxis, Which

VARIABLES id, fam, rho, xm, ym, joint, phase
vars == <<id, fam, rho, xm, ym, joint, phase>>
(* xm: [b |-> batch shape, n |-> axis, scale, cum |-> per batch cell a sequence of  *)
(* points [u |-> cumulative, q |-> its normal quantile (family Gaussian only)]]      *)

R(st, key, n) == H(st, key) % n
PickSeq(st, key, q) == q[1 + R(st, key, Len(q))]
Chance(st, key, num, den) == R(st, key, den) < num
st0 == H(Seed, id)

(* ---- families ------------------------------------------------------------------ *)
Fams == IF Which = "gauss" THEN <<"Gaussian">> ELSE <<"Clayton", "Gumbel", "Frank", "AkiMikhailHaq">>
Frank(u, v) ==
    LET e(t) == RSub(RExp(RNeg(RMul(rho, t))), 1) IN
    RDiv(RLn(RAdd(1, RDiv(RMul(e(u), e(v)), e(1)))), RNeg(rho))
(* the same for a > 0, as a sum of terms of one sign (34 digits do not      *)
(* cover the definition for large a)                                        *)
FrankW(u, v, a) ==
    LET e(t) == RExp(RNeg(RMul(a, t))) IN
    RDiv(RLn(RDiv(RAdd(RMul(e(u), RSub(1, e(v))), RMul(e(v), RSub(1, e(RSub(1, v))))), RSub(1, e(1)))), RNeg(a))
CFun(a, b) ==
    LET u == a.u  v == b.u IN
    IF REq(u, 0) \/ REq(v, 0) THEN 0
    ELSE IF REq(u, 1) THEN v
    ELSE IF REq(v, 1) THEN u
    ELSE CASE fam = "Gaussian" /\ REq(rho, 1) -> IF RLt(u, v) THEN u ELSE v
           [] fam = "Gaussian" /\ REq(rho, -1) -> LET m == RSub(RAdd(u, v), 1) IN IF RLt(m, 0) THEN 0 ELSE m
           [] fam = "Gaussian" -> Phi2(a.q, b.q, rho)
           [] fam = "Clayton" ->
                RPow(RSub(RAdd(RPow(u, RNeg(rho)), RPow(v, RNeg(rho))), 1), RDiv(-1, rho))
           [] fam = "Gumbel" ->
                RExp(RNeg(RPow(RAdd(RPow(RNeg(RLn(u)), rho), RPow(RNeg(RLn(v)), rho)), RDiv(1, rho))))
           [] fam = "Frank" -> IF RLe(RAbs(rho), 30) THEN Frank(u, v)
                               ELSE IF RLt(0, rho) THEN FrankW(u, v, rho)
                               ELSE RSub(u, FrankW(u, RSub(1, v), RNeg(rho)))
           [] fam = "AkiMikhailHaq" ->
                RDiv(RMul(u, v), RSub(1, RMul(rho, RMul(RSub(1, u), RSub(1, v)))))
Param(f, st) ==
    CASE f = "Gaussian" -> PickSeq(st, 1, <<0, "0.5", "-0.5", "0.9", "-0.9", "0.99", "-0.99", "0.999", 1, -1, RRnd(H(st, 2), -999, 999), RRnd(H(st, 3), -999, 999)>>)
      [] f = "Clayton" -> PickSeq(st, 1, <<1, 2, "0.5", 5, "0.05", "0.01", "0.001", 20, 100, 500, RRnd(H(st, 2), 20, 8000)>>)
      [] f = "Gumbel" -> PickSeq(st, 1, <<1, 2, "1.5", 5, 20, "1.001", "1.00001", 100, 500, RRnd(H(st, 2), 1000, 8000)>>)
      [] f = "Frank" -> PickSeq(st, 1, <<1, -1, 2, "-0.1", "0.01", "0.001", "-0.001", 15, -15, 30, -30, 40, 100, -100, 500, -500, RRnd(H(st, 2), 50, 9000), RRnd(H(st, 3), -9000, -50)>>)
      [] f = "AkiMikhailHaq" -> PickSeq(st, 1, <<0, "0.5", "-0.5", "0.99", "0.999", -1, "0.001", RRnd(H(st, 2), -999, 999)>>)
Independent == (fam \in {"Gaussian", "AkiMikhailHaq"} /\ REq(rho, 0)) \/ (fam = "Gumbel" /\ REq(rho, 1))

(* ---- marginals ------------------------------------------------------------------- *)
Zero == [u |-> 0, q |-> 0]
One == [u |-> 1, q |-> 0]
(* strictly increasing quantiles, hence cumulative probabilities; zero masses repeat  *)
RECURSIVE Quant(_, _, _, _)
Quant(st, n, from, acc) ==
    IF n = 0 THEN acc
    ELSE LET q == RAdd(from, RRnd(H(st, n), 60, 1400))
         IN Quant(st, n - 1, q, Append(acc, [u |-> Phi(q), q |-> q]))
RECURSIVE Cums(_, _, _, _)
Cums(ms, k, tot, acc) ==
    IF k = Len(ms) THEN acc
    ELSE Cums(ms, k + 1, RAdd(tot, ms[k + 1]), Append(acc, RAdd(tot, ms[k + 1])))
Mass(st) == PickSeq(st, 1, <<0, 1, 1, 2, 5, RRnd(H(st, 2), 1, 900), RRnd(H(st, 3), 1, 900), RRnd(H(st, 4), 1, 9000)>>)
Masses(st, n) == LET m == Tup([q \in 1..n |-> Mass(H(st, q))]) IN
                 IF \E q \in 1..n : RLt(0, m[q]) THEN m ELSE Tup([q \in 1..n |-> q])
(* insert repeated points (cells of no mass)                                           *)
Stretch(st, c, n) ==      \* c: n' <= n points ending in One; repeats some so that there are n
    LET m == Len(c) IN
    IF m = n THEN c
    ELSE LET at == R(st, 9, m + 1)            \* a zero mass in front of point at + 1, or at the end
         IN Tup([q \in 1..n |-> IF q <= at THEN c[q]
                                ELSE IF q = at + 1 THEN (IF at = 0 THEN Zero ELSE c[at])
                                ELSE c[q - 1]])
Cumulative(f, st, n) ==
    IF f = "Gaussian"
    THEN LET m == IF n > 1 /\ Chance(st, 1, 1, 3) THEN n - 1 ELSE n
             from == RRnd(H(st, 2), -2600, -300)
         IN Stretch(st, Append(Quant(H(st, 3), m - 1, from, <<>>), One), n)
    ELSE LET ms == Masses(H(st, 4), n)
             c == Cums(ms, 0, 0, <<>>)
             t == c[n]
         IN Tup([q \in 1..n |-> [u |-> IF REq(c[q], t) THEN 1 ELSE RDiv(c[q], t), q |-> 0]])
Batches == << <<<<>>, <<>>>>, <<<<>>, <<>>>>, <<<<2>>, <<2>>>>, <<<<3>>, <<3>>>>, <<<<2>>, <<1>>>>,
              <<<<1>>, <<3>>>>, <<<<2>>, <<>>>>, <<<<>>, <<2>>>>, <<<<2, 2>>, <<2, 2>>>>, <<<<2, 1>>, <<1, 3>>>>,
              <<<<2, 1>>, <<2>>>> >>
Marginal(f, st, b) ==
    LET n == 1 + R(st, 1, MaxAxis) IN
    [b |-> b, n |-> n,
     scale |-> Tup([c \in 1..Size(b) |->             \* every cell of the batch has its own total
                    PickSeq(H(st, 2), IF Chance(st, 5, 1, 3) THEN 1 ELSE c, <<1, 1, 7, "0.01", RRnd(H(H(st, 3), c), 100, 9000)>>)]),
     cum |-> Tup([c \in 1..Size(b) |-> Cumulative(f, H(H(st, 4), c), n)])]
MassOf(m) ==      \* the mass vectors handed to the library
    [sh |-> Append(m.b, m.n),
     v |-> Tup([k \in 1..(Size(m.b) * m.n) |->
        LET c == m.cum[((k - 1) \div m.n) + 1]  q == ((k - 1) % m.n) + 1
        IN RMul(m.scale[((k - 1) \div m.n) + 1], RSub(c[q].u, IF q = 1 THEN 0 ELSE c[q - 1].u))])]

Init ==
    /\ id \in 1..NSess /\ joint = <<>> /\ phase = "fill"
    /\ fam = Fams[1 + (id % Len(Fams))]
    /\ rho = Param(fam, H(st0, 2))
    /\ LET b == PickSeq(st0, 3, Batches) IN
       /\ xm = Marginal(fam, H(st0, 4), b[1])
       /\ ym = Marginal(fam, H(st0, 5), b[2])

(* ---- filling the table -------------------------------------------------------------- *)
Lift(b, n) == Ones(n - Len(b)) \o b
NB == Mx(Len(xm.b), Len(ym.b))
BShape == BSh(Lift(xm.b, NB), Lift(ym.b, NB))
Shape == BShape \o <<xm.n, ym.n>>
XCum(bc) == xm.cum[Ravel(Lift(xm.b, NB), Unravel(BShape, bc))]
YCum(bc) == ym.cum[Ravel(Lift(ym.b, NB), Unravel(BShape, bc))]
Pt(c, q) == IF q = 0 THEN Zero ELSE c[q]
Row(bc, r) ==      \* masses of row r of batch cell bc
    LET cx == XCum(bc)  cy == YCum(bc)
        lo == Tup([q \in 1..(ym.n + 1) |-> CFun(Pt(cx, r - 1), Pt(cy, q - 1))])
        hi == Tup([q \in 1..(ym.n + 1) |-> CFun(Pt(cx, r), Pt(cy, q - 1))])
    IN Tup([q \in 1..ym.n |-> RSub(RSub(hi[q + 1], hi[q]), RSub(lo[q + 1], lo[q]))])
Rows == Len(joint) \div ym.n
Fill ==
    /\ phase = "fill" /\ Len(joint) < Size(Shape)
    /\ joint' = joint \o Row((Rows \div xm.n) + 1, (Rows % xm.n) + 1)
    /\ UNCHANGED <<id, fam, rho, xm, ym, phase>>
Publish ==
    /\ phase = "fill" /\ Len(joint) = Size(Shape) /\ phase' = "done"
    /\ Emit(OutFile, [id |-> id, fam |-> fam, rho |-> RRound(rho, 17),
            x |-> [sh |-> MassOf(xm).sh, v |-> RRoundAll(MassOf(xm).v, 17)],
            y |-> [sh |-> MassOf(ym).sh, v |-> RRoundAll(MassOf(ym).v, 17)],
            sh |-> Shape, v |-> RRoundAll(joint, 17)])
    /\ UNCHANGED <<id, fam, rho, xm, ym, joint>>
Next == Fill \/ Publish
Spec == Init /\ [][Next]_vars

(* ---- laws ---------------------------------------------------------------------------- *)
Full == phase = "fill" /\ Len(joint) = Size(Shape)
Near(a, b) == RNear(a, b, "0.0000000001")
NonNegative == phase = "fill" => \A q \in 1..Len(joint) : RLe("-0.0000000001", joint[q])
J(bc, r, c) == joint[((bc - 1) * xm.n + r - 1) * ym.n + c]
Diff(c, q) == RSub(c[q].u, Pt(c, q - 1).u)
(* both forms of the Frank copula *)
FrankForms == (Full /\ fam = "Frank" /\ RLe(RAbs(rho), 30)) =>
    \A r \in 1..xm.n, c \in 1..ym.n : LET u == xm.cum[1][r].u  v == ym.cum[1][c].u IN
    (~REq(u, 0) /\ ~REq(v, 0)) =>
    Near(Frank(u, v), IF RLt(0, rho) THEN FrankW(u, v, rho) ELSE RSub(u, FrankW(u, RSub(1, v), RNeg(rho))))

Margins == Full => \A bc \in 1..Size(BShape) :
    /\ \A r \in 1..xm.n : Near(RSum(Tup([c \in 1..ym.n |-> J(bc, r, c)])), Diff(XCum(bc), r))
    /\ \A c \in 1..ym.n : Near(RSum(Tup([r \in 1..xm.n |-> J(bc, r, c)])), Diff(YCum(bc), c))
Degenerate == (Full /\ Independent) => \A bc \in 1..Size(BShape), r \in 1..xm.n, c \in 1..ym.n :
    Near(J(bc, r, c), RMul(Diff(XCum(bc), r), Diff(YCum(bc), c)))
Symmetric == phase = "fill" => \A r \in 1..xm.n, c \in 1..ym.n :
    Near(CFun(xm.cum[1][r], ym.cum[1][c]), CFun(ym.cum[1][c], xm.cum[1][r]))
=============================================================================
