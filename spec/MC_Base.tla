------------------------------- MODULE MC_Base -------------------------------
(***************************************************************************)
(* Self-check of the base modules: the operators evaluated by java/ against *)
(* their definitions in TLA+ (arrays, jets) and against the laws that       *)
(* characterise them (reals, exp, log, gamma, normal distribution).  The    *)
(* numbers themselves are also emitted, and tools/selfcheck.py compares     *)
(* them with another implementation of arbitrary precision.                 *)
(***************************************************************************)
EXTENDS Jet, Arr, Normal
CONSTANTS NSess, Seed, OutFile
VARIABLES id, done

S == H(Seed, id)
Num(st) == LET k == H(st, 9) % 6 IN
           IF k = 0 THEN (H(st, 1) % 13) - 6 ELSE IF k = 1 THEN RDiv((H(st, 1) % 13) - 6, 7)
           ELSE IF k = 2 THEN 0 ELSE RRnd(H(st, 2), -9000, 9000)
Pos(st) == IF H(st, 9) % 5 = 0 THEN 1 + (H(st, 1) % 9) ELSE RRnd(H(st, 2), 1, 9000)
Vars == S % 5
JetAt(st) == IF H(st, 8) % 5 = 0 THEN <<Num(st)>> ELSE Tup([k \in 1..JLen(Vars) |-> Num(H(st, k))])
SameJ(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : RNear(a[k], b[k], "1e-30")
Near(a, b) == RNear(a, b, "1e-30")

Init == id \in 1..NSess /\ done = FALSE
x == Num(H(S, 1))  y == Num(H(S, 2))  z == Num(H(S, 3))  p == Pos(H(S, 4))  q == Pos(H(S, 5))
h == RDiv(x, 3)  k2 == RDiv(y, 3)  rr == RRnd(H(S, 6), -999, 999)
Next == /\ ~done /\ done' = TRUE /\ id' = id
        /\ Emit(OutFile, [id |-> id, x |-> RAdd(x, 0), y |-> RAdd(y, 0), p |-> p, q |-> q, r |-> rr,
               h |-> h, k |-> k2,
               out |-> [sum |-> RAdd(x, y), prod |-> RMul(x, y), quot |-> RDiv(x, p), exp |-> RExp(x), ln |-> RLn(p),
                        sqrt |-> RSqrt(p), atan |-> RAtan(x), lgamma |-> RLgamma(p), powi |-> RPowI(x, 3),
                        pow |-> RPow(p, y), pi |-> RPi, fact |-> RFact(id % 30), floor |-> RFloor(x),
                        phi |-> Phi(h), phi2 |-> Phi2(h, k2, rr)]])
Spec == Init /\ [][Next]_<<id, done>>

(* ---- reals --------------------------------------------------------------- *)
Field ==
    /\ Near(RAdd(x, y), RAdd(y, x)) /\ Near(RAdd(RAdd(x, y), z), RAdd(x, RAdd(y, z)))
    /\ Near(RMul(x, RAdd(y, z)), RAdd(RMul(x, y), RMul(x, z)))
    /\ Near(RMul(RDiv(x, p), p), x) /\ REq(RSub(x, y), RAdd(x, RNeg(y)))
    /\ REq(RAbs(x), IF RLt(x, 0) THEN RNeg(x) ELSE x)
    /\ (RLt(x, y) <=> RLt(0, RSub(y, x))) /\ (RLe(x, y) <=> ~RLt(y, x)) /\ (REq(x, y) <=> RLe(x, y) /\ RLe(y, x))
    /\ Near(RSum(<<x, y, z>>), RAdd(x, RAdd(y, z)))
    /\ Near(RDot(<<x, y>>, <<z, p>>), RAdd(RMul(x, z), RMul(y, p)))
    /\ REq(RFloor(x), RNeg(RNeg(RFloor(x)))) /\ RLe(RFloor(x), x) /\ RLt(x, RAdd(RFloor(x), 1))
    /\ RIsNan(RDiv(x, 0)) /\ RIsNan(RAdd(RDiv(1, 0), x)) /\ ~RIsNan(x)
Elementary ==
    /\ Near(RMul(RExp(x), RExp(y)), RExp(RAdd(x, y))) /\ Near(RLn(RExp(x)), x) /\ Near(RExp(RLn(p)), p)
    /\ Near(RLn(RMul(p, q)), RAdd(RLn(p), RLn(q)))
    /\ Near(RMul(RSqrt(p), RSqrt(p)), p)
    /\ Near(RAtan(RNeg(x)), RNeg(RAtan(x))) /\ Near(RMul(4, RAtan(1)), RPi)
    /\ Near(RAdd(RAtan(p), RAtan(RDiv(1, p))), RDiv(RPi, 2))
    /\ Near(RLgamma(RAdd(p, 1)), RAdd(RLgamma(p), RLn(p)))
    /\ Near(RAdd(RLgamma(p), RLgamma(RAdd(p, "0.5"))),
            RAdd(RMul(RSub(1, RMul(2, p)), RLn(2)), RAdd(RDiv(RLn(RPi), 2), RLgamma(RMul(2, p)))))
    /\ Near(RFact(7), 5040) /\ Near(RPowI(x, 3), RMul(x, RMul(x, x)))
    /\ Near(RMul(RPow(p, x), RPow(p, y)), RPow(p, RAdd(x, y))) /\ REq(RPow(0, p), 0)
    /\ RNear(RAdd(Phi(x), Phi(RNeg(x))), 1, "1e-28")
    /\ RNear(RAdd(Phi2(h, k2, rr), Phi2(h, RNeg(k2), RNeg(rr))), Phi(h), "1e-20")

(* ---- jets ------------------------------------------------------------------ *)
JetOps == LET a == JetAt(H(S, 11))  b == JetAt(H(S, 12))  c == JetAt(H(S, 13)) IN
    /\ SameJ(JAdd(a, b), JAddDef(a, b)) /\ SameJ(JMul(a, b), JMulDef(a, b))
    /\ SameJ(JScale(x, a), JScaleDef(x, a)) /\ SameJ(JUn(x, y, z, a), JUnDef(x, y, z, a))
    /\ SameJ(JMul(a, JAdd(b, c)), JAdd(JMul(a, b), JMul(a, c)))
    /\ SameJ(JMul(a, JMul(b, c)), JMul(JMul(a, b), c))
    /\ (~REq(b[1], 0) => LET d == JMul(JDiv(a, b), b) IN
            \A k \in 1..Len(d) : RNear(d[k], Get(a, k), "1e-20"))
    /\ LET e == JExp(a) IN SameJ(JMul(e, JExp(JNeg(a))), IF Len(a) = 1 THEN <<1>> ELSE Tup([k \in 1..Len(a) |-> IF k = 1 THEN 1 ELSE 0]))
    /\ SameJ(JPowN(a, 3), JMul(a, JMul(a, a)))
    /\ \A i \in 1..Vars, j \in 1..Vars : JH(JVar(x, i, Vars), Vars, i, j) = 0

(* ---- arrays ------------------------------------------------------------------ *)
Shape == Tup([k \in 1..(S % 4) |-> 1 + (H(S, k + 20) % 4)])
Arrays == \A k \in 1..Size(Shape) :
    /\ Unravel(Shape, k) = UnravelDef(Shape, k)
    /\ Ravel(Shape, Unravel(Shape, k)) = k /\ RavelDef(Shape, UnravelDef(Shape, k)) = k
=============================================================================
