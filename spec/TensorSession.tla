---------------------------- MODULE TensorSession ----------------------------
(***************************************************************************)
(* A client session with the tensor algebra: a growing pool of immutable   *)
(* registers and one action per public operation.  Every arbitrary choice  *)
(* is drawn from the pseudo-random state s, so each of the NSess initial    *)
(* states starts one reproducible behaviour of Depth operations.  A         *)
(* finished behaviour is written out with the exact result of every         *)
(* operation, and replayed into the real library.                           *)
(***************************************************************************)
EXTENDS Tensor, TLC

CONSTANTS NSess, Depth, Seed, MixName, OutFile, MaxCells

(* frequencies of the operations in a session, by focus                      *)
Mix == CASE MixName = "arith" ->
              <<"leaf", "leaf", "bin", "bin", "bin", "bin", "bin", "num", "num", "arr", "arr", "neg", "un", "un", "pow", "mm", "gen", "gen", "bcast", "float", "sum", "expand", "trans", "drop">>
         [] MixName = "reshape" ->
              <<"leaf", "leaf", "leaf", "bin", "bin", "sum", "sum", "sum", "expand", "expand", "flip", "flip", "trans", "trans", "drop", "gen", "gen", "bcast">>
         [] MixName = "dot" ->
              <<"leaf", "leaf", "leaf", "bin", "dot", "dot", "dot", "dot", "dot", "trans", "expand", "gen">>
         [] MixName = "refuse" ->
              <<"leaf", "leaf", "bin", "gen", "trans", "drop", "sum", "bad", "bad", "bad", "bad", "bad", "bad">>
         [] MixName = "pure" ->
              <<"leaf", "bin", "num", "arr", "neg", "sum", "expand", "flip", "trans", "drop", "dot", "un", "pow", "mm", "gen", "bcast", "poke", "poke">>

VARIABLES id, s, k, pool, log, phase
vars == <<id, s, k, pool, log, phase>>

R(st, key, n) == H(st, key) % n                 \* 0 .. n-1
Chance(st, key, num, den) == R(st, key, den) < num
PickSeq(st, key, q) == q[1 + R(st, key, Len(q))]
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                     IN <<m>> \o ToSeq(S \ {m})
PickSet(st, key, S) == PickSeq(st, key, ToSeq(S))

RVal(st) == LET j == R(st, 1, 12) IN
            IF j < 6 THEN j + 1 ELSE IF j < 9 THEN 5 - j ELSE RDiv(2 * R(st, 2, 9) - 9, 4)
RVals(st, n) == Tup([j \in 1..n |-> RVal(H(st, 100 + j))])
(* leaves: general values, some or all zero, all equal, within (0, 1)         *)
Fill(st, key) == PickSeq(st, key, <<"nz", "nz", "nz", "nz", "nz", "unit", "some", "some", "ones", "zeros">>)
RCell(st, fill) == CASE fill = "nz" -> RVal(st)
                     [] fill = "unit" -> RDiv(1 + R(st, 3, 7), 8)
                     [] fill = "some" -> IF Chance(st, 4, 1, 2) THEN 0 ELSE RVal(st)
                     [] fill = "ones" -> 1
                     [] fill = "zeros" -> 0
RFill(st, fill, n) == Tup([j \in 1..n |-> RCell(H(st, 100 + j), fill)])
(* with a large bound on the cells, large axes                                    *)
Large == MaxCells > 2000
RSize(st, key) == PickSeq(st, key, IF Large THEN <<2, 3, 5, 9, 16, 17, 24, 33, 40, 65, 1>> ELSE <<2, 3, 2, 3, 2, 3, 2, 3, 2, 3, 4, 1, 2, 3, 5, 1>>)
RSizes(st, key, n) ==          \* not more than two large axes
    IF Large /\ n > 2 THEN Tup([j \in 1..n |-> IF j = 1 + R(st, key, n) THEN RSize(st, key + j) ELSE 1 + R(st, key + j, 3)])
    ELSE Tup([j \in 1..n |-> RSize(st, key + j)])

(* ---- stored layouts ------------------------------------------------------ *)
(* a mapping of the derivative axes xs onto distinct features of equal size   *)
RECURSIVE RMap(_, _, _, _)
RMap(st, xs, ns, j) ==
    IF j = 0 THEN <<>>
    ELSE LET pre  == RMap(st, xs, ns, j - 1)
             cand == {f \in 0..(Len(ns) - 1) : /\ ns[f + 1] = xs[j] /\ ns[f + 1] > 1
                                               /\ \A i \in 1..Len(pre) : pre[i] # f}
         IN Append(pre, IF cand # {} /\ Chance(st, 200 + j, 2, 3)
                        THEN PickSet(st, 220 + j, cand) ELSE -1)
(* derivative axis sizes: mostly equal to some feature size                   *)
RDer(st, key, n, ns) ==
    Tup([j \in 1..n |-> IF Len(ns) > 0 /\ Chance(st, key + j, 4, 5)
                        THEN ns[1 + R(st, key + 10 + j, Len(ns))] ELSE RSize(st, key + 20 + j)])
(* layout over the given block shapes; some free axes are stored broadcast    *)
LayoutB(st, xs0, ys0, ns, ds0, fb) ==
    LET big == Large /\ Size(xs0 \o ys0 \o ns \o ds0) > MaxCells
        xs == IF big THEN <<>> ELSE xs0
        ys == IF big THEN <<>> ELSE ys0
        ds == IF big THEN <<>> ELSE ds0
        xm == Tup(RMap(H(st, 1), xs, ns, Len(xs)))
        ym == Tup(RMap(H(st, 2), ys, ns, Len(ys)))
        used == {xm[j] : j \in 1..Len(xm)} \union {ym[j] : j \in 1..Len(ym)}
        nb == Tup([j \in 1..Len(ns) |-> IF (j - 1) \notin used /\ fb /\ Chance(st, 30 + j, 1, 7) THEN 1 ELSE ns[j]])
        xb == Tup([j \in 1..Len(xs) |-> IF xm[j] < 0 /\ Chance(st, 40 + j, 1, 9) THEN 1 ELSE xs[j]])
        yb == Tup([j \in 1..Len(ys) |-> IF ym[j] < 0 /\ Chance(st, 50 + j, 1, 9) THEN 1 ELSE ys[j]])
        db == Tup([j \in 1..Len(ds) |-> IF Chance(st, 60 + j, 1, 9) THEN 1 ELSE ds[j]])
        stx == Tup([j \in 1..Len(xs) |-> IF xm[j] >= 0 THEN 1 ELSE xb[j]])
        sty == Tup([j \in 1..Len(ys) |-> IF ym[j] >= 0 THEN 1 ELSE yb[j]])
    IN [xs |-> xb, ys |-> yb, ns |-> nb, ds |-> db, xm |-> xm, ym |-> ym,
        fill |-> Fill(st, 70), v |-> RFill(st, Fill(st, 70), Size(stx \o sty \o nb \o db))]
Layout(st, xs, ys, ns, ds) == LayoutB(st, xs, ys, ns, ds, TRUE)
Mapped(l) == \/ \E j \in 1..Len(l.xm) : l.xm[j] >= 0
             \/ \E j \in 1..Len(l.ym) : l.ym[j] >= 0

RandLayout(st) ==
    LET n == PickSeq(st, 1, <<0, 1, 1, 2, 2, 2, 3>>)
        ns == RSizes(st, 10, n)
        x == PickSeq(st, 2, <<0, 0, 1, 1, 2>>)
        y == PickSeq(st, 3, <<0, 0, 0, 1, 1, 2>>)
        d == PickSeq(st, 4, <<0, 0, 1, 2>>)
    IN Layout(H(st, 5), RDer(st, 20, x, ns), RDer(st, 50, y, ns), ns, RSizes(st, 80, d))

(* layout of a second operand for an elementwise operation with t             *)
PartnerLayout(st, t) ==
    LET ns == IF t.n > 0 THEN IF Chance(st, 1, 4, 5) THEN NSh(t) ELSE <<>>
              ELSE IF Chance(st, 2, 1, 3) THEN RSizes(st, 10, 1 + R(st, 3, 2)) ELSE <<>>
        ns2 == Tup([j \in 1..Len(ns) |-> IF ns[j] = 1 THEN RSize(st, 15 + j) ELSE ns[j]])
        xs == IF t.x > 0 THEN IF Chance(st, 4, 2, 3) THEN XSh(t) ELSE <<>>
              ELSE IF Chance(st, 5, 1, 4) THEN RDer(st, 20, 1 + R(st, 6, 2), ns2) ELSE <<>>
        ys == IF t.y > 0 THEN IF Chance(st, 7, 2, 3) THEN YSh(t) ELSE <<>>
              ELSE IF Chance(st, 8, 1, 4) THEN RDer(st, 50, 1 + R(st, 9, 2), ns2) ELSE <<>>
        ds == IF t.d > 0 THEN IF Chance(st, 81, 2, 3) THEN DSh(t) ELSE <<>>
              ELSE IF Chance(st, 82, 1, 5) THEN RSizes(st, 83, 1) ELSE <<>>
    IN Layout(H(st, 90), xs, ys, ns2, ds)
(* a divisor: no derivative mapping, hence no zero cell                        *)
FreeLayout(l) == [l EXCEPT !.xm = Tup([j \in 1..Len(l.xm) |-> -1]),
                           !.ym = Tup([j \in 1..Len(l.ym) |-> -1])]
StoredSize(l) == Size(Tup([j \in 1..Len(l.xs) |-> IF l.xm[j] >= 0 THEN 1 ELSE l.xs[j]])
                      \o Tup([j \in 1..Len(l.ys) |-> IF l.ym[j] >= 0 THEN 1 ELSE l.ys[j]])
                      \o l.ns \o l.ds)
Refill(st, l) == [l EXCEPT !.v = RVals(st, StoredSize(l)), !.fill = "nz"]

(* ---- registers and events ------------------------------------------------- *)
(* free: no diagonal; nz: no zero cell; ten: not a sum kept unmerged            *)
RegF(t, free, nz, ten) == [t |-> t, free |-> free, nz |-> nz, ten |-> ten]
Reg(t) == RegF(t, FALSE, FALSE, FALSE)
Like(r, t) == [r EXCEPT !.t = t]
RegL(l) == RegF(Denote(l), ~Mapped(l), ~Mapped(l) /\ l.fill \in {"nz", "unit", "ones"}, TRUE)
LeafEv(l, t) == [op |-> "leaf", lay |-> l, res |-> t]
Fits(t) == Size(t.a.sh) <= MaxCells /\ Rk(t) <= 8
None == [evs |-> <<>>, regs |-> <<>>]

DoLeaf(st) ==
    LET l == RandLayout(st)  r == RegL(l) IN
    IF Fits(r.t) THEN [evs |-> <<LeafEv(l, r.t)>>, regs |-> <<r>>] ELSE None

Last4(st, key) == Len(pool) - R(st, key, IF Len(pool) < 5 THEN Len(pool) ELSE 5)

(* zero times a tensor may be returned as the scalar zero                     *)
ZeroScalar(t) == Rk(t) = 0 /\ RNear(t.a.v[1], 0, "0.0000000001")
DoBin(st) ==
    LET i == Last4(st, 1)  t == pool[i].t
        op == PickSeq(st, 2, <<"add", "add", "sub", "sub", "mul", "mul", "mul", "div">>)
        j == Last4(st, 3)
        l0 == PartnerLayout(H(st, 4), t)
        l == IF op = "div" THEN Refill(H(st, 5), FreeLayout(l0)) ELSE l0
        reuse == op # "div" /\ Chance(st, 6, 1, 4) /\ Compat(t, pool[j].t)
        r == RegL(l)
        u == IF reuse THEN pool[j].t ELSE r.t
        swap == op \in {"add", "sub", "mul"} /\ Chance(st, 7, 1, 3)
        res == IF swap THEN ArithT(op, u, t) ELSE ArithT(op, t, u)
        ok == Compat(t, u) /\ Fits(u) /\ Size(BSh(AlignA(t, Mx(t.x, u.x), Mx(t.y, u.y), Mx(t.n, u.n), Mx(t.d, u.d)).sh,
                       AlignA(u, Mx(t.x, u.x), Mx(t.y, u.y), Mx(t.n, u.n), Mx(t.d, u.d)).sh)) <= MaxCells
        ju == IF reuse THEN j ELSE Len(pool) + 1
        zero == op \in {"mul", "div"} /\ (ZeroScalar(t) \/ ZeroScalar(u))
    IN IF ~ok THEN None
       ELSE [evs |-> (IF reuse THEN <<>> ELSE <<LeafEv(l, u)>>)
                      \o <<[op |-> "bin", f |-> op, a |-> IF swap THEN ju ELSE i,
                            b |-> IF swap THEN i ELSE ju, zero |-> zero, res |-> res]>>,
             regs |-> (IF reuse THEN <<>> ELSE <<r>>) \o (IF zero THEN <<>> ELSE <<Reg(res)>>)]

Nums == <<0, 1, 2, -3, "0.5", -1, "2.5">>
NumT(c) == Ten(0, 0, 0, 0, Scl(c))
DoNum(st) ==
    LET i == Last4(st, 1)  t == pool[i].t
        c0 == PickSeq(st, 2, Nums)
        op0 == PickSeq(st, 3, <<"add", "sub", "mul", "div">>)
        left == Chance(st, 4, 1, 2)               \* number on the left
        op == IF op0 = "div" /\ left /\ ~pool[i].nz THEN "sub" ELSE op0
        c == IF op = "div" /\ ~left /\ REq(c0, 0) THEN 2 ELSE c0
        res == IF left THEN ArithT(op, NumT(c), t) ELSE ArithT(op, t, NumT(c))
        zero == op \in {"mul", "div"} /\ (REq(c, 0) \/ ZeroScalar(t))
        kind == PickSeq(st, 5, <<"py", "py", "np", "t0", "a0", "i64", "f32", "i32", "bool">>)
    IN [evs |-> <<[op |-> "num", f |-> op, a |-> i, c |-> c, left |-> left, kind |-> kind,
                   zero |-> zero, res |-> res]>>,
        regs |-> IF zero THEN <<>> ELSE <<Reg(res)>>]

(* an array stands for features only; it may give them to a tensor without     *)
DoArr(st) ==
    LET i == Last4(st, 1)  t == pool[i].t
        sh == IF t.n = 0 THEN RSizes(st, 10, 1 + R(st, 6, 2))
              ELSE Tup([j \in 1..t.n |-> IF Chance(st, 10 + j, 1, 8) THEN 1
                                         ELSE IF NSh(t)[j] = 1 THEN RSize(st, 20 + j) ELSE NSh(t)[j]])
        fits == Size(t.a.sh \o sh) <= MaxCells * 2 /\ Rk(t) + Len(sh) <= 8
        a == [sh |-> sh, v |-> RVals(st, Size(sh))]
        u == Ten(0, 0, Len(sh), 0, a)
        op0 == PickSeq(st, 3, <<"add", "sub", "mul", "div">>)
        left == Chance(st, 4, 1, 2)
        op == IF op0 = "div" /\ left /\ ~pool[i].nz THEN "sub" ELSE op0
        res == IF left THEN ArithT(op, u, t) ELSE ArithT(op, t, u)
        zero == op \in {"mul", "div"} /\ ZeroScalar(t)
    IN IF ~fits THEN None
       ELSE [evs |-> <<[op |-> "arr", f |-> op, a |-> i, arr |-> a, left |-> left, zero |-> zero, res |-> res]>>,
             regs |-> IF zero THEN <<>> ELSE <<Reg(res)>>]

DoNeg(st) == LET i == Last4(st, 1) IN
    [evs |-> <<[op |-> "neg", a |-> i, res |-> NegT(pool[i].t)]>>,
     regs |-> <<Like(pool[i], NegT(pool[i].t))>>]

(* elementwise functions of tensors without derivative blocks                    *)
All(t, P(_)) == \A j \in 1..Len(t.a.v) : P(t.a.v[j])
Btw(a, lo, hi) == RLe(lo, a) /\ RLe(a, hi)
UnDom(f, t) == CASE f = "exp" -> All(t, LAMBDA a : Btw(a, -20, 4))
                 [] f = "log" -> All(t, LAMBDA a : Btw(a, "0.001", 100000))
                 [] f = "square" -> All(t, LAMBDA a : Btw(a, -40, 40))
                 [] f = "tanh" -> All(t, LAMBDA a : Btw(a, -15, 15))
                 [] f = "arctan" -> All(t, LAMBDA a : Btw(a, -1000, 1000))
                 [] f = "expit" -> All(t, LAMBDA a : Btw(a, -25, 25))
                 [] f = "logit" -> All(t, LAMBDA a : Btw(a, "0.001", "0.999"))
                 [] f = "gammaln" -> All(t, LAMBDA a : Btw(a, "0.1", 60))
                 [] f = "gamma" -> All(t, LAMBDA a : Btw(a, "0.1", 6))
UnF(f, a) == CASE f = "exp" -> RExp(a)
               [] f = "log" -> RLn(a)
               [] f = "square" -> RMul(a, a)
               [] f = "tanh" -> LET e == RExp(RMul(2, a)) IN RDiv(RSub(e, 1), RAdd(e, 1))
               [] f = "arctan" -> RAtan(a)
               [] f = "expit" -> RDiv(1, RAdd(1, RExp(RNeg(a))))
               [] f = "logit" -> RLn(RDiv(a, RSub(1, a)))
               [] f = "gammaln" -> RLgamma(a)
               [] f = "gamma" -> RExp(RLgamma(a))
Uns == <<"exp", "log", "square", "tanh", "arctan", "expit", "logit", "gammaln", "gamma">>
(* a register, or a fresh leaf when there is none to work on                      *)
ValueReg(st) ==
    LET i == Last4(st, 1)
        n == PickSeq(st, 2, <<0, 1, 1, 2, 2, 3>>)
        l == LET l0 == LayoutB(H(st, 3), <<>>, <<>>, RSizes(st, 10, n), RSizes(st, 30, PickSeq(st, 4, <<0, 0, 1, 2>>)), FALSE)
                 f == PickSeq(st, 5, <<"nz", "unit", "unit", "some">>)
             IN [l0 EXCEPT !.fill = f, !.v = RFill(H(st, 6), f, Size(l0.ns \o l0.ds))]
        old == pool[i].ten /\ pool[i].t.x + pool[i].t.y = 0
    IN IF old THEN [evs |-> <<>>, regs |-> <<>>, i |-> i, r |-> pool[i]]
       ELSE LET r == RegL(l) IN [evs |-> <<LeafEv(l, r.t)>>, regs |-> <<r>>, i |-> Len(pool) + 1, r |-> r]
DoUn(st) ==
    LET e == ValueReg(H(st, 1))  t == e.r.t
        good == {j \in 1..Len(Uns) : UnDom(Uns[j], t)}
        f == Uns[PickSet(st, 2, good)]
        res == MapT(t, LAMBDA a : UnF(f, a))
    IN IF ~Fits(t) \/ good = {} THEN None
       ELSE [evs |-> e.evs \o <<[op |-> "un", f |-> f, a |-> e.i, res |-> res]>>,
             regs |-> e.regs \o <<RegF(res, FALSE, FALSE, TRUE)>>]
(* maximum / minimum with a number, an array or a tensor of the same shape         *)
DoMM(st) ==
    LET e == ValueReg(H(st, 1))  t == e.r.t
        f == PickSeq(st, 2, <<"maximum", "minimum">>)
        with == PickSeq(st, 3, <<"num", "arr", "ten">>)
        c == PickSeq(st, 4, Nums)
        u == IF with = "num" THEN NumT(c) ELSE Ten(0, 0, t.n, t.d, [sh |-> t.a.sh, v |-> RFill(H(st, 5), "some", Len(t.a.v))])
        res == BinT(t, u, LAMBDA a, b : IF f = "maximum" THEN IF RLe(a, b) THEN b ELSE a
                                        ELSE IF RLe(a, b) THEN a ELSE b)
    IN IF ~Fits(t) THEN None
       ELSE [evs |-> e.evs \o <<[op |-> "mm", f |-> f, a |-> e.i, with |-> with, c |-> c, arr |-> u.a, d |-> t.d,
                                 left |-> Chance(st, 6, 1, 2), res |-> res]>>,
             regs |-> e.regs \o <<RegF(res, FALSE, FALSE, TRUE)>>]
(* powers: a positive natural exponent keeps the zeros beside a diagonal            *)
DoPow(st) ==
    LET i == Last4(st, 1)  t == pool[i].t
        e == IF pool[i].nz THEN PickSeq(st, 2, <<1, 2, 3, 0, -1, -2, "0.5">>) ELSE PickSeq(st, 2, <<1, 2, 2, 3>>)
        pos == All(t, LAMBDA a : RLt(0, a))
        ex == IF REq(e, "0.5") /\ ~pos THEN 2 ELSE e
        res == MapT(t, LAMBDA a : IF REq(ex, "0.5") THEN RSqrt(a)
                                  ELSE IF RLt(ex, 0) THEN RDiv(1, RPowI(a, RNeg(ex))) ELSE RPowI(a, ex))
    IN IF ~pool[i].ten \/ ~All(t, LAMBDA a : Btw(a, -30, 30)) THEN None
       ELSE [evs |-> <<[op |-> "pow", a |-> i, e |-> ex, res |-> res]>>, regs |-> <<RegF(res, FALSE, FALSE, TRUE)>>]
(* a sum of given terms kept unmerged, built by its constructor                      *)
DoGen(st) ==
    LET i == Last4(st, 1)  t == pool[i].t
        l1 == PartnerLayout(H(st, 2), t)  r1 == RegL(l1)
        wide(p, q) == /\ Large
                      /\ LET x == Mx(p.x, q.x) y == Mx(p.y, q.y) n0 == Mx(p.n, q.n) d == Mx(p.d, q.d) IN
                         Size(BSh(AlignA(p, x, y, n0, d).sh, AlignA(q, x, y, n0, d).sh)) > MaxCells
        s1 == IF Compat(t, r1.t) /\ ~wide(t, r1.t) THEN ArithT("add", t, r1.t) ELSE t
        two == Chance(st, 3, 1, 2)
        l2 == PartnerLayout(H(st, 4), s1)  r2 == RegL(l2)
        one == Chance(st, 5, 1, 6)
        res == IF one THEN t ELSE IF two THEN ArithT("add", s1, r2.t) ELSE s1
        n == Len(pool)
    IN IF ~pool[i].ten \/ ~Fits(t) \/ ~Fits(s1) THEN None
       ELSE IF one THEN [evs |-> <<[op |-> "gen", els |-> <<i>>, res |-> res]>>, regs |-> <<Reg(res)>>]
       ELSE IF ~Compat(t, r1.t) \/ wide(t, r1.t) \/ (two /\ (~Compat(s1, r2.t) \/ wide(s1, r2.t) \/ ~Fits(r2.t))) \/ ~Fits(r1.t) \/ ~Fits(res) THEN None
       ELSE [evs |-> <<LeafEv(l1, r1.t)>> \o (IF two THEN <<LeafEv(l2, r2.t)>> ELSE <<>>)
                     \o <<[op |-> "gen", els |-> IF two THEN <<n + 2, i, n + 1>> ELSE <<i, n + 1>>, res |-> res]>>,
             regs |-> <<r1>> \o (IF two THEN <<r2>> ELSE <<>>) \o <<Reg(res)>>]
(* missing blocks added with axes of size one                                         *)
DoBcast(st) ==
    LET i == Last4(st, 1)  t == pool[i].t
        x == IF t.x > 0 THEN t.x ELSE R(st, 2, 3)
        y == IF t.y > 0 THEN t.y ELSE R(st, 3, 3)
        n == IF t.n > 0 THEN t.n ELSE R(st, 4, 3)
        d == IF t.d > 0 THEN t.d ELSE R(st, 5, 2)
        res == Ten(x, y, n, d, AlignA(t, x, y, n, d))
    IN IF ~pool[i].ten \/ x + y + n + d > 8 THEN None
       ELSE [evs |-> <<[op |-> "bcast", a |-> i, x |-> x, y |-> y, n |-> n, d |-> d, res |-> res]>>,
             regs |-> <<RegF(res, FALSE, FALSE, TRUE)>>]
(* the number a tensor without axes stands for                                         *)
DoFloat(st) ==
    LET i == Last4(st, 1) IN
    IF ~pool[i].ten \/ Rk(pool[i].t) # 0 THEN None
    ELSE [evs |-> <<[op |-> "float", a |-> i, res |-> pool[i].t]>>, regs |-> <<>>]

DoSum(st) ==
    LET i == Last4(st, 1)  t == pool[i].t
        form == PickSeq(st, 2, <<"all", "none", "int", "list", "list", "list">>)
        F == CASE form = "all" -> 0..(t.n - 1)
               [] form = "none" -> {}
               [] form = "int" -> {R(st, 3, Mx(t.n, 1))}
               [] OTHER -> {f \in 0..(t.n - 1) : Chance(st, 10 + f, 1, 2)}
        dd == Chance(st, 5, 1, 2)
        res == SumT(t, F, dd)
    IN IF form = "int" /\ t.n = 0 THEN None
       ELSE [evs |-> <<[op |-> "sum", a |-> i, form |-> form, F |-> ToSeq(F), dd |-> dd, res |-> res]>>,
             regs |-> <<Reg(res)>>]

(* injective placement of n axes among m                                        *)
RECURSIVE RInj(_, _, _)
RInj(st, n, m) == IF n = 0 THEN <<>>
    ELSE LET pre == RInj(st, n - 1, m)
             c == {w \in 0..(m - 1) : \A j \in 1..Len(pre) : pre[j] # w}
         IN Append(pre, PickSet(st, 300 + n, c))
DoExpand(st) ==
    LET i == Last4(st, 1)  t == pool[i].t
        dim == Chance(st, 2, 1, 3)
        n == IF dim THEN t.d ELSE t.n
        m == n + R(st, 3, 3)
        w == Tup(RInj(st, n, m))
        res == IF dim THEN ExpandD(t, w, m) ELSE ExpandN(t, w, m)
    IN IF m = 0 \/ m > 4 \/ ZeroScalar(t) THEN None
       ELSE [evs |-> <<[op |-> "expand", a |-> i, w |-> w, m |-> m, dim |-> dim, res |-> res]>>,
             regs |-> <<Reg(res)>>]
DoFlip(st) ==
    LET i == Last4(st, 1)  t == pool[i].t
        dim == Chance(st, 2, 1, 3)
        n == IF dim THEN t.d ELSE t.n
        F == {f \in 0..(n - 1) : Chance(st, 10 + f, 1, 2)}
        res == IF dim THEN FlipD(t, F) ELSE FlipN(t, F)
        (* flipping a feature that carries a diagonal may be refused          *)
        refuse == ~dim /\ ~pool[i].free /\ t.x + t.y > 0
    IN [evs |-> <<[op |-> "flip", a |-> i, F |-> ToSeq(F), dim |-> dim, refuse |-> refuse, res |-> res]>>,
        regs |-> IF refuse THEN <<>> ELSE <<Like(pool[i], res)>>]
DoTrans(st) == LET i == Last4(st, 1)  r == TransT(pool[i].t) IN
    [evs |-> <<[op |-> "trans", a |-> i, res |-> r]>>, regs |-> <<Like(pool[i], r)>>]
DoDrop(st) == LET i == Last4(st, 1)  r == DropD(pool[i].t) IN
    [evs |-> <<[op |-> "drop", a |-> i, res |-> r]>>, regs |-> <<Like(pool[i], r)>>]

(* second operand u of t.dot*(u): its features run over the derivative block K *)
DotPartner(st, t, K, ys, fb) ==
    LET K2 == Tup([j \in 1..Len(K) |-> IF K[j] = 1 THEN RSize(st, 15 + j) ELSE K[j]])
        xs == RDer(st, 20, R(st, 1, 3), K2)
        y2 == IF ys THEN RDer(st, 60, R(st, 2, 3), K2) ELSE <<>>
        ds == IF t.d > 0 /\ Chance(st, 3, 1, 2) THEN DSh(t)
              ELSE IF t.d = 0 /\ Chance(st, 4, 1, 5) THEN RSizes(st, 83, 1) ELSE <<>>
    IN LayoutB(H(st, 90), xs, y2, K2, ds, fb)
(* Domain of contractions: the second operand stores its features at the       *)
(* size of the contracted axes, or the first one is an unmapped leaf.           *)
DoDot(st) ==
    LET i == Last4(st, 1)  t == pool[i].t
        right == t.y = 0 /\ Chance(st, 2, 1, 2)
        overY == ~right /\ t.y > 0 /\ t.y # t.x /\ Chance(st, 3, 1, 2)
        K == IF overY THEN YSh(t) ELSE XSh(t)
        l == DotPartner(H(st, 4), t, K, right, pool[i].free)
        r == RegL(l)
        j == Last4(st, 6)
        reuse == pool[i].free /\ pool[j].t.n > 0 /\ NSh(pool[j].t) = K /\ Compat1(pool[j].t.d, t.d)
                 /\ (t.d = 0 \/ pool[j].t.d = 0 \/ BOk(DSh(t), DSh(pool[j].t)))
                 /\ (right \/ pool[j].t.y = 0)
        u == IF reuse THEN pool[j].t ELSE r.t
        auto == Chance(st, 5, 1, 3)
        (* the auto-dispatching form must resolve to the same contraction      *)
        can == IF right THEN u.x > 0 /\ u.y > 0 /\ t.x > 0 ELSE u.n > 0
        name == IF auto /\ can THEN "dot" ELSE IF right THEN "dotr" ELSE "dotl"
        res == IF name = "dot" THEN DotAuto(t, u)
               ELSE IF right THEN DotR(t, u)
               ELSE IF t.x = u.n THEN DotL(t, u) ELSE DotL(TransT(t), u)
        sz == Size(XSh(u) \o YSh(u) \o t.a.sh)
    IN IF \/ (t.x = 0 /\ t.y = 0) \/ (~overY /\ t.x = 0) \/ sz > MaxCells * 3 THEN None
       ELSE IF ~Fits(res) \/ ~Fits(u) THEN None
       ELSE [evs |-> (IF reuse THEN <<>> ELSE <<LeafEv(l, u)>>)
                     \o <<[op |-> name, a |-> i, b |-> IF reuse THEN j ELSE Len(pool) + 1, res |-> res]>>,
             regs |-> (IF reuse THEN <<>> ELSE <<r>>) \o <<Reg(res)>>]

(* the auto-dispatching form where only the second derivative block of one of   *)
(* the operands exists                                                          *)
DoDot2(st) ==
    LET i == Last4(st, 1)  t == pool[i].t
        onlyY == t.x = 0 /\ t.y > 0
        both == onlyY /\ Chance(st, 2, 2, 3)            \* u has both blocks
        K == IF t.y > 0 /\ (t.y = t.x \/ onlyY \/ Chance(st, 3, 1, 2)) THEN YSh(t) ELSE XSh(t)
        l == DotPartner(H(st, 4), t, K, both, pool[i].free)
        r == RegL(l)
        u == IF both THEN r.t ELSE TransT(r.t)
        j == Len(pool) + 1
        res == DotAuto(t, u)
        sz == Size(XSh(u) \o YSh(u) \o t.a.sh)
    IN IF (t.x = 0 /\ t.y = 0) \/ K = <<>> \/ (both /\ (u.x = 0 \/ u.y = 0)) \/ (~both /\ u.y = 0)
          \/ sz > MaxCells * 3 THEN None
       ELSE IF ~Fits(res) \/ ~Fits(u) THEN None
       ELSE [evs |-> <<LeafEv(l, r.t)>> \o (IF both THEN <<>> ELSE <<[op |-> "trans", a |-> j, res |-> u]>>)
                     \o <<[op |-> "dot", a |-> i, b |-> IF both THEN j ELSE j + 1, res |-> res]>>,
             regs |-> <<r>> \o (IF both THEN <<>> ELSE <<Like(r, u)>>) \o <<Reg(res)>>]

(* the second operand a sum kept unmerged                                       *)
DoDot3(st) ==
    LET i == Last4(st, 1)  t == pool[i].t
        right == t.y = 0 /\ Chance(st, 2, 1, 2)
        K == XSh(t)
        l1 == DotPartner(H(st, 4), t, K, right, pool[i].free)
        u1 == Denote(l1)
        l2 == LayoutB(H(st, 7), XSh(u1), YSh(u1), NSh(u1), DSh(u1), FALSE)
        u2 == Denote(l2)
        u == ArithT("add", u1, u2)
        n == Len(pool)
        can == IF right THEN u.x > 0 /\ u.y > 0 ELSE u.n > 0
        name == IF can /\ Chance(st, 5, 1, 3) THEN "dot" ELSE IF right THEN "dotr" ELSE "dotl"
        res == IF name = "dot" THEN DotAuto(t, u) ELSE IF right THEN DotR(t, u) ELSE DotL(t, u)
        sz == Size(XSh(u) \o YSh(u) \o t.a.sh)
    IN IF t.x = 0 \/ (~right /\ t.x = t.y) \/ sz > MaxCells * 2 \/ NSh(u1) # NSh(u2) THEN None
       ELSE IF ~Compat(u1, u2) \/ ~Fits(res) \/ ~Fits(u) THEN None
       ELSE [evs |-> <<LeafEv(l1, u1), LeafEv(l2, u2), [op |-> "gen", els |-> <<n + 1, n + 2>>, res |-> u],
                       [op |-> name, a |-> i, b |-> n + 3, res |-> res]>>,
             regs |-> <<RegL(l1), RegL(l2), Reg(u), Reg(res)>>]
(* contraction with the number zero kept as a tensor                              *)
DoDotZ(st) ==
    LET i == Last4(st, 1)  t == pool[i].t IN
    IF t.x = 0 THEN None
    ELSE [evs |-> <<[op |-> "dotz", a |-> i, how |-> PickSeq(st, 2, IF t.y = 0 THEN <<"dot", "right", "first">> ELSE <<"dot", "first">>)]>>, regs |-> <<>>]

(* ---- requests without an answer ------------------------------------------------ *)
(* must: there is no tensor it could stand for, so it has to be refused; otherwise   *)
(* it may be refused or answered by res.  No register results from either.           *)
Bad(what, i, extra) == extra @@ [op |-> "bad", what |-> what, a |-> i, must |-> TRUE]
May(what, i, res, extra) == extra @@ [op |-> "bad", what |-> what, a |-> i, must |-> FALSE, res |-> res]
Other(st, c) == IF c > 1 /\ Chance(st, 1, 1, 2) THEN c - 1 ELSE c + 1 + R(st, 2, 2)
Ops4 == <<"add", "sub", "mul", "div">>
Spread(t, u) == LET x == Mx(t.x, u.x) y == Mx(t.y, u.y) n == Mx(t.n, u.n) d == Mx(t.d, u.d) IN x + y + n + d
(* a block of another number of axes                                                  *)
BadBlocks(st, i, t) ==
    LET has == {q \in 1..4 : <<t.x, t.y, t.n, t.d>>[q] > 0}
        b == PickSet(st, 1, has)
        n == IF b = 3 THEN Other(H(st, 2), t.n) ELSE 0
        ns == IF b = 3 THEN RSizes(st, 10, n) ELSE IF Chance(st, 3, 1, 2) THEN NSh(t) ELSE <<>>
        xs == IF b = 1 THEN RDer(st, 20, Other(H(st, 4), t.x), ns) ELSE IF Chance(st, 5, 1, 2) THEN XSh(t) ELSE <<>>
        ys == IF b = 2 THEN RDer(st, 40, Other(H(st, 6), t.y), ns) ELSE IF Chance(st, 7, 1, 2) THEN YSh(t) ELSE <<>>
        ds == IF b = 4 THEN RSizes(st, 60, Other(H(st, 8), t.d)) ELSE IF Chance(st, 9, 1, 2) THEN DSh(t) ELSE <<>>
        l == Layout(H(st, 11), xs, ys, ns, ds)
    IN IF has = {} \/ ~Fits(Denote(l)) THEN None
       ELSE [evs |-> <<LeafEv(l, Denote(l)), Bad("bin", i, [b |-> Len(pool) + 1, f |-> PickSeq(st, 12, Ops4), left |-> Chance(st, 13, 1, 2)])>>,
             regs |-> <<RegL(l)>>]
BadArr(st, i, t) ==
    IF t.n = 0 THEN None
    ELSE LET sh == RSizes(st, 10, Other(H(st, 1), t.n)) IN
         [evs |-> <<Bad("arr", i, [arr |-> [sh |-> sh, v |-> RVals(st, Size(sh))], f |-> PickSeq(st, 2, Ops4), left |-> Chance(st, 3, 1, 2)])>>,
          regs |-> <<>>]
(* an axis of another size, without diagonals                                          *)
BadSizes(st, i, t) ==
    LET ax == {q \in 1..Rk(t) : t.a.sh[q] > 1}
        a == PickSet(st, 1, ax)
        sh == [t.a.sh EXCEPT ![a] = @ + 1]
        u == Ten(t.x, t.y, t.n, t.d, [sh |-> sh, v |-> RVals(st, Size(sh))])
        free(n) == Tup([q \in 1..n |-> -1])
        l == [xs |-> XSh(u), ys |-> YSh(u), ns |-> NSh(u), ds |-> DSh(u), xm |-> free(t.x), ym |-> free(t.y),
              fill |-> "nz", v |-> u.a.v]
    IN IF ax = {} \/ ~pool[i].free \/ ~pool[i].ten \/ ~Fits(u) THEN None
       ELSE [evs |-> <<LeafEv(l, u), Bad("bin", i, [b |-> Len(pool) + 1, f |-> PickSeq(st, 2, Ops4), left |-> Chance(st, 3, 1, 2)])>>,
             regs |-> <<RegL(l)>>]
BadZero(st, i, t) ==
    [evs |-> <<Bad("zero", i, [kind |-> PickSeq(st, 1, <<"py", "np", "t0", "a0", "i64", "f32", "i32", "bool">>)])>>, regs |-> <<>>]
(* an unmerged sum as divisor                                                           *)
BadGenDen(st, i, t) ==
    LET l1 == [FreeLayout(RandLayout(H(st, 1))) EXCEPT !.fill = "unit"]
        l2 == LayoutB(H(st, 2), l1.xs, <<>>, l1.ns, l1.ds, FALSE)
        pos(l, key) == [FreeLayout(l) EXCEPT !.fill = "unit", !.v = RFill(H(st, key), "unit", StoredSize(FreeLayout(l)))]
        a == pos(l1, 3)  b == pos(l2, 4)
        g == ArithT("add", Denote(a), Denote(b))
        num == PickSeq(st, 5, <<"num", "leaf", "self">>)
        u == CASE num = "num" -> NumT(2) [] num = "leaf" -> Denote(a) [] num = "self" -> g
        n == Len(pool)
    IN IF ~Compat(Denote(a), Denote(b)) \/ ~Fits(g) THEN None
       ELSE [evs |-> <<LeafEv(a, Denote(a)), LeafEv(b, Denote(b)), [op |-> "gen", els |-> <<n + 1, n + 2>>, res |-> g],
                       May("genden", n + 3, ArithT("div", u, g), [num |-> num, b |-> IF num = "self" THEN n + 3 ELSE n + 1])>>,
             regs |-> <<RegL(a), RegL(b), Reg(g)>>]
(* functions of tensors with derivative blocks or of sums; functions not offered       *)
BadUn(st, i, t) ==
    LET f == PickSeq(st, 1, <<"exp", "square", "tanh", "arctan", "expit", "maximum", "minimum">>)
        res == MapT(t, LAMBDA a : CASE f = "maximum" -> IF RLe(a, "0.5") THEN "0.5" ELSE a
                                    [] f = "minimum" -> IF RLe(a, "0.5") THEN a ELSE "0.5"
                                    [] OTHER -> UnF(f, a))
    IN IF ~(f \in {"maximum", "minimum"}) /\ ~UnDom(IF f = "square" THEN "tanh" ELSE f, t) THEN None
       ELSE [evs |-> <<May("un", i, res, [f |-> f])>>, regs |-> <<>>]
BadUfunc(st, i, t) ==
    LET f == PickSeq(st, 1, <<"absolute", "negative", "sqrt", "power", "reciprocal", "greater">>)
        res == MapT(t, LAMBDA a : CASE f = "absolute" -> RAbs(a) [] f = "negative" -> RNeg(a)
                                    [] f = "sqrt" -> RSqrt(a) [] f = "power" -> RMul(a, a)
                                    [] f = "reciprocal" -> RDiv(1, a) [] f = "greater" -> IF RLt("0.5", a) THEN 1 ELSE 0)
    IN IF (f = "sqrt" /\ ~All(t, LAMBDA a : RLe(0, a))) \/ (f = "reciprocal" /\ ~All(t, LAMBDA a : RLt("0.001", RAbs(a)))) THEN None
       ELSE [evs |-> <<May("ufunc", i, res, [f |-> f])>>, regs |-> <<>>]
BadSum(st, i, t) ==
    IF t.d > 0 \/ Rk(t) = 0 THEN None
    ELSE LET x == t.n + R(st, 1, 2) IN
         [evs |-> <<Bad("sum", i, [F |-> IF t.n > 0 /\ Chance(st, 2, 1, 2) THEN <<0, x>> ELSE <<x>>, dd |-> Chance(st, 3, 1, 2)])>>, regs |-> <<>>]
BadExpand(st, i, t) ==
    LET dim == Chance(st, 1, 1, 3)
        n == IF dim THEN t.d ELSE t.n
        far == n > 0 /\ Chance(st, 2, 1, 2)
        k2 == IF far THEN n ELSE IF n > 0 /\ Chance(st, 3, 1, 2) THEN n - 1 ELSE n + 1
        m == n + 1 + R(st, 4, 2)
        w == IF far THEN Tup([q \in 1..n |-> IF q = 1 THEN m + R(st, 5, 2) ELSE q - 1]) ELSE Tup(RInj(st, k2, m))
    IN IF Rk(t) = 0 THEN None
       ELSE [evs |-> <<Bad("expand", i, [w |-> w, m |-> m, dim |-> dim])>>, regs |-> <<>>]
BadDot(st, i, t) ==
    LET name == PickSeq(st, 1, <<"dot", "dotl", "dotr">>)
        n == 1 + R(st, 2, 3)
        l == Layout(H(st, 3), RSizes(st, 20, R(st, 4, 3)), RSizes(st, 30, R(st, 5, 2)), RSizes(st, 40, n), <<>>)
        u == Denote(l)
        twoY == name = "dotl" /\ u.y > 0
        off == (n # t.x /\ n # t.y) \/ twoY \/ (name = "dotr" /\ (t.y > 0 \/ n # t.x))
    IN IF Rk(t) = 0 \/ ~off \/ ~Fits(u) THEN None
       ELSE [evs |-> <<LeafEv(l, u), Bad(name, i, [b |-> Len(pool) + 1])>>, regs |-> <<RegL(l)>>]
(* contraction of tensors with value axes in different numbers                          *)
BadDotDim(st, i, t) ==
    LET K == IF t.x > 0 THEN XSh(t) ELSE YSh(t)
        l == LayoutB(H(st, 1), RSizes(st, 20, R(st, 2, 3)), <<>>, K, RSizes(st, 30, Other(H(st, 3), t.d)), FALSE)
        u == Denote(l)
    IN IF t.x + t.y = 0 \/ t.d = 0 \/ u.d = 0 \/ ~Fits(u) \/ u.d = t.d THEN None
       ELSE [evs |-> <<LeafEv(l, u), Bad("dot", i, [b |-> Len(pool) + 1])>>, regs |-> <<RegL(l)>>]
BadDotType(st, i, t) ==
    IF Rk(t) = 0 THEN None
    ELSE [evs |-> <<Bad("dottype", i, [f |-> PickSeq(st, 1, <<"dot", "dotl", "dotr">>), kind |-> PickSeq(st, 2, <<"none", "num", "arr", "list">>)])>>, regs |-> <<>>]
BadMap(st, i, t) ==
    LET l == RandLayout(H(st, 1)) IN
    IF ~Fits(Denote(l)) \/ l.xm \o l.ym = <<>> THEN None
    ELSE [evs |-> <<May("map", i, Denote(l), [lay |-> l])>>, regs |-> <<>>]
BadWrap(st, i, t) ==
    IF ~pool[i].ten \/ t.x + t.y = 0 THEN None
    ELSE [evs |-> <<May("wrap", i, t, <<>>)>>, regs |-> <<>>]
BadFloat(st, i, t) ==
    IF Size(t.a.sh) <= 1 THEN None ELSE [evs |-> <<Bad("float", i, <<>>)>>, regs |-> <<>>]
BadType(st, i, t) ==
    [evs |-> <<Bad("type", i, [f |-> PickSeq(st, 1, Ops4), left |-> Chance(st, 2, 1, 2), kind |-> PickSeq(st, 3, <<"none", "str", "dict", "object">>)])>>, regs |-> <<>>]
DoBad(st) ==
    LET i == Last4(st, 1)  t == pool[i].t  u == H(st, 2)
        w == PickSeq(st, 3, <<"blocks", "blocks", "blocks", "arr", "sizes", "sizes", "zero", "genden", "un", "un", "ufunc", "sum",
                              "expand", "expand", "dot", "dot", "dot", "dotdim", "dotdim", "dottype", "map", "wrap", "float", "type">>)
    IN CASE w = "blocks" -> BadBlocks(u, i, t) [] w = "arr" -> BadArr(u, i, t) [] w = "sizes" -> BadSizes(u, i, t)
         [] w = "zero" -> BadZero(u, i, t) [] w = "genden" -> BadGenDen(u, i, t) [] w = "un" -> BadUn(u, i, t)
         [] w = "ufunc" -> BadUfunc(u, i, t) [] w = "sum" -> BadSum(u, i, t) [] w = "expand" -> BadExpand(u, i, t)
         [] w = "dot" -> BadDot(u, i, t) [] w = "dotdim" -> BadDotDim(u, i, t) [] w = "dottype" -> BadDotType(u, i, t) [] w = "map" -> BadMap(u, i, t) [] w = "wrap" -> BadWrap(u, i, t)
         [] w = "float" -> BadFloat(u, i, t) [] w = "type" -> BadType(u, i, t)

(* attempts to change a register through its public attributes                  *)
DoPoke(st) == LET i == 1 + R(st, 1, Len(pool)) IN
    [evs |-> <<[op |-> "poke", a |-> i,
                how |-> PickSeq(st, 2, <<"setattr", "delattr", "write", "iadd", "newattr", "setflags">>),
                attr |-> PickSeq(st, 3, <<"values", "x_dim", "y_dim", "n", "dim", "x_map", "y_map", "elements">>)]>>,
     regs |-> <<>>]

Do(op, st) ==
    CASE op = "leaf" -> DoLeaf(st) [] op = "bin" -> DoBin(st) [] op = "num" -> DoNum(st)
      [] op = "arr" -> DoArr(st) [] op = "neg" -> DoNeg(st) [] op = "sum" -> DoSum(st)
      [] op = "expand" -> DoExpand(st) [] op = "flip" -> DoFlip(st) [] op = "trans" -> DoTrans(st)
      [] op = "un" -> DoUn(st) [] op = "mm" -> DoMM(st) [] op = "pow" -> DoPow(st) [] op = "gen" -> DoGen(st)
      [] op = "bcast" -> DoBcast(st) [] op = "float" -> DoFloat(st)
      [] op = "drop" -> DoDrop(st) [] op = "dot" -> CASE R(st, 99, 20) < 5 -> DoDot2(st) [] R(st, 99, 20) \in 5..8 -> DoDot3(st)
                           [] R(st, 99, 20) = 9 -> DoDotZ(st) [] OTHER -> DoDot(st) [] op = "poke" -> DoPoke(st)
      [] op = "bad" -> DoBad(st)

Init == /\ id \in 1..NSess
        /\ s = H(Seed, id) /\ k = 0 /\ pool = <<>> /\ log = <<>> /\ phase = "run"

Act(op) ==
    /\ phase = "run" /\ k < Depth
    /\ op = IF pool = <<>> THEN "leaf" ELSE PickSeq(s, 1, Mix)
    /\ LET e == Do(op, H(s, 2)) IN
       /\ pool' = pool \o e.regs
       /\ log' = log \o e.evs
    /\ s' = H(s, 3) /\ k' = k + 1 /\ UNCHANGED <<id, phase>>

Leaf   == Act("leaf")
Bin    == Act("bin")
Num    == Act("num")
ArrOp  == Act("arr")
Neg    == Act("neg")
Sum    == Act("sum")
Expand == Act("expand")
Flip   == Act("flip")
Trans  == Act("trans")
DropDim == Act("drop")
Dot    == Act("dot")
Poke   == Act("poke")
Refused == Act("bad")
Unary  == Act("un")
MaxMin == Act("mm")
Power  == Act("pow")
Generic == Act("gen")
BroadcastOp == Act("bcast")
Float  == Act("float")
Finish == /\ phase = "run" /\ k = Depth
          /\ phase' = "done"
          /\ Emit(OutFile, [id |-> id, log |-> log])
          /\ UNCHANGED <<id, s, k, pool, log>>

Next == Leaf \/ Bin \/ Num \/ ArrOp \/ Neg \/ Sum \/ Expand \/ Flip \/ Trans \/ DropDim \/ Dot \/ Poke \/ Refused
        \/ Unary \/ MaxMin \/ Power \/ Generic \/ BroadcastOp \/ Float \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- properties of the design checked by TLC ------------------------------- *)
Near(a, b) == /\ a.sh = b.sh
              /\ \A j \in 1..Len(a.v) : RNear(a.v[j], b.v[j], "0.0000000000000000000001")
TNear(t, u) == t.x = u.x /\ t.y = u.y /\ t.n = u.n /\ t.d = u.d /\ Near(t.a, u.a)

WellFormed == \A j \in 1..Len(pool) : WF(pool[j].t)
(* registers never change once created                                         *)
Immutable == [][/\ Len(pool') >= Len(pool)
                /\ \A j \in 1..Len(pool) : pool'[j] = pool[j]]_vars
(* algebraic laws of the specified operations, on the newest register          *)
Laws == pool # <<>> =>
    LET t == pool[Len(pool)].t
        all == 0..(t.n - 1) IN
    /\ TNear(TransT(TransT(t)), t)
    /\ TNear(NegT(NegT(t)), t)
    /\ TNear(FlipN(FlipN(t, all), all), t)
    /\ TNear(SumT(DropD(t), 0..(t.n + t.d - 1), FALSE), SumT(t, all, TRUE))
    /\ TNear(SumT(SumT(t, all, FALSE), {}, TRUE), SumT(t, all, TRUE))
    /\ TNear(SumT(TransT(t), all, TRUE), TransT(SumT(t, all, TRUE)))
    /\ TNear(ArithT("sub", ArithT("add", t, t), t), t)
    /\ (t.n > 0 => TNear(SumT(SumT(t, {0}, FALSE), 0..(t.n - 2), FALSE), SumT(t, all, FALSE)))
=============================================================================
