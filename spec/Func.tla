-------------------------------- MODULE Func --------------------------------
(***************************************************************************)
(* Meaning of the model functions.  A function value is an array of jets   *)
(* with n feature axes and d value axes; an expression is a sequence P of   *)
(* nodes that refer to earlier nodes, and Ev(P, i, args) is the value of    *)
(* node i at the arguments args (arrays of jets).  Every node has its       *)
(* textbook meaning; derivatives come from the jets and nothing else.       *)
(* Outside the domain of a function the result is the jet <<"nan">>.        *)
(***************************************************************************)
EXTENDS Tensor, Jet

JNan == <<"nan">>
Val(n, d, a) == Ten(0, 0, n, d, a)
VMap(v, F(_)) == [v EXCEPT !.a = MapA(v.a, F)]
VZip(u, v, F(_, _)) == BinT(u, v, F)
(* F(a, k), k = 1..m, along a new last value axis; features are all axes of v *)
VPush(v, m, F(_, _)) ==
    Val(Len(v.a.sh), 1,
        [sh |-> Append(v.a.sh, m),
         v |-> Tup([q \in 1..(Len(v.a.v) * m) |-> F(v.a.v[((q - 1) \div m) + 1], ((q - 1) % m) + 1)])])
In(a, lo, hi, F(_)) == IF RLe(lo, a[1]) /\ RLe(a[1], hi) THEN F(a) ELSE JNan
NatJ(n) == JConst(n)
JC(c) == JConst(c)

(* ---- primitives ----------------------------------------------------------- *)
PoissonJ(a, x) == JScale(RDiv(1, RFact(x)), JPowN(a, x))
LnFact(x) == RLn(RFact(x))
LnbJ(a, x, r) ==
    JAdd(JSub(JScale(x, JLn(a)), JScale(RAdd(x, r), JLn(JAdd(a, JC(r))))),
         JC(RAdd(RSub(RLgamma(RAdd(r, x)), RLgamma(r)), RSub(RMul(r, RLn(r)), LnFact(x)))))

(* score walk of two players: grid of (x, y), each step one of: x+1, y+1, stay; *)
(* increments from the last score are absorbed.  up(x,y), rt(x,y): skews.        *)
RECURSIVE WalkM(_, _, _, _, _)
WalkM(size, steps, sk, s1, s2) ==
    IF steps = 0 THEN Tup([q \in 1..(size * size) |-> IF q = 1 THEN JC(1) ELSE JC(0)])
    ELSE LET M == WalkM(size, steps - 1, sk, s1, s2)
             at(x, y) == M[x * size + y + 1]                \* 0-based scores
             u(x, y) == IF x = size - 1 THEN JC(0) ELSE JScale(sk[x * size + y + 1], s1)
             w(x, y) == IF y = size - 1 THEN JC(0) ELSE JScale(sk[y * size + x + 1], s2)
         IN Tup([q \in 1..(size * size) |->
              LET x == (q - 1) \div size   y == (q - 1) % size IN
              JSum(<<at(x, y), JNeg(JMul(JAdd(u(x, y), w(x, y)), at(x, y))),
                     IF x > 0 THEN JMul(u(x - 1, y), at(x - 1, y)) ELSE JC(0),
                     IF y > 0 THEN JMul(w(x, y - 1), at(x, y - 1)) ELSE JC(0)>>)])
(* walk of the score difference on 0 .. 2 size - 2                               *)
RECURSIVE WalkV(_, _, _, _, _)
WalkV(size, steps, sk, s1, s2) ==
    LET m == 2 * size - 1 IN
    IF steps = 0 THEN Tup([q \in 1..m |-> IF q = size THEN JC(1) ELSE JC(0)])
    ELSE LET M == WalkV(size, steps - 1, sk, s1, s2)
             u(q) == IF q = m THEN JC(0) ELSE JScale(sk[q], s1)
             w(q) == IF q = 1 THEN JC(0) ELSE JScale(sk[m + 1 - q], s2)
         IN Tup([q \in 1..m |->
              JSum(<<M[q], JNeg(JMul(JAdd(u(q), w(q)), M[q])),
                     IF q > 1 THEN JMul(u(q - 1), M[q - 1]) ELSE JC(0),
                     IF q < m THEN JMul(w(q + 1), M[q + 1]) ELSE JC(0)>>)])
Walk(e, v1, v2) ==
    LET m == IF e.k = "markovm" THEN e.size * e.size ELSE 2 * e.size - 1
        inv == RDiv(1, e.steps)
        cell(q) == LET s1 == JScale(inv, v1.a.v[q])  s2 == JScale(inv, v2.a.v[q]) IN
            IF ~(RLt("0.001", s1[1]) /\ RLt("0.001", s2[1]) /\ RLt(RAdd(s1[1], s2[1]), "0.95"))
            THEN Tup([j \in 1..m |-> JNan])
            ELSE IF e.k = "markovm" THEN WalkM(e.size, e.steps, e.skew, s1, s2)
                 ELSE WalkV(e.size, e.steps, e.skew, s1, s2)
        cells == Tup([q \in 1..Len(v1.a.v) |-> cell(q)])
    IN IF e.k = "markovm"
       THEN Val(Len(v1.a.sh), 2, [sh |-> v1.a.sh \o <<e.size, e.size>>,
                 v |-> Tup([q \in 1..(Len(cells) * m) |-> cells[((q - 1) \div m) + 1][((q - 1) % m) + 1]])])
       ELSE Val(Len(v1.a.sh), 1, [sh |-> v1.a.sh \o <<m>>,
                 v |-> Tup([q \in 1..(Len(cells) * m) |-> cells[((q - 1) \div m) + 1][((q - 1) % m) + 1]])])

Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
DefaultConds == <<<<1, -1, 0, 1>>, <<1, -1, 0, 0>>, <<1, -1, 0, -1>>>>
CollapseM(conds, v) ==
    LET p == Len(v.a.sh)  r == v.a.sh[p - 1]  c == v.a.sh[p]
        fs == Sub(v.a.sh, 1, p - 2)  nf == Size(fs)  m == Len(conds)
        anynan == \E q \in 1..Len(v.a.v) : RIsNan(v.a.v[q][1])
        sel(q) == {x \in 0..(r * c - 1) :
                    Sgn(conds[q][1] * (x \div c) + conds[q][2] * (x % c) + conds[q][3]) = conds[q][4]}
        sels == Tup([q \in 1..m |-> sel(q)])
    IN Val(p - 2, 1, [sh |-> Append(fs, m),
        v |-> Tup([q \in 1..(nf * m) |->
            IF anynan THEN JNan ELSE
            LET f == (q - 1) \div m  cd == ((q - 1) % m) + 1 IN
            JSum(Tup([x \in 1..(r * c) |-> IF (x - 1) \in sels[cd] THEN v.a.v[f * r * c + x] ELSE JC(0)]))])])

(* ---- tennis: scoring automata ---------------------------------------------- *)
(* probability that i points are won and j lost at some moment, play ending     *)
(* when a side has `to` points                                                   *)
RECURSIVE Reach(_, _, _, _)
Reach(p, q, i, j) ==       \* both i, j still short of the end: binomial recursion
    IF i = 0 /\ j = 0 THEN JC(1)
    ELSE JSum(<<IF i > 0 THEN JMul(p, Reach(p, q, i - 1, j)) ELSE JC(0),
                IF j > 0 THEN JMul(q, Reach(p, q, i, j - 1)) ELSE JC(0)>>)
(* the same as a table for 0..m x 0..m                                          *)
RECURSIVE ReachT(_, _, _, _)
ReachT(p, q, m, k) ==      \* k cells of the (m+1)x(m+1) table, row-major
    IF k = 0 THEN <<>>
    ELSE LET T == ReachT(p, q, m, k - 1)
             i == (k - 1) \div (m + 1)  j == (k - 1) % (m + 1)
         IN Append(T, IF k = 1 THEN JC(1)
                      ELSE JSum(<<IF i > 0 THEN JMul(p, T[(i - 1) * (m + 1) + j + 1]) ELSE JC(0),
                                  IF j > 0 THEN JMul(q, T[i * (m + 1) + j]) ELSE JC(0)>>))
(* race to `to` points with a margin of two: win `to`-0 .. `to`-(to-2), then     *)
(* a win after (to-1)-(to-1) all                                                 *)
Race(p, to) ==
    LET q == JSub(JC(1), p)
        T == ReachT(p, q, to - 1, to * to)
        at(i, j) == T[i * to + j + 1]
        pp == JMul(p, p)
        tie == JMul(at(to - 1, to - 1), JDiv(pp, JAdd(pp, JMul(q, q))))
    IN Tup([k \in 1..to |-> IF k < to THEN JMul(p, at(to - 1, k - 1)) ELSE tie])
(* set: six games with a margin of two, 7-5, or a tie-break at 6-6               *)
SetRace(p, t) ==
    LET q == JSub(JC(1), p)
        T == ReachT(p, q, 5, 36)
        at(i, j) == T[i * 6 + j + 1]
        five == at(5, 5)
        w65 == JMul(p, five)  l65 == JMul(q, five)
        six == JAdd(JMul(q, w65), JMul(p, l65))
    IN Tup([k \in 1..7 |-> IF k <= 5 THEN JMul(p, at(5, k - 1))
                           ELSE IF k = 6 THEN JMul(p, w65) ELSE JMul(t, six)])

(* ---- expressions ------------------------------------------------------------ *)
SumJ(t, F, dd) ==
    Ten(0, 0, t.n - Cardinality(F), IF dd THEN 0 ELSE t.d,
        Reduce(t.a, {1 + f : f \in F} \union (IF dd THEN DAx(t) ELSE {}), JSum))
WrapV(v, fm, nf, flip, dm, nd) == ExpandD(FlipN(ExpandN(v, fm, nf), flip), dm, nd)
Pick(args, pm) == Tup([j \in 1..Len(pm) |-> args[pm[j] + 1]])
FullNat(n) == 0..(n - 1)

RECURSIVE Ev(_, _, _)
RECURSIVE SumAtoms(_, _, _, _)
RECURSIVE ProdAtoms(_, _, _, _)
AtomV(P, e, at, args) == WrapV(Ev(P, at.e, Pick(args, at.pm)), at.fm, e.nf, {}, at.dm, e.nd)
SumAtoms(P, e, q, args) ==
    LET at == e.atoms[q]
        v == VMap(AtomV(P, e, at, args), LAMBDA a : JScale(at.w, a))
    IN IF q = 1 THEN v ELSE VZip(SumAtoms(P, e, q - 1, args), v, JAdd)
ProdAtoms(P, e, q, args) ==
    LET v == AtomV(P, e, e.atoms[q], args)
    IN IF q = 1 THEN v ELSE VZip(ProdAtoms(P, e, q - 1, args), v, JMul)

AffOp(f, c, a) == CASE f = "add" -> JAdd(a, JC(c)) [] f = "radd" -> JAdd(JC(c), a)
                    [] f = "sub" -> JSub(a, JC(c)) [] f = "rsub" -> JSub(JC(c), a)
                    [] f = "mul" -> JScale(c, a)   [] f = "rmul" -> JScale(c, a)
                    [] f = "div" -> JScale(RDiv(1, c), a)
                    [] f = "neg" -> JNeg(a)

Ev(P, i, args) ==
    LET e == P[i] IN
    CASE e.k = "x" \/ e.k = "scalar" -> args[1]
      [] e.k = "vector" -> Val(Len(e.c.sh), 0, MapA(e.c, LAMBDA c : JScale(c, args[1].a.v[1])))
      [] e.k = "const" -> Val(Len(e.c.sh), 0, MapA(e.c, JC))
      [] e.k = "linear" ->             \* weights: one array per argument, or a number
            Val(0, 0, Scl(JSum(Tup([j \in 1..Len(args) |->
                JSum(Tup([q \in 1..Len(args[j].a.v) |->
                    JScale(IF Len(e.ws[j].sh) = 0 THEN e.ws[j].v[1] ELSE e.ws[j].v[q], args[j].a.v[q])]))]))))
      [] e.k = "quad" ->
            Val(0, 0, Scl(JSum(Tup([j \in 1..Len(args) |->
                JSum(Tup([q \in 1..Len(args[j].a.v) |->
                    LET z == JScale(RDiv(1, e.s), JSub(args[j].a.v[q], JC(e.u))) IN JMul(z, z)]))]))))
      [] e.k = "exp" -> VMap(args[1], LAMBDA a : In(a, -9, 4, JExp))
      [] e.k = "log" -> VMap(args[1], LAMBDA a : In(a, "0.02", 1000, JLn))
      [] e.k = "logistic" -> VMap(args[1], LAMBDA a : In(a, -7, 7, JExpit))
      [] e.k = "arctan" -> VMap(args[1], LAMBDA a : In(a, -7, 7, JAtan))
      [] e.k = "poisson" -> VPush(args[1], e.size, LAMBDA a, k : In(a, "0.02", 8, LAMBDA b : PoissonJ(b, k - 1)))
      [] e.k = "lnb" -> VPush(args[1], e.size, LAMBDA a, k : In(a, "0.02", 20, LAMBDA b : LnbJ(b, k - 1, e.r)))
      [] e.k = "nb" -> VPush(args[1], e.size, LAMBDA a, k : In(a, "0.02", 20, LAMBDA b : JExp(LnbJ(b, k - 1, e.r))))
      [] e.k = "markovm" \/ e.k = "markovv" -> Walk(e, args[1], args[2])
      [] e.k = "colm" -> CollapseM(e.conds, args[1])
      [] e.k = "game" \/ e.k = "tiebreak" ->
            LET m == IF e.k = "game" THEN 4 ELSE 7
                R == Tup([q \in 1..Len(args[1].a.v) |->
                       In(args[1].a.v[q], "0.02", "0.98", LAMBDA p : Race(p, m))])
            IN Val(Len(args[1].a.sh), 1, [sh |-> Append(args[1].a.sh, m),
                 v |-> Tup([q \in 1..(Len(R) * m) |->
                    LET c == R[((q - 1) \div m) + 1] IN IF Len(c) = 1 THEN JNan ELSE c[((q - 1) % m) + 1]])])
      [] e.k = "set" ->
            LET ok(q) == /\ RLe("0.02", args[1].a.v[q][1]) /\ RLe(args[1].a.v[q][1], "0.98")
                         /\ RLe(-5, args[2].a.v[q][1]) /\ RLe(args[2].a.v[q][1], 5)
                R == Tup([q \in 1..Len(args[1].a.v) |->
                       IF ok(q) THEN SetRace(args[1].a.v[q], args[2].a.v[q]) ELSE <<JNan>>])
            IN Val(Len(args[1].a.sh), 1, [sh |-> Append(args[1].a.sh, 7),
                 v |-> Tup([q \in 1..(Len(R) * 7) |->
                    LET c == R[((q - 1) \div 7) + 1] IN IF Len(c) = 1 THEN JNan ELSE c[((q - 1) % 7) + 1]])])
      [] e.k = "aff" -> VMap(Ev(P, e.e, args), LAMBDA a : AffOp(e.f, e.c, a))
      [] e.k = "affine" -> VMap(Ev(P, e.e, args), LAMBDA a : JAdd(JScale(e.c, a), JC(e.b)))
      [] e.k = "compose" ->             \* every inner function has to be defined, used or not
            LET gv == Tup([j \in 1..Len(e.g) |-> Ev(P, e.g[j], args)])
                r == Ev(P, e.f, gv)
            IN IF \E j \in 1..Len(gv) : \E q \in 1..Len(gv[j].a.v) : RIsNan(gv[j].a.v[q][1])
               THEN VMap(r, LAMBDA a : JNan) ELSE r
      [] e.k = "wrap" -> WrapV(Ev(P, e.e, Pick(args, e.pm)), e.fm, e.nf, e.flip, e.dm, e.nd)
      [] e.k = "collapse" ->
            LET v == Ev(P, e.e, args) IN
            SumJ(v, IF e.all THEN FullNat(v.n) ELSE e.F, e.dd)
      [] e.k = "sum" -> LET v == SumAtoms(P, e, Len(e.atoms), args) IN v
      [] e.k = "prod" -> ProdAtoms(P, e, Len(e.atoms), args)

(* arguments with one jet variable per entry; o: number of variables before      *)
VarArr(a, o, p) == [sh |-> a.sh, v |-> Tup([q \in 1..Len(a.v) |-> JVar(a.v[q], o + q, p)])]
RECURSIVE Offs(_, _)
Offs(arrs, j) == IF j = 0 THEN 0 ELSE Offs(arrs, j - 1) + Len(arrs[j].v)
NumVars(arrs) == Offs(arrs, Len(arrs))
VarArgs(arrs) ==
    LET p == NumVars(arrs) IN
    Tup([j \in 1..Len(arrs) |-> Val(Len(arrs[j].sh), 0, VarArr(arrs[j], Offs(arrs, j - 1), p))])
ConstArgs(arrs) ==
    Tup([j \in 1..Len(arrs) |-> Val(Len(arrs[j].sh), 0, MapA(arrs[j], JC))])
=============================================================================
