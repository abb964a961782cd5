---------------------------- MODULE LikeSession ----------------------------
(***************************************************************************)
(* A session with one model: build the predictor, choose a distribution,    *)
(* collect observations in batches, add penalties and constraints, fix       *)
(* entries; the model's likelihood and its derivatives, and the penalised    *)
(* objective with its flat gradient and bordered Hessian, are published.     *)
(***************************************************************************)
EXTENDS FuncGen, Like

CONSTANTS NSess, Depth, Seed, OutFile, Full      \* Full: with penalties, constraints, masks

VARIABLES id, s, k, gl, pool, phase, m
vars == <<id, s, k, gl, pool, phase, m>>
(* m: the model under study                                                   *)
None == [f |-> 0]

Mix == <<"prim", "aff", "sum", "sum", "prod", "wrap", "collapse", "compose", "compose">>
Init == /\ id \in 1..NSess
        /\ s = H(Seed, id) /\ k = 0 /\ gl = MkGlobals(H(H(Seed, id), 7))
        /\ pool = <<>> /\ phase = "build" /\ m = None
Build ==
    /\ phase = "build" /\ k < Depth
    /\ LET op == IF k < 3 \/ pool = <<>> THEN "prim" ELSE PickSeq(s, 1, Mix)
           e1 == Gen(op, H(s, 2), gl, pool)
           e == IF e1 = <<>> THEN Gen(op, H(s, 4), gl, pool) ELSE e1
       IN pool' = pool \o e
    /\ s' = H(s, 3) /\ k' = k + 1 /\ UNCHANGED <<id, gl, phase, m>>

(* ---- choosing the model ------------------------------------------------------ *)
RECURSIVE Lo(_, _)
Lo(v, q) == IF q = 0 THEN 1000000 ELSE LET r == Lo(v, q - 1) IN IF RLt(v[q][1], r) THEN v[q][1] ELSE r
Plain0(j) == ~Raw(Nodes(pool), j) /\ pool[j].pm # <<>>
Full1(v) == \A q \in 1..Len(v.a.sh) : v.a.sh[q] > 1
CountOk(j) == LET e == pool[j] IN Plain0(j) /\ e.v.d = 0 /\ RBounded(e.v.a.v, 1000)
                /\ \A q \in 1..Len(e.v.a.v) : RLt(e.v.a.v[q][1], 3) /\ RLt(-4, e.v.a.v[q][1])
ClassOk(j) == LET e == pool[j] IN Plain0(j) /\ e.v.d > 0 /\ e.v.n <= 2 /\ Len(e.v.a.v) <= 18
                /\ RLt("0.002", Lo(e.v.a.v, Len(e.v.a.v))) /\ RBounded(e.v.a.v, 2000)
(* a function with value axes becomes positive under exp                         *)
ExpOk(j) == LET e == pool[j] IN Plain0(j) /\ e.v.d > 0 /\ e.v.n <= 2 /\ Len(e.v.a.v) <= 18 /\ Full1(e.v)
                /\ ~(RLt("0.002", Lo(e.v.a.v, Len(e.v.a.v)))) /\ RBounded(e.v.a.v, 40)
                /\ \A q \in 1..Len(e.v.a.v) : RLt(e.v.a.v[q][1], 3) /\ RLt(-6, e.v.a.v[q][1])
Good == {j \in 1..Len(pool) : CountOk(j) \/ ClassOk(j) \/ ExpOk(j)}
Late == {j \in Good : \E q \in 1..3 : j = Len(pool) + 1 - q}
ExpNode == [k |-> "exp"]
(* predictors far from zero: the function is stretched, within the range where the        *)
(* distribution's mean is an ordinary number                                             *)
DomLo(dist, c) == CASE dist = "poisson" -> -40 [] dist = "logistic" -> -40 [] dist = "nb" -> -30
                    [] OTHER -> IF REq(c, 0) THEN -3 ELSE -30
DomHi(dist, c) == CASE dist = "poisson" -> 7 [] dist = "logistic" -> 40 [] dist = "nb" -> 12
                    [] OTHER -> IF REq(c, 0) THEN 3 ELSE 4
Within(v, lo, hi) == \A q \in 1..Len(v.a.v) : RLt(v.a.v[q][1], hi) /\ RLt(lo, v.a.v[q][1])
Choose1(st, j) ==
    IF CountOk(j)
    THEN LET dist == PickSeq(st, 1, <<"poisson", "zip", "logistic", "nb">>)
             c0 == PickSeq(st, 2, <<1, 1, 2, 2, "0.5", "0.5", "2.5", "2.5", "0.04", 25, 0>>)
             c == IF REq(c0, 0) /\ (dist # "zip" \/ ~Within(pool[j].v, -3, 3)) THEN 1 ELSE c0
             lo == DomLo(dist, c)  hi == DomHi(dist, c)
             far == IF ~Chance(st, 4, 1, 4) THEN <<>>
                    ELSE Entry(gl, Nodes(pool), [k |-> "affine", e |-> j, c |-> PickSeq(st, 5, <<5, 10, -8>>),
                                                 b |-> PickSeq(st, 6, <<0, -10, 6>>)], pool[j].pm)
         IN IF far # <<>> /\ Within(far[1].v, lo, hi)
            THEN [f |-> Len(pool) + 1, pool |-> pool \o far, dist |-> dist, c |-> c]
            ELSE [f |-> j, pool |-> pool, dist |-> dist, c |-> c]
    ELSE LET dist == PickSeq(st, 3, <<"finite", "finite", "nfinite">>) IN
         IF ClassOk(j) THEN [f |-> j, pool |-> pool, dist |-> dist, c |-> 1]
         ELSE LET e1 == Entry(gl, Nodes(pool), ExpNode, <<pool[j].pm[1]>>)
                  p1 == pool \o e1
                  e2 == IF e1 = <<>> THEN <<>>
                        ELSE Entry(gl, Nodes(p1), [k |-> "compose", f |-> Len(p1), g |-> <<j>>], pool[j].pm)
              IN IF e2 = <<>> THEN None
                 ELSE [f |-> Len(p1) + 1, pool |-> p1 \o e2, dist |-> dist, c |-> 1]
(* every feature axis of size one may carry data of several categories            *)
GridSh(st, v) == Tup([q \in 1..Len(v.a.sh) |->
                   IF q <= v.n /\ v.a.sh[q] = 1 /\ ~Single(gl) THEN 1 + R(st, 20 + q, 2) ELSE v.a.sh[q]])
Choose ==
    /\ phase = "build" /\ k = Depth
    /\ IF Good = {} THEN phase' = "dead" /\ UNCHANGED <<pool, m>>
       ELSE LET j == IF Late # {} /\ Chance(s, 1, 3, 4) THEN PickSet(s, 2, Late) ELSE PickSet(s, 2, Good)
                c == Choose1(H(s, 3), j)
            IN IF c = None THEN phase' = "dead" /\ UNCHANGED <<pool, m>>
               ELSE LET v == c.pool[c.f].v  sh == GridSh(H(s, 4), v) IN
                    /\ phase' = "data" /\ pool' = c.pool
                    /\ m' = [f |-> c.f, dist |-> c.dist, c |-> c.c, b |-> 0,
                             data |-> [sh |-> sh, v |-> Tup([q \in 1..Size(sh) |-> <<>>])],
                             reg |-> <<>>, con |-> <<>>,
                             mask |-> Tup([q \in 1..Len(c.pool[c.f].pm) |->
                                Tup([z \in 1..Len(gl[c.pool[c.f].pm[q]].v) |-> FALSE])])]
    /\ s' = H(s, 5) /\ UNCHANGED <<id, k, gl>>

(* ---- observations -------------------------------------------------------------- *)
RObs(st, dist) ==
    LET x0 == CASE dist = "logistic" -> R(st, 1, 2) [] dist \in {"finite", "nfinite"} -> 1
               [] dist = "zip" -> PickSeq(st, 1, <<0, 0, 1, 2, 5>>) [] OTHER -> PickSeq(st, 1, <<0, 1, 1, 2, 3, 6, 30>>)
        x == IF dist = "zip" /\ REq(m.c, 0) /\ x0 = 0 THEN 1 ELSE x0       \* no zeros without zeros
    IN <<x, PickSeq(st, 2, <<1, 1, 1, 2, "0.5">>)>>
RCell(st, dist) == Tup([q \in 1..R(st, 1, 4) |-> RObs(H(st, 1 + q), dist)])
Batch(st) == [sh |-> m.data.sh, v |-> Tup([q \in 1..Len(m.data.v) |-> RCell(H(st, q), m.dist)])]
Total(data) == RSum(Tup([q \in 1..Len(data.v) |-> WSum(data.v[q])]))
Observe ==
    /\ phase = "data" /\ m.b < 2
    /\ LET b == Batch(H(s, 1)) IN
       m' = [m EXCEPT !.b = @ + 1, !.data = Merge2(@, b)]
    /\ s' = H(s, 3) /\ UNCHANGED <<id, k, gl, pool, phase>>

(* ---- penalties, constraints, fixed entries ---------------------------------------- *)
Pm == pool[m.f].pm
(* argument positions: a random list over the model's parameters                     *)
RPmap(st, c) == Tup([q \in 1..c |-> R(st, 30 + q, Len(Pm))])
RTerm(st) ==                                 \* a scalar function over some parameters
    LET kind == PickSeq(st, 1, <<"linear", "linear", "quad", "fun", "fun">>)
        c == 1 + R(st, 2, IF Len(Pm) > 1 THEN 2 ELSE 1)
        pmap == RPmap(H(st, 3), c)
        wt(q) == LET p == gl[Pm[pmap[q] + 1]] IN
                 IF Chance(st, 40 + q, 1, 2) THEN RArr(H(st, 50 + q), p.sh, -1500, 1500)
                 ELSE Scl(PickSeq(st, 60 + q, <<1, 1, 2, "-0.5">>))
        scal == {j \in 1..Len(pool) : /\ pool[j].v.n = 0 /\ pool[j].v.d = 0 /\ pool[j].pm # <<>>
                                      /\ ~Raw(Nodes(pool), j)
                                      /\ \A q \in 1..Len(pool[j].pm) : \E z \in 1..Len(Pm) : Pm[z] = pool[j].pm[q]}
        lin == [node |-> [k |-> "linear", ws |-> Tup([q \in 1..c |-> wt(q)])], e |-> 0, pm |-> pmap]
    IN IF kind = "linear" THEN lin
       ELSE IF kind = "quad" THEN [node |-> [k |-> "quad", u |-> PickSeq(st, 5, <<0, "0.5">>), s |-> PickSeq(st, 6, <<1, 2>>)],
                                   e |-> 0, pm |-> pmap]
       ELSE IF scal = {} THEN lin
       ELSE LET j == PickSet(st, 7, scal) IN
            [node |-> None, e |-> j,
             pm |-> Tup([q \in 1..Len(pool[j].pm) |->
                       PickSet(st, 70 + q, {z \in 0..(Len(Pm) - 1) : Pm[z + 1] = pool[j].pm[q]})])]
AddReg == /\ Full /\ phase = "data" /\ m.b = 2 /\ Len(m.reg) < 2 /\ Len(m.con) = 0
          /\ Chance(s, 1, 1, 2)
          /\ m' = [m EXCEPT !.reg = Append(@, RTerm(H(s, 2)))]
          /\ s' = H(s, 3) /\ UNCHANGED <<id, k, gl, pool, phase>>
AddCon == /\ Full /\ phase = "data" /\ m.b = 2 /\ Len(m.con) < 3
          /\ ~Chance(s, 1, 1, 2) /\ Chance(s, 5, 3, 4)
          /\ m' = [m EXCEPT !.con = Append(@, RTerm(H(s, 2)))]
          /\ s' = H(s, 3) /\ UNCHANGED <<id, k, gl, pool, phase>>
(* fixes entries, the last step before publication                                   *)
Fix == /\ phase = "data" /\ m.b = 2 /\ ~ENABLED AddReg /\ ~ENABLED AddCon
       /\ LET fixd == Full /\ Chance(s, 1, 2, 3)
              mk == Tup([q \in 1..Len(m.mask) |-> Tup([z \in 1..Len(m.mask[q]) |->
                        fixd /\ Chance(s, 100 + 10 * q + z, 1, 4)])])
          IN m' = [m EXCEPT !.mask = mk]
       /\ phase' = "ready"
       /\ s' = H(s, 3) /\ UNCHANGED <<id, k, gl, pool>>

(* ---- what must be observed ----------------------------------------------------------- *)
Args == VarArgs(ArgsOf(gl, Pm))
TermV(t) ==
    LET as == Tup([q \in 1..Len(t.pm) |-> Args[t.pm[q] + 1]])
        P == IF t.e = 0 THEN Append(Nodes(pool), t.node) ELSE Nodes(pool)
    IN Ev(P, IF t.e = 0 THEN Len(P) ELSE t.e, as).a.v[1]
LikeV == LikeOf(m.dist, m.c, m.data, pool[m.f].v)
Penalised == JSub(JAdd(LikeV, JC(ConstOf(m.dist, m.c, m.data))), JSum(Tup([q \in 1..Len(m.reg) |-> TermV(m.reg[q])])))
FlatMask == LET RECURSIVE cat(_)
                cat(q) == IF q = 0 THEN <<>> ELSE cat(q - 1) \o m.mask[q]
            IN cat(Len(m.mask))
FreeIx == LET fm == FlatMask IN ToSeq({q \in 1..Len(fm) : ~fm[q]})
Bordered(J, C) ==          \* flat gradient and bordered Hessian over the free entries
    LET fr == FreeIx  nf == Len(fr)  nc == Len(C)  p == NumVars(ArgsOf(gl, Pm)) IN
    [grad |-> Tup([q \in 1..(nf + nc) |-> IF q <= nf THEN JG(J, fr[q]) ELSE C[q - nf][1]]),
     hess |-> Tup([r \in 1..(nf + nc) |-> Tup([q \in 1..(nf + nc) |->
        IF r <= nf /\ q <= nf THEN JH(J, p, fr[r], fr[q])
        ELSE IF r <= nf THEN JG(C[q - nf], fr[r])
        ELSE IF q <= nf THEN JG(C[r - nf], fr[q]) ELSE 0])])]
(* with multipliers, as in the later steps of a fit: derivatives of the Lagrangian      *)
Gammas == Tup([q \in 1..Len(m.con) |-> PickSeq(s, 80 + q, <<1, "-0.5", 2, 0, "1.25">>)])
Lagrangian(J, C) == JAdd(J, JSum(Tup([q \in 1..Len(C) |-> JScale(Gammas[q], C[q])])))
Usable == /\ ~REq(Total(m.data), 0) /\ RBounded(<<LikeV>>, "1e12") /\ Len(FreeIx) > 0
          /\ \A q \in 1..Len(m.con) : RBounded(<<TermV(m.con[q])>>, Bound)
          /\ \A q \in 1..Len(m.reg) : RBounded(<<TermV(m.reg[q])>>, Bound)
(* information criteria: k free entries, n observations, l mean objective             *)
Extra == PickSeq(s, 90, <<0, 1, 3, -1>>)
Dof == Len(FreeIx) + Extra - Len(m.con)
DofAll == Len(FlatMask) + Extra - Len(m.con)           \* fixed entries counted as well
AICk(k1, n, l) == RSub(RDiv(2 * k1, RSub(n, k1 + 1)), RMul(2, l))
BICk(k1, n, l) == RSub(RDiv(RMul(k1, RLn(n)), n), RMul(2, l))
AIC(n, l) == AICk(Dof, n, l)
BIC(n, l) == BICk(Dof, n, l)
Far(k1, n) == RLt("0.01", RAbs(RSub(n, k1 + 1)))
Criteria(n, l) == IF ~Far(Dof, n) \/ ~Far(DofAll, n) THEN [ok |-> FALSE]
                  ELSE [ok |-> TRUE, extra |-> Extra, aic |-> RRound(AIC(n, l), 17), bic |-> RRound(BIC(n, l), 17),
                        fixed |-> Len(FlatMask) - Len(FreeIx),
                        aicall |-> RRound(AICk(DofAll, n, l), 17), bicall |-> RRound(BICk(DofAll, n, l), 17)]
Publish ==
    /\ phase = "ready"
    /\ phase' = "done"
    /\ IF ~Usable THEN TRUE
       ELSE LET J == Penalised  C == Tup([q \in 1..Len(m.con) |-> TermV(m.con[q])])
                B == IF Full THEN Bordered(J, C) ELSE [grad |-> <<>>, hess |-> <<>>]
                L == IF Full /\ C # <<>> THEN Bordered(Lagrangian(J, C), C) ELSE [grad |-> <<>>, hess |-> <<>>]
            IN Emit(OutFile, [id |-> id, gl |-> gl, pm |-> Pm,
                 nodes |-> Nodes(pool), f |-> m.f, d |-> pool[m.f].v.d,
                 dist |-> m.dist, c |-> m.c,
                 N |-> Grid(m.data, WSum), X |-> Grid(m.data, XSum), Z |-> Grid(m.data, ZSum),
                 like |-> RRoundAll(JAdd(LikeV, JC(ConstOf(m.dist, m.c, m.data))), 17),
                 reg |-> m.reg, con |-> m.con, mask |-> m.mask,
                 obj |-> RRound(RDiv(J[1], Total(m.data)), 17),
                 crit |-> Criteria(Total(m.data), RDiv(J[1], Total(m.data))),
                 fgrad |-> RRoundAll(B.grad, 17), fhess |-> RRoundAll(B.hess, 17),
                 gam |-> Gammas, lgrad |-> RRoundAll(L.grad, 17), lhess |-> RRoundAll(L.hess, 17)])
    /\ UNCHANGED <<id, s, k, gl, pool, m>>
(* the criteria agree with their total forms over the whole sample                     *)
CritOk == phase = "ready" /\ Usable =>
    LET n == Total(m.data)  l == RDiv(Penalised[1], n)  L == Penalised[1] IN
    /\ RNear(RMul(n, BIC(n, l)), RSub(RMul(Dof, RLn(n)), RMul(2, L)), "0.0000000000000001")
    /\ RLt("0.01", RAbs(RSub(n, Dof + 1))) =>
       RNear(RMul(n, AIC(n, l)),
             RAdd(RSub(2 * Dof, RMul(2, L)), RDiv(2 * Dof * (Dof + 1), RSub(n, Dof + 1))), "0.0000000000000001")
Next == Build \/ Choose \/ Observe \/ AddReg \/ AddCon \/ Fix \/ Publish
Spec == Init /\ [][Next]_vars

(* ---- laws ------------------------------------------------------------------------------ *)
Tol == "0.00000000000000000001"
JNear(a, b) == LET p == MaxP(a, b) IN \A q \in 1..JLen(p) : RNear(Get(a, q), Get(b, q), Tol)
(* the likelihood of merged data is the sum of the likelihoods                            *)
Additive == phase = "ready" =>
    LET b == Batch(H(s, 77)) IN
    JNear(LikeOf(m.dist, m.c, Merge2(m.data, b), pool[m.f].v),
          JAdd(LikeV, LikeOf(m.dist, m.c, b, pool[m.f].v)))
(* observations of a distribution on the counts have total probability one                *)
Normal == (phase = "ready" /\ m.dist \in {"poisson", "zip", "nb"} /\ id % 16 = 0) =>
    LET y == pool[m.f].v.a.v[1] IN
    (RLt(y[1], 1) /\ (m.dist = "nb" => RLt(y[1], 0) /\ RLt(RExp(y[1]), RMul(3, m.c)))) =>
    RNear(RSum(Tup([z \in 1..80 |-> LET x == IF REq(m.c, 0) THEN z + 1 ELSE z IN RExp(LogP(m.dist, m.c, x - 1, <<y[1]>>)[1])])), 1, "0.0000001")
NormalB == (phase = "ready" /\ m.dist = "logistic") =>
    LET y == pool[m.f].v.a.v[1] IN
    RNear(RAdd(RExp(LogP("logistic", 1, 0, <<y[1]>>)[1]), RExp(LogP("logistic", 1, 1, <<y[1]>>)[1])), 1, Tol)
=============================================================================
