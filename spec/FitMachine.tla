---------------------------- MODULE FitMachine ----------------------------
(***************************************************************************)
(* The fitting state machine.  The model under study is an oracle: at every *)
(* point (whole parameter vector, fixed entries included) it has an          *)
(* objective value, a gradient, a Hessian and possibly a stage at which      *)
(* evaluating it raises an error.  The oracle's answer at a new point is     *)
(* chosen when the point is first visited - exhaustively (Exhaustive = TRUE) *)
(* or pseudo-randomly - and remembered.  The actions are the steps of the    *)
(* two fitting methods; the behaviours are replayed into the library with a  *)
(* model class that plays the oracle.                                        *)
(***************************************************************************)
EXTENDS MatR, TLC

CONSTANTS NSess, NFits, Seed, OutFile, MixName, Exhaustive, Budget, Rich

VARIABLES id, s, ps, cons, conv, fh, pts, cur, phase, log, fits
vars == <<id, s, ps, cons, conv, fh, pts, cur, phase, log, fits>>
(* ps: parameters [sh, v, mask]; cons: constraints; fh: the matrix left by the   *)
(* last successful fit ([m |-> rows] or [m |-> <<>>]); pts: points known to the   *)
(* oracle in order of first visit; cur: the fit in progress; log: what happened   *)

R(st, key, n) == H(st, key) % n
Chance(st, key, num, den) == R(st, key, den) < num
PickSeq(st, key, q) == q[1 + R(st, key, Len(q))]
Rnd(st, key, lo, hi) == RRnd(H(st, key), lo, hi)
RSeq(st, n, lo, hi) == Tup([q \in 1..n |-> RRnd(H(st, q), lo, hi)])
Tiny == "0.02"

(* ---- parameters ---------------------------------------------------------------- *)
RECURSIVE CatTo(_, _)
CatTo(q, j) == IF j = 0 THEN <<>> ELSE CatTo(q, j - 1) \o q[j]
Cat(q) == CatTo(q, Len(q))
Full(p) == Cat(Tup([j \in 1..Len(p) |-> p[j].v]))
Masks(p) == Cat(Tup([j \in 1..Len(p) |-> p[j].mask]))
FreeIx(p) == LET m == Masks(p) IN {q \in 1..Len(m) : ~m[q]}
Flat(p) == Keep(Full(p), FreeIx(p))
NFree(p) == Cardinality(FreeIx(p))
RECURSIVE Offp(_, _)
Offp(p, j) == IF j = 1 THEN 0 ELSE Offp(p, j - 1) + Len(p[j - 1].v)
(* the free entries replaced, everything else kept                                 *)
Put(p, free) ==
    LET F == FreeIx(p) IN
    Tup([j \in 1..Len(p) |-> [p[j] EXCEPT !.v =
        Tup([q \in 1..Len(p[j].v) |->
            LET g == Offp(p, j) + q IN IF g \in F THEN free[Rank(F, g)] ELSE p[j].v[q]])]])
SameVec(x, y) == Len(x) = Len(y) /\ \A q \in 1..Len(x) : REq(x[q], y[q])

Shapes == <<<<>>, <<2>>, <<3>>, <<2>>, <<1, 2>>, <<2, 2>>>>
MkParam(st) ==
    LET sh == PickSeq(st, 1, Shapes)  n == Size(sh)
        how == PickSeq(st, 2, <<"none", "false", "mask", "mask", "int">>)
        mk == Tup([q \in 1..n |-> how = "mask" /\ Chance(st, 10 + q, 1, 3)])
    IN [sh |-> sh, mask |-> mk, how |-> how,
        v |-> IF how = "int" THEN Tup([q \in 1..n |-> R(st, 20 + q, 5) - 2])
              ELSE RSeq(H(st, 3), n, -2000, 2000)]
RECURSIVE MkParams(_, _, _)
MkParams(st, n, acc) ==
    IF n = 0 THEN acc
    ELSE LET p == MkParam(H(st, n))
             nx == Append(acc, p)
         IN IF Len(Full(nx)) > 7 THEN MkParams(st, n - 1, acc) ELSE MkParams(st, n - 1, nx)
(* the last entry is freed when everything is fixed                                *)
Loosen(p) ==
    IF NFree(p) > 0 THEN p
    ELSE LET j == Len(p) IN [p EXCEPT ![j].mask = Tup([q \in 1..Len(p[j].v) |-> FALSE])]

(* ---- constraints: linear in the parameters, one weight per entry ------------------ *)
MkCon(st, p) ==
    LET k == 1 + R(st, 1, Len(p))
        pm == IF Chance(st, 2, 1, 2) \/ Len(p) = 1 THEN <<k>>
              ELSE <<k, 1 + ((k + R(st, 3, Len(p) - 1)) % Len(p))>>
    IN [pm |-> pm, b |-> Rnd(st, 4, -1000, 1000),
        ws |-> Tup([q \in 1..Len(pm) |-> RSeq(H(st, 10 + q), Len(p[pm[q]].v), -1500, 1500)])]
(* gradient over all entries, and residual                                          *)
ConRow(c, p) ==
    Cat(Tup([j \in 1..Len(p) |->
        Tup([q \in 1..Len(p[j].v) |->
            RSum(Tup([z \in 1..Len(c.pm) |-> IF c.pm[z] = j THEN c.ws[z][q] ELSE 0]))])]))
ConVal(c, p) == RAdd(c.b, RDot(ConRow(c, p), Full(p)))

(* ---- oracle -------------------------------------------------------------------- *)
(* g: objective [k: "num"|"nan"|"ninf", v]; gr: gradient over all entries;           *)
(* H0: Hessian over all entries, symmetric and diagonally dominant; err: stage       *)
Kinds == <<"farup", "nearup", "equal", "neardown", "fardown", "nan", "ninf", "justup", "justdown">>
Stages == <<"model", "der", "like", "grad", "hess">>
(* choices are kind.stage pairs                                                      *)
Ch(k, e) == [k |-> k, e |-> e]
GVal(kind, st, g, tol) ==
    LET b == IF g.k = "num" THEN g.v ELSE Rnd(st, 1, -3000, -500)
        a == RAbs(b)
        d == Rnd(st, 2, 200, 600)                      \* 0.2 .. 0.6
        up == RAdd(b, RMul(d, RAdd(1, a)))
        near == RMul(RMul(tol, PickSeq(st, 3, <<"0.3", "0.9">>)), a)   \* within the tolerance
        just == RMul(RMul(tol, "1.5"), a)                              \* and just outside
    IN CASE kind = "farup" -> [k |-> "num", v |-> IF RLe(RAbs(up), "0.05") THEN RAdd(up, "0.25") ELSE up]
         [] kind = "nearup" -> [k |-> "num", v |-> RAdd(b, near)]
         [] kind = "equal" -> [k |-> "num", v |-> b]
         [] kind = "neardown" -> [k |-> "num", v |-> RSub(b, near)]
         [] kind = "justup" -> [k |-> "num", v |-> RAdd(b, just)]
         [] kind = "justdown" -> [k |-> "num", v |-> RSub(b, just)]
         [] kind = "fardown" -> [k |-> "num", v |-> IF RLe(RAbs(RSub(b, RMul(d, RAdd(1, a)))), "0.05")
                                                    THEN RSub(b, "0.75") ELSE RSub(b, RMul(d, RAdd(1, a)))]
         [] kind = "nan" -> [k |-> "nan", v |-> 0]
         [] kind = "ninf" -> [k |-> "ninf", v |-> 0]
NewPoint(st, x, ch, g, tol) ==
    LET n == Len(x)
        L == MatOf(n, n, LAMBDA i, j : Rnd(st, 100 + 10 * i + j, -400, 400))
        H0 == MatOf(n, n, LAMBDA i, j :
                 IF i = j THEN RSub(Rnd(st, 200 + i, -2000, 0), RAdd(1, RMul("0.4", n)))
                 ELSE IF i > j THEN L[i][j] ELSE L[j][i])
    IN [x |-> x, g |-> GVal(ch.k, H(st, 1), g, tol), gr |-> RSeq(H(st, 2), n, -2500, 2500),
        H0 |-> H0, err |-> ch.e, kind |-> ch.k]
KnownAt(x) == {q \in 1..Len(pts) : SameVec(pts[q].x, x)}
GeG(q, p) ==                     \* trial q not lower than p
    IF p.k = "nan" \/ q.k = "nan" THEN FALSE
    ELSE IF p.k = "ninf" THEN TRUE ELSE IF q.k = "ninf" THEN FALSE ELSE RLe(p.v, q.v)
ConvG(p, q, tol) == p.k = "num" /\ q.k = "num" /\ RLt(RAbs(RSub(RDiv(p.v, q.v), 1)), tol)

(* outcomes for a new point                                                          *)
TrialSet == IF Rich THEN {Ch(Kinds[q], "") : q \in 1..Len(Kinds)} \union {Ch("farup", "like"), Ch("farup", "model"), Ch("farup", "grad"), Ch("nearup", "hess")}
            ELSE {Ch("farup", ""), Ch("nearup", ""), Ch("fardown", ""), Ch("neardown", ""), Ch("farup", "grad")}
BStepSet == {Ch("farup", ""), Ch("fardown", ""), Ch("nearup", ""), Ch("neardown", ""), Ch("nan", ""),
             Ch("farup", "model"), Ch("fardown", "like"), Ch("farup", "der"), Ch("farup", "grad"), Ch("fardown", "hess"), Ch("nearup", "grad")}
StartSet == {Ch("farup", "")}
Long == cur.opt.budget = 20
RandTrial(st) ==
    IF Long /\ cur.k < 19 THEN Ch(IF Chance(st, 7, 1, 20) THEN "justup" ELSE "farup", "")
    ELSE IF Chance(st, 1, 1, 25) THEN Ch(PickSeq(st, 2, Kinds), PickSeq(st, 3, Stages))
    ELSE Ch(PickSeq(st, 4, <<"farup", "farup", "farup", "nearup", "nearup", "justup", "equal", "neardown", "fardown", "fardown", "nan", "ninf">>), "")
RandStart(st) ==
    IF Chance(st, 1, 1, 8) THEN Ch("farup", PickSeq(st, 3, Stages))
    ELSE Ch(IF Chance(st, 5, 1, 12) THEN PickSeq(st, 6, <<"nan", "ninf">>) ELSE "farup", "")
RandStep(st) ==
    IF Long /\ cur.k < 19 THEN Ch(PickSeq(st, 7, <<"farup", "fardown", "justup">>), "")
    ELSE IF Chance(st, 1, 1, 12) THEN Ch(PickSeq(st, 2, <<"farup", "fardown">>), PickSeq(st, 3, Stages))
    ELSE Ch(PickSeq(st, 4, <<"farup", "fardown", "farup", "fardown", "nearup", "neardown", "justup", "justdown", "equal", "nan">>), "")
Choices(where, st) ==
    IF Exhaustive
    THEN CASE where = "start" -> StartSet [] where = "trial" -> TrialSet [] where = "step" -> BStepSet
    ELSE {CASE where = "start" -> RandStart(st) [] where = "trial" -> RandTrial(st) [] where = "step" -> RandStep(st)}

(* ---- derivatives over the free entries, with constraints -------------------------- *)
FGrad(pt, p) == Keep(pt.gr, FreeIx(p)) \o Tup([c \in 1..Len(cons) |-> ConVal(cons[c], p)])
(* the gradient of the Lagrangian at multipliers lam                                  *)
LGrad(pt, p, lam) ==
    LET F == FreeIx(p)  g == FGrad(pt, p)  nf == Cardinality(F)
        C == Tup([c \in 1..Len(cons) |-> Keep(ConRow(cons[c], p), F)])
    IN Tup([i \in 1..Len(g) |-> IF i > nf THEN g[i]
              ELSE RAdd(g[i], RSum(Tup([c \in 1..Len(cons) |-> RMul(lam[c], C[c][i])])))])
FHess(pt, p) ==
    LET F == FreeIx(p)  nf == Cardinality(F)  nc == Len(cons)
        hh == Tup([i \in 1..Len(pt.x) |-> Keep(pt.H0[i], F)])
        h == Keep(hh, F)
        C == Tup([c \in 1..nc |-> Keep(ConRow(cons[c], p), F)])
    IN MatOf(nf + nc, nf + nc, LAMBDA i, j :
         IF i <= nf /\ j <= nf THEN h[i][j]
         ELSE IF i <= nf THEN C[j - nf][i] ELSE IF j <= nf THEN C[i - nf][j] ELSE 0)

(* ---- what is published after a successful fit ------------------------------------- *)
Blocks(M, p, fill) ==
    LET F == FreeIx(p)
        cell(a, b, ia, ib) == LET x == Offp(p, a) + ia  y == Offp(p, b) + ib IN
                              IF x \in F /\ y \in F THEN RRound(M[Rank(F, x)][Rank(F, y)], 17) ELSE fill
    IN Tup([a \in 1..Len(p) |-> Tup([b \in 1..Len(p) |->
         [sh |-> p[a].sh \o p[b].sh,
          v |-> Tup([q \in 1..(Len(p[a].v) * Len(p[b].v)) |->
                 cell(a, b, ((q - 1) \div Len(p[b].v)) + 1, ((q - 1) % Len(p[b].v)) + 1)])]])])
StdErr(V, p) ==
    LET F == FreeIx(p) IN
    Tup([a \in 1..Len(p) |-> Tup([q \in 1..Len(p[a].v) |->
        LET x == Offp(p, a) + q IN
        IF x \notin F THEN "nan"
        ELSE LET d == RNeg(V[Rank(F, x)][Rank(F, x)]) IN IF RLt(d, 0) THEN "nan" ELSE RRound(RSqrt(d), 17)])])
Published(M, p) ==
    LET V == Inverse(M, Tiny) IN
    IF V = <<>> THEN [ok |-> FALSE]
    ELSE [ok |-> TRUE, fisher |-> Blocks(M, p, 0), error |-> Blocks(MatNeg(V), p, "nan"), std |-> StdErr(V, p)]
(* does any standard error sit too close to zero for its sign to be decided          *)
Edge(V, p) == \E q \in 1..NFree(p) : RLt(RAbs(V[q][q]), "0.000001")

(* ---- the session ------------------------------------------------------------------- *)
NoFit == [m |-> "none"]
NoMat == [m |-> <<>>]
Init ==
    /\ id \in 1..NSess
    /\ s = H(Seed, id)
    /\ ps = Loosen(MkParams(H(H(Seed, id), 1), 1 + R(H(Seed, id), 2, 3), <<>>))
    /\ cons = <<>> /\ conv = FALSE /\ fh = NoMat /\ pts = <<>> /\ cur = NoFit
    /\ phase = "idle" /\ log = <<[op |-> "init", ps |-> ps]>> /\ fits = 0
Step == s' = H(s, 3)
AddParam ==
    /\ phase = "idle" /\ ~Exhaustive /\ Chance(s, 11, 1, 8) /\ fits < NFits
    /\ LET p == MkParam(H(s, 12)) IN
       /\ Len(Full(ps)) + Len(p.v) <= 8
       /\ ps' = Append(ps, p)
       /\ log' = Append(log, [op |-> "param", p |-> p])
    /\ Step /\ UNCHANGED <<id, cons, conv, fh, pts, cur, phase, fits>>
(* restart from other values: same shapes and masks                                  *)
ResetP ==
    /\ phase = "idle" /\ ~Exhaustive /\ ~Chance(s, 11, 1, 8) /\ Chance(s, 13, 1, 8) /\ fits < NFits
    /\ LET np == Tup([j \in 1..Len(ps) |-> [ps[j] EXCEPT !.v = RSeq(H(s, 40 + j), Len(ps[j].v), -2000, 2000)]]) IN
       /\ ps' = np
       /\ log' = Append(log, [op |-> "reset", ps |-> np])
    /\ Step /\ UNCHANGED <<id, cons, conv, fh, pts, cur, phase, fits>>
AddCon ==
    /\ phase = "idle" /\ (~Exhaustive => ~Chance(s, 11, 1, 8) /\ ~Chance(s, 13, 1, 8)) /\ fits < NFits
    /\ Len(cons) < (IF NFree(ps) > 3 THEN 2 ELSE IF NFree(ps) > 1 THEN 1 ELSE 0)
    /\ Chance(s, 14, 1, IF Exhaustive THEN 2 ELSE 4)
    /\ LET c == MkCon(H(s, 15), ps)
           F == FreeIx(ps)
           rows == Tup([q \in 1..(Len(cons) + 1) |->
                      Keep(ConRow(IF q > Len(cons) THEN c ELSE cons[q], ps), F)])
           gram == MatOf(Len(rows), Len(rows), LAMBDA i, j : RDot(rows[i], rows[j]))
       IN /\ Inverse(gram, "0.05") # <<>>
          /\ cons' = Append(cons, c)
          /\ log' = Append(log, [op |-> "con", c |-> c])
    /\ Step /\ UNCHANGED <<id, ps, conv, fh, pts, cur, phase, fits>>

Methods == IF Exhaustive THEN <<MixName>>
           ELSE CASE MixName = "newton" -> <<"newton", "newton", "newton", "newton", "newton", "bad">>
             [] MixName = "broyden" -> <<"broyden", "broyden", "broyden", "newton">>
             [] MixName = "both" -> <<"newton", "newton", "broyden", "broyden", "bad">>
Spell(st, m) == CASE m = "newton" -> PickSeq(st, 1, <<"Newton", "newton", "NEWTON", "default">>)
                  [] m = "broyden" -> PickSeq(st, 1, <<"Broyden", "broyden", "BROYDEN">>)
                  [] m = "bad" -> PickSeq(st, 1, <<"bfgs", "", "newton-raphson", "broyden ">>)
Busy == phase = "idle" /\ fits < NFits /\ (~Exhaustive => ~Chance(s, 11, 1, 8) /\ ~Chance(s, 13, 1, 8))
Begin ==
    /\ Busy
    /\ LET m == PickSeq(s, 20, Methods)
           opt == [m |-> m, name |-> Spell(H(s, 21), m),
                   tol |-> PickSeq(s, 22, <<"0.00000001", "0.0001", "0.02">>),
                   budget |-> IF Exhaustive THEN Budget ELSE PickSeq(s, 23, <<0, 1, 2, 3, 4, 6, 6, 20>>),
                   verb |-> R(s, 24, 3),
                   N |-> PickSeq(s, 25, <<<<1>>, <<1, 1>>, <<3, 5>>, <<"0.5", "1.5">>, <<4, 2, 2>>>>)]
       IN cur' = [m |-> m, opt |-> opt, k |-> 0, tries |-> 0, p |-> ps, flat |-> Flat(ps), at |-> 0,
                  step |-> <<>>, mult |-> 1, J |-> <<>>, M |-> <<>>, warm |-> FALSE, prev |-> <<>>, lam |-> <<>>]
    /\ phase' = "begin"
    /\ Step /\ UNCHANGED <<id, ps, cons, conv, fh, pts, log, fits>>

(* ending a fit                                                                        *)
Close(res, nps, nconv, nfh, npts, pub) ==
    /\ ps' = nps /\ conv' = nconv /\ fh' = nfh /\ pts' = npts
    /\ log' = Append(log, [op |-> "fit", opt |-> cur.opt, res |-> res, conv |-> nconv, warm |-> cur.warm,
                           npts |-> Len(npts), k |-> cur.k, v |-> RRoundAll(Full(nps), 17), pub |-> pub])
    /\ cur' = NoFit /\ phase' = "idle" /\ fits' = fits + 1
    /\ Step /\ UNCHANGED <<id, cons>>
NoPub == [ok |-> FALSE]
(* the numbers got too far for floating point to follow: the session ends before      *)
Abandon == /\ phase' = "over" /\ cur' = NoFit
           /\ Step /\ UNCHANGED <<id, ps, cons, conv, fh, pts, log, fits>>
FailE(stage, npts, nconv) == Close([ok |-> FALSE, why |-> "raised", stage |-> stage], ps, nconv, fh, npts, NoPub)
FailBudget(npts) == Close([ok |-> FALSE, why |-> "budget", stage |-> ""], ps, FALSE, fh, npts, NoPub)
FailStep(npts) == Close([ok |-> FALSE, why |-> "step", stage |-> ""], ps, FALSE, fh, npts, NoPub)

BadMethod == /\ phase = "begin" /\ cur.m = "bad"
             /\ Close([ok |-> FALSE, why |-> "method", stage |-> ""], ps, conv, fh, pts, NoPub)
(* the start point becomes known                                                       *)
G0 == [k |-> "ninf", v |-> 0]
Start ==
    /\ phase = "begin" /\ cur.m # "bad"
    /\ IF cur.m = "newton" /\ cur.opt.budget = 0 THEN FailBudget(pts)
       ELSE LET x == Full(cur.p)  kn == KnownAt(x) IN
            IF kn # {}
            THEN /\ cur' = [cur EXCEPT !.at = CHOOSE q \in kn : TRUE]
                 /\ phase' = cur.m /\ Step /\ UNCHANGED <<id, ps, cons, conv, fh, pts, log, fits>>
            ELSE \E ch \in Choices("start", H(s, 30)) :
                 /\ pts' = Append(pts, NewPoint(H(s, 31), x, ch, G0, cur.opt.tol))
                 /\ cur' = [cur EXCEPT !.at = Len(pts) + 1]
                 /\ phase' = cur.m /\ Step /\ UNCHANGED <<id, ps, cons, conv, fh, log, fits>>

(* ---- Newton ------------------------------------------------------------------------ *)
At0 == pts[cur.at]
NewtonStep ==
    /\ phase = "newton"
    /\ IF At0.err # "" THEN FailE(At0.err, pts, conv)
       ELSE LET M == FHess(At0, cur.p)  V == Inverse(M, Tiny) IN
            IF V = <<>> THEN Abandon
            ELSE LET sol == MatVec(V, FGrad(At0, cur.p))
                 IN IF ~RBounded(sol, 60) THEN Abandon
                    ELSE /\ cur' = [cur EXCEPT !.M = M, !.step = Sub(sol, 1, NFree(cur.p)),
                                               !.mult = 1, !.tries = 0, !.J = V]
                         /\ phase' = "trial"
                         /\ Step /\ UNCHANGED <<id, ps, cons, conv, fh, pts, log, fits>>
TrialAt(np, q, pts1) ==
    LET pt == pts1[q]
        ok == GeG(pt.g, At0.g)
        done == ok /\ ConvG(At0.g, pt.g, cur.opt.tol)
    IN IF pt.err \in {"model", "like"} THEN FailE(pt.err, pts1, conv)
       ELSE IF done THEN Close([ok |-> TRUE, why |-> "", stage |-> ""], np, conv, [m |-> cur.M], pts1,
                               IF Edge(cur.J, ps) THEN NoPub ELSE Published(cur.M, ps))
       ELSE IF ok /\ cur.k + 1 = cur.opt.budget THEN FailBudget(pts1)
       ELSE IF ok
       THEN /\ cur' = [cur EXCEPT !.p = np, !.flat = Flat(np), !.at = q, !.k = @ + 1]
            /\ phase' = "newton" /\ pts' = pts1
            /\ Step /\ UNCHANGED <<id, ps, cons, conv, fh, log, fits>>
       ELSE IF cur.tries + 1 = 5 THEN FailStep(pts1)
       ELSE /\ cur' = [cur EXCEPT !.mult = RDiv(@, 2), !.tries = @ + 1]
            /\ pts' = pts1
            /\ Step /\ UNCHANGED <<id, ps, cons, conv, fh, log, fits, phase>>
NewtonTrial ==
    /\ phase = "trial"
    /\ LET np == Put(cur.p, VSub(cur.flat, VScale(cur.mult, cur.step)))
           x == Full(np)  kn == KnownAt(x)
       IN IF kn # {} THEN TrialAt(np, CHOOSE q \in kn : TRUE, pts)
          ELSE \E ch \in Choices("trial", H(s, 32)) :
               TrialAt(np, Len(pts) + 1, Append(pts, NewPoint(H(s, 33), x, ch, At0.g, cur.opt.tol)))

(* ---- Broyden ----------------------------------------------------------------------- *)
Warm == conv /\ Len(fh.m) = NFree(ps) + Len(cons)
BroydenStart ==
    /\ phase = "broyden"
    /\ IF At0.err # "" /\ (At0.err # "hess" \/ ~Warm) THEN FailE(At0.err, pts, FALSE)
       ELSE LET M == IF Warm THEN fh.m ELSE FHess(At0, cur.p)
                V == Inverse(M, Tiny)
            IN IF V = <<>> THEN Abandon
               ELSE IF cur.opt.budget = 0 THEN FailBudget(pts)
               ELSE /\ cur' = [cur EXCEPT !.J = V, !.prev = FGrad(At0, cur.p), !.warm = Warm,
                                          !.lam = Tup([c \in 1..Len(cons) |-> 0])]
                    /\ phase' = "bstep"
                    /\ Step /\ UNCHANGED <<id, ps, cons, conv, fh, pts, log, fits>>
BStepAt(np, q, pts1, step) ==
    LET pt == pts1[q] IN
    IF pt.err \in {"model", "like"} THEN FailE(pt.err, pts1, FALSE)
    ELSE IF ConvG(At0.g, pt.g, cur.opt.tol)
    THEN LET M == Inverse(SymLow(cur.J), "0.01") IN
         IF M = <<>> \/ ~RBounded(M, 2000) \/ Edge(SymLow(cur.J), ps) THEN Abandon
         ELSE Close([ok |-> TRUE, why |-> "", stage |-> ""], np, TRUE, [m |-> M], pts1, Published(M, ps))
    ELSE IF pt.err \in {"der", "grad"} THEN FailE(pt.err, pts1, FALSE)
    ELSE LET nf == Len(step) - Len(cons)
             lam == Tup([c \in 1..Len(cons) |-> RAdd(cur.lam[c], step[nf + c])])
             gr == LGrad(pt, np, lam)
             dg == VSub(gr, cur.prev)
             w == VSub(step, MatVec(cur.J, dg))
             nn == RDot(dg, dg)
             J2 == MatOf(Len(dg), Len(dg), LAMBDA i, j :
                        RAdd(cur.J[i][j], RDiv(RMul(w[i], dg[j]), nn)))
         IN IF cur.k + 1 = cur.opt.budget THEN FailBudget(pts1)
            ELSE IF RLt(nn, "0.01") \/ ~RBounded(J2, 60) THEN Abandon
            ELSE /\ cur' = [cur EXCEPT !.p = np, !.flat = Flat(np), !.at = q, !.k = @ + 1, !.J = J2,
                                       !.prev = gr, !.step = step, !.lam = lam]
                 /\ pts' = pts1
                 /\ Step /\ UNCHANGED <<id, ps, cons, conv, fh, log, fits, phase>>
BroydenStep ==
    /\ phase = "bstep"
    /\ LET step == VScale(-1, MatVec(cur.J, cur.prev))
           np == Put(cur.p, VAdd(cur.flat, Sub(step, 1, NFree(cur.p))))
           x == Full(np)  kn == KnownAt(x)
       IN IF ~RBounded(step, 60) THEN Abandon
          ELSE IF kn # {} THEN BStepAt(np, CHOOSE q \in kn : TRUE, pts, step)
          ELSE \E ch \in Choices("step", H(s, 34)) :
               BStepAt(np, Len(pts) + 1, Append(pts, NewPoint(H(s, 35), x, ch, At0.g, cur.opt.tol)), step)

LastKeep == LET L == {q \in 1..Len(log) : log[q].op = "fit"} IN
            IF L = {} THEN 0 ELSE CHOOSE q \in L : \A r \in L : r <= q
Finish ==
    /\ phase = "over" \/ (phase = "idle" /\ fits = NFits)
    /\ phase' = "done"
    /\ IF LastKeep = 0 THEN TRUE
       ELSE Emit(OutFile, [id |-> id, log |-> Sub(log, 1, LastKeep),
                 pts |-> Tup([q \in 1..log[LastKeep].npts |->
                    [x |-> RRoundAll(pts[q].x, 17), g |-> [k |-> pts[q].g.k, v |-> RRound(pts[q].g.v, 17)],
                     gr |-> pts[q].gr, H0 |-> pts[q].H0, err |-> pts[q].err, kind |-> pts[q].kind]])])
    /\ UNCHANGED <<id, s, ps, cons, conv, fh, pts, cur, log, fits>>
(* nothing else is possible this time: a new draw                                      *)
Idle == /\ phase = "idle" /\ fits < NFits /\ ~Exhaustive
        /\ Chance(s, 11, 1, 8) \/ Chance(s, 13, 1, 8)
        /\ ~ENABLED AddParam /\ ~ENABLED ResetP
        /\ Step /\ UNCHANGED <<id, ps, cons, conv, fh, pts, cur, phase, log, fits>>
Next == AddParam \/ ResetP \/ AddCon \/ Begin \/ BadMethod \/ Start \/ NewtonStep \/ NewtonTrial
        \/ BroydenStart \/ BroydenStep \/ Finish \/ Idle
Spec == Init /\ [][Next]_vars

(* ---- properties of the machine ------------------------------------------------------ *)
(* fixed entries, shapes and masks never change except by adding parameters or          *)
(* restarting                                                                            *)
Kept(p, q) == /\ p.sh = q.sh /\ p.mask = q.mask /\ Len(p.v) = Len(q.v)
              /\ \A k \in 1..Len(p.v) : p.mask[k] => REq(p.v[k], q.v[k])
Structure ==
    [][(phase # "idle" \/ phase' # "idle") =>
         /\ Len(ps') = Len(ps)
         /\ \A j \in 1..Len(ps) : Kept(ps[j], ps'[j])]_vars
(* the stored parameters change only when a fit succeeds                                *)
OnSuccess ==
    [][(Len(log') > Len(log) /\ ~SameVec(Full(ps'), Full(ps))) =>
         LET e == log'[Len(log')] IN e.op \in {"param", "reset"} \/ (e.op = "fit" /\ e.res.ok)]_vars
(* accepted Newton points never lower the objective                                     *)
Monotone ==
    [][(phase = "trial" /\ phase' = "newton") => GeG(pts'[cur'.at].g, pts[cur.at].g)]_vars
Bounded == cur # NoFit => /\ cur.k <= cur.opt.budget /\ cur.tries <= 4
(* the inverse used for a step solves the bordered system                               *)
InvOk == (phase = "trial" /\ cur.tries = 0) => IsInverse(cur.M, cur.J)
(* the updated inverse maps the change of the gradient to the step taken                 *)
Secant ==
    [][(phase = "bstep" /\ phase' = "bstep" /\ cur'.k = cur.k + 1) =>
         LET dg == VSub(cur'.prev, cur.prev)  r == MatVec(cur'.J, dg) IN
         \A q \in 1..Len(r) : RNear(r[q], cur'.step[q], "0.0000000000000000001")]_vars
(* constraints hold after a full Newton step from any point                              *)
Feasible ==
    [][(phase = "trial" /\ phase' = "newton" /\ REq(cur.mult, 1)) =>
         \A c \in 1..Len(cons) : RNear(ConVal(cons[c], cur'.p), 0, "0.000000000000000001")]_vars
MarkedOk == conv => fh.m # <<>>
=============================================================================
