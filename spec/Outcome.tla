------------------------------ MODULE Outcome ------------------------------
(***************************************************************************)
(* Outcome distributions as processes.  A walk of scores moves one step at  *)
(* a time; a tennis game, tie-break or set is played one point (game) at a   *)
(* time.  The state is the probability of every situation, as jets in the    *)
(* rates, one copy per cell of the parameter arrays; when the process is     *)
(* over the distribution of its outcomes is published, to be compared with   *)
(* the library's closed forms and recursions.                                *)
(***************************************************************************)
EXTENDS Func, TLC

CONSTANTS NSess, Seed, OutFile, Group, MaxSteps      \* Group: "walk" | "tennis"

VARIABLES id, s, node, args, dist, k, phase
vars == <<id, s, node, args, dist, k, phase>>
(* dist: per cell a function from situations to jets in the cell's own rates      *)

R(st, key, n) == H(st, key) % n
Chance(st, key, num, den) == R(st, key, den) < num
PickSeq(st, key, q) == q[1 + R(st, key, Len(q))]

(* ---- choices ----------------------------------------------------------------- *)
Shapes == <<<<>>, <<2>>, <<3>>, <<2, 2>>, <<2, 3>>, <<4>>, <<1>>, <<2, 1, 2>>, <<2, 2, 2>>>>
Kinds == IF Group = "walk" THEN <<"markovm", "markovv">> ELSE <<"game", "tiebreak", "set">>
RSkew(st, n, mode) ==
    Tup([q \in 1..n |-> CASE mode = 0 -> 1 [] mode = 1 -> RRnd(H(st, q), 300, 1040)
                          [] mode = 2 -> RRnd(H(st, 1), 300, 1040)
                          [] mode = 3 -> PickSeq(st, q, <<0, 1, "0.5", "0.25">>)])
MkNode(st) ==
    LET kd == PickSeq(st, 1, Kinds)
        size == PickSeq(st, 2, IF kd = "markovm" THEN <<1, 2, 2, 3, 3, 4, 5, 8>> ELSE <<1, 2, 3, 3, 4, 6>>)
        n == IF kd = "markovm" THEN size * size ELSE 2 * size - 1
    IN IF Group = "tennis" THEN [k |-> kd]
       ELSE IF Chance(st, 6, 1, 45)        \* the size and number of steps the signatures promise
       THEN [k |-> kd, size |-> 8, steps |-> 18, skew |-> RSkew(H(st, 4), IF kd = "markovm" THEN 64 ELSE 15, IF Chance(st, 7, 2, 3) THEN 0 ELSE 1)]
       ELSE IF size <= 3 /\ Chance(st, 8, 1, 12)
       THEN [k |-> kd, size |-> size, steps |-> 20 + R(st, 3, 12 * MaxSteps), skew |-> RSkew(H(st, 4), n, R(st, 5, 4))]
       ELSE [k |-> kd, size |-> size, steps |-> 1 + R(st, 3, MaxSteps), skew |-> RSkew(H(st, 4), n, R(st, 5, 4))]
MkShape(st, nd) == PickSeq(st, 1, IF Group = "walk" /\ nd.size > 3 THEN <<<<>>, <<2>>>> ELSE IF Group = "tennis" THEN SubSeq(Shapes, 1, 7) ELSE Shapes)
Edge == <<0, 1, "0.5", "0.001", "0.999", "0.0002", "0.99985", "0.00001", "0.99999">>
Prob(st) == IF Chance(st, 1, 1, 7) THEN PickSeq(st, 2, Edge) ELSE RRnd(H(st, 3), 5, 995)
Rates(st, nd, n) ==       \* the two rates of n cells
    IF Group = "walk"
    THEN LET a == Tup([q \in 1..n |-> IF Chance(st, 150 + q, 1, 9) THEN "0.0004" ELSE RRnd(H(st, q), 10, 900)])
             Tame == \A q \in 1..Len(nd.skew) : RLe(nd.skew[q], 1)
             b == Tup([q \in 1..n |-> IF Chance(st, 250 + q, 1, 9) /\ Tame THEN RSub("0.99995", a[q])
                                      ELSE RMul(RSub("0.95", a[q]), RRnd(H(st, 50 + q), 30, 950))])
             sw == Chance(st, 99, 1, 2)
             sc(x) == Tup([q \in 1..n |-> RMul(nd.steps, x[q])])
         IN IF sw THEN <<sc(b), sc(a)>> ELSE <<sc(a), sc(b)>>
    ELSE LET a == Tup([q \in 1..n |-> Prob(H(st, q))])
             b == Tup([q \in 1..n |-> Prob(H(st, 50 + q))])
         IN IF nd.k = "set" THEN <<a, b>> ELSE <<a>>
NA == Len(args)
NC == Len(args[1].v)
X(c, j) == JVar(args[j].v[c], j, NA)           \* rate j of cell c

(* ---- walks ------------------------------------------------------------------- *)
N == node.size
S1(c) == JScale(RDiv(1, node.steps), X(c, 1))
S2(c) == JScale(RDiv(1, node.steps), X(c, 2))
Up(c, x, y) == IF x = N - 1 THEN JC(0) ELSE JScale(node.skew[x * N + y + 1], S1(c))
Rt(c, x, y) == IF y = N - 1 THEN JC(0) ELSE JScale(node.skew[y * N + x + 1], S2(c))
StepM(c, M) ==
    LET at(x, y) == M[x * N + y + 1] IN
    Tup([q \in 1..(N * N) |->
        LET x == (q - 1) \div N  y == (q - 1) % N IN
        JSum(<<at(x, y), JNeg(JMul(JAdd(Up(c, x, y), Rt(c, x, y)), at(x, y))),
               IF x > 0 THEN JMul(Up(c, x - 1, y), at(x - 1, y)) ELSE JC(0),
               IF y > 0 THEN JMul(Rt(c, x, y - 1), at(x, y - 1)) ELSE JC(0)>>)])
W == 2 * N - 1
UpV(c, q) == IF q = W THEN JC(0) ELSE JScale(node.skew[q], S1(c))
DnV(c, q) == IF q = 1 THEN JC(0) ELSE JScale(node.skew[W + 1 - q], S2(c))
StepV(c, M) ==
    Tup([q \in 1..W |->
        JSum(<<M[q], JNeg(JMul(JAdd(UpV(c, q), DnV(c, q)), M[q])),
               IF q > 1 THEN JMul(UpV(c, q - 1), M[q - 1]) ELSE JC(0),
               IF q < W THEN JMul(DnV(c, q + 1), M[q + 1]) ELSE JC(0)>>)])

(* ---- tennis -------------------------------------------------------------------- *)
(* live: scores i:j still in play; win / lose: finished at margin, by the loser's     *)
(* points; deuce: level at the end (game, tie-break), or 6:6 (set)                     *)
To == CASE node.k = "game" -> 4 [] node.k = "tiebreak" -> 7 [] node.k = "set" -> 6
Top == IF node.k = "set" THEN 7 ELSE To               \* live scores below this
LevelAt == IF node.k = "set" THEN 6 ELSE To - 1
Won(i, j) == i >= To /\ i - j >= 2
P0 == [live |-> Tup([q \in 1..(Top * Top) |-> IF q = 1 THEN JC(1) ELSE JC(0)]),
       win |-> Tup([q \in 1..Top |-> JC(0)]), lose |-> Tup([q \in 1..Top |-> JC(0)]), deuce |-> JC(0)]
PointT(c, D) ==
    LET p == X(c, 1)  q == JSub(JC(1), p)
        at(i, j) == IF i < 0 \/ j < 0 \/ i >= Top \/ j >= Top THEN JC(0) ELSE D.live[i * Top + j + 1]
        (* mass arriving at i:j                                                            *)
        into(i, j) == JSum(<<IF i > 0 THEN JMul(p, at(i - 1, j)) ELSE JC(0),
                             IF j > 0 THEN JMul(q, at(i, j - 1)) ELSE JC(0)>>)
        wins(l) == {i \in To..Top : Won(i, l) /\ ~Won(i - 1, l)}
    IN [live |-> Tup([z \in 1..(Top * Top) |->
                LET i == (z - 1) \div Top  j == (z - 1) % Top IN
                IF Won(i, j) \/ Won(j, i) \/ (i = LevelAt /\ j = LevelAt) THEN JC(0) ELSE into(i, j)]),
        win |-> Tup([l \in 1..Top |-> JSum(<<D.win[l]>> \o
                Tup([w \in 1..2 |-> LET i == To + w - 1 IN IF i \in wins(l - 1) THEN JMul(p, at(i - 1, l - 1)) ELSE JC(0)]))]),
        lose |-> Tup([l \in 1..Top |-> JSum(<<D.lose[l]>> \o
                Tup([w \in 1..2 |-> LET i == To + w - 1 IN IF i \in wins(l - 1) THEN JMul(q, at(l - 1, i - 1)) ELSE JC(0)]))]),
        deuce |-> JAdd(D.deuce, into(LevelAt, LevelAt))]
Points == IF node.k = "set" THEN 12 ELSE 2 * To - 2
(* from level on: two ahead wins (w = p p + 2 p q w); at six games all the tie-break   *)
Level(c) ==
    IF node.k = "set" THEN X(c, 2)
    ELSE LET p == X(c, 1)  q == JSub(JC(1), p)  pp == JMul(p, p) IN
         JDiv(pp, JSub(JC(1), JScale(2, JMul(p, q))))
LevelLost(c) == JSub(JC(1), Level(c))
Scores(c, D) ==
    IF node.k = "set" THEN Tup([l \in 1..7 |-> IF l <= 6 THEN D.win[l] ELSE JMul(D.deuce, Level(c))])
    ELSE Tup([l \in 1..To |-> IF l < To THEN D.win[l] ELSE JMul(D.deuce, Level(c))])
Losses(c, D) ==
    IF node.k = "set" THEN Tup([l \in 1..7 |-> IF l <= 6 THEN D.lose[l] ELSE JMul(D.deuce, LevelLost(c))])
    ELSE Tup([l \in 1..To |-> IF l < To THEN D.lose[l] ELSE JMul(D.deuce, LevelLost(c))])

(* ---- the process ------------------------------------------------------------------ *)
Last == IF Group = "walk" THEN node.steps ELSE Points
Start(nd) == IF Group = "walk"
             THEN IF nd.k = "markovm" THEN Tup([q \in 1..(nd.size * nd.size) |-> IF q = 1 THEN JC(1) ELSE JC(0)])
                  ELSE Tup([q \in 1..(2 * nd.size - 1) |-> IF q = nd.size THEN JC(1) ELSE JC(0)])
             ELSE <<>>
Init ==
    /\ id \in 1..NSess /\ s = H(Seed, id) /\ k = 0 /\ phase = "run"
    /\ LET st == H(Seed, id)
           nd == MkNode(H(st, 1))
           sh == MkShape(H(st, 2), nd)
           r == Rates(H(st, 3), nd, Size(sh))
       IN /\ node = nd
          /\ args = Tup([j \in 1..Len(r) |-> [sh |-> sh, v |-> r[j]]])
          /\ dist = Tup([c \in 1..Size(sh) |-> Start(nd)])
Play ==
    /\ phase = "run" /\ k < Last
    /\ dist' = Tup([c \in 1..NC |->
          CASE node.k = "markovm" -> StepM(c, dist[c])
            [] node.k = "markovv" -> StepV(c, dist[c])
            [] Group = "tennis" -> PointT(c, IF k = 0 THEN P0 ELSE dist[c])])
    /\ k' = k + 1 /\ UNCHANGED <<id, s, node, args, phase>>

Outcomes(c) == IF Group = "walk" THEN dist[c] ELSE Scores(c, dist[c])
M == IF node.k = "markovm" THEN N * N ELSE IF node.k = "markovv" THEN W ELSE IF node.k = "set" THEN 7 ELSE To
OutSh == IF node.k = "markovm" THEN <<N, N>> ELSE <<M>>
(* a jet in the rates of cell c as a jet in all the parameters                           *)
Embed(j, c) ==
    LET p == NA * NC
        v(a) == (a - 1) * NC + c
    IN IF Len(j) = 1 THEN j
       ELSE Tup([z \in 1..JLen(p) |->
              IF z = 1 THEN j[1]
              ELSE IF \E a \in 1..NA : z = GPos(v(a)) THEN JG(j, CHOOSE a \in 1..NA : z = GPos(v(a)))
              ELSE IF \E a \in 1..NA : \E b \in 1..a : z = HPos(p, v(a), v(b))
              THEN LET ab == CHOOSE ab \in (1..NA) \X (1..NA) : ab[2] <= ab[1] /\ z = HPos(p, v(ab[1]), v(ab[2]))
                   IN JH(j, NA, ab[1], ab[2])
              ELSE 0])
Publish ==
    /\ phase = "run" /\ k = Last /\ phase' = "done"
    /\ LET out == Tup([c \in 1..NC |-> Tup([q \in 1..M |-> RRoundAll(Embed(Outcomes(c)[q], c), 17)])])
           sh == args[1].sh
       IN Emit(OutFile, [id |-> id, gl |-> args,
              fs |-> <<[node |-> node, pm |-> Tup([j \in 1..NA |-> j]), n |-> Len(sh), d |-> Len(OutSh),
                        sh |-> sh \o OutSh,
                        jets |-> Tup([q \in 1..(NC * M) |-> out[((q - 1) \div M) + 1][((q - 1) % M) + 1]])]>>])
    /\ UNCHANGED <<id, s, node, args, dist, k>>
Next == Play \/ Publish
Spec == Init /\ [][Next]_vars

(* ---- laws ---------------------------------------------------------------------------- *)
Tol == "0.000000000000000000001"
JNear(a, b) == LET p == MaxP(a, b) IN \A q \in 1..JLen(p) : RNear(Get(a, q), Get(b, q), Tol)
Mass(c) == IF Group = "walk" THEN JSum(dist[c])
           ELSE IF k = 0 THEN JC(1)
           ELSE JSum(dist[c].live \o dist[c].win \o dist[c].lose \o <<dist[c].deuce>>)
(* nothing is lost at any moment, hence all derivatives of the total vanish               *)
Conserved == \A c \in 1..NC : JNear(Mass(c), JC(1))
AllOf(c) == IF Group = "walk" THEN dist[c]
            ELSE IF k = 0 THEN <<>> ELSE dist[c].live \o dist[c].win \o dist[c].lose \o <<dist[c].deuce>>
NonNegative == \A c \in 1..NC : \A q \in 1..Len(AllOf(c)) : RLe("-0.000000000000000000001", AllOf(c)[q][1])
(* everything is decided at the end; the two sides' outcomes sum to one                    *)
Decided == (Group = "tennis" /\ k = Last) =>
    \A c \in 1..NC :
        /\ \A q \in 1..(Top * Top) : JNear(dist[c].live[q], JC(0))
        /\ JNear(JSum(Scores(c, dist[c]) \o Losses(c, dist[c])), JC(1))
(* the opponent sees the mirrored game                                                     *)
Mirror == (Group = "tennis" /\ k = Last /\ node.k # "set") =>
    \A c \in 1..NC :
        LET o == Race(JSub(JC(1), X(c, 1)), To) IN
        \A l \in 1..To : JNear(o[l], Losses(c, dist[c])[l])
(* exchanging the rates exchanges the scores (equal skews seen from both sides)            *)
Swapped == (Group = "walk" /\ k = Last) =>
    \A c \in 1..NC :
        IF node.k = "markovm"
        THEN LET o == WalkM(N, node.steps, node.skew, S2(c), S1(c)) IN
             \A x, y \in 0..(N - 1) : JNear(o[y * N + x + 1], dist[c][x * N + y + 1])
        ELSE LET o == WalkV(N, node.steps, node.skew, S2(c), S1(c)) IN
             \A q \in 1..W : JNear(o[W + 1 - q], dist[c][q])
(* far from the edges the walk is multinomial                                               *)
Free == (node.k = "markovm" /\ k = Last /\ N > node.steps /\ \A q \in 1..Len(node.skew) : REq(node.skew[q], 1)) =>
    \A c \in 1..NC : \A x, y \in 0..(N - 1) :
        LET n == node.steps IN
        IF x + y > n THEN JNear(dist[c][x * N + y + 1], JC(0))
        ELSE JNear(dist[c][x * N + y + 1],
                   JScale(RDiv(RFact(n), RMul(RFact(x), RMul(RFact(y), RFact(n - x - y)))),
                          JMul(JMul(JPowN(S1(c), x), JPowN(S2(c), y)),
                               JPowN(JSub(JC(1), JAdd(S1(c), S2(c))), n - x - y))))
(* the process agrees with the closed recursions used for compositions                       *)
SameFunc == (Group = "tennis" /\ k = Last) =>
    \A c \in 1..NC :
        LET o == IF node.k = "set" THEN SetRace(X(c, 1), X(c, 2)) ELSE Race(X(c, 1), To) IN
        \A q \in 1..M : JNear(o[q], Scores(c, dist[c])[q])
=============================================================================
