-------------------------------- MODULE Prep --------------------------------
(***************************************************************************)
(* Preparation of observations.  Observations arrive one at a time, each    *)
(* with a label per index level, a result and a weight.  The prepared grid   *)
(* has one cell per combination of labels (declared by the index, or added)  *)
(* holding aggregates of exactly the observations with those labels.         *)
(* Labels are abstract: 0, 1, ...; the harness uses sorted concrete labels.   *)
(***************************************************************************)
EXTENDS Arr, TLC

CONSTANTS NSess, Seed, OutFile, Kind, Exhaustive, MaxObs, Depth

VARIABLES id, s, decl, add, obs, phase
vars == <<id, s, decl, add, obs, phase>>
(* decl: labels known to each index level; add: labels added by the caller;    *)
(* obs: sequence of [l: labels, v: result, w: weight]                           *)

R(st, key, n) == H(st, key) % n
Chance(st, key, num, den) == R(st, key, den) < num
PickSeq(st, key, q) == q[1 + R(st, key, Len(q))]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET q == CHOOSE x \in S : \A y \in S : x <= y IN <<q>> \o Sorted(S \ {q})
Depths == 1..Depth
Vals == IF Exhaustive THEN {-1, 2} ELSE {-3, -1, 0, 1, 2, 5, 8}
Weights == IF Exhaustive THEN (IF Kind = "frame" THEN {1, 3} ELSE {1}) ELSE {1, 2, 3, 0}

(* with many observations, many labels                                                *)
Large == MaxObs > 100
(* ---- session -------------------------------------------------------------------- *)
Init ==
    /\ id \in 1..NSess /\ s = H(Seed, id) /\ obs = <<>> /\ phase = "obs"
    /\ IF Exhaustive
       THEN /\ decl = Tup([k \in Depths |-> {}])
            /\ add \in [Depths -> SUBSET {1, 3}]
       ELSE /\ decl = Tup([k \in Depths |-> {q \in 0..5 : Depth > 1 /\ Chance(H(s, k), 20 + q, 1, 6)}])
            /\ add = Tup([k \in Depths |-> IF Chance(s, 50 + k, 1, 2) THEN {}
                                          ELSE {q \in 0..6 : Chance(H(s, k), 40 + q, 1, 4)}])
LabelChoice == IF Exhaustive THEN [Depths -> {0, 2}]
               ELSE {Tup([k \in Depths |-> R(H(s, k), 7, IF Large THEN IF k = 1 THEN 12 + R(H(Seed, id), 60, 60) ELSE 3 + R(H(Seed, id), 60 + k, 8)
                                                          ELSE 2 + R(H(Seed, id), 60 + k, 4))])}
ValChoice == IF Exhaustive THEN Vals ELSE {PickSeq(s, 8, Sorted(Vals))}
WChoice == IF Exhaustive THEN Weights
           ELSE {IF Chance(H(Seed, id), 9, 1, 3) THEN "0.5" ELSE PickSeq(s, 10, Sorted(Weights))}
Enough == IF Exhaustive THEN TRUE ELSE IF Large THEN Len(obs) >= MaxObs - R(H(Seed, id), 12, 60) ELSE Chance(s, 11, 1, 12) \/ Len(obs) = MaxObs
Observe ==
    /\ phase = "obs" /\ Len(obs) < MaxObs /\ (Exhaustive \/ ~Enough \/ obs = <<>>)
    /\ \E l \in LabelChoice, v \in ValChoice, w \in WChoice :
         /\ obs' = Append(obs, [l |-> l, v |-> v, w |-> w])
         /\ decl' = Tup([k \in Depths |-> decl[k] \union {l[k]}])
    /\ s' = H(s, 3) /\ UNCHANGED <<id, add, phase>>

(* ---- the prepared grid ------------------------------------------------------------- *)
Axis(k) == Sorted(decl[k] \union add[k])
Axes == Tup([k \in Depths |-> Axis(k)])
Shape == Tup([k \in Depths |-> Len(Axis(k))])
(* the cell of a list of labels, last level fastest                                     *)
Pos(q, x) == CHOOSE j \in 1..Len(q) : q[j] = x
RECURSIVE CellTo(_, _, _)
CellTo(ax, l, k) == IF k = 0 THEN 0 ELSE CellTo(ax, l, k - 1) * Len(ax[k]) + Pos(ax[k], l[k]) - 1
Cell(ax, l) == 1 + CellTo(ax, l, Depth)
What(x) == IF Kind = "frame" THEN RMul(x.w, x.v) ELSE x.v
Values(o) == Tup([j \in 1..Len(o) |-> What(o[j])])
Best(q, Cmp(_, _)) == q[CHOOSE j \in 1..Len(q) : \A z \in 1..Len(q) : Cmp(q[j], q[z])]
Agg(name, o) ==
    LET x == Values(o) IN
    IF o = <<>> THEN 0
    ELSE CASE name = "size" -> Len(o)
           [] name = "sum" -> RSum(x)
           [] name = "max" -> Best(x, LAMBDA a, b : RLe(b, a))
           [] name = "min" -> Best(x, LAMBDA a, b : RLe(a, b))
           [] name = "mean" -> RDiv(RSum(x), Len(o))
           [] name = "zeros" -> Cardinality({j \in 1..Len(x) : REq(x[j], 0)})
           [] name = "weight" -> RSum(Tup([j \in 1..Len(o) |-> o[j].w]))
Names == <<"size", "sum", "max", "min", "mean", "zeros", "weight">>
Grid(name, o) ==
    LET ax == Axes
        c == Tup([j \in 1..Len(o) |-> Cell(ax, o[j].l)])
        used == {c[j] : j \in 1..Len(o)}
    IN Tup([q \in 1..Size(Shape) |->
         IF q \in used THEN Agg(name, Tup(Keep(o, {j \in 1..Len(o) : c[j] = q}))) ELSE 0])
Publish ==
    /\ phase = "obs" /\ obs # <<>> /\ Enough
    /\ phase' = "done"
    /\ Emit(OutFile, [id |-> id, kind |-> Kind, axes |-> Axes, shape |-> Shape,
                      decl |-> Tup([k \in Depths |-> Sorted(decl[k])]),
                      add |-> Tup([k \in Depths |-> Sorted(add[k])]), obs |-> obs,
                      aggs |-> Tup([n \in 1..Len(Names) |-> RRoundAll(Grid(Names[n], obs), 17)])])
    /\ UNCHANGED <<id, s, decl, add, obs>>
Next == Observe \/ Publish
Spec == Init /\ [][Next]_vars

(* ---- laws -------------------------------------------------------------------------- *)
Same(x, y) == Len(x) = Len(y) /\ \A q \in 1..Len(x) : REq(x[q], y[q])
Rotate(o) == Sub(o, 2, Len(o)) \o <<o[1]>>
Swap(o) == <<o[2], o[1]>> \o Sub(o, 3, Len(o))
(* nothing lost or duplicated: the cells partition the observations                       *)
Conserved == phase = "obs" /\ obs # <<>> /\ Enough =>
    /\ RSum(Grid("size", obs)) = Len(obs)
    /\ REq(RSum(Grid("sum", obs)), RSum(Values(obs)))
    /\ REq(RSum(Grid("weight", obs)), RSum(Tup([j \in 1..Len(obs) |-> obs[j].w])))
(* the row order does not matter (generators of all permutations)                          *)
OrderFree == phase = "obs" /\ Len(obs) > 1 /\ Enough =>
    \A n \in {"size", "sum", "max", "min", "zeros", "weight"} :
        /\ Same(Grid(n, obs), Grid(n, Rotate(obs)))
        /\ Same(Grid(n, obs), Grid(n, Swap(obs)))
(* splitting the observations splits the sums                                               *)
Splits == phase = "obs" /\ Len(obs) > 1 /\ Enough =>
    \A n \in {"size", "sum", "weight"}, k \in {1, Len(obs) \div 2} :
        LET a == Grid(n, Sub(obs, 1, k))  b == Grid(n, Sub(obs, k + 1, Len(obs))) IN
        Same(Grid(n, obs), Tup([q \in 1..Len(a) |-> RAdd(a[q], b[q])]))
=============================================================================
