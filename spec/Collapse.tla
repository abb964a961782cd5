------------------------------ MODULE Collapse ------------------------------
(***************************************************************************)
(* Collapse of a frame of scores: the cells of the frame are visited one    *)
(* by one, each adding to the total of every condition it meets.            *)
(***************************************************************************)
EXTENDS Func, TLC

CONSTANTS NSess, Seed, OutFile, Exhaustive, MaxCells

VARIABLES id, fr, conds, k, tot, phase
vars == <<id, fr, conds, k, tot, phase>>
(* fr: the frame [sh, v] of jets; k cells visited; tot: per feature cell and condition  *)

R(st, key, n) == H(st, key) % n
PickSeq(st, key, q) == q[1 + R(st, key, Len(q))]
Chance(st, key, num, den) == R(st, key, den) < num
st0 == H(Seed, id)
Feats == <<<<>>, <<>>, <<2>>, <<3>>, <<2, 3>>, <<2, 2>>, <<2, 2, 3>>>>
MkSh(st) ==
    LET f == PickSeq(st, 1, Feats)
        most == MaxCells \div Size(f)
        r == 1 + R(st, 2, 5)
        c == 1 + R(st, 3, 5)
        rr == IF r > most THEN most ELSE r
        cc == IF rr * c > most THEN most \div rr ELSE c
    IN f \o <<rr, cc>>
Coef(st) == PickSeq(st, 1, <<-2, -1, -1, 0, 1, 1, 2, "0.5", "-1.5", 3>>)
MkConds(st) ==
    IF Chance(st, 1, 1, 4) THEN DefaultConds
    ELSE Tup([q \in 1..(1 + R(st, 2, 4)) |->
            <<Coef(H(st, 10 * q)), Coef(H(st, 10 * q + 1)), Coef(H(st, 10 * q + 2)), R(st, 10 * q + 3, 3) - 1>>])
CondSet == {<<<<a, b, c, g>>>> : a \in {-1, 0, 2}, b \in {-1, 0, 1}, c \in {-1, 0, 1}, g \in {-1, 0, 1}}
ExShapes == {<<1, 2>>, <<2, 2>>, <<2, 3>>, <<3, 1>>, <<2, 2, 3>>}
Init ==
    /\ id \in 1..NSess /\ k = 0 /\ phase = "run"
    /\ \E sh \in (IF Exhaustive THEN ExShapes ELSE {MkSh(H(st0, 1))}) :
         /\ fr = [sh |-> sh, v |-> Tup([q \in 1..Size(sh) |-> JVar(RRnd(H(H(st0, 2), q), -2000, 2000), q, Size(sh))])]
         /\ \E cs \in (IF Exhaustive THEN CondSet \union {DefaultConds} ELSE {MkConds(H(st0, 3))}) :
              /\ conds = cs
              /\ tot = Tup([q \in 1..((Size(sh) \div (sh[Len(sh)] * sh[Len(sh) - 1])) * Len(cs)) |-> JC(0)])
P == Len(fr.sh)
Rw == fr.sh[P - 1]
Cl == fr.sh[P]
NF == Len(fr.v) \div (Rw * Cl)
RSgn(x) == IF RLt(0, x) THEN 1 ELSE IF RLt(x, 0) THEN -1 ELSE 0
Meets(cd, r, c) == RSgn(RAdd(RAdd(RMul(cd[1], r), RMul(cd[2], c)), cd[3])) = cd[4]
Visit ==
    /\ phase = "run" /\ k < Len(fr.v)
    /\ LET f == k \div (Rw * Cl)  r == (k \div Cl) % Rw  c == k % Cl  m == Len(conds) IN
       tot' = Tup([q \in 1..Len(tot) |->
                IF (q - 1) \div m = f /\ Meets(conds[((q - 1) % m) + 1], r, c)
                THEN JAdd(tot[q], fr.v[k + 1]) ELSE tot[q]])
    /\ k' = k + 1 /\ UNCHANGED <<id, fr, conds, phase>>
Publish ==
    /\ phase = "run" /\ k = Len(fr.v) /\ phase' = "done"
    /\ Emit(OutFile, [id |-> id, gl |-> <<[sh |-> fr.sh, v |-> Tup([q \in 1..Len(fr.v) |-> fr.v[q][1]])]>>,
            fs |-> <<[node |-> [k |-> "colm", conds |-> conds], pm |-> <<1>>, n |-> P - 2, d |-> 1,
                      sh |-> Sub(fr.sh, 1, P - 2) \o <<Len(conds)>>, jets |-> RRoundAll(tot, 17)]>>])
    /\ UNCHANGED <<id, fr, conds, k, tot>>
Next == Visit \/ Publish
Spec == Init /\ [][Next]_vars

(* ---- laws ------------------------------------------------------------------------ *)
JNear(a, b) == LET p == MaxP(a, b) IN \A q \in 1..JLen(p) : RNear(Get(a, q), Get(b, q), "0.000000000000000000001")
(* the default conditions split the frame: nothing is lost                             *)
Partition == (k = Len(fr.v) /\ Len(conds) = 3 /\ conds[1][4] = 1 /\ conds[2][4] = 0 /\ conds[3][4] = -1
              /\ \A q \in 1..3 : REq(conds[q][1], 1) /\ REq(conds[q][2], -1) /\ REq(conds[q][3], 0)) =>
    \A f \in 0..(NF - 1) :
        JNear(JSum(Sub(tot, 3 * f + 1, 3 * f + 3)), JSum(Sub(fr.v, f * Rw * Cl + 1, (f + 1) * Rw * Cl)))
(* three signs of one form split the frame as well                                      *)
Signs == (k = Len(fr.v) /\ ~Exhaustive) =>
    \A r \in 0..(Rw - 1), c \in 0..(Cl - 1), q \in 1..Len(conds) :
        Cardinality({g \in {-1, 0, 1} : Meets(<<conds[q][1], conds[q][2], conds[q][3], g>>, r, c)}) = 1
=============================================================================
