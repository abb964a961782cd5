-------------------------------- MODULE Count --------------------------------
(* One-hot encoding of counts into a number of classes, the last of which      *)
(* takes every count at or above its label.                                     *)
EXTENDS Arr, TLC
CONSTANTS MaxLen, MaxSize, Counts, OutFile
VARIABLES cs, n, done
vars == <<cs, n, done>>
Init == cs = <<>> /\ n \in 1..MaxSize /\ done = FALSE
Add == ~done /\ Len(cs) < MaxLen /\ \E c \in Counts : cs' = Append(cs, c) /\ UNCHANGED <<n, done>>
Class(c, k) == IF c >= k - 1 THEN k - 1 ELSE c
(* the class of each observation; cell (r, c) is true iff c is the class        *)
Cell(r, c) == c = Class(cs[r], n)
Publish == /\ ~done /\ cs # <<>> /\ done' = TRUE
           /\ Emit(OutFile, [cs |-> cs, n |-> n,
                    rows |-> Tup([r \in 1..Len(cs) |-> Tup([c \in 1..n |-> IF Cell(r, c - 1) THEN 1 ELSE 0])])])
           /\ UNCHANGED <<cs, n>>
Next == Add \/ Publish
Spec == Init /\ [][Next]_vars
(* laws: exactly one class; the first classes are exact, the last collects       *)
OneClass == \A r \in 1..Len(cs) : Cardinality({c \in 0..(n - 1) : Cell(r, c)}) = 1
Exact == \A r \in 1..Len(cs), c \in 0..(n - 1) :
            Cell(r, c) => (c < n - 1 => cs[r] = c) /\ (c = n - 1 => cs[r] >= n - 1)
=============================================================================
