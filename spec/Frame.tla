------------------------------- MODULE Frame -------------------------------
(***************************************************************************)
(* Histories of operations on a model with data.  The store holds the user's *)
(* arrays, the parameter tuples and the results handed out so far; the model *)
(* points to one parameter tuple.  Reading creates a result, a successful fit *)
(* creates a parameter tuple and points the model to it, a failing fit and a  *)
(* write attempt create nothing.  Nothing that exists is ever written.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Arr

CONSTANTS MaxLen, OutFile

Reads == {"like", "grad", "hess", "g", "fgrad", "fhess", "crit", "shown", "step"}
Fits == {"newton", "broyden", "refuse"}
Pokes == {"pokeparam", "pokedata", "pokeshown", "pokeresult"}

VARIABLES hist, store, cur, phase
vars == <<hist, store, cur, phase>>

Init == /\ hist = <<>> /\ phase = "run"
        /\ store = <<"user arrays", "params 0">> /\ cur = 2
Room(op) == /\ phase = "run" /\ Len(hist) < MaxLen /\ hist' = Append(hist, op) /\ UNCHANGED phase
Read == \E op \in Reads : Room(op) /\ store' = Append(store, "result") /\ UNCHANGED cur
FitOk == \E op \in Fits \ {"refuse"} :
            Room(op) /\ store' = Append(store, "params") /\ cur' = Len(store')
FitFails == \E op \in Fits : Room(op) /\ UNCHANGED <<store, cur>>
Poke == \E op \in Pokes : Room(op) /\ UNCHANGED <<store, cur>>
Done == /\ phase = "run" /\ Len(hist) = MaxLen /\ phase' = "done"
        \* one record per history: the outcomes of the fits are the library's choice
        /\ (\A j \in 1..Len(store) : j > 2 => store[j] # "params") => Emit(OutFile, [hist |-> hist])
        /\ UNCHANGED <<hist, store, cur>>
Next == Read \/ FitOk \/ FitFails \/ Poke \/ Done
Spec == Init /\ [][Next]_vars

Immutable == [][/\ Len(store') >= Len(store)
                /\ \A j \in 1..Len(store) : store'[j] = store[j]
                /\ (cur' # cur => hist'[Len(hist')] \in Fits)]_vars
Current == store[cur] \in {"params 0", "params"}
=============================================================================
