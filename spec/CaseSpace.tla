------------------------------ MODULE CaseSpace -------------------------------
(* Products of finitely many dimensions, explored as a state space by the     *)
(* number of dimensions that differ from the default (the first value of      *)
(* each): every step changes one more dimension, in ascending order, so that  *)
(* each case is one state.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets

D(n, v) == [n |-> n, v |-> v]
Vals(d) == {d.v[i] : i \in DOMAIN d.v}
Start(dims) == [n \in {dims[i].n : i \in DOMAIN dims} |-> LET j == CHOOSE j \in DOMAIN dims : dims[j].n = n IN dims[j].v[1]]

VARIABLES case, last, devs
cvars == <<case, last, devs>>

SpaceInit(dims) == case = Start(dims) /\ last = 0 /\ devs = 0
(* Dimensions in F are explored in full; of those in A at most max change.    *)
SpaceNext(dims, max, A, F) ==
  \E j \in DOMAIN dims :
    /\ j > last
    /\ \/ dims[j].n \in F /\ devs' = devs
       \/ dims[j].n \in A \ F /\ devs < max /\ devs' = devs + 1
    /\ \E x \in Vals(dims[j]) \ {case[dims[j].n]} : case' = [case EXCEPT ![dims[j].n] = x]
    /\ last' = j
=============================================================================
