------------------------------ MODULE PluginMC -----------------------------
(***************************************************************************)
(* Design model of plug-in references under concurrency: threads open,     *)
(* copy, assign and close references to the same libraries.  Each action   *)
(* is one critical section of the reference-counting protocol: look the    *)
(* name up and take a reference, load and insert, or give a reference up.  *)
(* The abstract property of Plugin.tla (a library is loaded exactly while  *)
(* a reference names it) must hold in every reachable state.               *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Threads, Names, MaxLoads
VARIABLES map,      \* name -> reference count (0: not in the map)
          mem,      \* libraries in memory
          loads,    \* how often each was loaded (bounds the model)
          ref,      \* thread -> slot -> name or ""
          pc        \* thread -> what it is in the middle of
vars == <<map, mem, loads, ref, pc>>
Slots == 1..2
Idle == [k |-> "idle", s |-> 0, x |-> ""]
Init == /\ map = [x \in Names |-> 0] /\ mem = {} /\ loads = [x \in Names |-> 0]
        /\ ref = [t \in Threads |-> [s \in Slots |-> ""]] /\ pc = [t \in Threads |-> Idle]
Took(t, s, x) == pc' = [pc EXCEPT ![t] = [k |-> "release", s |-> s, x |-> x]]
\* open: first critical section, is the plug-in known?
Lookup(t, s, x) == /\ pc[t].k = "idle"
                   /\ IF map[x] > 0 THEN map' = [map EXCEPT ![x] = @ + 1] /\ Took(t, s, x)
                      ELSE map' = map /\ pc' = [pc EXCEPT ![t] = [k |-> "load", s |-> s, x |-> x]]
                   /\ UNCHANGED <<mem, loads, ref>>
\* second critical section: check again, load and insert; a load may also fail
Load(t) == /\ pc[t].k = "load"
           /\ LET x == pc[t].x IN
              \/ /\ map[x] = 0 /\ loads[x] < MaxLoads
                 /\ mem' = mem \cup {x} /\ loads' = [loads EXCEPT ![x] = @ + 1]
                 /\ map' = [map EXCEPT ![x] = 1] /\ Took(t, pc[t].s, x) /\ UNCHANGED ref
              \/ /\ map[x] > 0 /\ map' = [map EXCEPT ![x] = @ + 1] /\ Took(t, pc[t].s, x) /\ UNCHANGED <<mem, loads, ref>>
              \/ /\ map[x] = 0 /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<map, mem, loads, ref>>
\* copy or assign from another slot of the same thread
Grab(t, s, d) == /\ pc[t].k = "idle"
                 /\ map' = IF ref[t][s] = "" THEN map ELSE [map EXCEPT ![ref[t][s]] = @ + 1]
                 /\ Took(t, d, ref[t][s]) /\ UNCHANGED <<mem, loads, ref>>
Close(t, s) == pc[t].k = "idle" /\ ref[t][s] # "" /\ Took(t, s, "") /\ UNCHANGED <<map, mem, loads, ref>>
\* last critical section: give the old reference up
Release(t) == /\ pc[t].k = "release"
              /\ LET s == pc[t].s  old == ref[t][s] IN
                 /\ IF old = "" THEN UNCHANGED <<map, mem>>
                    ELSE /\ map' = [map EXCEPT ![old] = @ - 1]
                         /\ mem' = IF map[old] = 1 THEN mem \ {old} ELSE mem
                 /\ ref' = [ref EXCEPT ![t][s] = pc[t].x]
              /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED loads
Next == \E t \in Threads : \/ \E s \in Slots, x \in Names : Lookup(t, s, x)
                           \/ Load(t) \/ Release(t)
                           \/ \E s \in Slots, d \in Slots : Grab(t, s, d)
                           \/ \E s \in Slots : Close(t, s)
Spec == Init /\ [][Next]_vars
\* references that exist: the slots, and the one a thread has taken but not stored yet
Used(x) == Cardinality({<<t, s>> \in Threads \X Slots : ref[t][s] = x}) + Cardinality({t \in Threads : pc[t].k = "release" /\ pc[t].x = x})
Counted == \A x \in Names : map[x] = Used(x)
LoadedWhileUsed == \A x \in Names : (x \in mem) = (Used(x) > 0)
=============================================================================
