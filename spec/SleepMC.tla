---- MODULE SleepMC ----
(***************************************************************************)
(* Falling asleep and waking up, exhaustively, for any motion: who hits    *)
(* whom in a step, which of these contacts last, and who is still at its   *)
(* end is left open (a superset of what geometry allows).  The operators   *)
(* are those of World; what they should amount to is said once more by     *)
(* ghost variables: how long a body has been quiet, and the graph of the   *)
(* contacts that bodies were resting in when they went to sleep.           *)
(***************************************************************************)
EXTENDS World

CONSTANTS Bodies,   \* how many
          Heavy,    \* how many of them (the last ones) have infinite mass
          MaxHits   \* records in a step at most (they are interchangeable beyond a few)
VARIABLES w, touch, hits,   \* the world, and what happened in the current step so far
          quiet, graph,     \* ghosts
          inStep, woken     \* woken: who was woken by the last transition, as it should be
vars == <<w, touch, hits, quiet, graph, inStep, woken>>

B == 1..Bodies
IsHeavy(i) == i > Bodies - Heavy
Dt == R1
Sth == Num(2)          \* two more quiet steps after the first
Body(i) == [l |-> TRUE, own |-> IF IsHeavy(i) THEN RInf ELSE R1, p |-> V0, q |-> QExp(V0), off |-> V0, v |-> V0, w |-> V0,
            cols |-> {}, tot |-> IF IsHeavy(i) THEN RInf ELSE R1, I |-> MId, as |-> FALSE, fa |-> FALSE, ft |-> R0, nbr |-> {}]
Fast == <<R1, R0, R0>>

Init ==
  /\ w = [NewWorld EXCEPT !.es = [i \in B |-> Body(i)], !.sth = Sth]
  /\ touch = {} /\ hits = 0 /\ inStep = FALSE
  /\ quiet = [i \in B |-> 0]
  /\ graph = {}
  /\ woken = {}

\* Everything connected to S by the graph (not through what is heavy), whether asleep or not.
RECURSIVE Reach(_)
Reach(S) ==
  LET N == S \cup {j \in B : ~IsHeavy(j) /\ \E i \in S : {i, j} \in graph}
  IN IF N = S THEN S ELSE Reach(N)
\* i is woken
Rouse(S) ==
  /\ graph' = {g \in graph : g \cap S = {}}
  /\ quiet' = [i \in B |-> IF i \in S /\ w.es[i].as THEN 0 ELSE quiet[i]]
  /\ woken' = {i \in S : w.es[i].as}

\* A record of a and b.
Hit(a, b, lasts) ==
  /\ hits < MaxHits
  /\ {a, b} \subseteq LiveE(w) /\ a < b /\ ~Rests(w, a, b)
  /\ ~(w.es[a].as /\ w.es[b].as)         \* something moves
  /\ ~(IsHeavy(a) /\ IsHeavy(b))         \* something can be moved
  /\ w' = WakeHit(WakeHit(w, a), b)
  /\ touch' = IF lasts THEN touch \cup {{a, b}} ELSE touch
  /\ hits' = hits + 1
  /\ inStep' = TRUE
  /\ Rouse(Reach({i \in {a, b} : ~IsHeavy(i)}))

\* The end of a step, in which those in M still move.
End(M) ==
  LET w1 == [w EXCEPT !.es = [i \in B |-> IF ~w.es[i].l \/ w.es[i].as THEN w.es[i]
                                          ELSE [w.es[i] EXCEPT !.v = IF i \in M THEN Fast ELSE V0]]]
      falls == AsleepAfter(w1, Dt)
  IN /\ M \subseteq {i \in LiveE(w) : ~w.es[i].as}
     /\ w' = EndStep(w1, Dt, touch, falls)
     /\ quiet' = [i \in B |-> IF ~w.es[i].l THEN 0 ELSE IF w.es[i].as THEN quiet[i] ELSE IF i \in M THEN 0 ELSE quiet[i] + 1]
     /\ graph' = graph \cup {g \in touch : g \subseteq LiveE(w) /\ \E i \in g : ~w.es[i].as /\ i \notin M /\ quiet[i] >= 2}
     /\ touch' = {} /\ hits' = 0 /\ inStep' = FALSE /\ woken' = {}

Update(i) ==
  /\ ~inStep /\ IsE(w, i)
  /\ w' = WakeUp(w, i)
  /\ Rouse(Reach({i}))
  /\ UNCHANGED <<touch, hits, inStep>>

Remove(i) ==
  /\ ~inStep /\ IsE(w, i)
  /\ w' = RemoveEntity(w, i)
  /\ graph' = {g \in graph : i \notin g}
  /\ quiet' = [quiet EXCEPT ![i] = 0]
  /\ woken' = {}
  /\ UNCHANGED <<touch, hits, inStep>>

Next == \/ \E a, b \in B, lasts \in BOOLEAN : Hit(a, b, lasts)
        \/ \E M \in SUBSET B : End(M)
        \/ \E i \in B : Update(i) \/ Remove(i)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Mutual == NeighborsMutual(w)
SomeSleep == NeighborsSleep(w)
\* C12: what the bodies remember is the graph
Remembered == \A i \in LiveE(w) : w.es[i].nbr = {j \in B : {i, j} \in graph /\ j # i}
\* C11: asleep exactly if quiet for long enough
Timing == \A i \in LiveE(w) : w.es[i].as <=> quiet[i] >= 3
\* C12: exactly those wake that should (and by nothing else)
Wakes == [][\A i \in LiveE(w) : w'.es[i].l => (i \in woken' <=> (w.es[i].as /\ ~w'.es[i].as))]_vars
\* C11: a sleeper doesn't move, and comes to rest in the step after the one that put it to sleep
AtRest == [][\A i \in LiveE(w) : w'.es[i].l /\ w.es[i].as /\ w'.es[i].as =>
               w'.es[i].p = w.es[i].p /\ w'.es[i].q = w.es[i].q]_vars
\* C12: removing a body wakes nobody, and is forgotten by the others
Forgotten == \A i \in LiveE(w) : w.es[i].nbr \subseteq LiveE(w)
====
