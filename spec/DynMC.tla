---- MODULE DynMC ----
(***************************************************************************)
(* Small worlds in motion: every sequence of Depth calls from a menu (steps *)
(* of several lengths, pushes, removals, changes of mass, ..., of which at *)
(* most Budget are not the plain step), from every start of a scene, with  *)
(* the steps taken by World itself (Contacts finds the collisions, Iterate *)
(* resolves them).  The properties are checked in every world; every       *)
(* complete behaviour is printed for replay into the library.              *)
(***************************************************************************)
EXTENDS Calls, TLCExt

CONSTANTS Scene, Depth, Budget, Emit
VARIABLES w, hist, spent, last, quiet, start
vars == <<w, hist, spent, last, quiet, start>>

----------------------------------------------------------------------------
(* Parts *)

Ent(own, x, y, v, u) == <<"addE", own, x, y, 0, 0, 0, 0, v, u, 0, 0, 0, 0>>
Ball(m, r, e, f) == <<"addC", "S", 0, 0, 0, m, r, e, 16, f, f>>
Plane(x, y, nx, ny, e, f) == <<"addC", "P", x, y, 0, Huge, nx, ny, 0, e, 16, f, f>>
Slab(y, e, f) == <<"addC", "B", 0, y, 0, Huge, -640, -64, -640, 640, 0, 640, e, 16, f, f>>
\* The nth body, with its only collider.
With(n, ent, col) == <<ent, col, <<"link", n, n>>>>
Floor(e, f) == With(1, Ent(Huge, 0, 0, 0, 0), Plane(0, 0, 0, 64, e, f))
Table(e, f) == With(1, Ent(Huge, 0, 0, 0, 0), Slab(0, e, f))
Gravity == <<<<"addG", 0, -128, 0>>>>
Config(imax, eth, sth) == <<<<"cfg", imax, eth, sth>>>>
Push(i, vx, vy) == <<"push", i, vx, vy, 0, 0, 0, 0>>

\* Starts of a scene (sequences of calls), and what may be called then.
Starts ==
  CASE \* balls resting on each other on a floor or a table
       Scene = "stack" ->
         {Config(40, 64, 16) \o f \o With(2, Ent(0, 0, 32, 0, 0), Ball(m, 32, 0, 0)) \o With(3, Ent(0, 0, 96, 0, 0), Ball(8, 32, 0, 0)) \o Gravity
          : f \in {Floor(0, 32), Table(0, 32)}, m \in {64, 512}}
       \* balls that rest against each other, a floor and a wall
    [] Scene = "side" ->
         {Config(40, 64, 16) \o Floor(0, 0) \o With(2, Ent(Huge, 0, 0, 0, 0), Plane(-64, 0, 64, 0, 0, 0))
           \o With(3, Ent(0, -32, 32, 0, 0), Ball(m, 32, 0, 0)) \o With(4, Ent(0, 32, 32, 0, 0), Ball(16, 32, 0, 0)) \o <<<<"addG", -64, -128, 0>>>>
          : m \in {64, 256}}
       \* balls that rest on the same floor apart from each other, one carrying a third
    [] Scene = "apart" ->
         {Config(40, 64, 16) \o Floor(0, 0) \o With(2, Ent(0, -128, 32, 0, 0), Ball(64, 32, 0, 0)) \o With(3, Ent(0, 128, 32, 0, 0), Ball(128, 32, 0, 0))
           \o With(4, Ent(0, 128, y, 0, 0), Ball(16, 32, 0, 0)) \o Gravity
          : y \in {96, 104}}
       \* three balls resting on each other
    [] Scene = "tower" ->
         {Config(200, 64, 16) \o f \o With(2, Ent(0, 0, 32, 0, 0), Ball(4096, 32, 0, 0)) \o With(3, Ent(0, 0, 96, 0, 0), Ball(256, 32, 0, 0))
           \o With(4, Ent(0, 0, 160, 0, 0), Ball(16, 32, 0, 0)) \o Gravity
          : f \in {Floor(0, 32), Table(0, 32)}}
       \* balls between two walls that hit each other and the walls
    [] Scene = "lane" ->
         {Config(n, 0, 640) \o With(1, Ent(Huge, 0, 0, 0, 0), Plane(-256, 0, 64, 0, e, 0)) \o With(2, Ent(Huge, 0, 0, 0, 0), Plane(256, 0, -64, 0, e, 0))
           \o With(3, Ent(0, -128, 0, a, 0), Ball(64, 32, e, 0)) \o With(4, Ent(0, 0, 0, b, 0), Ball(192, 32, e, 0)) \o With(5, Ent(0, 128, 0, c, 0), Ball(64, 32, e, 0))
          : n \in {2, 20}, e \in {0, 32, 64}, a \in {0, 320}, b \in {-128, 0, 192}, c \in {-448, 64}}
       \* balls that bounce off a floor and each other in two dimensions
    [] Scene = "bounce" ->
         {Config(20, 64, 16) \o Floor(e, f) \o With(2, Ent(0, -64, 40, a, -64), Ball(64, 32, e, f)) \o With(3, Ent(0, 64, 60, -64, b), Ball(m, 48, e, f)) \o Gravity
          : e \in {0, 48}, f \in {0, 32}, a \in {0, 192}, b \in {0, -128}, m \in {64, 256}}

Menu ==
  CASE Scene = "stack"  -> {<<"step", 16>>, Push(2, 64, 0), Push(3, 0, 64), Push(3, 0, 0), <<"wb", 2>>, <<"wb", 1>>, <<"rmE", 3>>, <<"rmE", 2>>, <<"rmE", 1>>,
                            Push(1, 0, 0), Push(1, 64, 0), <<"updE", 3, 64, 0, 96, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<"rmG", 1>>}
    [] Scene = "side"   -> {<<"step", 16>>, Push(3, 0, 64), Push(4, 64, 0), Push(4, -128, 0), <<"wb", 3>>, <<"rmE", 3>>, <<"rmE", 4>>, <<"rmE", 1>>, <<"rmE", 2>>, <<"rmC", 2>>, Push(3, 0, 0)}
    [] Scene = "apart"  -> {<<"step", 16>>, <<"step", 8>>, Push(2, 64, 0), Push(3, 0, 64), Push(4, 64, 0), <<"rmE", 2>>, <<"rmE", 3>>, <<"rmE", 4>>, <<"wb", 4>>, Push(1, 64, 0)}
    [] Scene = "tower"  -> {<<"step", 16>>, Push(4, 64, 0), Push(3, 0, 64), Push(2, 64, 0), <<"rmE", 2>>, <<"rmE", 3>>, <<"rmE", 4>>, <<"rmE", 1>>, <<"wb", 3>>, Push(2, 0, 0)}
    [] Scene = "lane"   -> {<<"step", 16>>, <<"step", 64>>, <<"rmE", 4>>}
    [] Scene = "bounce" -> {<<"step", 8>>, <<"step", 16>>, Push(2, 64, 128), <<"rmE", 3>>}
Plain == IF Scene = "bounce" THEN <<"step", 8>> ELSE <<"step", 16>>

Text(c) == LET F[i \in 0..Len(c)] == IF i = 0 THEN "" ELSE F[i - 1] \o " " \o ToString(c[i]) IN F[Len(c)]
Script(cs) == LET F[i \in 0..Len(cs)] == IF i = 0 THEN "solid" ELSE F[i - 1] \o ";" \o Text(cs[i]) IN F[Len(cs)]

----------------------------------------------------------------------------
Init == \E s \in Starts :
  /\ start = s
  /\ w = TLCEval(AfterAll(NewWorld, s))
  /\ hist = <<>> /\ spent = 0
  /\ last = [c |-> <<>>, recs |-> <<>>, left |-> R0]
  /\ quiet = [i \in DOMAIN w.es |-> [n |-> 0, t |-> R0]]

\* How long each body has been at or below the energy threshold at the ends of steps.
Quiet(x, dt) ==
  [i \in DOMAIN x.es |->
     IF ~x.es[i].l THEN [n |-> 0, t |-> R0]
     ELSE IF w.es[i].as /\ x.es[i].as THEN quiet[i]
     ELSE IF x.eth \prec Kinetic(x.es[i]) THEN [n |-> 0, t |-> R0]
     \* (one that was woken in this step starts over)
     ELSE IF w.es[i].as THEN [n |-> 1, t |-> R0]
     ELSE [n |-> quiet[i].n + 1, t |-> IF quiet[i].n = 0 THEN R0 ELSE quiet[i].t ++ dt]]

Next == \E c \in Menu :
  /\ Len(hist) < Depth
  /\ spent + (IF c = Plain THEN 0 ELSE 1) <= Budget
  /\ Can(w, c)
  /\ spent' = spent + (IF c = Plain THEN 0 ELSE 1)
  /\ hist' = Append(hist, c)
  /\ start' = start
  /\ IF c[1] = "step"
     THEN LET r == TLCEval(StepOf(w, Q(c[2])))
          IN w' = r.w /\ last' = [c |-> c, recs |-> r.recs, left |-> r.left] /\ quiet' = Quiet(r.w, Q(c[2]))
     ELSE /\ w' = TLCEval(After(w, c))
          /\ last' = [c |-> c, recs |-> <<>>, left |-> R0]
          /\ quiet' = [i \in DOMAIN w.es |-> IF w.es[i].l /\ w.es[i].as /\ w'.es[i].l /\ ~w'.es[i].as THEN [n |-> 0, t |-> R0] ELSE quiet[i]]
  /\ (Emit /\ Len(hist') = Depth) => PrintT("WALK|" \o Script(start \o hist'))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Tiny == Rat(1, 100000)
Balls == {i \in LiveE(w) : \E c \in w.es[i].cols : w.cs[c].k = "S"}
TheBall(i) == w.cs[CHOOSE c \in w.es[i].cols : w.cs[c].k = "S"].x
\* C13
Apart == \A i, j \in Balls : i < j => TheBall(i).r ++ TheBall(j).r -- Tiny \preceq VLen(w.es[i].p \ominus w.es[j].p)
OffPlanes == \A i \in Balls : \A c \in LiveC(w) :
  (w.cs[c].k = "P" /\ w.cs[c].o # 0) => TheBall(i).r -- Tiny \preceq VDot(w.es[i].p \ominus ToWorld(w.es[w.cs[c].o], w.cs[c].x.p), w.cs[c].x.n)
OffTable == \A i \in Balls : \A c \in LiveC(w) :
  (w.cs[c].k = "B" /\ w.cs[c].o # 0 /\ RAbs(w.es[i].p[1]) \prec Num(10)) => TheBall(i).r -- Tiny \preceq w.es[i].p[2]
\* C12
Mutual == NeighborsMutual(w)
SomeSleep == NeighborsSleep(w)
\* C16
FiniteW == \A i \in LiveE(w) : VFinite(w.es[i].p) /\ VFinite(w.es[i].q) /\ VFinite(w.es[i].v) /\ VFinite(w.es[i].w)
\* C11: asleep exactly if quiet for long enough
Timing == \A i \in LiveE(w) : w.es[i].as <=> (quiet[i].n >= 1 /\ w.sth \preceq quiet[i].t)
\* C17
Limited == Len(last.recs) <= w.imax /\ (last.left # R0 => Len(last.recs) = w.imax)

\* C10: without forces, steps don't increase the energy
Energy(x) == SumR([i \in DOMAIN x.es |-> IF x.es[i].l /\ RFinite(x.es[i].tot) THEN Kinetic(x.es[i]) ELSE R0])
NoMore == [][LiveG(w) = {} /\ last'.c[1] = "step" => Energy(w') \preceq Energy(w) ++ Tiny ** Energy(w)]_vars
\* C09: elastic impacts keep the energy, and those among the balls the momentum
SameEnergy == [][Scene = "lane" /\ last'.c[1] = "step" /\ (\A c \in LiveC(w) : w.cs[c].x.e = R1) =>
                 RNear(Energy(w'), Energy(w), Tiny ** Energy(w))]_vars
Impulse(x) == SumR([i \in DOMAIN x.es |-> IF x.es[i].l /\ RFinite(x.es[i].tot) THEN x.es[i].tot ** x.es[i].v[1] ELSE R0])
SameMomentum == [][Scene = "lane" /\ last'.c[1] = "step" /\ (\A n \in DOMAIN last'.recs : last'.recs[n].a > 2 /\ last'.recs[n].b > 2) =>
                 RNear(Impulse(w'), Impulse(w), Tiny)]_vars
\* C12: those that wake in a step were hit, or rest (directly or not) against one that was hit
RECURSIVE Reach(_)
Reach(S) == LET N == S \cup {j \in LiveE(w) : ~Infinite(w, j) /\ \E i \in S : j \in w.es[i].nbr} IN IF N = S THEN S ELSE Reach(N)
HitBy(recs) == {i \in LiveE(w) : ~Infinite(w, i) /\ \E n \in DOMAIN recs : i \in {recs[n].a, recs[n].b}}
Wakes == [][\A i \in LiveE(w) : w.es[i].as /\ w'.es[i].l =>
             (~w'.es[i].as => i \in Reach(IF last'.c[1] = "step" THEN HitBy(last'.recs) ELSE {last'.c[2]}))]_vars
\* C11
StayPut == [][\A i \in LiveE(w) : w.es[i].as /\ w'.es[i].l /\ w'.es[i].as /\ last'.c[1] = "step" =>
               w'.es[i].p = w.es[i].p /\ w'.es[i].q = w.es[i].q /\ w'.es[i].v = V0]_vars
\* C07: nothing but a step moves anything
OnlySteps == [][last'.c[1] \notin {"step", "updE"} => \A i \in LiveE(w) : w'.es[i].l => w'.es[i].p = w.es[i].p]_vars
====
