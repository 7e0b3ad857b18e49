---- MODULE World ----
(***************************************************************************)
(* The physics system as a state machine: every public call of             *)
(* PhysicsSystem as a function from world to world, and a step taken apart *)
(* into its phases.                                                        *)
(*                                                                         *)
(* A world is a record                                                     *)
(*   es    entities ever added, by id (see Bodies)                         *)
(*   cs    colliders ever added, by id                                     *)
(*   gs    force generators ever added: [l, k, a] with                     *)
(*         k = "G" gravity with acceleration a, "L" anything else          *)
(*   imax, eth, sth   iteration limit, sleep energy and sleep time         *)
(* Handles are ids that are never used again.                              *)
(***************************************************************************)
EXTENDS Contact

NewWorld == [es |-> <<>>, cs |-> <<>>, gs |-> <<>>,
             imax |-> 5, eth |-> Rat(1, 1000), sth |-> Rat(1, 10)]

LiveE(w) == Live(w.es)
LiveC(w) == Live(w.cs)
LiveG(w) == Live(w.gs)
IsE(w, i) == i \in LiveE(w)
IsC(w, c) == c \in LiveC(w)

----------------------------------------------------------------------------
(* Waking up *)

Infinite(w, i) == IsInf(w.es[i].tot)

\* Everything that wakes together with the members of S: what they rest against, and so on.
\* Bodies of infinite mass do not pass waking on (but one may be woken itself, by an update).
RECURSIVE WakeSet(_, _)
WakeSet(w, S) ==
  LET N == S \cup {j \in UNION {w.es[i].nbr : i \in S} : ~Infinite(w, j)}
  IN IF N = S THEN S ELSE WakeSet(w, N)

Awoken(e) == [e EXCEPT !.as = FALSE, !.nbr = {},
                       !.fa = IF e.as THEN FALSE ELSE e.fa,
                       !.ft = IF e.as THEN R0 ELSE e.ft]

WakeUp(w, i) ==
  LET S == WakeSet(w, {i})
  IN [w EXCEPT !.es = [j \in DOMAIN w.es |->
        IF j \in S THEN Awoken(w.es[j])
        ELSE IF w.es[j].l THEN [w.es[j] EXCEPT !.nbr = @ \ S]
        ELSE w.es[j]]]

----------------------------------------------------------------------------
(* Calls on entities and colliders.  Each yields the next world; the calls *)
(* that can fail come with a condition Can... under which they succeed,    *)
(* and are not to be used otherwise (the world then stays as it is).       *)

ColliderList(w, i) == LET s == SeqOf(w.es[i].cols) IN [n \in DOMAIN s |-> w.cs[s[n]]]
Reweighed(w, i) == [w EXCEPT !.es[i] = WithMass(@, Aggregate(@.own, ColliderList(w, i)))]

CanAddEntity(in) == ValidOwnMass(in.own)
AddEntity(w, in) ==
  [w EXCEPT !.es = Append(@, [l |-> TRUE, own |-> in.own, p |-> in.p, q |-> QExp(in.r), off |-> V0,
                              v |-> in.v, w |-> in.w, cols |-> {}, tot |-> in.own, I |-> M0,
                              as |-> FALSE, fa |-> FALSE, ft |-> R0, nbr |-> {}])]

\* Differences up to the library's EPSILON are no change (waking is decided by this).
Differs(e, in) ==
  \/ ~REq(e.own, in.own)
  \/ Eps \prec VLen(e.p \ominus in.p)
  \/ Eps \prec QDist(e.q, QExp(in.r))
  \/ Eps \prec VLen(e.v \ominus in.v)
  \/ Eps \prec VLen(e.w \ominus in.w)

CanUpdateEntity(w, i, in) == IsE(w, i) /\ ValidOwnMass(in.own)
UpdateEntity(w, i, in, changed) ==
  LET w1 == Reweighed([w EXCEPT !.es[i] = [@ EXCEPT !.own = in.own, !.p = in.p, !.q = QExp(in.r),
                                                    !.v = in.v, !.w = in.w]], i)
  IN IF changed THEN WakeUp(w1, i) ELSE w1

RemoveEntity(w, i) ==
  IF ~IsE(w, i) THEN w
  ELSE [w EXCEPT !.es = [j \in DOMAIN w.es |->
                           IF j = i THEN Dead
                           ELSE IF w.es[j].l THEN [w.es[j] EXCEPT !.nbr = @ \ {i}] ELSE w.es[j]],
                 !.cs = [c \in DOMAIN w.cs |-> IF c \in w.es[i].cols THEN Dead ELSE w.cs[c]]]

CanAddCollider(k, x) == ValidCollider(k, x)
AddCollider(w, k, x) ==
  [w EXCEPT !.cs = Append(@, [l |-> TRUE, k |-> k, o |-> 0, x |-> Normalized(k, x)])]

CanUpdateCollider(w, c, k, x) == IsC(w, c) /\ w.cs[c].k = k /\ ValidCollider(k, x)
UpdateCollider(w, c, k, x) ==
  LET w1 == [w EXCEPT !.cs[c].x = Normalized(k, x)]
      o  == w.cs[c].o
  IN IF o = 0 THEN w1 ELSE Reweighed(w1, o)

RemoveCollider(w, c) ==
  IF ~IsC(w, c) THEN w
  ELSE LET o  == w.cs[c].o
           w1 == [w EXCEPT !.cs[c] = Dead]
       IN IF o = 0 THEN w1 ELSE Reweighed([w1 EXCEPT !.es[o].cols = @ \ {c}], o)

\* i = 0 unlinks
CanLink(w, c, i) == IsC(w, c) /\ (i = 0 \/ IsE(w, i))
Link(w, c, i) ==
  LET o  == w.cs[c].o
      w1 == [w EXCEPT !.cs[c].o = i]
      w2 == IF o = 0 \/ o = i THEN w1 ELSE Reweighed([w1 EXCEPT !.es[o].cols = @ \ {c}], o)
  IN IF i = 0 THEN w2 ELSE Reweighed([w2 EXCEPT !.es[i].cols = @ \cup {c}], i)

AddGenerator(w, k, a) == [w EXCEPT !.gs = Append(@, [l |-> TRUE, k |-> k, a |-> a])]
RemoveGenerator(w, g) == IF g \in LiveG(w) THEN [w EXCEPT !.gs[g] = Dead] ELSE w

----------------------------------------------------------------------------
(* A step                                                                  *)

\* Steps shorter than this do nothing at all.
Ignored(dt) == RAbs(dt) \prec Eps

\* 1. Forces: pushes[i] is the sequence of [F, x] that act on i.
Pushed(e, fs, dt) ==
  IF ~Movable(e) \/ fs = <<>> THEN e
  ELSE LET force  == SumV([n \in DOMAIN fs |-> fs[n].F])
           torque == SumV([n \in DOMAIN fs |-> VCross(fs[n].x \ominus e.p, fs[n].F)])
       IN [e EXCEPT !.v = @ \oplus force \odot (dt // e.tot),
                    !.w = @ \oplus MVec(InvInertia(e), torque \odot dt)]
GravityPush(e, a) == [F |-> a \odot e.tot, x |-> e.p]

\* 2. Where a body gets to in the time left if it hits nothing.
\* A sleeping body doesn't move, whatever velocity it would have if it were woken up.
Seen(e) == IF e.as THEN [e EXCEPT !.v = V0, !.w = V0] ELSE e
Ahead(e, left) == IF e.as THEN e ELSE Moved(e, e.v \odot left, e.w \odot left)
Trip(e, left) == [s |-> [p |-> e.p, q |-> e.q, off |-> e.off], e |-> Ahead(e, left)]

\* 3. Who may collide.
Rests(w, i, j) == w.es[i].as /\ w.es[j].as /\ (j \in w.es[i].nbr \/ i \in w.es[j].nbr)
Pairs(w) == {p \in LiveE(w) \X LiveE(w) : p[1] < p[2] /\ ~Rests(w, p[1], p[2])}

\* How fast a and b approach each other at x along n (n points off a).
Approach(a, b, x, n) == VDot(VelAt(a, x) \ominus VelAt(b, x), n)

\* The body after time m (if it hits nothing); a sleeping one doesn't move at all.
ByThen(e, m) ==
  LET s == Seen(e)
      f == Moved(s, s.v \odot m, s.w \odot m)
  IN [s EXCEPT !.p = f.p, !.q = f.q]

\* Velocity gained along n per impulse along n.
Mobility(e, x, n) ==
  LET r == x \ominus e.p
  IN InvMass(e) ++ VDot(VCross(MVec(InvInertia(e), VCross(r, n)), r), n)
Compliance(a, b, x, n) == Mobility(a, x, n) ++ Mobility(b, x, n)
Resolvable(k) == R0 \prec k /\ RFinite(k)

\* 4. Time goes on: everything that is awake moves.
Advance(w, left, t) ==
  [w EXCEPT !.es = [i \in DOMAIN w.es |->
     LET e == w.es[i] IN
     IF ~e.l \/ e.as THEN e
     ELSE LET m == Moved(e, e.v \odot (left ** t), e.w \odot (left ** t))
          IN [e EXCEPT !.p = m.p, !.q = m.q]]]

WakeHit(w, i) == IF Infinite(w, i) THEN w ELSE WakeUp(w, i)

\* 5. The impact of a on b at x with normal n (off a).  (They may no longer approach by then, if they turn
\* or were just woken: nothing pulls them together then.)
NormalImpulse(a, b, x, n, rest) ==
  (R1 ++ rest) ** (RMax(R0, Approach(a, b, x, n)) // Compliance(a, b, x, n))

\* Relative velocity across the normal.
Sliding(a, b, x, n) ==
  LET d == VelAt(a, x) \ominus VelAt(b, x) IN d \ominus n \odot VDot(d, n)

\* How much friction impulse acts, given that J acted along the normal (Coulomb).
FrictionImpulse(a, b, x, n, J, coef) ==
  LET s == Sliding(a, b, x, n)
      m == VLen(s)
      k == IF m \preceq Rat(1, 1000000000) THEN R0 ELSE Compliance(a, b, x, s \odot (R1 // m))
  IN IF ~Resolvable(k) THEN V0
     ELSE LET stop == m // k IN s \odot (RNeg(RMin(stop, RAbs(J) ** coef)) // m)

UsesStatic(a, b, x, n, thr) ==
  LET m == VLen(Sliding(a, b, x, n))
  IN RAbs(Approach(a, b, x, n)) // m \prec thr

\* Products of the coefficients of two colliders.
Surface(ca, cb) == [e |-> ca.x.e ** cb.x.e, ft |-> ca.x.ft ** cb.x.ft,
                    sf |-> ca.x.sf ** cb.x.sf, df |-> ca.x.df ** cb.x.df]

Struck(es, a, b, x, imp) ==
  [es EXCEPT ![a] = Kicked(@, x, imp), ![b] = Kicked(@, x, VNeg(imp))]

\* The two bodies after the impact. c = [a, b, x, n], J the normal impulse, coef the friction coefficient
AfterImpactWith(es, c, J, coef) ==
  LET e1 == Struck(es, c.a, c.b, c.x, c.n \odot RNeg(J))
  IN Struck(e1, c.a, c.b, c.x, FrictionImpulse(e1[c.a], e1[c.b], c.x, c.n, J, coef))

\* s: the surface.  The static coefficient is used if they barely part, for how they slide.
AfterImpact(es, c, J, s) ==
  LET e1 == Struck(es, c.a, c.b, c.x, c.n \odot RNeg(J))
  IN AfterImpactWith(es, c, J, IF UsesStatic(e1[c.a], e1[c.b], c.x, c.n, s.ft) THEN s.sf ELSE s.df)

\* Are they left in contact (before friction)?
LeftInContact(es, c, J) ==
  LET e1 == Struck(es, c.a, c.b, c.x, c.n \odot RNeg(J))
  IN RAbs(Approach(e1[c.a], e1[c.b], c.x, c.n)) \prec Eps

\* 6. The end: who falls asleep.
Still(w, e) == ~(w.eth \prec Kinetic(e))
Drowsy(w, e, dt) ==    \* timers after the step, for an awake entity
  IF ~Still(w, e) THEN [fa |-> FALSE, ft |-> R0]
  ELSE [fa |-> TRUE, ft |-> IF e.fa THEN e.ft ++ dt ELSE e.ft]
FallsAsleep(w, e, dt) == Still(w, e) /\ ~(Drowsy(w, e, dt).ft \prec w.sth)

\* touch: set of {i, j} left in contact in this step; falls: set of the entities that fall asleep
EndStep(w, dt, touch, falls) ==
  LET T(i) == {j \in LiveE(w) : j # i /\ {i, j} \in touch}
  IN [w EXCEPT !.es = [i \in DOMAIN w.es |->
       LET e == w.es[i] IN
       IF ~e.l THEN e
       ELSE LET new == {j \in T(i) : j \in falls}
                all == IF i \in falls THEN T(i) ELSE new
                f == [e EXCEPT !.nbr = @ \cup all]
            IN IF e.as THEN [f EXCEPT !.v = V0, !.w = V0]
               ELSE LET d == Drowsy(w, e, dt)
                    IN [f EXCEPT !.fa = d.fa, !.ft = d.ft, !.as = i \in falls]]]

AsleepAfter(w, dt) == {i \in LiveE(w) : ~w.es[i].as /\ FallsAsleep(w, w.es[i], dt)}

----------------------------------------------------------------------------
(* Every contact ahead, and the step as a whole.  This is the design that  *)
(* is model checked; recorded runs are checked phase by phase instead (see *)
(* WorldTrace), because they hold rounded numbers.                         *)

\* Everything that can be touched within the time left: [a, b, x, n, t, s]
Contacts(w, left) ==
  UNION {
    LET i == p[1]
        j == p[2]
        ei == w.es[i]
        ej == w.es[j]
        ti == Trip(ei, left)
        tj == Trip(ej, left)
    IN UNION { LET ci == w.cs[c[1]]
                   cj == w.cs[c[2]]
                   sw == Swapped(ci, cj)
                   fs == IF sw THEN Features(cj, tj, ci, ti) ELSE Features(ci, ti, cj, tj)
                   first == IF sw THEN j ELSE i
                   second == IF sw THEN i ELSE j
               IN {LET t == FirstTouch(fs[n], R0)
                       k == IF RFinite(t) THEN ContactAt(fs[n], t) ELSE [x |-> V0, n |-> V0]
                   IN [a |-> first, b |-> second, t |-> t, x |-> k.x, n |-> k.n, s |-> Surface(ci, cj)]
                   : n \in DOMAIN fs}
             : c \in ei.cols \X ej.cols}
    : p \in Pairs(w)}

Real(w, c, left) ==
  /\ RFinite(c.t)
  /\ c.t \prec R1
  /\ VFinite(c.n)
  /\ Eps \preceq Approach(ByThen(w.es[c.a], left ** c.t), ByThen(w.es[c.b], left ** c.t), c.x, c.n)
  /\ Resolvable(Compliance(w.es[c.a], w.es[c.b], c.x, c.n))

RECURSIVE Iterate(_, _, _, _, _)
Iterate(w, left, n, touch, recs) ==
  IF n = 0 THEN [w |-> w, touch |-> touch, recs |-> recs, left |-> left]
  ELSE LET cs == TLCEval({c \in Contacts(w, left) : Real(w, c, left)})
       IN IF cs = {} THEN [w |-> Advance(w, left, R1), touch |-> touch, recs |-> recs, left |-> R0]
          ELSE LET c == CHOOSE c \in cs : \A d \in cs : c.t \preceq d.t
                   w1 == TLCEval(WakeHit(WakeHit(Advance(w, left, c.t), c.a), c.b))
                   J == NormalImpulse(w1.es[c.a], w1.es[c.b], c.x, c.n, c.s.e)
                   w2 == TLCEval([w1 EXCEPT !.es = AfterImpact(w1.es, c, J, c.s)])
                   tc == IF LeftInContact(w1.es, c, J) THEN touch \cup {{c.a, c.b}} ELSE touch
               IN Iterate(w2, left ** (R1 -- c.t), n - 1, tc,
                          Append(recs, [a |-> c.a, b |-> c.b, x |-> c.x, n |-> c.n, J |-> J, e |-> c.s.e]))

GravityOn(w, i) ==
  LET g == SeqOf({h \in LiveG(w) : w.gs[h].k = "G"})
  IN [n \in DOMAIN g |-> GravityPush(w.es[i], w.gs[g[n]].a)]

\* The step, with what happened in it: [w, recs, left]
StepOf(w, dt) ==
  IF Ignored(dt) THEN [w |-> w, recs |-> <<>>, left |-> dt]
  ELSE LET w1 == TLCEval([w EXCEPT !.es = [i \in DOMAIN w.es |->
                   IF w.es[i].l THEN Pushed(w.es[i], GravityOn(w, i), dt) ELSE w.es[i]]])
           r == Iterate(w1, dt, w.imax, {}, <<>>)
       IN [w |-> EndStep(r.w, dt, r.touch, AsleepAfter(r.w, dt)), recs |-> r.recs, left |-> r.left]

----------------------------------------------------------------------------
(* What must be true of every world *)

Alive(w, i) == w.es[i].l

\* C01: both sides agree on the links.
Ownership(w) ==
  /\ \A c \in LiveC(w) : w.cs[c].o # 0 => IsE(w, w.cs[c].o)
  /\ \A i \in LiveE(w) : w.es[i].cols = {c \in LiveC(w) : w.cs[c].o = i}

\* C05: mass, center and inertia are those of the parts.
MassOfParts(w) ==
  \A i \in LiveE(w) :
    LET a == Aggregate(w.es[i].own, ColliderList(w, i))
    IN /\ w.es[i].tot = a.tot
       /\ VNear(w.es[i].off, VNeg(a.com), Rat(1, 1000000000))
       /\ w.es[i].I = a.I

\* C12: what bodies rest against is mutual and still there.
NeighborsMutual(w) ==
  \A i \in LiveE(w) : \A j \in w.es[i].nbr : j # i /\ IsE(w, j) /\ i \in w.es[j].nbr

\* C12: a body rests against something only if at least one of them sleeps.
NeighborsSleep(w) ==
  \A i \in LiveE(w) : \A j \in w.es[i].nbr : w.es[i].as \/ w.es[j].as
====
