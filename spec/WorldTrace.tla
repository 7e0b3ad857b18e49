---- MODULE WorldTrace ----
(***************************************************************************)
(* Are recorded runs of the library behaviours of World?                   *)
(*                                                                         *)
(* Every line of the trace file is one run: [id, ev], ev the sequence of   *)
(* calls made, each with its arguments, its result and everything that     *)
(* could be read back afterwards (all numbers as the bits of the f32).     *)
(* Each run is one behaviour of this module, deterministic given the file. *)
(* An event takes the world to the one World.tla prescribes; what was read *)
(* back must be that world up to rounding, and the next event starts from  *)
(* the numbers that were read (rounding errors don't add up).  A mismatch  *)
(* is printed as   BAD|run|event|what|properties|first or later|details    *)
(* Where rounding decides what happens (two results of a comparison that   *)
(* is too close to call), both continuations are followed; a run is a      *)
(* behaviour of World if one of them ends without a mismatch               *)
(* (END|run|event|done or amb|clean).                                      *)
(***************************************************************************)
EXTENDS World, Json, TLCExt

CONSTANT File
Runs == ndJsonDeserialize(File)

VARIABLES run,   \* index of the run
          l,     \* index of the next event
          w,     \* the world
          seen,  \* what was read back last: [E, C, recs]
          clean, \* no mismatch so far
          st     \* "run", or why it ended: "done", "amb" (too many ways it can have gone), "bad"
vars == <<run, l, w, seen, clean, st>>

Events == Runs[run].ev
Flag(name) == name \in DOMAIN Runs[run] /\ Runs[run][name] = 1

----------------------------------------------------------------------------
(* Reading *)

EntityIn(s) == [own |-> F32(s.own), p |-> V32(s.p), r |-> V32(s.r), v |-> V32(s.v), w |-> V32(s.w)]

Ent(s) == TLCEval([p |-> V32(s.p), r |-> V32(s.r), q |-> V32(s.q), off |-> V32(s.off), v |-> V32(s.v),
           w |-> V32(s.w), own |-> F32(s.own), tot |-> F32(s.tot), I |-> M32(s.I), en |-> F32(s.en),
           as |-> s.as = 1, cols |-> {s.cols[n] : n \in DOMAIN s.cols},
           Iw |-> M32(s.Iw), lp |-> V32(s.lp), mp |-> V32(s.mp), mq |-> V32(s.mq), mo |-> V32(s.mo)])

Surf(x) == [e |-> F32(x.e), ft |-> F32(x.ft), sf |-> F32(x.sf), df |-> F32(x.df)]
Faces(fs) == TLCEval([n \in DOMAIN fs |-> TLCEval([i \in DOMAIN fs[n] |-> V32(fs[n][i])])])
ColliderIn(k, x) == TLCEval(
  CASE k = "N" -> [p |-> V32(x.p), m |-> F32(x.m), I |-> M32(x.I)]
    [] k = "S" -> [p |-> V32(x.p), m |-> F32(x.m), r |-> F32(x.r)] @@ Surf(x)
    [] k = "P" -> [p |-> V32(x.p), m |-> F32(x.m), n |-> V32(x.n)] @@ Surf(x)
    [] k = "B" -> [p |-> V32(x.p), m |-> F32(x.m), lo |-> V32(x.lo), hi |-> V32(x.hi)] @@ Surf(x)
    [] k = "M" -> [p |-> V32(x.p), faces |-> Faces(x.faces)] @@ Surf(x))

----------------------------------------------------------------------------
(* Judging *)

\* A mismatch: what, the properties it breaks, and details to print.
Bad(what, props, info) == {[what |-> what, props |-> props, info |-> info]}
Check(ok, what, props, info) == IF ok THEN {} ELSE Bad(what, props, info)

ShowV(v) == [n \in DOMAIN v |-> RShow(v[n])]
Vs(a, b) == ToString(ShowV(a)) \o " expected " \o ToString(ShowV(b))
Rs(a, b) == RShow(a) \o " expected " \o RShow(b)

Tol(n, d) == Rat(n, d)
T5 == Rat(1, 100000)
T4 == Rat(1, 10000)
T3 == Rat(1, 1000)

RelNear(a, b, tol) == RNear(a, b, tol ** (R1 ++ RMin(RAbs(a), RAbs(b)))) /\ ~RIsNaN(a)
\* near relative to their own size
ScaledNear(a, b, tol) == (RNear(a, b, tol ** RMax(RAbs(a), RAbs(b))) \/ RNear(a, b, Rat(1, 1000000000))) /\ ~RIsNaN(a)

PosScale(e) == R1 ++ VMaxAbs(e.p) ++ VMaxAbs(e.off)

Sane(s) == /\ VFinite(s.p) /\ VFinite(s.q) /\ VFinite(s.v) /\ VFinite(s.w) /\ VFinite(s.off) /\ VFinite(s.r)
           /\ MFinite(s.I) /\ ~RIsNaN(s.tot) /\ ~RIsNaN(s.en) /\ ~RIsNaN(s.own)
           /\ RNear(QLen(s.q), R1, T3)

\* What was read of an entity (s) against the entity of the world (e).
\* (ptol: relative to the sizes of things, wtol: what impacts at a slightly different place turn it by,
\* qtol: what a turn by that much in one go is off by)
\* P: properties to blame for the placement, V: for the velocities, A: for being asleep or not
CompareEntity(i, e, s, P, V, A, ptol, wtol, qtol) ==
  LET sc == ptol ** PosScale(e)
      at == "entity " \o ToString(i) \o ": "
  IN IF ~Sane(s) THEN Bad("not finite or not unit length", {"C16"}, at \o ToString(ShowV(s.p)) \o ToString(ShowV(s.q)))
     ELSE Check(REq(s.own, e.own), "own mass", {"C04"}, at \o Rs(s.own, e.own))
     \cup Check(ScaledNear(s.tot, e.tot, T5), "total mass", {"C05"}, at \o Rs(s.tot, e.tot))
     \cup Check(MNear(s.I, e.I, T4 ** (T3 ++ MMaxAbs(e.I)) ++ (IF RFinite(e.tot) THEN Rat(1, 1000000000) ** e.tot ** PosScale(e) ELSE R0)), "inertia", {"C05"}, at \o ToString(ShowV(s.I[1] \o s.I[2] \o s.I[3])) \o " expected " \o ToString(ShowV(e.I[1] \o e.I[2] \o e.I[3])))
     \cup Check(VNear(s.off, e.off, Rat(2, 100000) ** PosScale(e)), "local origin", {"C05", "C06"}, at \o Vs(s.off, e.off))
     \cup Check(VNear(s.p, e.p, sc), "position", P, at \o Vs(s.p, e.p))
     \cup Check(QSame(s.q, e.q, ptol ** RTwo ++ qtol), "rotation", P, at \o Vs(s.q, e.q))
     \cup Check(QSame(QUnit(s.q), QExp(s.r), T4), "rotation vector", {"C04"}, at \o Vs(s.r, s.q))
     \cup Check(MNear(s.Iw, MTurn(QUnit(s.q), s.I), T4 ** (T3 ++ MMaxAbs(e.I))), "inertia in the world", {"C05"}, at \o ToString(ShowV(s.Iw[1] \o s.Iw[2] \o s.Iw[3])))
     \cup Check(s.lp = s.p /\ s.mp = s.p /\ s.mo = s.off /\ QSame(s.mq, s.q, T5), "orientation read", {"C04"}, at \o ToString(ShowV(s.mp \o s.mq \o s.mo)))
     \cup Check(VNear(s.v, e.v, ptol ** (R1 ++ VMaxAbs(e.v))), "velocity", V, at \o Vs(s.v, e.v))
     \cup Check(VNear(s.w, e.w, ptol ** (R1 ++ VMaxAbs(e.w)) ++ wtol), "angular velocity", V, at \o Vs(s.w, e.w))
     \cup Check(LET k == Kinetic([e EXCEPT !.v = s.v, !.w = s.w, !.q = s.q])
                IN IF IsInf(e.tot) /\ (RNear(VLen(s.v), Eps, Eps ** T4) \/ RNear(VLen(s.w), Eps, Eps ** T4)) THEN TRUE
                   ELSE RelNear(s.en, k, T4) /\ (RFinite(k) <=> RFinite(s.en)),
                "energy", {"C05"}, at \o RShow(s.en) \o " expected " \o RShow(Kinetic([e EXCEPT !.v = s.v, !.w = s.w, !.q = s.q])))
     \cup Check(s.as = e.as, "asleep", A, at \o ToString(s.as))
     \cup Check(s.cols = e.cols, "collider list", {"C01"}, at \o ToString(s.cols) \o " expected " \o ToString(e.cols))

\* The data of a collider as read (x) against as stored (d).
SameSurf(x, d) == REq(F32(x.e), d.e) /\ REq(F32(x.ft), d.ft) /\ REq(F32(x.sf), d.sf) /\ REq(F32(x.df), d.df)

\* Distinct points of the faces in order of appearance (points closer than Eps are the same one).
RECURSIVE Merge(_, _)
Merge(pts, rest) ==
  IF rest = <<>> THEN pts
  ELSE IF \E n \in DOMAIN pts : VLen(pts[n] \ominus rest[1]) \prec Eps THEN Merge(pts, Tail(rest))
  ELSE Merge(Append(pts, rest[1]), Tail(rest))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
MergedPoints(faces) == Merge(<<>>, Concat(faces))
Merged(faces) ==
  LET pts == TLCEval(MergedPoints(faces))
      Of(x) == CHOOSE n \in DOMAIN pts : VLen(pts[n] \ominus x) \prec Eps /\ \A k \in 1..(n - 1) : ~(VLen(pts[k] \ominus x) \prec Eps)
  IN TLCEval([n \in DOMAIN faces |-> TLCEval([i \in DOMAIN faces[n] |-> pts[Of(faces[n][i])]])])
CountsOf(faces) ==
  LET fs == Merged(faces)
  IN [nf |-> Len(fs), nv |-> Cardinality(MeshPts(fs)), ne |-> Cardinality(MeshEdges(fs))]

SameData(k, x, d) ==
  CASE k = "N" -> V32(x.p) = d.p /\ REq(F32(x.m), d.m) /\ M32(x.I) = d.I
    [] k = "S" -> V32(x.p) = d.p /\ REq(F32(x.m), d.m) /\ REq(F32(x.r), d.r) /\ SameSurf(x, d)
    [] k = "P" -> V32(x.p) = d.p /\ REq(F32(x.m), d.m) /\ VNear(V32(x.n), d.n, T5) /\ SameSurf(x, d)
    [] k = "B" -> V32(x.p) = d.p /\ REq(F32(x.m), d.m) /\ V32(x.lo) = d.lo /\ V32(x.hi) = d.hi /\ SameSurf(x, d)
    [] k = "M" -> V32(x.p) = d.p /\ SameSurf(x, d)
                  /\ LET n == CountsOf(d.faces) IN x.nf = n.nf /\ x.nv = n.nv /\ x.ne = n.ne

CompareCollider(c, d, s, props) ==
  LET at == "collider " \o ToString(c) \o ": "
  IN IF s.k # d.k THEN Bad("kind", {"C02", "C04"}, at \o s.k)
     ELSE Check(s.o = d.o, "owner", {"C01"}, at \o ToString(s.o) \o " expected " \o ToString(d.o))
     \cup Check(s.k2 = s.k, "type", {"C04"}, at \o s.k2)
     \cup Check(VNear(V32(s.com), ColCom(d), T5 ** (R1 ++ VMaxAbs(ColCom(d)))), "center of mass of the collider", {"C05"}, at \o ToString(ShowV(V32(s.com))))
     \cup Check(SameData(d.k, s.x, d.x), "collider data", props, at \o ToString(s.x))

\* What was read of everything: ev.E[i].l is 0 (gone), 1 (read as given) or 2 (exactly as before)
ReadE(ev) == TLCEval([i \in DOMAIN ev.E |-> IF ev.E[i].l = 1 THEN Ent(ev.E[i])
                                      ELSE IF ev.E[i].l = 2 THEN seen.E[i] ELSE Dead])
ReadC(ev) == TLCEval([c \in DOMAIN ev.C |-> IF ev.C[c].l = 2 THEN seen.C[c] ELSE ev.C[c]])
EThere(ev, i) == ev.E[i].l # 0
CThere(ev, c) == ev.C[c].l # 0

Presence(x, ev) ==
  IF Len(ev.E) # Len(x.es) \/ Len(ev.C) # Len(x.cs) THEN Bad("handles", {"C02"}, "a handle was given out twice")
  ELSE UNION {Check(EThere(ev, i) = x.es[i].l, "entity present", {"C02"}, "entity " \o ToString(i)) : i \in DOMAIN x.es}
       \cup UNION {Check(CThere(ev, c) = x.cs[c].l, "collider present", {"C02"}, "collider " \o ToString(c)) : c \in DOMAIN x.cs}

\* From the world that was expected (x) to the one that was read: same hidden state, read numbers.
Resync(x, E) ==
  [x EXCEPT !.es = [i \in DOMAIN x.es |->
     IF ~x.es[i].l THEN x.es[i]
     ELSE LET e == x.es[i]
              s == E[i]
          IN [e EXCEPT !.p = s.p, !.q = s.q, !.off = s.off, !.v = s.v, !.w = s.w,
                       !.tot = IF ScaledNear(s.tot, e.tot, T5) THEN e.tot ELSE s.tot,
                       !.I = IF MNear(s.I, e.I, T4 ** (T3 ++ MMaxAbs(e.I))) THEN e.I ELSE s.I]]]

\* Problems after which the world can't be followed any further.
Fatal == {"own mass", "asleep", "collider list", "owner", "kind", "entity present", "collider present", "handles",
          "not finite or not unit length", "and so on", "collider data", "panic", "result", "record"}
IsFatal(bad) == \E b \in bad : b.what \in Fatal

Report(bad) ==
  \A b \in bad : PrintT("BAD|" \o Runs[run].id \o "|" \o ToString(l) \o "|" \o Events[l].o \o " " \o b.what \o "|"
                        \o ToString(b.props) \o "|" \o (IF clean THEN "first" ELSE "later") \o "|" \o b.info)

\* Blame everything on some properties as well.
Blame(bad, props) == {[b EXCEPT !.props = @ \cup props] : b \in bad}

----------------------------------------------------------------------------
(* Calls on the registry *)

\* After the call the world must be x.  named: entities it may change.  more: properties that every
\* mismatch breaks as well (what the call is meant to exercise).
Settle(x, ev, named, P, V, more) ==
  LET pres == Presence(x, ev)
  IN IF pres # {} THEN [bad |-> Blame(pres, more), w |-> x]
     ELSE LET E == ReadE(ev)
              C == ReadC(ev)
              bad == UNION {IF ev.E[i].l = 2 /\ x.es[i] = w.es[i] THEN {}
                            ELSE CompareEntity(i, x.es[i], E[i],
                                          IF i \in named THEN P ELSE {"C04"},
                                          IF i \in named THEN V ELSE {"C04"},
                                          IF i \in named THEN {"C12", "C04"} ELSE {"C12"}, T5, R0, R0)
                            : i \in LiveE(x)}
                     \cup UNION {IF ev.C[c].l = 2 /\ c \in DOMAIN w.cs /\ x.cs[c] = w.cs[c] THEN {}
                                 ELSE CompareCollider(c, x.cs[c], C[c], {"C04"})
                                 : c \in LiveC(x)}
          IN [bad |-> Blame(bad, more), w |-> IF IsFatal(bad) THEN x ELSE Resync(x, E)]

Result(ev, ok, props) == Check((ev.ok = 1) = ok, "result", props, "ok = " \o ToString(ev.ok))
Plus(r, bad) == [r EXCEPT !.bad = @ \cup bad]
Owners(x, S) == {x.cs[c].o : c \in S} \ {0}

DoAddEntity(ev) ==
  LET in == EntityIn(ev.in)
      ok == CanAddEntity(in)
      r == Result(ev, ok, {"C03"})
  IN IF r # {} THEN [bad |-> r, w |-> w]
     ELSE IF ~ok THEN Settle(w, ev, {}, {}, {}, {"C03"})
     ELSE IF ev.id # Len(w.es) + 1 THEN [bad |-> Bad("handles", {"C02"}, "a handle was given out twice"), w |-> w]
     ELSE Settle(AddEntity(w, in), ev, {ev.id}, {"C04", "C06"}, {"C04"}, {})

DoUpdateEntity(ev) ==
  LET in == EntityIn(ev.in)
      there == IsE(w, ev.id)
      ok == CanUpdateEntity(w, ev.id, in)
      r == Result(ev, ok, IF there THEN {"C03"} ELSE {"C02", "C03"})
      changed == ev.wb = 0 /\ Differs(w.es[ev.id], in)
  IN IF r # {} THEN [bad |-> r, w |-> w]
     ELSE IF ~ok THEN Settle(w, ev, {}, {}, {}, IF there THEN {"C03"} ELSE {"C02", "C03"})
     ELSE Settle(UpdateEntity(w, ev.id, in, changed), ev, {ev.id}, {"C04", "C06"}, {"C04"},
                 IF ev.wb = 1 THEN {"C04"} ELSE {})

DoRemoveEntity(ev) ==
  LET there == IsE(w, ev.id)
      r == Result(ev, there, {"C02"})
  IN IF r # {} THEN [bad |-> r, w |-> w] ELSE Settle(RemoveEntity(w, ev.id), ev, {}, {}, {}, {"C02"})

DoAddCollider(ev) ==
  LET in == ColliderIn(ev.k, ev.x)
      ok == CanAddCollider(ev.k, in)
      r == Result(ev, ok, {"C03"})
  IN IF r # {} THEN [bad |-> r, w |-> w]
     ELSE IF ~ok THEN Settle(w, ev, {}, {}, {}, {"C03"})
     ELSE IF ev.id # Len(w.cs) + 1 THEN [bad |-> Bad("handles", {"C02"}, "a handle was given out twice"), w |-> w]
     ELSE Settle(AddCollider(w, ev.k, in), ev, {}, {}, {}, {})

DoUpdateCollider(ev) ==
  LET in == ColliderIn(ev.k, ev.x)
      there == IsC(w, ev.id)
      ok == CanUpdateCollider(w, ev.id, ev.k, in)
      r == Result(ev, ok, IF there THEN {"C03"} ELSE {"C02", "C03"})
  IN IF r # {} THEN [bad |-> r, w |-> w]
     ELSE IF ~ok THEN Settle(w, ev, {}, {}, {}, IF there THEN {"C03"} ELSE {"C02", "C03"})
     ELSE Settle(UpdateCollider(w, ev.id, ev.k, in), ev, Owners(w, {ev.id}), {"C06"}, {"C06"}, {})

DoRemoveCollider(ev) ==
  LET there == IsC(w, ev.id)
  IN Settle(RemoveCollider(w, ev.id), ev, IF there THEN Owners(w, {ev.id}) ELSE {}, {"C06"}, {"C06"},
            IF there THEN {} ELSE {"C02"})

DoLink(ev) ==
  LET there == IsC(w, ev.c) /\ (ev.e = 0 \/ IsE(w, ev.e))
      r == Result(ev, CanLink(w, ev.c, ev.e), {"C02", "C03"})
  IN IF r # {} THEN [bad |-> r, w |-> w]
     ELSE IF ~there THEN Settle(w, ev, {}, {}, {}, {"C02", "C03"})
     ELSE Settle(Link(w, ev.c, ev.e), ev, (Owners(w, {ev.c}) \cup {ev.e}) \ {0}, {"C06"}, {"C06"}, {})

DoAddGenerator(ev) ==
  IF ev.id # Len(w.gs) + 1 THEN [bad |-> Bad("handles", {"C18", "C02"}, "a handle was given out twice"), w |-> w]
  ELSE Settle(AddGenerator(w, ev.k, V32(ev.a)), ev, {}, {}, {}, {})

DoRemoveGenerator(ev) ==
  LET there == ev.id \in LiveG(w)
      \* removing yields the very generator that was added
      r == Result(ev, there, {"C18", "C02"}) \cup Check(~there \/ ev.same = 1, "generator returned", {"C18"}, ToString(ev.id))
  IN IF r # {} THEN [bad |-> r, w |-> w] ELSE Settle(RemoveGenerator(w, ev.id), ev, {}, {}, {}, {"C18"})

DoConfigure(ev) ==
  Settle([w EXCEPT !.imax = ev.imax, !.eth = F32(ev.eth), !.sth = F32(ev.sth)], ev, {}, {}, {}, {})

----------------------------------------------------------------------------
(* Steps *)

\* --- forces ---
CallsOn(ev, i) == LET S == {n \in DOMAIN ev.gc : ev.gc[n].e = i}
                      s == SeqOf(S)
                  IN [n \in DOMAIN s |-> [F |-> V32(ev.gc[s[n]].F), x |-> V32(ev.gc[s[n]].x)]]
PushesOn(ev, i) == CallsOn(ev, i) \o GravityOn(w, i)

CheckCalls(ev) ==
  LET want == {g \in LiveG(w) : w.gs[g].k = "L"} \X {i \in LiveE(w) : Movable(w.es[i])}
      got == {<<ev.gc[n].g, ev.gc[n].e>> : n \in DOMAIN ev.gc}
  IN Check(got = want, "generator calls", {"C18"}, ToString(got) \o " expected " \o ToString(want))
     \cup Check(Len(ev.gc) = Cardinality(got), "generator asked twice", {"C18"}, ToString(got))
     \cup Check(\A n \in DOMAIN ev.gc : REq(F32(ev.gc[n].dt), F32(ev.dt)), "generator step length", {"C18"}, "")
     \* what it sees of the others is the world before the step
     \cup LET sees(c) == LET e == w.es[c.s] IN VNear(V32(c.sp), e.p, T5) /\ VNear(V32(c.sv), e.v, T5) /\ VNear(V32(c.sw), e.w, T5)
              odd == {n \in DOMAIN ev.gc : "s" \in DOMAIN ev.gc[n] /\ ~(IsE(w, ev.gc[n].s) /\ sees(ev.gc[n]))}
          IN Check(odd = {}, "generator sees a world that isn't the one before the step", {"C18"}, ToString({<<ev.gc[n].e, ev.gc[n].s, ShowV(V32(ev.gc[n].sv))>> : n \in odd}))

\* --- rounding ---
\* Sizes that rounding errors scale with: of places, of speeds.
Size(a, b, left) == R1 ++ VMaxAbs(a.p) ++ VMaxAbs(b.p) ++ VMaxAbs(a.off) ++ VMaxAbs(b.off)
                    ++ (VLen(a.v) ++ VLen(b.v)) ** left
Speed(a, b, x) == VLen(a.v) ++ VLen(b.v) ++ VLen(a.w) ** VLen(x \ominus a.p) ++ VLen(b.w) ** VLen(x \ominus b.p)
Turning(a, b) == a.w # V0 \/ b.w # V0

\* How far off the library may place a contact with f.
Slack(f, size) ==
  Rat(3, 100000) ** size
  ++ (IF f.k \in {"low", "vf"} THEN R0
      ELSE Rat(5, 1000000) ** ((VDot(f.m, f.m) ++ VDot(f.c \ominus f.g[1], f.c \ominus f.g[1])) // f.R))

\* --- contacts of two bodies ---
\* All their features: [f, ca, cb, sw] (sw: the second body is in the first role)
FeaturesOf(x, left, i, j) ==
  LET ti == TLCEval(Trip(x.es[i], left))
      tj == TLCEval(Trip(x.es[j], left))
  IN UNION { LET ci == x.cs[c[1]]
                 cj == x.cs[c[2]]
                 sw == Swapped(ci, cj)
                 fs == TLCEval(IF sw THEN Features(cj, tj, ci, ti) ELSE Features(ci, ti, cj, tj))
             IN {[c |-> c, n |-> n, f |-> fs[n], sw |-> sw] : n \in DOMAIN fs}
           : c \in x.es[i].cols \X x.es[j].cols }

Inside(ca, a, cb, b) ==    \* center of the sphere inside the box
  cb.k = "B" /\ LET s == ToLocal(b.s, ToWorld(a.s, ca.x.p)) IN
     \A i \in 1..3 : cb.x.p[i] ++ cb.x.lo[i] \preceq s[i] /\ s[i] \preceq cb.x.p[i] ++ cb.x.hi[i]
\* Colliders of i and j one of which is a box with the center of the other one, a sphere, inside.  Where they touch
\* is anybody's guess then.
Buried(x, left, i, j) ==
  LET ti == TLCEval(Trip(x.es[i], left))
      tj == TLCEval(Trip(x.es[j], left))
  IN {c \in x.es[i].cols \X x.es[j].cols :
        LET ci == x.cs[c[1]]
            cj == x.cs[c[2]]
        IN \/ ci.k = "S" /\ Inside(ci, ti, cj, tj)
           \/ cj.k = "S" /\ Inside(cj, tj, ci, ti)}

\* Contact of feature h at t, the normal pointing off the first body.
Touch(h, t) == LET k == ContactAt(h.f, t) IN [x |-> k.x, n |-> IF h.sw THEN VNeg(k.n) ELSE k.n]

\* How fast they approach by the time of the contact.
ApproachBy(x, left, t, i, j, k) == Approach(ByThen(x.es[i], left ** t), ByThen(x.es[j], left ** t), k.x, k.n)

\* Is something certain to be hit before time lim (fraction of left)?  Returns the pairs.
Surely(x, left, i, j, h, t) ==
  LET k == Touch(h, t)
      a == ApproachBy(x, left, t, i, j, k)
      v == Speed(x.es[i], x.es[j], k.x)
      min == (IF Turning(x.es[i], x.es[j]) THEN T3 ELSE Rat(5, 100000)) ** (R1 ++ v)
      c0 == Compliance(x.es[i], x.es[j], k.x, k.n)
      c1 == Compliance(ByThen(x.es[i], left ** t), ByThen(x.es[j], left ** t), k.x, k.n)
      \* (of a mesh what the center moves away from along its way counts as passed)
      \* (the vertex of a mesh that most of which lies behind it, by a straight way through a face)
      onto == \/ h.f.k = "low"
              \/ /\ h.f.k = "vf" /\ ~Turning(x.es[i], x.es[j])
                 /\ Rat(1, 100) ** (Rat(1, 10000) ++ VLen(h.f.m)) \prec RAbs(VDot(h.f.m, h.f.n))
                 /\ LET behind == {q \in DOMAIN h.f.o : VDot(h.f.m, h.f.n) ** VDot(h.f.o[q], h.f.n) \prec RNeg(T3 ** RAbs(VDot(h.f.m, h.f.n)))}
                    IN Len(h.f.o) <= 2 * Cardinality(behind)
              \/ x.cs[h.c[1]].k # "M" /\ x.cs[h.c[2]].k # "M"
              \/ h.f.k # "vf" /\ Rat(5, 1000) ** (Rat(1, 10000) ++ VLen(h.f.m)) \prec VDot(h.f.m, ContactAt(h.f, t).n)
  IN /\ VFinite(k.n)
     /\ onto
     /\ min \preceq a
     /\ RFinite(c0) /\ Rat(1, 1000000) \prec c0 /\ c0 \prec Num(100000000) /\ RFinite(c1) /\ Rat(1, 1000000) \prec c1

MissedIn(x, left, i, j, lim) ==
  LET size == Size(x.es[i], x.es[j], left)
      buried == Buried(x, left, i, j)
      hs == TLCEval({h \in FeaturesOf(x, left, i, j) : h.c \notin buried})
      d(h) == RTwo ** Slack(h.f, size) ++ Rat(2, 10000)
      Ahd == TLCEval({<<h, FirstTouch(h.f, RNeg(d(h)))>> : h \in hs})
      due == {p \in Ahd : RFinite(p[2]) /\ p[2] \prec lim /\ Surely(x, left, i, j, p[1], p[2])}
      \* nothing of the same two colliders that is touched before but not approached gets in the way
      clear(p) == \/ p[1].f.k # "vf" /\ x.cs[p[1].c[1]].k = "M" /\ ~Turning(x.es[i], x.es[j])
                  \/ p[1].f.k # "vf" /\ x.cs[p[1].c[2]].k = "M" /\ ~Turning(x.es[i], x.es[j])
                  \/ \A h \in {g \in hs : g.c = p[1].c} :
                       \A o \in {d(h), R0, RNeg(d(h))} :
                         LET t == FirstTouch(h.f, o)
                         IN (RFinite(t) /\ t \preceq p[2]) => Surely(x, left, i, j, h, t)
  IN {p \in due : clear(p)}

\* Point masses, and rods of them: what rounding leaves of their inertia decides how they turn.
Noise(e) == /\ e.I # M0
            /\ \/ RFinite(e.tot) /\ MMaxAbs(e.I) \prec T5 ** T5 ** e.tot ** (R1 ++ VDot(e.off, e.off))
               \/ MCond(e.I) \prec Rat(1, 1000000)
Noisy(i) == Noise(ReadE(Events[l])[i])

Missed(x, left, lim) ==
  {p \in Pairs(x) : /\ x.es[p[1]].cols # {} /\ x.es[p[2]].cols # {}
                    /\ MissedIn(x, left, p[1], p[2], lim) # {}
                    /\ ~Noisy(p[1]) /\ ~Noisy(p[2])}
ShowMissed(x, left, lim, ps) ==
  ToString({<<q, {<<p[1].c, p[1].f.k, RShow(p[2]), ShowV(Touch(p[1], p[2]).n)>> : p \in MissedIn(x, left, q[1], q[2], lim)}>> : q \in ps})

\* --- a record ---
\* The features that explain it at time t (fraction of left).
\* (span: how much time has left rounding errors)
Explains(x, left, r, t, stol, span) ==
  LET a == x.es[r.a]
      b == x.es[r.b]
      size == Size(a, b, span)
      ok(h) ==
        LET f == h.f
            gap == Distance(f, t) -- f.R
            tol == Slack(f, size)
            k == Touch(h, t)
            deep == gap \prec RNeg(Rat(1, 10) ** RMax(f.R, Rat(1, 20)))
        IN /\ \/ RAbs(gap) \preceq tol
              \/ t \preceq stol /\ gap \preceq tol
           /\ deep \/ Within(f, At(f, t), tol ++ Rat(2, 10000) ** size)
           /\ \/ deep
              \/ f.k = "low" /\ ~f.ok
              \/ f.k = "vf" /\ (Turning(a, b) \/ RAbs(VDot(f.m, f.n)) \prec T5 ** size) /\ VNear(r.n, VNeg(k.n), T4 ** size)
              \/ VNear(r.n, k.n, (T4 ** size) // (IF f.k \in {"low", "vf"} THEN R1 ELSE RMin(R1, f.R)))
           /\ \/ f.k = "low" /\ ~f.ok
              \/ VLen(r.x \ominus k.x) \preceq Rat(2, 10000) ** size ++ RTwo ** RAbs(gap)
  IN {h \in FeaturesOf(x, left, r.a, r.b) : ok(h)}

DecodeRec(r) == TLCEval([a |-> r.a, b |-> r.b, x |-> V32(r.x), n |-> V32(r.n), t |-> F32(r.t), e |-> F32(r.e), J |-> F32(r.J)])

\* Fold over the records.  Where rounding decides what happens, every way it can go is followed: a record
\* takes one accumulator to a set of them, and in the end those count that agree with what was read.
\* acc: [w, T (time so far), before (the world just before the last impact), touch,
\*       maybe (contacts that may or may not last), bad, stop]
TakeRecord(acc, r, dt) ==
  LET x == acc.w
      left == dt -- acc.T
      ttol == Rat(4, 1000000) ** dt
      at == "record at " \o RShow(r.t) \o " of " \o ToString(<<r.a, r.b>>) \o " x " \o ToString(ShowV(r.x)) \o " n " \o ToString(ShowV(r.n)) \o " "
      known == IsE(x, r.a) /\ IsE(x, r.b) /\ r.a # r.b
      \* (a record of an earlier step that is still there)
      stale == IF \E n \in DOMAIN seen.recs : seen.recs[n] = r THEN {"C17"} ELSE {}
      finite == VFinite(r.x) /\ VFinite(r.n) /\ RFinite(r.t) /\ RFinite(r.e) /\ RFinite(r.J)
  IN IF acc.stop THEN {acc}
     ELSE IF ~known THEN {[acc EXCEPT !.bad = @ \cup Bad("record", {"C08", "C02"} \cup stale, at \o "of no such bodies"), !.stop = TRUE]}
     ELSE IF ~finite THEN {[acc EXCEPT !.bad = @ \cup Bad("record", {"C16"}, at \o "is not finite"), !.stop = TRUE]}
     ELSE
     LET t0 == IF left \preceq R0 THEN R0 ELSE (r.t -- acc.T) // left
         t == RMax(R0, RMin(R1, t0))
         stol == IF left \preceq R0 THEN R1 ELSE RMin(R1, ttol // left)
         inTime == acc.T -- ttol \preceq r.t /\ r.t \preceq dt ++ ttol
         unit == RNear(VLen(r.n), R1, T4)
         why == TLCEval(Explains(x, left, r, t, stol, IF 10 < acc.n THEN dt ELSE left))
         odd == IF t \preceq stol THEN Buried(x, left, r.a, r.b) ELSE {}
         cols == {h.c : h \in why} \cup odd
         all == x.es[r.a].cols \X x.es[r.b].cols
         among == {c \in (IF cols # {} THEN cols ELSE all) : x.cs[c[1]].k # "N" /\ x.cs[c[2]].k # "N"}
         off(c) == RAbs(Surface(x.cs[c[1]], x.cs[c[2]]).e -- r.e)
         \* the surfaces of the colliders it may be about
         surfs == {Surface(x.cs[c[1]], x.cs[c[2]]) : c \in {c \in among : \A d \in among : off(c) \preceq off(d) ++ T5}}
         rest == Rests(x, r.a, r.b)
         k == [x |-> r.x, n |-> r.n]
         ap == ApproachBy(x, left, t, r.a, r.b, k)
         v == Speed(x.es[r.a], x.es[r.b], r.x)
         \* (far off, the places of what turns are only so exact; what was fast left its rounding error)
         size == Size(x.es[r.a], x.es[r.b], left)
         swing == Rat(5, 10000000) ** size ** (VLen(x.es[r.a].w) ++ VLen(x.es[r.b].w))
                  ++ Rat(5, 10000000) ** acc.top
         approaches == RNeg(Rat(5, 1000000) ** (R1 ++ v) ++ swing) \preceq ap
         missed == TLCEval(Missed(x, left, t -- (stol ++ T5)))
     IN IF surfs = {}
        THEN {[acc EXCEPT !.bad = @ \cup Bad("record", {"C08"}, at \o "but they have nothing to collide"), !.stop = TRUE]}
        ELSE
        LET
            x1 == TLCEval(WakeHit(WakeHit(Advance(x, left, t), r.a), r.b))
            A == x1.es[r.a]
            B == x1.es[r.b]
            comp == Compliance(A, B, r.x, r.n)
            Jw == NormalImpulse(A, B, r.x, r.n, r.e)
            okJ == RNear(r.J, Jw, (Rat(3, 10000) ++ Rat(3, 1000000) ** size) ** Jw ++ ((Rat(1, 100000) ** (R1 ++ v) ++ RTwo ** swing) // comp))
            J == IF okJ THEN r.J ELSE Jw
            kk == [a |-> r.a, b |-> r.b, x |-> r.x, n |-> r.n]
            hit == TLCEval(Struck(x1.es, r.a, r.b, r.x, r.n \odot RNeg(J)))
            vn == RAbs(Approach(hit[r.a], hit[r.b], r.x, r.n))
            \* (what was fast before in the step left its rounding error)
            fastest == RMax(acc.top, RMax(v, Speed(hit[r.a], hit[r.b], r.x)))
            err == Rat(6, 10000000) ** (v ++ Speed(hit[r.a], hit[r.b], r.x)) ++ Rat(2, 10000000) ** acc.top
            slide == VLen(Sliding(hit[r.a], hit[r.b], r.x, r.n))
            ratio == vn // slide
            \* static, dynamic, or either
            unclear(s) == /\ ~REq(s.sf, s.df)
                          /\ Rat(2, 100000) ** (R1 ++ v) \prec slide
                          /\ RAbs(ratio -- s.ft) \preceq T3 ** s.ft ++ ((RTwo ** err) // slide)
            coefs == UNION {IF unclear(s) THEN {s.sf, s.df} ELSE IF ratio \prec s.ft THEN {s.sf} ELSE {s.df} : s \in surfs}
            rests == {s.e : s \in surfs}
            pair == {r.a, r.b}
            lasts == vn ++ err \prec Eps
            next == [acc EXCEPT
              !.T = RMax(acc.T, r.t),
              !.top = fastest,
              !.n = @ + 1,
              !.before = x1,
              !.touch = IF lasts THEN @ \cup {pair} ELSE @,
              !.maybe = IF ~lasts /\ ~(Eps \prec vn -- err) THEN @ \cup {pair} ELSE @,
              !.stop = ~Resolvable(comp),
              !.bad = @ \cup Check(inTime, "record time", {"C17", "C08"}, at)
                        \cup Check(unit, "record normal length", {"C16", "C08"}, at)
                        \cup Check(why # {} \/ odd # {}, "record of no contact", {"C08"} \cup stale, at)
                        \cup Check(~rest, "record of resting bodies", {"C12", "C11", "C08"}, at)
                        \cup Check(approaches, "record of no approach", {"C08"}, at \o RShow(ap))
                        \cup Check(Resolvable(comp), "record that nothing can resolve", {"C16", "C08"}, at)
                        \cup Check(missed = {}, "missed collision before", {"C08", "C13"}, at \o ShowMissed(x, left, t -- (stol ++ T5), missed))
                        \cup Check(\E e \in rests : RNear(r.e, e, T5), "restitution", {"C09"}, at \o RShow(r.e) \o " expected " \o ToString({RShow(e) : e \in rests}))
                        \cup Check(okJ, "impulse", {"C09"}, at \o Rs(r.J, Jw))]
        IN {[next EXCEPT !.w = [x1 EXCEPT !.es = TLCEval(AfterImpactWith(x1.es, kk, J, coef))]] : coef \in coefs}

RECURSIVE TakeRecords(_, _, _, _)
TakeRecords(accs, rs, n, dt) ==
  IF n > Len(rs) \/ Cardinality(accs) > 16 THEN accs
  \* (hopeless)
  ELSE IF \A acc \in accs : Cardinality(acc.bad) > 6
  THEN {LET acc == CHOOSE acc \in accs : TRUE IN [acc EXCEPT !.bad = @ \cup Bad("and so on", {}, ToString(n) \o " of " \o ToString(Len(rs))), !.stop = TRUE]}
  ELSE TakeRecords(TLCEval(UNION {TakeRecord(acc, rs[n], dt) : acc \in accs}), rs, n + 1, dt)

\* --- falling asleep ---
Dyadic(x) == REq(RFloor(x ** Num(4096)), x ** Num(4096))

\* Energy from what was read, which is what the library compares.
EnergyRead(e, s) == Kinetic([e EXCEPT !.v = s.v, !.w = s.w, !.q = s.q])
\* (a few bits each: no rounding, in whatever order it is computed)
Coarse(x) == REq(RFloor(x ** Num(64)), x ** Num(64)) /\ RAbs(x) \preceq Num(4)
EnergyExact(e, s) ==
  /\ s.w = V0 /\ Coarse(e.tot) /\ Coarse(s.v[1]) /\ Coarse(s.v[2]) /\ Coarse(s.v[3])
  /\ Cardinality({n \in 1..3 : ~REq(s.v[n], R0)}) <= 1
EnergyUnclear(x, e, s) ==
  LET k == EnergyRead(e, s) IN RFinite(k) /\ ~EnergyExact(e, s) /\ RAbs(k -- x.eth) \preceq T3 ** x.eth ++ Rat(1, 1000000000) /\ ~(REq(k, R0))
\* Timers after the step and whether it falls asleep, given that it is still (or not).
TimersIf(still, e, dt) ==
  IF ~still THEN [fa |-> FALSE, ft |-> R0] ELSE [fa |-> TRUE, ft |-> IF e.fa THEN e.ft ++ dt ELSE e.ft]
SleepsIf(x, still, e, s, dt) ==
  LET d == TimersIf(still, e, dt)
  IN IF ~still THEN FALSE
     ELSE IF ~(Dyadic(d.ft) /\ Dyadic(x.sth)) /\ RNear(d.ft, x.sth, T5 ** (R1 ++ x.sth)) THEN s.as
     ELSE ~(d.ft \prec x.sth)

\* --- whole step ---
Frictionless(x, rs, i) ==
  \A n \in DOMAIN rs : i \in {rs[n].a, rs[n].b} =>
    \A c \in x.es[rs[n].a].cols \X x.es[rs[n].b].cols :
      LET f(z) == IF "sf" \in DOMAIN z.x THEN RMax(z.x.sf, z.x.df) ELSE R0
      IN REq(f(x.cs[c[1]]) ** f(x.cs[c[2]]), R0)

TotalEnergy(es) == SumR([n \in DOMAIN es |-> IF es[n].l /\ RFinite(es[n].tot) THEN Kinetic(es[n]) ELSE R0])
Momentum(es, S) == SumV([n \in DOMAIN SeqOf(S) |-> es[SeqOf(S)[n]].v \odot es[SeqOf(S)[n]].tot])

\* Do solid bodies overlap?  (only asked of runs in which they never may)
GapAt(f) == IF Within(f, At(f, R0), R0) THEN Distance(f, R0) -- f.R ELSE RInf
OverlapTol == Rat(2, 1000)
Overlapping(x) ==
  {p \in {q \in LiveE(x) \X LiveE(x) : q[1] < q[2]} :
     \E h \in FeaturesOf(x, R0, p[1], p[2]) : GapAt(h.f) \prec RNeg(OverlapTol ** (R1 ++ VMaxAbs(x.es[p[1]].p)))}
  \cup {p \in LiveE(x) \X LiveE(x) : p[1] # p[2] /\
          \E c \in x.es[p[1]].cols \X x.es[p[2]].cols :
             x.cs[c[1]].k = "S" /\ Inside(x.cs[c[1]], Trip(x.es[p[1]], R0), x.cs[c[2]], Trip(x.es[p[2]], R0))}

\* No step so far ran into the iteration limit (the rest of such a step is not looked at by the library).
Unlimited == \A k \in 1..l : Events[k].o = "step" => Len(Events[k].recs) < w.imax

\* The end of the step, for one way it can have gone (a1).  still: the awake entities that are still,
\* lasting: the pairs whose contact lasts.
Outcome(ev, rs, dt, w1, a1, w2, E, still, lasting) ==
  LET C == ReadC(ev)
      falls == {i \in LiveE(w) : ~w2.es[i].as /\ SleepsIf(w2, i \in still, w2.es[i], E[i], dt)}
      w3 == TLCEval(EndStep(w2, dt, lasting, falls))
      w4 == TLCEval([w3 EXCEPT !.es = [i \in DOMAIN w3.es |->
               IF ~w3.es[i].l \/ w2.es[i].as THEN w3.es[i]
               ELSE LET d == TimersIf(i \in still, w2.es[i], dt) IN [w3.es[i] EXCEPT !.fa = d.fa, !.ft = d.ft]]])
      hits(i) == \E n \in DOMAIN rs : i \in {rs[n].a, rs[n].b}
      tol == IF rs = <<>> THEN Rat(2, 100000) ELSE Rat(2, 10000) ** Num(Len(rs))
      \* rounding of the places of the impacts (about eight ulps), which turns light bodies noticeably
      jolt(i) == SumR([n \in DOMAIN rs |-> IF i \in {rs[n].a, rs[n].b}
                        THEN Rat(1, 1000000) ** Size(w1.es[rs[n].a], w1.es[rs[n].b], dt) ** RAbs(rs[n].J) ** MMaxAbs(InvInertia(w1.es[i]))
                        ELSE R0])
      P(i) == IF w2.es[i].as THEN {"C11"} ELSE {"C07", "C17"}
      V(i) == IF w2.es[i].as THEN {"C11"} ELSE IF ~hits(i) THEN {"C07"} \cup (IF rs # <<>> THEN {"C09"} ELSE {})
              ELSE IF Frictionless(w, rs, i) THEN {"C09"} ELSE {"C10"}
      S(i) == IF w2.es[i].as THEN {"C11", "C12"}                 \* sleeps on
              ELSE IF w.es[i].as THEN {"C12"} \cup (IF i \in falls THEN {"C11"} ELSE {})    \* woken
              \* (what is compared is the energy)
              ELSE {"C11", "C12"} \cup (IF w2.es[i].w = V0 THEN {} ELSE {"C05"})
      cmp == UNION {CompareEntity(i, w4.es[i], E[i], P(i), V(i), S(i), tol, jolt(i), dt ** (jolt(i) ++ Rat(1, 1000000) ** (VLen(E[i].w) ++ VLen(w.es[i].w)))) : i \in LiveE(w)}
             \cup UNION {IF ev.C[c].l = 2 THEN {} ELSE CompareCollider(c, w.cs[c], C[c], {"C04", "C07"}) : c \in LiveC(w)}
      next == Resync(w4, E)
  IN [bad |-> cmp \cup (IF Flag("solid") /\ ~IsFatal(cmp) /\ Unlimited
                        THEN LET o == Overlapping(next) IN Check(o = {}, "overlap", {"C13"}, ToString(o)) ELSE {}),
      w |-> next, amb |-> FALSE]

\* All the ways this one (a1) can have ended.
Outcomes(ev, rs, dt, w1, a1, E) ==
  LET full == Len(rs) < w.imax
      left == dt -- a1.T
      missed == IF full /\ ~a1.stop THEN TLCEval(Missed(a1.w, left, R1 -- T5)) ELSE {}
      w2 == TLCEval(IF full THEN Advance(a1.w, left, R1) ELSE a1.w)
      lively == \A c \in LiveC(w) : "e" \notin DOMAIN w.cs[c].x \/ w.cs[c].x.e \preceq R1
      heavyStill == \A i \in LiveE(w) : IsInf(w.es[i].tot) => (w.es[i].v = V0 /\ w.es[i].w = V0)
      \* (what has no inertia can't be turned, so its spin isn't worth any energy)
      solid == \A i \in LiveE(w) : \/ w1.es[i].w = V0
                                   \/ T5 \prec MCond(w.es[i].I) /\ Rat(1, 1000000) \prec MMaxAbs(w.es[i].I)
      \* (turning itself changes the energy of uneven bodies here, so energies are compared as of the last impact)
      energy == IF lively /\ heavyStill /\ solid
                THEN LET k0 == TotalEnergy(a1.before.es)
                         k1 == TotalEnergy([i \in DOMAIN w.es |-> IF w.es[i].l THEN [a1.before.es[i] EXCEPT !.v = E[i].v, !.w = E[i].w] ELSE w.es[i]])
                     IN Check(k1 \preceq k0 ++ T4 ** k0 ++ Rat(1, 10000000), "energy grew", {"C10"}, Rs(k1, k0))
                ELSE {}
      pair == IF Len(rs) = 1 THEN {rs[1].a, rs[1].b} ELSE {}
      free == pair # {} /\ \A i \in pair : RFinite(w.es[i].tot) /\ ~E[i].as
      mom == IF ~free THEN {}
             ELSE LET sc == SumR([n \in DOMAIN SeqOf(pair) |-> LET e == w1.es[SeqOf(pair)[n]] IN e.tot ** (R1 ++ VLen(e.v)) ++ MMaxAbs(e.I) ** (R1 ++ VLen(e.w))])
                      read == [i \in DOMAIN w.es |-> IF w.es[i].l THEN [w1.es[i] EXCEPT !.v = E[i].v] ELSE w.es[i]]
                  IN Check(VNear(Momentum(read, pair), Momentum(w1.es, pair), T4 ** sc), "momentum", {"C09"},
                           Vs(Momentum(read, pair), Momentum(w1.es, pair)))
      early == a1.bad \cup energy \cup mom
               \cup Check(Len(rs) <= w.imax, "more records than iterations", {"C17"}, ToString(Len(rs)))
               \cup Check(missed = {}, "missed collision", {"C08", "C13"}, ShowMissed(a1.w, left, R1 -- T5, missed))
      \* who is still?
      Awake == {i \in LiveE(w) : ~w2.es[i].as}
      open == {i \in Awake : EnergyUnclear(w2, w2.es[i], E[i])}
      sure == {i \in Awake \ open : Still(w2, [w2.es[i] EXCEPT !.v = E[i].v, !.w = E[i].w, !.q = E[i].q])}
      \* which contacts last?  (it only matters where somebody falls asleep)
      maybe == {p \in a1.maybe : p \notin a1.touch /\ \E i \in p \cap (sure \cup open) : E[i].as}
  IN IF a1.stop THEN {[bad |-> a1.bad, w |-> w, amb |-> FALSE]}
     ELSE IF Cardinality(open) + Cardinality(maybe) > 5
     THEN {[bad |-> early, w |-> w, amb |-> TRUE]}
     ELSE {LET o == TLCEval(Outcome(ev, rs, dt, w1, a1, w2, E, sure \cup s, a1.touch \cup m))
           IN [o EXCEPT !.bad = early \cup @]
           : s \in SUBSET open, m \in SUBSET maybe}

DoStep(ev) ==
  LET dt == F32(ev.dt)
      rs == TLCEval([n \in DOMAIN ev.recs |-> DecodeRec(ev.recs[n])])
  IN IF Ignored(dt)
     THEN {Plus(Settle(w, ev, {}, {}, {}, {"C17"}),
               Check(rs = seen.recs, "records of an ignored step", {"C17"}, "")
               \cup Check(ev.gc = <<>>, "forces in an ignored step", {"C17", "C18"}, ""))}
     ELSE
     LET pres == Presence(w, ev)
         calls == CheckCalls(ev)
         w1 == TLCEval([w EXCEPT !.es = [i \in DOMAIN w.es |->
                  IF w.es[i].l THEN Pushed(w.es[i], PushesOn(ev, i), dt) ELSE w.es[i]]])
         a0 == [w |-> w1, T |-> R0, top |-> R0, n |-> 0, touch |-> {}, maybe |-> {}, before |-> w1, bad |-> calls, stop |-> FALSE]
         accs == TLCEval(TakeRecords({a0}, rs, 1, dt))
         E == ReadE(ev)
         sane == \A i \in LiveE(w) : Sane(E[i])
         points == \E n \in DOMAIN rs :
                     \/ \E i \in {rs[n].a, rs[n].b} : IsE(w, i) /\ Noise(E[i])
                     \* both can only be turned, and are hit (but for rounding) right through their centers
                     \/ /\ \A i \in {rs[n].a, rs[n].b} : IsE(w, i) /\ ~RFinite(E[i].tot)
                        /\ Rat(100000, 1) \prec rs[n].J
     IN IF pres # {} THEN {[bad |-> pres, w |-> w, amb |-> FALSE]}
        ELSE IF Cardinality(accs) > 16 \/ (points /\ sane) THEN {[bad |-> {}, w |-> w, amb |-> TRUE]}
        ELSE IF ~sane THEN {[bad |-> (CHOOSE a \in accs : TRUE).bad \cup Bad("not finite or not unit length", {"C16"}, ToString([i \in LiveE(w) |-> ShowV(E[i].p)])), w |-> w, amb |-> FALSE]}
        ELSE UNION {Outcomes(ev, rs, dt, w1, a, E) : a \in accs}

----------------------------------------------------------------------------
(* Functions of a single value *)

\* Orientation.  ev: position p, rotation r, offset off, and results of the functions.
DoOrientation(ev) ==
  LET e == [p |-> V32(ev.p), q |-> QExp(V32(ev.r)), off |-> V32(ev.off)]
      x == V32(ev.x)
      m == V32(ev.m)
      a == V32(ev.a)
      f == Moved(e, m, a)
      g == [p |-> V32(ev.p2), q |-> QExp(V32(ev.r2)), off |-> e.off]
      t == F32(ev.t)
      h == Between(e, g, t)
      sc == T5 ** (R1 ++ VMaxAbs(e.p) ++ VMaxAbs(e.off) ++ VMaxAbs(x) ++ VMaxAbs(m) ++ VMaxAbs(g.p))
      C(got, want, what) == Check(VNear(V32(got), want, sc), what, {"C19"}, Vs(V32(got), want))
      Q(got, want, what) == Check(QSame(V32(got), want, Rat(2, 100000)), what, {"C19"}, Vs(V32(got), want))
  IN [w |-> w, bad |->
       C(ev.toworld, ToWorld(e, x), "point into world")
       \cup C(ev.tolocal, ToLocal(e, x), "point into local")
       \cup C(ev.dirworld, DirToWorld(e, x), "direction into world")
       \cup C(ev.dirlocal, DirToLocal(e, x), "direction into local")
       \cup C(ev.origin, ToWorld(e, V0), "local origin")
       \cup C(ev.isoworld, ToWorld(e, x), "isometry into world")
       \cup C(ev.isolocal, ToLocal(e, x), "isometry into local")
       \cup C(ev.mp, f.p, "moved position") \cup Q(ev.mq, f.q, "moved rotation") \cup C(ev.moff, f.off, "moved offset")
       \cup C(ev.ap, f.p, "affected position") \cup Q(ev.aq, f.q, "affected rotation")
       \* many small movements after each other add up
       \cup LET k == Moved(e, m, V32(ev.small) \odot Num(ev.n))
            IN Check(VNear(V32(ev.np), k.p, Num(ev.n) ** sc), "position after many movements", {"C19"}, Vs(V32(ev.np), k.p))
               \cup Check(QSame(V32(ev.nq), k.q, Rat(2, 100000) ++ Num(ev.n) ** Rat(4, 10000000)), "rotation after many movements", {"C19"}, Vs(V32(ev.nq), k.q))
       \cup C(ev.lp, h.p, "lerp position") \cup C(ev.loff, h.off, "lerp offset")
       \cup (IF QDist(e.q, g.q) \preceq Rat(13, 10) THEN Q(ev.lq, h.q, "lerp rotation") ELSE {})
       \cup Q(ev.q, e.q, "rotation") \cup Check(QSame(QExp(V32(ev.rv)), e.q, T5), "rotation vector", {"C19"}, "")]

\* Building a mesh.  ev.calls: faces (sequences of points), each with whether it was refused and the counts after.
Convex(f) ==
  /\ Len(f) >= 3
  /\ LET N(i) == VUnit(VCross(f[(i % Len(f)) + 1] \ominus f[i], f[((i + 1) % Len(f)) + 1] \ominus f[i]))
     IN \A i \in DOMAIN f : VFinite(N(i)) /\ Rat(9999995, 10000000) \preceq VDot(N(i), N(1))
RECURSIVE TakeFaces(_, _, _, _)
TakeFaces(calls, n, faces, bad) ==
  IF n > Len(calls) THEN bad
  ELSE LET c == calls[n]
           f == Faces(<<c.f>>)[1]
           ok == Convex(f)
           next == IF ok THEN Append(faces, f) ELSE faces
           cnt == CountsOf(next)
       IN TakeFaces(calls, n + 1, next,
            bad \cup Check((c.ok = 1) = ok, "face accepted", {"C14"}, "face " \o ToString(n) \o ToString([i \in DOMAIN f |-> ShowV(f[i])]))
                \cup Check(c.nf = cnt.nf, "faces", {"C14"}, ToString(c.nf) \o " expected " \o ToString(cnt.nf))
                \cup Check(c.nv = cnt.nv, "vertices", {"C14"}, ToString(c.nv) \o " expected " \o ToString(cnt.nv))
                \cup Check(c.ne = cnt.ne, "edges", {"C14"}, ToString(c.ne) \o " expected " \o ToString(cnt.ne)))
DoMesh(ev) == [w |-> w, bad |-> TakeFaces(ev.calls, 1, <<>>, {})]

\* The same scene twice.  ev.A and ev.B: per step the records and entities of both; in B everything was
\* moved by ev.p and turned by ev.r, and entity i of A is entity ev.map[i] of B.  ev.off: the scene of A again,
\* several times, with everything off by a little (more than rounding): what these differ by tells how well the
\* outcome is determined, and steps that are not (well) determined are not compared.
\* (Whether what is left of the speed after an impact makes another, tiny one is up to rounding.)
Decoded(S) == TLCEval([recs |-> SelectSeq([k \in DOMAIN S.recs |-> DecodeRec(S.recs[k])], LAMBDA r : T3 \prec r.J), E |-> [i \in DOMAIN S.E |-> Ent(S.E[i])]])
SameOrder(A, B, map) ==
  /\ Len(A.recs) = Len(B.recs)
  /\ \A k \in DOMAIN A.recs : {B.recs[k].a, B.recs[k].b} = {map[A.recs[k].a], map[A.recs[k].b]}
  /\ \A i \in DOMAIN A.E : A.E[i].as = B.E[map[i]].as
Off(a, b) == VLen(a \ominus b) // (R1 ++ VMaxAbs(a))
\* How far apart the numbers are: [what, by].
Differences(A, B, R, p, map) ==
  LET X(v) == QRot(R, v) \oplus p
      D(v) == QRot(R, v)
      rec(k) == LET a == A.recs[k]
                    b == B.recs[k]
                    nb == IF b.b = map[a.a] THEN VNeg(b.n) ELSE b.n
                IN {<<"time", RAbs(a.t -- b.t)>>, <<"contact position", Off(X(a.x), b.x)>>, <<"contact normal", Off(D(a.n), nb)>>,
                    <<"impulse", RAbs(a.J -- b.J) // (R1 ++ a.J)>>, <<"restitution", RAbs(a.e -- b.e)>>}
      ent(i) == LET a == A.E[i]
                    b == B.E[map[i]]
                IN {<<"position", Off(X(a.p), b.p)>>, <<"rotation", QDist(QMul(R, a.q), b.q)>>,
                    <<"velocity", Off(D(a.v), b.v)>>, <<"angular velocity", Off(D(a.w), b.w)>>}
  IN UNION {rec(k) : k \in DOMAIN A.recs} \cup UNION {ent(i) : i \in DOMAIN A.E}
RECURSIVE TwinSteps(_, _, _, _, _, _, _)
TwinSteps(ev, n, R, p, id, worst, bad) ==
  IF n > Len(ev.A) THEN bad
  ELSE LET A == Decoded(ev.A[n])
           B == Decoded(ev.B[n])
           offs == TLCEval([k \in DOMAIN ev.off |-> Decoded(ev.off[k][n])])
           \* (whether a tiny impulse counts)
           tiny(S) == \E k \in DOMAIN S.recs : LET J == F32(S.recs[k].J) IN T4 \prec J /\ J \prec Rat(1, 10)
           \* (what spins fast ends up anywhere)
           fast(S) == \E i \in DOMAIN S.E : Num(20) \prec VMaxAbs(S.E[i].w)
           sure == Len(ev.off) = 5 /\ ~fast(A) /\ ~tiny(ev.A[n]) /\ ~tiny(ev.B[n]) /\ Len(ev.A[n].recs) < 12 /\ Len(ev.B[n].recs) < 12 /\ \A k \in DOMAIN offs : SameOrder(A, offs[k], id)
           \* (two at the same time may come in either order)
           apart == (Len(A.E) = 2 \/ \A k \in DOMAIN A.recs : T4 \prec A.recs[k].t) /\ \A k \in 1..(Len(A.recs) - 1) : T3 \prec A.recs[k + 1].t -- A.recs[k].t
           \* (an impact a rounding error off the center turns a light body)
           jolt == MaxOf(<<R0>> \o [k \in DOMAIN A.recs |-> LET r == A.recs[k] IN
                     r.J ** Rat(5, 10000000) ** (Num(4) ++ VMaxAbs(r.x)) ** RMax(MMaxAbs(InvInertia(A.E[r.a])), MMaxAbs(InvInertia(A.E[r.b])))])
           far == IF sure THEN MaxOf(<<worst, jolt>> \o [k \in DOMAIN offs |-> MaxOf(SeqOf({d[2] : d \in Differences(A, offs[k], QExp(V0), V0, id)} \cup {R0}))]) ELSE R1
       IN IF ~sure \/ ~apart \/ Rat(1, 300) \prec far THEN bad
          ELSE IF ~SameOrder(A, B, ev.map)
          THEN bad \cup Bad("sequence of records", {"C15"}, "step " \o ToString(n) \o ": " \o ToString([k \in DOMAIN A.recs |-> <<ev.map[A.recs[k].a], ev.map[A.recs[k].b]>>])
                                \o ToString([k \in DOMAIN B.recs |-> <<B.recs[k].a, B.recs[k].b>>]))
          ELSE TwinSteps(ev, n + 1, R, p, id, far,
                 bad \cup {[what |-> d[1], props |-> {"C15"}, info |-> "step " \o ToString(n) \o " off by " \o RShow(d[2])]
                           : d \in {d \in Differences(A, B, R, p, ev.map) : ~(d[2] \preceq Rat(25, 10000) ++ Num(4) ** far)}})
DoTwin(ev) ==
  [w |-> w, bad |-> TwinSteps(ev, 1, QExp(V32(ev.r)), V32(ev.p), [i \in DOMAIN ev.map |-> i], R0, {})]

----------------------------------------------------------------------------
All == {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19"}

\* Every way the call can have gone: a set of [bad, w] or [bad, w, amb]
Do(ev) ==
  IF "panic" \in DOMAIN ev THEN {[bad |-> Bad("panic", {"C16"} \cup {"*"}, ev.panic), w |-> w]}
  ELSE CASE ev.o = "addE" -> {DoAddEntity(ev)}
    [] ev.o = "updE" -> {DoUpdateEntity(ev)}
    [] ev.o = "rmE"  -> {DoRemoveEntity(ev)}
    [] ev.o = "addC" -> {DoAddCollider(ev)}
    [] ev.o = "updC" -> {DoUpdateCollider(ev)}
    [] ev.o = "rmC"  -> {DoRemoveCollider(ev)}
    [] ev.o = "link" -> {DoLink(ev)}
    [] ev.o = "addG" -> {DoAddGenerator(ev)}
    [] ev.o = "rmG"  -> {DoRemoveGenerator(ev)}
    [] ev.o = "cfg"  -> {DoConfigure(ev)}
    [] ev.o = "step" -> DoStep(ev)
    [] ev.o = "ori"  -> {DoOrientation(ev)}
    [] ev.o = "mesh" -> {DoMesh(ev)}
    [] ev.o = "twin" -> {DoTwin(ev)}

\* Those without a mismatch, or else one with as few as can be.
Best(S) ==
  LET good == {r \in S : r.bad = {}}
  IN IF good # {} THEN good
     ELSE {CHOOSE r \in S : \A q \in S : Cardinality(r.bad) <= Cardinality(q.bad)}

HasSnapshot(ev) == "E" \in DOMAIN ev

Init ==
  /\ run \in DOMAIN Runs
  /\ l = 1
  /\ w = NewWorld
  /\ seen = [E |-> <<>>, C |-> <<>>, recs |-> <<>>]
  /\ clean = TRUE
  /\ st = IF Len(Events) = 0 THEN "done" ELSE "run"

Next ==
  /\ st = "run"
  /\ LET ev == Events[l]
         seen2 == TLCEval(IF ~HasSnapshot(ev) THEN seen
                  ELSE [E |-> ReadE(ev), C |-> ReadC(ev),
                        recs |-> IF ev.o = "step" THEN [n \in DOMAIN ev.recs |-> DecodeRec(ev.recs[n])] ELSE seen.recs])
     IN \E r \in TLCEval(Best(TLCEval(Do(ev)))) :
        LET over == IsFatal(r.bad)
            amb == "amb" \in DOMAIN r /\ r.amb
            end == IF over THEN "bad" ELSE IF amb THEN "amb" ELSE IF l = Len(Events) THEN "done" ELSE "run"
        IN /\ Report(r.bad)
           /\ end # "run" => PrintT("END|" \o Runs[run].id \o "|" \o ToString(l) \o "|" \o end \o "|" \o (IF clean /\ r.bad = {} THEN "clean" ELSE "mismatch"))
           /\ clean' = (clean /\ r.bad = {})
           /\ st' = end
           /\ w' = IF end = "run" THEN r.w ELSE NewWorld
           /\ seen' = IF end = "run" THEN seen2 ELSE [E |-> <<>>, C |-> <<>>, recs |-> <<>>]
           /\ l' = l + 1
           /\ run' = run

Spec == Init /\ [][Next]_vars

\* The invariants of World hold in every world that was reached by a recorded run.
OwnershipInv == Ownership(w)
NeighborsInv == NeighborsMutual(w)
====
