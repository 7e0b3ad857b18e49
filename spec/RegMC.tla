---- MODULE RegMC ----
(***************************************************************************)
(* The registry, exhaustively: every sequence of calls that add, update,   *)
(* link and remove up to MaxE entities, MaxC colliders and MaxG generators *)
(* (with handles of things that are gone, or were never there of a kind    *)
(* that is refused, among them).  Every world that can be reached is       *)
(* checked, and every transition is printed for replay into the library.   *)
(***************************************************************************)
EXTENDS Calls, TLCExt

CONSTANTS MaxE, MaxC, MaxG, Lean, Emit
VARIABLES w, call
vars == <<w, call>>
View == w

\* Masses and places that keep centers of mass exact (sums of masses 1 and 3 divide the places).
OwnMasses == {0, 3 * One, Huge}
Bad == IF Lean THEN {Nan} ELSE {-1, Nan}
Spot(i) == <<10 * One * i, 0, 0>>
Unmoving == <<0, 0, 0, 0, 0, 0>>
Ent(own, p) == <<own>> \o p \o <<0, 0, 0>> \o Unmoving
SphereAt(k, m, r) == <<"S">> \o <<96 * k, 0, 48>> \o <<m, r, 32, 16, 32, 16>>
NullAt(k, m) == <<"N">> \o <<0, 192 * k, 0>> \o <<m, 64, 64, 64>>
BoxAt(k, m) == <<"B">> \o <<0, 0, 96 * k>> \o <<m, -32, -32, -32, 32, 32, 32, 32, 16, 32, 16>>

\* Data for the nth collider, by its kind.
Shapes(n) == IF Lean THEN {SphereAt(n, One, 32)} ELSE {SphereAt(n, One, 32), SphereAt(n, 3 * One, 64), NullAt(n, One)}
Updates(n) == IF Lean THEN {SphereAt(n, 3 * One, 64)} ELSE {SphereAt(n, 3 * One, 64), NullAt(n, Huge)}
BadShapes == IF Lean THEN {SphereAt(1, One, 3)} ELSE {SphereAt(1, -One, 64), SphereAt(1, One, 3), NullAt(1, Nan)}

E == DOMAIN w.es
C == DOMAIN w.cs
Calls ==
  (IF Len(w.es) < MaxE THEN {<<"addE">> \o Ent(m, Spot(Len(w.es) + 1)) : m \in IF Lean THEN {0} ELSE {0, 3 * One}} ELSE {})
  \cup (IF Len(w.cs) < MaxC THEN {<<"addC">> \o x : x \in Shapes(Len(w.cs) + 1)} ELSE {})
  \cup (IF Len(w.gs) < MaxG THEN {<<"addG", 0, -One, 0>>} ELSE {})
  \cup {<<"addE">> \o Ent(m, Spot(1)) : m \in Bad}
  \cup {<<"addC">> \o x : x \in BadShapes}
  \cup UNION {{<<"updE", i>> \o Ent(m, Spot(i)) : m \in IF Lean THEN {Huge, Nan} ELSE {0, Huge, Nan}} : i \in E}
  \cup {<<"wb", i>> : i \in E}
  \cup {<<"rmE", i>> : i \in E}
  \cup UNION {{<<"updC", c>> \o x : x \in Updates(c) \cup {SphereAt(1, -One, 64)}} : c \in C}
  \cup {<<"rmC", c>> : c \in C}
  \cup {<<"link", c, i>> : c \in C, i \in E \cup {0}}
  \cup {<<"rmG", g>> : g \in DOMAIN w.gs}

Name(c) == LET F[i \in 0..Len(c)] == IF i = 0 THEN "" ELSE F[i - 1] \o " " \o ToString(c[i]) IN F[Len(c)]

Init == w = NewWorld /\ call = <<>>
Next == \E c \in Calls :
  /\ w' = TLCEval(After(w, c))
  /\ call' = c
  /\ Emit => PrintT("EDGE|" \o ToString(TLCFP(w)) \o "|" \o ToString(TLCFP(w')) \o "|" \o Name(c))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* C01
Owned == Ownership(w)
OneOwner == \A i, j \in LiveE(w) : i # j => w.es[i].cols \cap w.es[j].cols = {}
\* C05 (whatever the history, everything follows from the parts)
Parts == MassOfParts(w)
\* C06: whatever changes its mass, the local frame of a body stays where it is (unless it is told to move)
Frame(e) == ToWorld(e, V0)
Placed == [][\A i \in LiveE(w) : w'.es[i].l /\ ~(call'[1] = "updE" /\ call'[2] = i) =>
               VNear(Frame(w.es[i]), Frame(w'.es[i]), Rat(1, 1000000000)) /\ w'.es[i].q = w.es[i].q]_vars

\* C02: what is gone stays gone, C01: it is removed with its owner
Gone == [][/\ \A i \in DOMAIN w.es : ~w.es[i].l => ~w'.es[i].l
           /\ \A c \in DOMAIN w.cs : ~w.cs[c].l => ~w'.cs[c].l
           /\ \A g \in DOMAIN w.gs : ~w.gs[g].l => ~w'.gs[g].l
           /\ \A c \in LiveC(w) : ~w'.cs[c].l =>
                (call' = <<"rmC", c>> \/ (call'[1] = "rmE" /\ w.cs[c].o = call'[2]))]_vars
\* C03: a call that can't succeed changes nothing
Refused == [][~Can(w, call') => w' = w]_vars
\* C04: a call changes only what it names, and the mass of the owners
Named(c) == CASE c[1] \in {"updE", "rmE", "wb"} -> {c[2]}
              [] c[1] = "link" -> {c[3]} \cup {w.cs[c[2]].o : k \in {n \in {1} : IsC(w, c[2])}}
              [] c[1] \in {"updC", "rmC"} -> {w.cs[c[2]].o : k \in {n \in {1} : IsC(w, c[2])}}
              [] OTHER -> {}
Local == [][/\ \A i \in DOMAIN w.es : i \notin Named(call') => w'.es[i] = w.es[i]
            /\ \A c \in DOMAIN w.cs : (w'.cs[c] # w.cs[c]) =>
                 (call'[1] \in {"updC", "rmC", "link"} /\ call'[2] = c) \/ (call'[1] = "rmE" /\ w.cs[c].o = call'[2])]_vars
====
