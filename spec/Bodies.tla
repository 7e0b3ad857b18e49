---- MODULE Bodies ----
(***************************************************************************)
(* Colliders, the entities that carry them, and what follows from the      *)
(* parts: total mass, center of mass, inertia, energy, and the placement   *)
(* of the local frame.                                                     *)
(*                                                                         *)
(* A collider is a record                                                  *)
(*   [l |-> live?, k |-> kind, o |-> id of its owner (0: none), x |-> data]*)
(* with kinds "N" null, "S" sphere, "P" plane, "M" mesh, "B" aligned box;  *)
(* x holds the fields the library documents for that kind as reals.        *)
(*                                                                         *)
(* An entity is a record                                                   *)
(*   l     live?                                                           *)
(*   own   its own (point) mass                                            *)
(*   p, q  position of the center of mass, rotation                        *)
(*   off   local origin relative to the center of mass, in local space     *)
(*   v, w  velocity, angular velocity                                      *)
(*   cols  ids of the colliders it lists                                   *)
(*   tot   total mass                                                      *)
(*   I     inertia tensor about the center of mass, in local axes          *)
(*   as    asleep?     fa, ft  falling asleep? and for how long            *)
(*   nbr   ids of the entities it rests against                            *)
(***************************************************************************)
EXTENDS RealOps, FiniteSets, Sequences

Dead == [l |-> FALSE]
Live(seq) == {i \in DOMAIN seq : seq[i].l}

IsInf(m) == ~RFinite(m) /\ ~RIsNaN(m)

----------------------------------------------------------------------------
(* One collider *)

ColMass(c) == IF c.k = "M" THEN R0 ELSE c.x.m

\* Its center of mass, in the local space of the owner.
ColCom(c) ==
  CASE c.k = "N" -> c.x.p
    [] c.k = "S" -> c.x.p
    [] c.k = "P" -> c.x.p
    [] c.k = "M" -> c.x.p
    [] c.k = "B" -> c.x.p \oplus (c.x.lo \oplus c.x.hi) \odot RHalf

\* Its inertia tensor about its own center of mass.
ColTensor(c) ==
  CASE c.k = "N" -> c.x.I
    [] c.k = "S" -> MScale(MId, Rat(2, 5) ** c.x.m ** (c.x.r ** c.x.r))
    [] c.k = "P" -> M0
    [] c.k = "M" -> M0
    [] c.k = "B" -> LET d == c.x.hi \ominus c.x.lo
                        xx == d[1] ** d[1]
                        yy == d[2] ** d[2]
                        zz == d[3] ** d[3]
                    IN MScale(MDiag(<<yy ++ zz, xx ++ zz, xx ++ yy>>), c.x.m // Num(12))

----------------------------------------------------------------------------
(* Valid input (anything else is refused) *)

NotNegative(m) == R0 \preceq m          \* FALSE for NaN
MinRadius == F32(1028443341)      \* 0.05 in single precision

ValidOwnMass(m) == NotNegative(m)

ValidCollider(k, x) ==
  CASE k = "N" -> NotNegative(x.m)
    [] k = "S" -> MinRadius \prec x.r /\ NotNegative(x.m)
    [] k = "P" -> NotNegative(x.m) /\ Eps \prec VLen(x.n)
    [] k = "M" -> Len(x.faces) >= 1
    [] k = "B" -> /\ NotNegative(x.m)
                  /\ \A i \in 1..3 : Eps \prec RAbs(x.hi[i] -- x.lo[i])

\* What the library stores for valid input.
Normalized(k, x) ==
  CASE k = "P" -> [x EXCEPT !.n = VUnit(x.n)]
    [] k = "B" -> [x EXCEPT !.lo = <<RMin(x.lo[1], x.hi[1]), RMin(x.lo[2], x.hi[2]), RMin(x.lo[3], x.hi[3])>>,
                            !.hi = <<RMax(x.lo[1], x.hi[1]), RMax(x.lo[2], x.hi[2]), RMax(x.lo[3], x.hi[3])>>]
    [] OTHER -> x

----------------------------------------------------------------------------
(* The whole of an entity, given its own mass and a sequence of colliders *)

Map(Op(_), seq) == [i \in DOMAIN seq |-> Op(seq[i])]

\* Tensor t of a mass m centered d away (parallel axis theorem).
Shifted(t, m, d) ==
  MAdd(t, MScale(MAdd(MScale(MId, VDot(d, d)), MScale(MOuter(d, d), RNeg(R1))), m))

\* [tot, com (in local space), I]
Aggregate(own, cs) ==
  LET inf   == \E i \in DOMAIN cs : IsInf(ColMass(cs[i]))
      sum   == SumR(Map(ColMass, cs))
      massy == ~inf /\ R0 \prec sum
      com   == IF massy
               THEN SumV(Map(LAMBDA c : ColCom(c) \odot ColMass(c), cs)) \odot (R1 // sum)
               ELSE V0
  IN [tot |-> IF inf THEN RInf ELSE IF massy THEN own ++ sum ELSE own,
      com |-> com,
      I   |-> IF inf THEN M0
              ELSE SumM(Map(LAMBDA c : Shifted(ColTensor(c), ColMass(c), ColCom(c) \ominus com), cs))]

----------------------------------------------------------------------------
(* Poses: [p, q, off] (an entity is one as well) *)

ToWorld(e, l) == e.p \oplus QRot(e.q, l \oplus e.off)
ToLocal(e, x) == QRot(QInv(e.q), x \ominus e.p) \ominus e.off
DirToWorld(e, d) == QRot(e.q, d)
DirToLocal(e, d) == QRot(QInv(e.q), d)

\* The pose after moving by m and turning by the rotation vector a in the world frame.
Moved(e, m, a) ==
  [p |-> e.p \oplus m, q |-> IF a = V0 THEN e.q ELSE QMul(QExp(a), e.q), off |-> e.off]

\* The pose at fraction t between two poses.
Between(s, e, t) == [p |-> VLerp(s.p, e.p, t), q |-> QSlerp(s.q, e.q, t), off |-> s.off]

\* Changing the mass distribution: the center of mass moves, the local frame stays put.
WithMass(e, agg) ==
  LET off == VNeg(agg.com)
  IN [e EXCEPT !.tot = agg.tot, !.I = agg.I, !.off = off,
               !.p = e.p \oplus QRot(e.q, e.off \ominus off)]

----------------------------------------------------------------------------
(* Dynamics of one entity *)

WorldInertia(e) == MTurn(e.q, e.I)
\* (what only rounding leaves of it is none)
InvInertia(e) ==
  LET i == WorldInertia(e)
  IN IF RFinite(e.tot) /\ MMaxAbs(i) \prec Rat(1, 1000000) ** Rat(1, 1000000) ** e.tot ** (R1 ++ VDot(e.off, e.off)) THEN M0 ELSE MInv(i)
VelAt(e, x) == e.v \oplus VCross(e.w, x \ominus e.p)
InvMass(e) == R1 // e.tot                              \* 0 for infinite mass
Kinetic(e) ==
  IF IsInf(e.tot)
  THEN IF VLen(e.v) \prec Eps /\ VLen(e.w) \prec Eps THEN R0 ELSE RInf
  ELSE RHalf ** (e.tot ** VDot(e.v, e.v) ++ VDot(MVec(WorldInertia(e), e.w), e.w))
\* Bodies that forces act on.
Movable(e) == RFinite(e.tot) /\ Eps \prec e.tot
Kicked(e, x, imp) ==    \* impulse imp at world position x
  [e EXCEPT !.v = e.v \oplus imp \odot InvMass(e),
            !.w = e.w \oplus MVec(InvInertia(e), VCross(x \ominus e.p, imp))]
====
