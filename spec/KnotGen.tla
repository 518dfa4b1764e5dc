------------------------------ MODULE KnotGen ------------------------------
(* All histories of knot vector operations over a small lattice; the same module is model checked (laws of KnotSys) and
   generates the scripts that are replayed on the code. *)
EXTENDS KnotSys, Json
CONSTANTS KSteps, KTop, KHandlesMax, KStart
SumN(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE s[i] + f[i - 1] IN f[Len(s)]
VARIABLES khist, kn
kg == <<kvs, khist, kn>>
Starts == IF KStart = "small" THEN {<<0, KTop>>, <<0, 0, 1, KTop, KTop>>} ELSE {<<0, 0, KTop>>, <<0, KTop, KTop>>, <<0, 0, 0, KTop, KTop, KTop>>, <<0, 0, 1, 1, KTop, KTop>>}
KName(k) == "k" \o ToString(k)
KDo(r) == khist' = Append(khist, r)
KMore == Len(khist) < KSteps
RQ(U) == TLCEval([i \in DOMAIN U |-> R(U[i])])
GKInit == kvs = <<>> /\ khist = <<>> /\ kn = 1
GKNew == /\ KMore /\ Cardinality(KHandles) < KHandlesMax /\ (KHandles = {} \/ kn <= 2)
         /\ \E U \in Starts : KCreate(KName(kn), RQ(U)) /\ KDo([op |-> "new", h |-> KName(kn), k |-> U])
         /\ kn' = kn + 1
GKInsert == KMore /\ \E h \in KHandles, u \in 0..KTop :
              MayInsertK(h, R(u)) /\ KInsert(h, R(u)) /\ KDo([op |-> "insert", h |-> h, u |-> u]) /\ UNCHANGED kn
GKRemove == KMore /\ \E h \in KHandles, u \in 0..KTop :
              MayRemoveK(h, R(u)) /\ Len(kvs[h]) > 2 /\ KRemove(h, R(u)) /\ KDo([op |-> "remove", h |-> h, u |-> u]) /\ UNCHANGED kn
GKCopy == KMore /\ \E h \in KHandles : \E how \in {"copy", "move", "assign", "moveassign"} :
            /\ IF how \in {"move", "moveassign"} THEN KMove(h, KName(kn)) ELSE Cardinality(KHandles) < KHandlesMax /\ KCopy(h, KName(kn))
            /\ KDo([op |-> how, h |-> h, g |-> KName(kn)])
            /\ kn' = kn + 1
GKSet == KMore /\ \E h \in KHandles : \E i \in 0..(Len(kvs[h]) - 1) : \E u \in 0..KTop :
           MaySet(h, i, R(u)) /\ KSet(h, i, R(u)) /\ KDo([op |-> "set", h |-> h, i |-> i, u |-> u]) /\ UNCHANGED kn
GKDone == /\ Len(khist) = KSteps
          /\ PrintT(ToJson(khist))
          /\ khist' = Append(khist, [op |-> "done"])
          /\ UNCHANGED <<kvs, kn>>
GKNext == GKNew \/ GKInsert \/ GKRemove \/ GKCopy \/ GKSet \/ GKDone
GKSpec == GKInit /\ [][GKNext]_kg
SpansRight == \A h \in KHandles : \A u \in {R(x) : x \in 0..KTop} \cup {RDiv(2 * x + 1, 2) : x \in 0..(KTop - 1)} :
                (InRange(kvs[h], u) /\ FirstKnot(kvs[h]) \prec LastKnot(kvs[h])) => SpanIsRight(kvs[h], u)
MultsAddUp == \A h \in KHandles : \E d \in {Distinct(kvs[h])} :
                Len(kvs[h]) = SumN([i \in DOMAIN d |-> Mult(kvs[h], d[i])])
=============================================================================
