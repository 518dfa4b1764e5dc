------------------------------ MODULE NetGen ------------------------------
(* All histories of operations on control nets of small boxes. Coordinates are numbered 1, 2, 3, ... in the order in
   which they are written, so that no two are equal. *)
EXTENDS NetSys, Json
CONSTANTS NSteps, NDim, NMaxLen, NHandlesMax, NMaxPoints
VARIABLES nhist, nn, fresh
ng == <<nets, nhist, nn, fresh>>
NName(k) == "n" \o ToString(k)
NDo(r) == nhist' = Append(nhist, r)
NMore == Len(nhist) < NSteps
GNInit == nets = <<>> /\ nhist = <<>> /\ nn = 1 /\ fresh = 1
Box(n) == TLCEval([i \in 1..NProd(n) |-> <<R(fresh + i)>>])
GNNew == /\ NMore /\ Cardinality(NHandles) < NHandlesMax /\ (NHandles = {} \/ nn <= 2)
         /\ \E n \in [1..NDim -> 1..NMaxLen], rat \in BOOLEAN :
              /\ NProd(n) <= NMaxPoints
              /\ NCreate(NName(nn), [n |-> TLCEval([d \in 1..NDim |-> n[d]]), dim |-> 1, p |-> Box(n), rat |-> rat,
                                     w |-> IF rat THEN TLCEval([i \in 1..NProd(n) |-> R(fresh + i)]) ELSE <<>>])
              /\ NDo([op |-> "new", h |-> NName(nn), n |-> n, rat |-> rat])
              /\ fresh' = fresh + NProd(n)
         /\ nn' = nn + 1
GNCopy == /\ NMore /\ Cardinality(NHandles) < NHandlesMax
          /\ \E h \in NHandles : NCopy(h, NName(nn)) /\ NDo([op |-> "copy", h |-> h, g |-> NName(nn)])
          /\ nn' = nn + 1 /\ UNCHANGED fresh
(* writing by the present lengths, or by those of a direction one longer or shorter, as far as the list reaches *)
GNSet == NMore /\ \E h \in NHandles : \E d \in 0..NDim, delta \in {-1, 1} :
           \E m \in {Lengths(nets[h], d, delta)} :
             /\ (d = 0 => delta = 1) /\ NProd(m) \in 1..Len(nets[h].p) /\ (\A e \in DOMAIN m : m[e] > 0)
             /\ \E idx \in NRange(AllIdx(m)) : \E what \in (IF nets[h].rat THEN {"set", "setw"} \cup (IF d = 0 THEN {"setboth"} ELSE {}) ELSE {"set"}) :
                  /\ CASE what = "set" -> NSet(h, idx, <<R(fresh)>>, d, delta)
                       [] what = "setw" -> NSetWeight(h, idx, R(fresh), d, delta)
                       [] OTHER -> NSetBoth(h, idx, <<R(fresh)>>, R(fresh))
                  /\ NDo([op |-> what, h |-> h, idx |-> idx, d |-> d, delta |-> delta])
             /\ fresh' = fresh + 1 /\ UNCHANGED nn
GNAdd == NMore /\ \E h \in NHandles, k \in 1..2 :
           Len(nets[h].p) + k <= NMaxPoints + 2 /\ NAdd(h, k) /\ NDo([op |-> "add", h |-> h, k |-> k]) /\ UNCHANGED <<nn, fresh>>
GNRemove == NMore /\ \E h \in NHandles, k \in 1..2 :
           Len(nets[h].p) - k >= NProd(nets[h].n) /\ NRemove(h, k) /\ NDo([op |-> "rem", h |-> h, k |-> k]) /\ UNCHANGED <<nn, fresh>>
(* a direction becomes longer or shorter; the list must hold the box *)
GNLength == NMore /\ \E h \in NHandles : \E d \in 1..NDim : \E m \in 1..(NMaxLen + 1) :
              /\ m # nets[h].n[d] /\ NProd([nets[h].n EXCEPT ![d] = m]) <= Len(nets[h].p)
              /\ NLength(h, d, m)
              /\ NDo([op |-> "len", h |-> h, d |-> d, m |-> m, by |-> m - nets[h].n[d]]) /\ UNCHANGED <<nn, fresh>>
(* one more layer in a direction: points added, length increased *)
GNGrow == NMore /\ \E h \in NHandles : \E d \in 1..NDim : \E k \in {NProd([nets[h].n EXCEPT ![d] = 1])} :
            /\ nets[h].n[d] <= NMaxLen /\ Len(nets[h].p) + k <= NMaxPoints + 4
            /\ NPut(h, [nets[h] EXCEPT !.n[d] = @ + 1, !.p = @ \o [i \in 1..k |-> ZeroPoint(nets[h])],
                                       !.w = IF nets[h].rat THEN @ \o [i \in 1..k |-> R(0)] ELSE @])
            /\ NDo([op |-> "grow", h |-> h, d |-> d, k |-> k]) /\ UNCHANGED <<nn, fresh>>
GNDone == /\ Len(nhist) = NSteps
          /\ PrintT(ToJson(nhist))
          /\ nhist' = Append(nhist, [op |-> "done"])
          /\ UNCHANGED <<nets, nn, fresh>>
GNNext == GNNew \/ GNCopy \/ GNSet \/ GNAdd \/ GNRemove \/ GNLength \/ GNGrow \/ GNDone
GNSpec == GNInit /\ [][GNNext]_ng
AllFit == \A h \in NHandles : Fits(nets[h])
Ordered == \A h \in NHandles : OrderLaw(nets[h])
Parts == \A h \in NHandles : PartsLaw(nets[h])
=============================================================================
