------------------------------ MODULE IndexGen ------------------------------
EXTENDS IndexSys, Json
CONSTANTS ISteps, IMaxLen, IDims
VARIABLES ih
ig == <<mis, ih>>
IDo(r) == ih' = Append(ih, r)
IMore == Len(ih) < ISteps
GINew == /\ ih = <<>>
         /\ \E d \in IDims : \E n \in [1..d -> 1..IMaxLen] : INew("a", n) /\ IDo([op |-> "new", h |-> "a", len |-> n])
GIStep == IMore /\ \E h \in IHandles : \E o \in {"inc", "post", "dec"} : IStep(h, IF o = "dec" THEN -1 ELSE 1) /\ IDo([op |-> o, h |-> h])
GIJump == IMore /\ \E h \in IHandles : \E o \in {"plus", "minus"} : \E k \in {0, 2, Total(mis[h].len) + 1} :
            IStep(h, IF o = "plus" THEN k ELSE -k) /\ IDo([op |-> o, h |-> h, n |-> k])
GISet == IMore /\ \E h \in IHandles : \E k \in 0..(Total(mis[h].len) - 1) : \E o \in {"set", "set1"} :
            ISet(h, Unflat(mis[h].len, k)) /\ IDo([op |-> o, h |-> h, n |-> k, to |-> Unflat(mis[h].len, k)])
GICopy == IMore /\ "b" \notin IHandles /\ \E h \in IHandles : ICopy(h, "b") /\ IDo([op |-> "copy", h |-> h, g |-> "b"])
GIDone == Len(ih) = ISteps /\ PrintT(ToJson(ih)) /\ ih' = Append(ih, [op |-> "done"]) /\ UNCHANGED mis
GISpec == (mis = <<>> /\ ih = <<>>) /\ [][GINew \/ GIStep \/ GIJump \/ GISet \/ GICopy \/ GIDone]_ig
=============================================================================
