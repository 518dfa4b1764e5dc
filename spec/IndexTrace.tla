----------------------------- MODULE IndexTrace -----------------------------
(* Validation of recorded executions of util::MultiIndexHandler against IndexSys *)
EXTENDS IndexSys, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
tvars == <<mis, sc, l>>
Ev == Trace[sc].ev[l]
Is(op) == Ev.op = op
M == mis[Ev.h]
(* everything the code shows of every handle fits the expected store *)
Shows(r, m) == /\ r.len = m.len /\ r.cur = m.cur /\ r.at = m.cur
               /\ r.one = Flat(m.len, m.cur)
               /\ r.total = Total(m.len)
               /\ r.dif = Complement(m)
               /\ \A d \in 1..Len(m.len) : r.ex[d] = Extracted(m, d)
Agrees(after) == /\ {Ev.all[i].h : i \in DOMAIN Ev.all} = DOMAIN after
                 /\ \A i \in DOMAIN Ev.all : Shows(Ev.all[i].s, after[Ev.all[i].h])
XNew == Is("new") /\ \E i \in DOMAIN Ev.all : Ev.all[i].h = Ev.h /\ INew(Ev.h, Ev.all[i].s.len)
XInc == Is("inc") /\ IStep(Ev.h, 1) /\ Ev.self
XPost == Is("post") /\ IStep(Ev.h, 1) /\ Ev.ret = M.cur
XDec == Is("dec") /\ IStep(Ev.h, -1) /\ Ev.self
XPlus == Is("plus") /\ IStep(Ev.h, Ev.n) /\ Ev.ret = Moved(M, Ev.n)
XMinus == Is("minus") /\ IStep(Ev.h, -Ev.n) /\ Ev.ret = Moved(M, -Ev.n)
XSet == Is("set") /\ ISet(Ev.h, Ev.to)
XSet1 == Is("set1") /\ ISet(Ev.h, Unflat(M.len, Ev.n))
XCopy == Is("copy") /\ ICopy(Ev.h, Ev.g)
XOne == Is("one") /\ UNCHANGED mis /\ Ev.ret = Flat(M.len, Ev.of)
XOneIn == Is("onein") /\ UNCHANGED mis /\ Ev.ret = Flat(Ev.in, Ev.of)
Step == XNew \/ XInc \/ XPost \/ XDec \/ XPlus \/ XMinus \/ XSet \/ XSet1 \/ XCopy \/ XOne \/ XOneIn
TraceInit == mis = <<>> /\ sc \in 1..Len(Trace) /\ l = 1 /\ TLCSet(sc, 1)
TraceNext == /\ l <= Len(Trace[sc].ev)
             /\ ~ Is("Died")
             /\ Ev.res = "ok"
             /\ Step
             /\ \E a \in {mis'} : Agrees(a)
             /\ l' = l + 1
             /\ UNCHANGED sc
             /\ TLCSet(sc, l')
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == LET bad == {i \in 1..Len(Trace) : TLCGet(i) <= Len(Trace[i].ev)}
                 IN /\ PrintT(<<"SCENARIOS", Len(Trace)>>)
                    /\ \A i \in bad : PrintT(<<"REJECTED", Trace[i].id, TLCGet(i)>>)
                    /\ bad = {}
=============================================================================
