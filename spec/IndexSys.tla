------------------------------ MODULE IndexSys ------------------------------
(* Multi-indices: handles to a position in a box of given lengths; the first direction runs fastest. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE mis                                  \* handle -> [len, cur], indices from 0
IHandles == DOMAIN mis
ProdLen(n, d) == LET f[i \in 0..d] == IF i = 0 THEN 1 ELSE n[i] * f[i - 1] IN f[d]
Total(n) == ProdLen(n, Len(n))
Flat(n, c) == LET f[i \in 0..Len(n)] == IF i = 0 THEN 0 ELSE f[i - 1] + ProdLen(n, i - 1) * c[i] IN f[Len(n)]
Unflat(n, k) == [d \in 1..Len(n) |-> (k \div ProdLen(n, d - 1)) % n[d]]
Box(n) == {Unflat(n, k) : k \in 0..(Total(n) - 1)}
InBox(n, c) == \A d \in 1..Len(n) : 0 <= c[d] /\ c[d] < n[d]
Moved(m, k) == Unflat(m.len, (Flat(m.len, m.cur) + k) % Total(m.len))        \* k steps, around the ends
Without(s, d) == SubSeq(s, 1, d - 1) \o SubSeq(s, d + 1, Len(s))
Extracted(m, d) == Flat(Without(m.len, d), Without(m.cur, d))
Complement(m) == [d \in 1..Len(m.len) |-> m.len[d] - m.cur[d] - 1]
ISet(h, c) == mis' = [mis EXCEPT ![h].cur = c]
INew(h, n) == mis' = (h :> [len |-> n, cur |-> [d \in 1..Len(n) |-> 0]]) @@ mis
ICopy(h, g) == mis' = (g :> mis[h]) @@ mis
IStep(h, k) == ISet(h, Moved(mis[h], k))

(* laws *)
InsideBox == \A h \in IHandles : InBox(mis[h].len, mis[h].cur)
Bijective == \A h \in IHandles : /\ Unflat(mis[h].len, Flat(mis[h].len, mis[h].cur)) = mis[h].cur
                                 /\ Flat(mis[h].len, mis[h].cur) \in 0..(Total(mis[h].len) - 1)
                                 /\ Moved([mis[h] EXCEPT !.cur = Moved(mis[h], 1)], -1) = mis[h].cur
ComplementLaw == \A h \in IHandles : Flat(mis[h].len, mis[h].cur) + Flat(mis[h].len, Complement(mis[h])) = Total(mis[h].len) - 1
(* the pairs (extracted index, index in direction d) are in bijection with the box *)
ExtractLaw == \A h \in IHandles : \A d \in 1..Len(mis[h].len) :
                Extracted(mis[h], d) \in 0..((Total(mis[h].len) \div mis[h].len[d]) - 1)
=============================================================================
