------------------------------ MODULE IORules ------------------------------
(* Selection rules of the converters: which splines of a file are written, with which scattering. Positions count from 0. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Formats  == {"xml", "irit", "iges", "vtk"}
Readable == {"xml", "irit", "iges"}
MaxDim(fmt) == CASE fmt = "xml" -> 4 [] fmt = "irit" -> 3 [] fmt = "iges" -> 2 [] fmt = "vtk" -> 3
Elems(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Where(_, _, _)               \* the positions (from 0) of the entries of dims that are at most m, in order
Where(dims, m, i) == IF i > Len(dims) THEN <<>>
                     ELSE (IF dims[i] <= m THEN <<i - 1>> ELSE <<>>) \o Where(dims, m, i + 1)
Possible(dims, m) == Where(dims, m, 1)
Requested(pos, possible) == SelectSeq(pos, LAMBDA p : p \in Elems(possible))
Rejected(pos, possible)  == SelectSeq(pos, LAMBDA p : p \notin Elems(possible))
(* IOConverter: no positions means all *)
ConverterWrites(pos, possible) == IF pos = <<>> THEN possible ELSE Requested(pos, possible)
(* with positions there is one scattering per position, otherwise one per spline of the input file *)
RECURSIVE IndicesIn(_, _, _)
IndicesIn(pos, S, i) == IF i > Len(pos) THEN <<>> ELSE (IF pos[i] \in S THEN <<i - 1>> ELSE <<>>) \o IndicesIn(pos, S, i + 1)
ScatterIndices(all, pos, written) == IF all THEN written ELSE IndicesIn(pos, Elems(written), 1)
Pickable(s, idx) == \A i \in DOMAIN idx : idx[i] >= 0 /\ idx[i] < Len(s)
Pick(s, idx) == [i \in DOMAIN idx |-> s[idx[i] + 1]]
ScatterFits(scat, dims) == /\ Len(scat) = Len(dims)
                           /\ \A i \in DOMAIN dims : Len(scat[i]) = dims[i]
=============================================================================
