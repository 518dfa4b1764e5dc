------------------------------- MODULE IOGen -------------------------------
(* Histories of reading, writing and converting, over splines of which only kind and number of directions are known.
   The module is model checked (laws below) and its histories are replayed on the code. *)
EXTENDS IOSys, Json
CONSTANTS GSteps, GOps, GMaxLen, GDims, GKinds, GIn, GOut, GPos
GDimOf(s) == s.dim
GRepresents(fmt, e, s) == e = s
GReadOf(fmt, e) == e
GShowsAll(v, ss, scat) == v = ss
GSameSpline(s, t) == s = t
VARIABLES gh, gn
gvars == <<iovars, gh, gn>>
Do(r) == gh' = Append(gh, r)
More == Len(gh) < GSteps
On(op) == op \in GOps /\ More
Thing == [dim : GDims, kind : GKinds]
AnyOf(S) == RandomElement(IF gn > 0 THEN S ELSE {})        \* a new choice in every state
ThingsUpTo(fmt, m) == IF m > 4 THEN {TLCEval([i \in 1..AnyOf(0..m) |-> AnyOf({t \in Thing : t.dim <= MaxDim(fmt)})]),
                                     TLCEval([i \in 1..m |-> AnyOf({t \in Thing : t.dim <= MaxDim(fmt)})])}
                      ELSE UNION {[1..k -> {t \in Thing : t.dim <= MaxDim(fmt)}] : k \in 0..m}
PosSet == CASE GPos = "none" -> {<<>>}
            [] GPos = "small" -> {<<>>} \cup [1..1 -> 0..2] \cup [1..2 -> 0..2]
            [] GPos = "many" -> IF gn = 0 THEN {} ELSE {<<>>} \cup {TLCEval([i \in 1..n |-> AnyOf(0..(GMaxLen + 1))]) : n \in 1..5}
                                \cup {TLCEval([i \in 1..GMaxLen |-> AnyOf(0..(GMaxLen - 1))])}
            [] GPos = "big" -> {<<>>} \cup [1..1 -> 0..4] \cup [1..2 -> 0..3] \cup [1..3 -> 0..2] \cup {<<3, 2, 1, 0>>, <<0, 1, 2, 3, 4>>}
Ext(fmt) == CASE fmt = "irit" -> ".itd" [] fmt = "none" -> ".txt" [] OTHER -> "." \o fmt
Path(k, fmt) == "f" \o ToString(k) \o Ext(fmt)
LName(k) == "L" \o ToString(k)
FileOf(fmt, ss) == IF fmt = "vtk" THEN [fmt |-> "vtk", shown |-> ss] ELSE [fmt |-> fmt, ents |-> ss]
(* scatterings: right, one missing, one of the wrong size *)
Right(dims, a) == [i \in DOMAIN dims |-> [d \in 1..dims[i] |-> 1 + ((i + d + a) % 3)]]
Fine(dims) == [i \in DOMAIN dims |-> [d \in 1..dims[i] |-> IF dims[i] = 3 THEN <<2, 5, 3>>[1 + ((i + d) % 3)] ELSE 4 + ((5 * i + 3 * d) % 10)]]
Scats(dims) == {Right(dims, 0), Right(dims, 1), Fine(dims)}
               \cup (IF dims = <<>> THEN {<<<<1>>>>} ELSE {SubSeq(Right(dims, 0), 1, Len(dims) - 1)})
               \cup (IF dims = <<>> THEN {} ELSE {[Right(dims, 0) EXCEPT ![Len(dims)] = Append(@, 2)]})
DimAt(dims, p) == IF p + 1 \in DOMAIN dims THEN dims[p + 1] ELSE 1
ScatsFor(dims, pos) == IF pos = <<>> THEN Scats(dims) ELSE Scats([i \in DOMAIN pos |-> DimAt(dims, pos[i])])
Paths(fmts) == {p \in DOMAIN disk : disk[p].fmt \in fmts}

GInit == IOInit /\ gh = <<>> /\ gn = 1
GAdd == On("add") /\ \E k \in 1..2, t \in Thing :
          Len(List(LName(k))) < GMaxLen /\ Add(LName(k), t) /\ Do([op |-> "add", L |-> LName(k), dim |-> t.dim, kind |-> t.kind]) /\ UNCHANGED gn
GEmpty == On("empty") /\ \E k \in 1..2 : Empty(LName(k)) /\ Do([op |-> "empty", L |-> LName(k)]) /\ UNCHANGED gn
GAppend == On("append") /\ \E k \in 1..2, M \in DOMAIN mem : \E i \in DOMAIN mem[M] :
             /\ Len(List(LName(k))) < GMaxLen /\ Add(LName(k), mem[M][i])
             /\ Do([op |-> "append", L |-> LName(k), M |-> M, i |-> i]) /\ UNCHANGED gn
GWrite == On("write") /\ \E L \in DOMAIN mem, fmt \in GOut \cap Formats :
            \E scat \in (IF fmt = "vtk" THEN Scats(Dims(mem[L])) ELSE {<<>>}) :
            /\ \/ Write(fmt, L, Path(gn, fmt), scat, FileOf(fmt, mem[L]))
               \/ WriteRefused(fmt, L, Path(gn, fmt), scat)
            /\ Do([op |-> "write", fmt |-> fmt, L |-> L, p |-> Path(gn, fmt), scat |-> scat])
            /\ gn' = gn + 1
GRewrite == On("rewrite") /\ \E L \in DOMAIN mem : \E p \in Paths(Readable) :         \* over an existing file
            /\ Write(disk[p].fmt, L, p, <<>>, FileOf(disk[p].fmt, mem[L]))
            /\ Do([op |-> "write", fmt |-> disk[p].fmt, L |-> L, p |-> p, scat |-> <<>>]) /\ UNCHANGED gn
GRead == On("read") /\ \E p \in Paths(GIn \cap Readable), k \in 1..2 :
            /\ Read(disk[p].fmt, p, LName(k), disk[p].ents)
            /\ Do([op |-> "read", fmt |-> disk[p].fmt, p |-> p, L |-> LName(k)]) /\ UNCHANGED gn
GReadMissing == On("missing") /\ \E fmt \in GIn \cap Readable : ReadRefused("nothing") /\ Do([op |-> "read", fmt |-> fmt, p |-> "nothing", L |-> "L1"]) /\ UNCHANGED gn
GPlace == On("place") /\ gn <= 4 /\ \E fmt \in GIn \cap Readable : \E ss \in ThingsUpTo(fmt, GMaxLen) :
            /\ Place(Path(gn, fmt), FileOf(fmt, ss))
            /\ Do([op |-> "place", fmt |-> fmt, p |-> Path(gn, fmt), ents |-> ss]) /\ gn' = gn + 1
GPossible == On("possible") /\ \E L \in DOMAIN mem : \E m \in 0..4 : UNCHANGED iovars /\ Do([op |-> "possible", L |-> L, max |-> m]) /\ UNCHANGED gn
GTypes == On("types") /\ \E L \in DOMAIN mem : UNCHANGED iovars /\ Do([op |-> "types", L |-> L]) /\ UNCHANGED gn
CName == "c" \o ToString(gn)
GConv == On("conv") /\ Cardinality(DOMAIN convs) < 2 /\ \E in \in Paths(Readable) : \E ofmt \in GOut :
            /\ NewConverter(CName, in, disk[in].fmt, Path(gn, ofmt), ofmt)
            /\ Do([op |-> "conv", c |-> CName, in |-> in, out |-> Path(gn, ofmt)]) /\ gn' = gn + 1
GConvBad == On("badconv") /\ Cardinality(DOMAIN convs) < 2 /\ \E x \in {<<"f0.vtk", "vtk">>, <<"f0.txt", "none">>, <<"f0.xml", "xml">>, <<"f0.ges", "none">>, <<"f0ml", "none">>, <<"f0.xml.old", "none">>} :
            /\ NewConverter(CName, x[1], x[2], Path(gn, "xml"), "xml")
            /\ Do([op |-> "conv", c |-> CName, in |-> x[1], out |-> Path(gn, "xml")]) /\ gn' = gn + 1
GRun == On("run") /\ \E c \in DOMAIN convs : \E pos \in PosSet :
          LET x == convs[c]
              src == IF KnownAs(x.in, x.ifmt) /\ x.ifmt \in Readable THEN Contents(disk[x.in]) ELSE <<>>
          IN \E scat \in (IF x.ofmt = "vtk" THEN ScatsFor(Dims(src), pos) ELSE {<<>>}) :
               /\ IF MayRun(c, pos, scat) THEN \E w \in {RunWrites(c, pos)} : Run(c, pos, scat, w, FileOf(x.ofmt, Pick(src, w)))
                  ELSE RunRefused(c, pos, scat)
               /\ Do([op |-> "run", c |-> c, pos |-> pos, scat |-> scat]) /\ UNCHANGED gn
(* logs *)
LogPath == "log" \o ToString(gn)
GPlaceLog == On("placelog") /\ Cardinality(Paths({"log"})) < 2 /\ \E in \in Paths(Readable) : \E ofmt \in GOut \cap Formats :
            /\ ofmt # disk[in].fmt
            /\ \E pos \in PosSet, all \in BOOLEAN :
               /\ all => pos = <<>>
               /\ \E scat \in (IF ofmt = "vtk" THEN IF all THEN Scats(Dims(Contents(disk[in]))) ELSE ScatsFor(Dims(Contents(disk[in])), pos) \cup {<<>>} ELSE {<<>>}) :
                  LET lg == [fmt |-> "log", in |-> in, out |-> Path(gn, ofmt), all |-> all, pos |-> pos, scat |-> scat, done |-> <<>>]
                  IN Place(LogPath, lg) /\ Do([op |-> "log", p |-> LogPath, in |-> in, out |-> lg.out, all |-> all, pos |-> pos, scat |-> scat])
            /\ gn' = gn + 1
GOpenLog == On("openlog") /\ Cardinality(DOMAIN logs) < 2 /\ \E p \in Paths({"log"}) :
              OpenLog("g" \o ToString(gn), p) /\ Do([op |-> "openlog", g |-> "g" \o ToString(gn), p |-> p]) /\ gn' = gn + 1
GPositions == On("openlog") /\ \E g \in DOMAIN logs : \E possible \in {<<>>, <<0>>, <<0, 1>>, <<1, 2>>, <<0, 1, 2>>} :
              LogPositions(g, possible, LogChoice(logs[g].req, possible)) /\ Do([op |-> "positions", g |-> g, possible |-> possible]) /\ UNCHANGED gn
GScattering == On("openlog") /\ \E g \in DOMAIN logs : UNCHANGED iovars /\ Do([op |-> "scattering", g |-> g]) /\ UNCHANGED gn
GWriteLog == On("openlog") /\ \E g \in DOMAIN logs :
              /\ WriteLog(g, [disk[logs[g].path] EXCEPT !.done = Append(@, Report(logs[g].req, logs[g].written))])
              /\ Do([op |-> "writelog", g |-> g]) /\ UNCHANGED gn
FmtOfPath(p) == CHOOSE fmt \in Formats : \E k \in 1..(gn + 1) : p = Path(k, fmt)
GExec == On("exec") /\ \E p \in Paths({"log"}) :
           \E ifmt \in {disk[disk[p].in].fmt} \cap Readable, ofmt \in {FmtOfPath(disk[p].out)} :
             /\ IF MayConvert(ifmt, ofmt, p)
                THEN \E w \in {LogChoice(disk[p], Possible(Dims(Contents(disk[disk[p].in])), MaxDim(ofmt)))} :
                       Convert(ifmt, ofmt, p, FileOf(ofmt, Pick(Contents(disk[disk[p].in]), w)), [disk[p] EXCEPT !.done = Append(@, Report(disk[p], w))])
                ELSE ConvertRefused(ifmt, ofmt, p)
             /\ Do([op |-> "exec", exe |-> ifmt \o "_to_" \o ofmt, p |-> p, out |-> disk[p].out]) /\ UNCHANGED gn
GDone == /\ Len(gh) = GSteps
         /\ PrintT(ToJson(gh))
         /\ gh' = Append(gh, [op |-> "done"])
         /\ UNCHANGED <<iovars, gn>>
GNext == GAdd \/ GEmpty \/ GAppend \/ GWrite \/ GRewrite \/ GRead \/ GReadMissing \/ GPlace \/ GPossible \/ GTypes \/ GConv \/ GConvBad \/ GRun
         \/ GPlaceLog \/ GOpenLog \/ GPositions \/ GScattering \/ GWriteLog \/ GExec \/ GDone
GSpec == GInit /\ [][GNext]_gvars

(* laws *)
FormatsKept == \A p \in DOMAIN disk : disk[p].fmt \in Readable => \A i \in DOMAIN disk[p].ents : disk[p].ents[i].dim <= MaxDim(disk[p].fmt)
SelectionLaws ==
  \A c \in DOMAIN convs : KnownAs(convs[c].in, convs[c].ifmt) /\ convs[c].ofmt \in Formats =>
    \E src \in {Contents(disk[convs[c].in])} : \E poss \in {Possible(Dims(src), MaxDim(convs[c].ofmt))} :
      \A pos \in PosSet : \E w \in {ConverterWrites(pos, poss)} :
        /\ \A i \in DOMAIN w : src[w[i] + 1].dim <= MaxDim(convs[c].ofmt)              \* only what the format can hold
        /\ \A i \in DOMAIN src : (src[i].dim <= MaxDim(convs[c].ofmt) /\ (pos = <<>> \/ i - 1 \in Elems(pos))) => i - 1 \in Elems(w)
        /\ pos # <<>> => Elems(w) \subseteq Elems(pos)
        /\ Len(ScatterIndices(pos = <<>>, pos, w)) = Len(w)                           \* one scattering per written spline
        /\ pos = <<>> => \A i, j \in DOMAIN w : i < j => w[i] < w[j]
ReportsTrue == \A p \in Paths({"log"}) : \A i \in DOMAIN disk[p].done :
                 disk[p].all \/ Elems(disk[p].done[i].pos) \subseteq Elems(disk[p].pos)
=============================================================================
