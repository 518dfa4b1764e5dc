------------------------------- MODULE IOSys -------------------------------
(* Spline files: lists of splines in memory, files on disk, converters and their log files.
   A file is [fmt |-> format, ents |-> its entries, in order]; a VTK file is [fmt |-> "vtk", shown |-> its contents];
   a log file is [fmt |-> "log", in, out, all, pos, scat, done]; a file about which nothing is known has fmt "unknown".
   What an entry says about a spline depends on the level of description and is given by the constants. *)
EXTENDS IORules
CONSTANTS DimOf(_),             \* number of parametric directions of a spline
          Represents(_, _, _),  \* format, entry, spline: the entry stands for the spline, as precisely as the format allows
          ReadOf(_, _),         \* format, entry: the spline that reading the entry gives
          ShowsAll(_, _, _),    \* contents of a VTK file, splines, scatterings
          SameSpline(_, _)
VARIABLES mem, disk, convs, logs
iovars == <<mem, disk, convs, logs>>
IOInit == mem = <<>> /\ disk = <<>> /\ convs = <<>> /\ logs = <<>>
Dims(ss) == [i \in DOMAIN ss |-> DimOf(ss[i])]
Unknown == [fmt |-> "unknown"]
KnownAs(p, fmt) == p \in DOMAIN disk /\ disk[p].fmt = fmt
PutFile(p, f) == disk' = (p :> f) @@ disk
PutList(L, ss) == mem' = (L :> ss) @@ mem
List(L) == IF L \in DOMAIN mem THEN mem[L] ELSE <<>>

CanWrite(fmt, ss, scat) == /\ \A i \in DOMAIN ss : DimOf(ss[i]) <= MaxDim(fmt)
                           /\ fmt = "vtk" => ScatterFits(scat, Dims(ss))
(* f is a file with exactly these splines, in this order *)
Holding(f, fmt, ss, scat) ==
  /\ f.fmt = fmt
  /\ IF fmt = "vtk" THEN ShowsAll(f.shown, ss, scat)
     ELSE /\ Len(f.ents) = Len(ss)
          /\ \A i \in DOMAIN ss : Represents(fmt, f.ents[i], ss[i])
Contents(f) == [i \in DOMAIN f.ents |-> ReadOf(f.fmt, f.ents[i])]

Add(L, s)        == PutList(L, Append(List(L), s)) /\ UNCHANGED <<disk, convs, logs>>
Empty(L)         == PutList(L, <<>>) /\ UNCHANGED <<disk, convs, logs>>
Place(p, f)      == PutFile(p, f) /\ UNCHANGED <<mem, convs, logs>>             \* a file made by somebody else
Write(fmt, L, p, scat, f) ==
  /\ CanWrite(fmt, mem[L], scat)
  /\ Holding(f, fmt, mem[L], scat)
  /\ PutFile(p, f)
  /\ UNCHANGED <<mem, convs, logs>>
WriteRefused(fmt, L, p, scat) == /\ ~ CanWrite(fmt, mem[L], scat)
                                 /\ PutFile(p, Unknown)
                                 /\ UNCHANGED <<mem, convs, logs>>
Read(fmt, p, L, ss) ==          \* ss: what the code returned
  /\ KnownAs(p, fmt)
  /\ \E e \in {Contents(disk[p])} : /\ Len(ss) = Len(e)
                                    /\ \A i \in DOMAIN e : SameSpline(ss[i], e[i])
  /\ PutList(L, ss)
  /\ UNCHANGED <<disk, convs, logs>>
ReadRefused(p) == p \notin DOMAIN disk /\ UNCHANGED iovars

(* conversion of the file in to the file out, for the written positions *)
NewConverter(c, in, ifmt, out, ofmt) == /\ convs' = (c :> [in |-> in, ifmt |-> ifmt, out |-> out, ofmt |-> ofmt]) @@ convs
                                        /\ UNCHANGED <<mem, disk, logs>>
Source(in, ifmt) == Contents(disk[in])
PossibleIn(in, ifmt, ofmt) == Possible(Dims(Source(in, ifmt)), MaxDim(ofmt))
RunWrites(c, pos) == ConverterWrites(pos, PossibleIn(convs[c].in, convs[c].ifmt, convs[c].ofmt))
MayRun(c, pos, scat) ==
  LET x == convs[c]
  IN /\ x.ifmt \in Readable /\ x.ofmt \in Formats
     /\ KnownAs(x.in, x.ifmt)
     /\ x.ofmt = "vtk" =>
          \E src \in {Source(x.in, x.ifmt)}, w \in {RunWrites(c, pos)} : \E idx \in {ScatterIndices(pos = <<>>, pos, w)} :
             Pickable(scat, idx) /\ ScatterFits(Pick(scat, idx), Dims(Pick(src, w)))
Run(c, pos, scat, ret, f) ==
  LET x == convs[c]
  IN /\ MayRun(c, pos, scat)
     /\ \E src \in {Source(x.in, x.ifmt)}, w \in {RunWrites(c, pos)} :
          /\ ret = w
          /\ Holding(f, x.ofmt, Pick(src, w), IF x.ofmt = "vtk" THEN Pick(scat, ScatterIndices(pos = <<>>, pos, w)) ELSE <<>>)
     /\ PutFile(x.out, f)
     /\ UNCHANGED <<mem, convs, logs>>
RunRefused(c, pos, scat) == /\ ~ MayRun(c, pos, scat)
                            /\ PutFile(convs[c].out, Unknown)
                            /\ UNCHANGED <<mem, convs, logs>>

(* log files: in, out, all (every possible spline) or a list of positions, scatterings, and done: one entry per conversion *)
OpenLog(g, p) == /\ KnownAs(p, "log")
                 /\ logs' = (g :> [path |-> p, req |-> disk[p], written |-> <<>>]) @@ logs
                 /\ UNCHANGED <<mem, disk, convs>>
LogChoice(rq, possible) == IF rq.all THEN possible ELSE Requested(rq.pos, possible)
LogPositions(g, possible, ret) == /\ ret = LogChoice(logs[g].req, possible)
                                  /\ logs' = [logs EXCEPT ![g].written = ret]
                                  /\ UNCHANGED <<mem, disk, convs>>
LogIndices(g) == ScatterIndices(logs[g].req.all, logs[g].req.pos, logs[g].written)
LogScattering(g, ret) == /\ Pickable(logs[g].req.scat, LogIndices(g))
                         /\ ret = Pick(logs[g].req.scat, LogIndices(g))
                         /\ UNCHANGED iovars
LogScatteringRefused(g) == ~ Pickable(logs[g].req.scat, LogIndices(g)) /\ UNCHANGED iovars
Report(rq, written) == [pos |-> written, in |-> rq.in, out |-> rq.out]
SameRequest(a, b) == a.in = b.in /\ a.out = b.out /\ a.all = b.all /\ a.pos = b.pos /\ a.scat = b.scat
WriteLog(g, f) == /\ f.fmt = "log" /\ SameRequest(f, disk[logs[g].path])
                  /\ f.done = Append(disk[logs[g].path].done, Report(logs[g].req, logs[g].written))
                  /\ PutFile(logs[g].path, f)
                  /\ UNCHANGED <<mem, convs, logs>>

(* a converter program: reads the log file, converts, appends its report to the log file *)
MayConvert(ifmt, ofmt, p) ==
  /\ KnownAs(p, "log")
  /\ KnownAs(disk[p].in, ifmt)
  /\ ofmt = "vtk" =>
       \E src \in {Source(disk[p].in, ifmt)} : \E w \in {LogChoice(disk[p], Possible(Dims(src), 3))} :
         \E idx \in {ScatterIndices(disk[p].all, disk[p].pos, w)} :
            Pickable(disk[p].scat, idx) /\ ScatterFits(Pick(disk[p].scat, idx), Dims(Pick(src, w)))
Convert(ifmt, ofmt, p, f, lg) ==
  /\ MayConvert(ifmt, ofmt, p)
  /\ \E src \in {Source(disk[p].in, ifmt)} : \E w \in {LogChoice(disk[p], Possible(Dims(src), MaxDim(ofmt)))} :
       /\ Holding(f, ofmt, Pick(src, w), IF ofmt = "vtk" THEN Pick(disk[p].scat, ScatterIndices(disk[p].all, disk[p].pos, w)) ELSE <<>>)
       /\ lg.fmt = "log" /\ SameRequest(lg, disk[p])
       /\ lg.done = Append(disk[p].done, Report(disk[p], w))
  /\ disk' = (disk[p].out :> f) @@ (p :> lg) @@ disk
  /\ UNCHANGED <<mem, convs, logs>>
ConvertRefused(ifmt, ofmt, p) == /\ ~ MayConvert(ifmt, ofmt, p)
                                 /\ IF KnownAs(p, "log") THEN PutFile(disk[p].out, Unknown) ELSE UNCHANGED disk
                                 /\ UNCHANGED <<mem, convs, logs>>
=============================================================================
