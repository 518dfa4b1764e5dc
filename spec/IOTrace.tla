------------------------------ MODULE IOTrace ------------------------------
(* Validation of recorded executions of the readers, writers and converters against IOSys. The contents of the files are
   parsed independently of the code (lib/iofmt.py) and are part of the events (field "file"). *)
EXTENDS IOSys, IOSplines, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
tvars == <<iovars, sc, l>>
Ev == Trace[sc].ev[l]
Holds(P) == P = TRUE
Is(op) == Ev.op = op
Ok == Ev.res = "ok"
Threw == Ev.res = "throw"
F == Ev.file
Changed == {Ev.chg[i].L : i \in DOMAIN Ev.chg}
RSpline(r) == [kind |-> r.kind, dim |-> r.dim, deg |-> r.deg, knots |-> TLCEval([d \in DOMAIN r.knots |-> RSeq(r.knots[d])]), n |-> r.n,
               pts |-> TLCEval([k \in DOMAIN r.pts |-> RSeq(r.pts[k])]), w |-> RSeq(r.w)]
After(L) == LET c == CHOOSE c \in {Ev.chg[i] : i \in DOMAIN Ev.chg} : c.L = L IN TLCEval([i \in DOMAIN c.s |-> RSpline(c.s[i])])
Quiet == Changed = {}
Scat == IF "scat" \in DOMAIN Ev THEN Ev.scat ELSE <<>>
XAdd == /\ Is("add") /\ Ok /\ Changed = {Ev.L}
        /\ \E a \in {After(Ev.L)} : /\ Len(a) = Len(List(Ev.L)) + 1
                                    /\ \A i \in DOMAIN List(Ev.L) : a[i] = List(Ev.L)[i]
                                    /\ Add(Ev.L, a[Len(a)])
XEmpty == Is("empty") /\ Ok /\ Changed \subseteq {Ev.L} /\ Empty(Ev.L)
XAppend == Is("append") /\ Ok /\ Changed = {Ev.L} /\ Add(Ev.L, mem[Ev.M][Ev.i]) /\ \E a \in {After(Ev.L)} : a = Append(List(Ev.L), mem[Ev.M][Ev.i])
XFile == Is("file") /\ Ok /\ Quiet /\ Place(Ev.path, F)
XWrite == /\ Is("write") /\ Quiet
          /\ IF Holds(CanWrite(Ev.fmt, mem[Ev.L], Scat))
             THEN Ok /\ Ev.there /\ Holds(Holding(F, Ev.fmt, mem[Ev.L], Scat)) /\ Write(Ev.fmt, Ev.L, Ev.path, Scat, F)
             ELSE Threw /\ WriteRefused(Ev.fmt, Ev.L, Ev.path, Scat)
Listed(L) == IF L \in Changed THEN After(L) ELSE List(L)      \* an unchanged list was not recorded again
XRead == /\ Is("read")
         /\ IF KnownAs(Ev.path, Ev.fmt) THEN Ok /\ Changed \subseteq {Ev.L} /\ \E a \in {Listed(Ev.L)} : Read(Ev.fmt, Ev.path, Ev.L, a)
            ELSE Threw /\ Quiet /\ ReadRefused(Ev.path)
XConv == Is("conv") /\ Ok /\ Quiet /\ NewConverter(Ev.c, Ev.in, Ev.ifmt, Ev.out, Ev.ofmt)
XRun == /\ Is("run") /\ Quiet
        /\ IF Holds(MayRun(Ev.c, Ev.pos, Scat)) THEN Ok /\ Ev.there /\ Run(Ev.c, Ev.pos, Scat, Ev.ret, F)
           ELSE Threw /\ RunRefused(Ev.c, Ev.pos, Scat)
XPossible == Is("possible") /\ Ok /\ Quiet /\ Ev.ret = Possible(Dims(mem[Ev.L]), Ev.max) /\ UNCHANGED iovars
TypeAnswer(a, s) ==
  /\ a.dim = s.dim
  /\ \A d \in 1..4 :
       LET g == CASE d = 1 -> a.get1 [] d = 2 -> a.get2 [] d = 3 -> a.get3 [] d = 4 -> a.get4
           r == CASE d = 1 -> a.rational1 [] d = 2 -> a.rational2 [] d = 3 -> a.rational3 [] d = 4 -> a.rational4
       IN IF d = s.dim THEN g = "yes" /\ r = (IF s.kind = "n" THEN "yes" ELSE "no") ELSE g = "throw" /\ r = "throw"
XTypes == /\ Is("types") /\ Ok /\ Quiet /\ Len(Ev.ret) = Len(mem[Ev.L])
          /\ \A i \in DOMAIN Ev.ret : TypeAnswer(Ev.ret[i], mem[Ev.L][i])
          /\ UNCHANGED iovars
XOpenLog == /\ Is("openlog") /\ Quiet
            /\ IF KnownAs(Ev.path, "log") THEN /\ Ok /\ OpenLog(Ev.g, Ev.path)
                                               /\ Ev.in = disk[Ev.path].in /\ Ev.out = disk[Ev.path].out
               ELSE Threw /\ Ev.path \notin DOMAIN disk /\ UNCHANGED iovars
XPositions == Is("positions") /\ Ok /\ Quiet /\ LogPositions(Ev.g, Ev.possible, Ev.ret)
XScattering == /\ Is("scattering") /\ Quiet
               /\ IF Ok THEN LogScattering(Ev.g, Ev.ret) ELSE LogScatteringRefused(Ev.g)
XWriteLog == Is("writelog") /\ Ok /\ Quiet /\ Ev.appended /\ WriteLog(Ev.g, F)
XExec == /\ Is("exec") /\ Quiet
         /\ IF Holds(MayConvert(Ev.ifmt, Ev.ofmt, Ev.log))
            THEN Ok /\ Ev.there /\ Ev.path = disk[Ev.log].out /\ Ev.appended /\ Convert(Ev.ifmt, Ev.ofmt, Ev.log, F, Ev.logfile)
            ELSE Threw /\ ConvertRefused(Ev.ifmt, Ev.ofmt, Ev.log)
                 /\ (KnownAs(Ev.log, "log") => Ev.logfile = disk[Ev.log])          \* no report of what did not happen
(* a program that is not given exactly one log file does nothing; asked for help it says so *)
AsksForHelp(args) == args \in {<<"-h">>, <<"--help">>}
XCall == /\ Is("call") /\ Quiet /\ Ev.same
         /\ Len(Ev.args) = 1 => AsksForHelp(Ev.args) \/ Ev.args[1] \notin DOMAIN disk
         /\ IF AsksForHelp(Ev.args) THEN Ok ELSE Threw
         /\ UNCHANGED iovars
XAlien == Is("alien") /\ Ok /\ Quiet /\ (\A i \in DOMAIN Ev.answered : Ev.answered[i] = 0) /\ UNCHANGED iovars
Step == XCall \/ XAlien \/ XAdd \/ XEmpty \/ XAppend \/ XFile \/ XWrite \/ XRead \/ XConv \/ XRun \/ XPossible \/ XTypes \/ XOpenLog \/ XPositions
        \/ XScattering \/ XWriteLog \/ XExec
TraceInit == IOInit /\ sc \in 1..Len(Trace) /\ l = 1 /\ TLCSet(sc, 1)
TraceNext == /\ l <= Len(Trace[sc].ev)
             /\ ~ Is("Died")
             /\ Step
             /\ l' = l + 1
             /\ UNCHANGED sc
             /\ TLCSet(sc, l')
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == LET bad == {i \in 1..Len(Trace) : TLCGet(i) <= Len(Trace[i].ev)}
                 IN /\ PrintT(<<"SCENARIOS", Len(Trace)>>)
                    /\ \A i \in bad : PrintT(<<"REJECTED", Trace[i].id, TLCGet(i)>>)
                    /\ bad = {}
=============================================================================
