------------------------------- MODULE IGAGen -------------------------------
(* Histories of the isogeometric analysis part over the shape of one geometry only (directions, degrees, elements): which
   questions are asked, how systems are assembled and solved, and in which order. Numbers are filled in afterwards. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS GDims, GMaxDeg, GMaxEl, GMaxSize, GOps, GSteps, GRules
VARIABLES sh,     \* [dim, deg, el, mult]: degrees, elements and interior multiplicities per direction; dim = 0 before there is a geometry
          sy,     \* system -> the parts it has been given
          pr,     \* problems
          gh
gvars == <<sh, sy, pr, gh>>
On(op) == op \in GOps /\ Len(gh) < GSteps /\ sh.dim > 0
Do(r) == gh' = Append(gh, r)
AnyOf(X) == RandomElement(IF Len(gh) >= 0 THEN X ELSE {})
Prod(q) == LET f[i \in 0..Len(q)] == IF i = 0 THEN 1 ELSE f[i - 1] * q[i] IN f[Len(q)]
Size(s) == Prod([d \in 1..s.dim |-> s.deg[d] + 1 + (s.el[d] - 1) * s.mult[d]])
Work(s) == Prod(s.el) * Prod([d \in 1..s.dim |-> (s.deg[d] + 1) * (s.deg[d] + 1)])
GInit == sh = [dim |-> 0, deg |-> <<>>, el |-> <<>>, mult |-> <<>>] /\ sy = <<>> /\ pr = {} /\ gh = <<>>
GNew == /\ sh.dim = 0
        /\ \E k \in GDims : \E p \in [1..k -> 1..GMaxDeg] : \E e \in [1..k -> 1..GMaxEl] :
             \E s \in {[dim |-> k, deg |-> p, el |-> e, mult |-> [d \in 1..k |-> AnyOf(1..(IF p[d] > 1 THEN 2 ELSE 1))]]} :
               /\ Size(s) <= GMaxSize /\ Work(s) <= 16 * GMaxSize
               /\ sh' = s /\ Do([op |-> "new", s |-> s]) /\ UNCHANGED <<sy, pr>>
Ask(op) == On(op) /\ \E n \in GRules : Do([op |-> op, rule |-> n]) /\ UNCHANGED <<sh, sy, pr>>
GAsk == \E op \in {"rule", "elements", "element", "locate", "map", "bafs", "ders", "phys", "boundary", "vtk", "solution"} :
          /\ (op = "boundary" => sh.dim > 1)
          /\ Ask(op)
GRefine == On("refine") /\ sy = <<>> /\ pr = {} /\ \E d \in 1..sh.dim :
             \E s \in {[sh EXCEPT !.el[d] = @ + 1]} : Size(s) <= GMaxSize + 4 /\ sh' = s /\ Do([op |-> "refine", d |-> d]) /\ UNCHANGED <<sy, pr>>
Name(k) == "y" \o ToString(k)
GSystem == On("system") /\ Cardinality(DOMAIN sy) < 3 /\ \E y \in {Name(Cardinality(DOMAIN sy) + 1)} :
             sy' = (y :> {}) @@ sy /\ Do([op |-> "system", y |-> y]) /\ UNCHANGED <<sh, pr>>
(* parts may be added again and in any order; boundary values may be set at any time *)
GPart == \E op \in {"left", "right", "neumann", "zerobc", "dirichlet"} : On(op) /\ \E y \in DOMAIN sy, n \in GRules :
            /\ (op = "neumann" => sh.dim > 1)
            /\ (op \in {"zerobc", "dirichlet"} => "left" \in sy[y])
            /\ sy' = [sy EXCEPT ![y] = @ \cup {IF op \in {"zerobc", "dirichlet"} THEN "fixed" ELSE op}]
            /\ Do([op |-> op, y |-> y, rule |-> n]) /\ UNCHANGED <<sh, pr>>
GBdf == On("bdf") /\ Cardinality(DOMAIN sy) < 4 /\ \E y \in DOMAIN sy, n \in GRules : \E t \in {Name(Cardinality(DOMAIN sy) + 1)} :
            sy' = (t :> (sy[y] \ {"fixed"})) @@ sy /\ Do([op |-> "bdf", y |-> y, t |-> t, rule |-> n]) /\ UNCHANGED <<sh, pr>>
(* regular once the boundary is fixed after the left side was assembled last *)
LastOn(y, X) == LET I == {i \in DOMAIN gh : gh[i].op \in X /\ (gh[i].op # "bdf" /\ gh[i].y = y)} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
GSolve == On("solve") /\ \E y \in DOMAIN sy :
            /\ {"left", "fixed"} \subseteq sy[y] /\ LastOn(y, {"left"}) < LastOn(y, {"zerobc", "dirichlet"})
            /\ Do([op |-> "solve", y |-> y]) /\ UNCHANGED <<sh, sy, pr>>
GProblem == On("problem") /\ Cardinality(pr) < 2 /\ \E n \in GRules : \E p \in {"p" \o ToString(Cardinality(pr) + 1)} :
              pr' = pr \cup {p} /\ Do([op |-> "problem", p |-> p, rule |-> n]) /\ UNCHANGED <<sh, sy>>
GSolution == \E op \in {"steady", "unsteady"} : On(op) /\ \E p \in pr : Do([op |-> op, p |-> p]) /\ UNCHANGED <<sh, sy, pr>>
GStop == Len(gh) = GSteps /\ PrintT(ToJson(gh)) /\ gh' = Append(gh, [op |-> "end"]) /\ UNCHANGED <<sh, sy, pr>>
GNext == GNew \/ GAsk \/ GRefine \/ GSystem \/ GPart \/ GBdf \/ GSolve \/ GProblem \/ GSolution \/ GStop
GSpec == GInit /\ [][GNext]_gvars
Sound == sh.dim > 0 => Len(sh.deg) = sh.dim /\ Len(sh.el) = sh.dim /\ Size(sh) <= GMaxSize + 4
=============================================================================
