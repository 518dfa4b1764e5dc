------------------------------ MODULE UtilGen ------------------------------
(* All texts up to a length over an alphabet; checks the laws of UtilSys on them and writes them out for the code. *)
EXTENDS UtilSys, Json
CONSTANTS Alphabet, MaxLen
VARIABLE txt
UGInit == txt = <<>> /\ points = <<>>
UGNext == /\ Len(txt) < MaxLen
          /\ \E c \in Alphabet : /\ txt' = Append(txt, c)
                                 /\ PrintT(ToJson(Append(txt, c)))
          /\ UNCHANGED points
UGSpec == UGInit /\ [][UGNext]_<<txt, points>>
TextLaws == /\ TrimIsIdempotent(txt)
            /\ \A d \in {",", ";", " ", "a"} : SplitIsClean(txt, d)
            /\ \A k \in 0..Len(txt) : AffixDual(txt, SubSeq(txt, 1, k)) /\ StartsWith(txt, SubSeq(txt, 1, k))
NumberLaws == SignSymmetric(txt) /\ PointShifts(txt)
=============================================================================
