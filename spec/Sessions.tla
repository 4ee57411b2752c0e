------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* A process which parses programs again and again (C19).                  *)
(*                                                                         *)
(* Slots are directories with the files of one program each; the files of  *)
(* a slot can be replaced by those of another program while no parse reads *)
(* them.  A parse is started in a goroutine and ends some time later; any  *)
(* number of parses, also of the same slot, are under way at a time.  What *)
(* a parse gives is a function of the files it was started on and of       *)
(* nothing else: Result is the whole memory of the system.  Programs in    *)
(* Bad give a failure, the others a tree.  Trees are kept for ever.        *)
(*                                                                         *)
(* The replay compares every result with the one of a new process which    *)
(* does nothing but this parse, and all kept trees after every step with   *)
(* what they were when they were returned.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NSlots, NProgs, NBad, MaxOps, MaxRun, Mode, Count, Seed

Slots == 1..NSlots
Progs == 1..NProgs
Bad == (NProgs - NBad + 1)..NProgs
VARIABLES disk, under, kept, hist, who
vars == <<disk, under, kept, hist, who>>

Result(p) == IF p \in Bad THEN "failure" ELSE "tree"
R(k) == ((k % 1000003) * 2011 + 12345) % 1000003
Rnd(k, m) == (R(R(R(((who * 7919) + (Seed * 31) + (k * 104729)) % 1000003) + k)) \div 16) % m

Init == /\ disk = [s \in Slots |-> s] /\ under = <<>> /\ kept = <<>> /\ hist = <<>>
        /\ who \in IF Mode = "all" THEN {0} ELSE 1..Count

Op(o) == hist' = Append(hist, o)
Write(s, p) == /\ disk[s] # p /\ \A k \in 1..Len(under) : under[k].s # s
               /\ disk' = [disk EXCEPT ![s] = p]
               /\ Op(<<"w", s, p>>) /\ UNCHANGED <<under, kept, who>>
Start(s) == /\ Len(under) < MaxRun
            /\ under' = Append(under, [s |-> s, p |-> disk[s]])
            /\ Op(<<"s", s, disk[s]>>) /\ UNCHANGED <<disk, kept, who>>
\* the k-th of the parses under way ends
End(k) == /\ k \in 1..Len(under)
          /\ kept' = Append(kept, [p |-> under[k].p, r |-> Result(under[k].p)])
          /\ under' = SubSeq(under, 1, k - 1) \o SubSeq(under, k + 1, Len(under))
          /\ Op(<<"e", k, under[k].p>>) /\ UNCHANGED <<disk, who>>
More == Len(hist) < MaxOps
Finish == /\ ~More /\ under # <<>> /\ End(1)

Pick == LET k == Len(hist) c == Rnd(k * 3, 10) s == 1 + Rnd(k * 3 + 1, NSlots) p == 1 + Rnd(k * 3 + 2, NProgs) IN
        IF c < 3 /\ ENABLED Write(s, p) THEN Write(s, p)
        ELSE IF (c < 7 /\ Len(under) < MaxRun) \/ under = <<>> THEN Start(s)
        ELSE End(1 + Rnd(k * 3 + 2, Len(under)))
Next == \/ /\ More
           /\ IF Mode = "all" THEN \/ \E s \in Slots : Start(s) \/ \E p \in Progs : Write(s, p)
                                   \/ \E k \in 1..MaxRun : End(k)
              ELSE Pick
        \/ Finish
SSpec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* two parses of the same program give the same, whatever lies between them
Repeatable == \A i, j \in 1..Len(kept) : kept[i].p = kept[j].p => kept[i].r = kept[j].r
\* a parse gives what the files were when it was started
FromDisk == \A k \in 1..Len(under) : disk[under[k].s] = under[k].p
\* what is kept stays as it was
Stays == [][Len(kept') >= Len(kept) /\ SubSeq(kept', 1, Len(kept)) = kept]_vars
\* only histories which end with an end are printed, the others are beginnings of them
Emit == ~More /\ under = <<>> => PrintT(ToJson([id |-> who, h |-> hist]))
=============================================================================
