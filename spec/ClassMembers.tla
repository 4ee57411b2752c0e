---------------------------- MODULE ClassMembers ----------------------------
(***************************************************************************)
(* Members of classes along an inheritance chain (C11).  Classes are       *)
(* declared one after another, each the child of the previous one; each    *)
(* may declare the member `a` (as field, method or property, in a section  *)
(* of some visibility) and the property `p` with some of its parts.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Mode, Count, Seed       \* Mode: "members" | "props" | "both" | "rnd": Count long chains

Visib == {"default", "private", "protected", "public", "published"}
Absent == [k |-> "none", v |-> "default"]
MemberChoices == {Absent} \cup [k : {"field", "method", "prop"}, v : Visib]
Parts == {"T", "I", "R", "W"}        \* type, index, read, write decide inheritance
Extra == {"S", "D"}                  \* stored, default are taken over as well
NoProp == <<FALSE, {}>>
R(k) == ((k % 1000003) * 2011 + 12345) % 1000003
RECURSIVE Sum(_)
Code(x) == CASE x = "T" -> 1 [] x = "I" -> 2 [] x = "R" -> 4 [] x = "W" -> 8 [] OTHER -> 0
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Code(x) + Sum(S \ {x})

VARIABLES cls,    \* sequence of [a |-> member, p |-> <<present, parts>>]
          run     \* rnd: number of the chain
vars == <<cls, run>>
Salt == IF cls = <<>> THEN Seed ELSE LET c == cls[Len(cls)] IN Seed + Sum(c.p[2]) * 17 + Len(cls) * 101
Extras(S, s) == S \cup (IF (R(s * 31 + Sum(S)) \div 8) % 3 = 0 THEN {"S"} ELSE {}) \cup (IF (R(s * 37 + Sum(S)) \div 8) % 3 = 0 THEN {"D"} ELSE {})
PropChoices == {NoProp} \cup {<<TRUE, Extras(S, Salt)>> : S \in SUBSET Parts}

Declare(a, p) == cls' = Append(cls, [a |-> a, p |-> p])
\* the class whose member `a` is found from class j; 0: none
Visible(j, own) == cls[j].a.k # "none" /\ (own \/ cls[j].a.v # "private")
RECURSIVE Look(_, _)
Look(j, own) == IF j = 0 THEN 0 ELSE IF Visible(j, own) THEN j ELSE Look(j - 1, FALSE)

\* pseudo-random choices of class Len(cls) + 1: members are rare so that lookups go far
H(j) == R(R(R(Seed * 7919 + run * 13) + Len(cls) * 101 + j * 7)) \div 11
VisSeq == <<"default", "private", "private", "protected", "public", "published">>
RMember == IF H(1) % 3 # 0 THEN Absent ELSE [k |-> <<"field", "method", "prop">>[(H(2) % 3) + 1], v |-> VisSeq[(H(3) % 6) + 1]]
Refused == IF RMember.k # "none" \/ Look(Len(cls), FALSE) # 0 \/ H(5) % 40 = 0 THEN {} ELSE {"R", "W"}
RProp == IF H(4) % 3 = 0 THEN NoProp ELSE <<TRUE, {x \in (Parts \cup Extra) \ Refused : H(10 + Code(x) + (IF x = "S" THEN 16 ELSE IF x = "D" THEN 32 ELSE 0)) % 4 = 0}>>

Init == cls = <<>> /\ run \in (IF Mode = "rnd" THEN 1..Count ELSE {0})
Next == /\ Len(cls) < K /\ UNCHANGED run
        /\ \/ Mode = "rnd" /\ Declare(RMember, RProp)
           \/ Mode = "members" /\ \E a \in MemberChoices : Declare(a, NoProp)
           \/ Mode = "props" /\ \E p \in PropChoices : Declare([k |-> "field", v |-> "default"], p)
           \/ Mode = "both" /\ \E a \in {Absent, [k |-> "field", v |-> "private"], [k |-> "method", v |-> "public"]} :
                              \E p \in {NoProp, <<TRUE, {}>>, <<TRUE, {"T", "R"}>>, <<TRUE, {"W"}>>} : Declare(a, p)
CSpec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* property p: the class of the nearest declaration before j, whether p of j inherits from it, and the computed parts
RECURSIVE Nearest(_)
Nearest(j) == IF j = 0 THEN 0 ELSE IF cls[j].p[1] THEN j ELSE Nearest(j - 1)
RECURSIVE Inherits(_)
RECURSIVE Computed(_, _)     \* class which gives part x to the computed property p of class j; 0: none
Inherits(j) == Nearest(j - 1) # 0 /\ \E x \in Parts : Computed(Nearest(j - 1), x) # 0 /\ x \notin cls[j].p[2]
Computed(j, x) == IF x \in cls[j].p[2] THEN j
                  ELSE IF Inherits(j) THEN Computed(Nearest(j - 1), x) ELSE 0
Parent(j) == IF cls[j].p[1] /\ Inherits(j) THEN Nearest(j - 1) ELSE 0
\* READ and WRITE name the member a
Accepted(j) == ~(cls[j].p[1] /\ cls[j].p[2] \cap {"R", "W"} # {}) \/ Look(j, TRUE) # 0

NearestFirst == \A j \in 1..Len(cls) : LET f == Look(j, TRUE) IN f # 0 => \A m \in (f+1)..j : ~Visible(m, m = j)
PrivateHidden == \A j \in 1..Len(cls) : LET f == Look(j, TRUE) IN f # 0 /\ f < j => cls[f].a.v # "private"
PartsComplete == \A j \in 1..Len(cls) : cls[j].p[1] => \A x \in Parts : Computed(j, x) # 0 => \A m \in (Computed(j, x) + 1)..j : cls[m].p[1] => x \notin cls[m].p[2]
NoParentNoLoss == \A j \in 1..Len(cls) : cls[j].p[1] /\ Parent(j) = 0 => \A x \in Parts \cup Extra : Computed(j, x) \in {0, j}
Emit == Len(cls) = K => PrintT(ToJson([c |-> [j \in 1..K |->
           [a |-> cls[j].a, p |-> cls[j].p[1], s |-> cls[j].p[2], l |-> Look(j, TRUE), m |-> Look(j, FALSE), ok |-> Accepted(j), par |-> Parent(j),
            cmp |-> [x \in Parts \cup Extra |-> IF cls[j].p[1] THEN Computed(j, x) ELSE 0]]]]))
=============================================================================
