------------------------------ MODULE Ancestry ------------------------------
(***************************************************************************)
(* Which class a class inherits from, whatever the order of declaration    *)
(* (C11), and lookups which end even if classes inherit from each other in *)
(* a circle (C05).  N type names are declared in one section in the order  *)
(* 1..N, some classes also forward at its head; each is a class without    *)
(* parent, a class whose parent is any of the names (also a later one,     *)
(* also itself), or another name of any of them.  Each class declares its  *)
(* own field `f` \o number; some declare `m` too, visible or private.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, WithM, Mode, Count, Seed     \* Mode: "all" | "rnd": Count big graphs

VARIABLES def,   \* sequence of [k |-> "root" | "class" | "alias", to |-> name, m |-> "no" | "yes" | "private"]
          fw,    \* the names of classes which are declared forward at the head of the section
          run
vars == <<def, fw, run>>
Names == 1..N
Ms == IF WithM THEN {"no", "yes", "private"} ELSE {"no"}
Choices == [k : {"root"}, to : {0}, m : Ms] \cup [k : {"class"}, to : Names, m : Ms] \cup [k : {"alias"}, to : Names, m : {"no"}]

R(k) == ((k % 1000003) * 2011 + 12345) % 1000003
H(j) == R(R(R(Seed * 7919 + run * 13) + Len(def) * 101 + j * 7)) \div 11
\* mostly links to neighbours: long chains which end in a root, a short circle or a circle of all
RTo == CASE H(1) % 8 = 0 -> (H(2) % N) + 1
         [] run % 2 = 0 -> IF Len(def) = 0 THEN IF H(4) % 2 = 0 THEN 1 ELSE N ELSE Len(def)
         [] OTHER -> IF Len(def) + 2 > N THEN IF H(4) % 2 = 0 THEN N ELSE 1 ELSE Len(def) + 2
RChoice == LET root == H(3) % 12 = 0 \/ (Len(def) = (IF run % 2 = 0 THEN 0 ELSE N - 1) /\ H(5) % 2 = 0)
               k == IF root THEN "root" ELSE IF H(6) % 4 = 0 THEN "alias" ELSE "class"
           IN [k |-> k, to |-> IF root THEN 0 ELSE RTo, m |-> IF k = "alias" THEN "no" ELSE <<"no", "no", "yes", "private">>[(H(7) % 4) + 1]]

FwSets == IF N <= 3 THEN SUBSET Names ELSE {{}, Names, {N}, {1, 2}}
Init == /\ def = <<>> /\ run \in (IF Mode = "rnd" THEN 1..Count ELSE {0})
        /\ fw \in (IF Mode = "rnd" THEN {{j \in Names : H(20 + j) % 4 < run % 3}} ELSE FwSets)
Next == /\ Len(def) < N /\ UNCHANGED <<fw, run>>
        /\ IF Mode = "rnd" THEN def' = Append(def, RChoice) ELSE \E c \in Choices : def' = Append(def, c)
ASpec == Init /\ [][Next]_vars
Done == Len(def) = N
-----------------------------------------------------------------------------
\* the class which name j stands for; 0: none (a circle of aliases)
RECURSIVE Class(_, _)
Class(j, seen) == IF j \in seen THEN 0 ELSE IF def[j].k = "alias" THEN Class(def[j].to, seen \cup {j}) ELSE j
\* the classes j, its parent, its parent's parent, ..., no class twice
RECURSIVE Line(_, _)
Line(j, seen) == IF j = 0 \/ j \in seen THEN <<>>
                 ELSE <<j>> \o (IF def[j].k = "class" THEN Line(Class(def[j].to, {}), seen \cup {j}) ELSE <<>>)
Ancestors(j) == Line(Class(j, {}), {})
\* all of the line is declared, step by step, before it is used: only then the text is a valid program
\* (a class declared forward may be renamed before it is declared in full, but not be a parent)
RECURSIVE Ends(_)
Ends(j) == \/ def[j].k = "root"
           \/ /\ def[j].to < j \/ (def[def[j].to].k # "alias" /\ def[j].to \in fw)
              /\ def[j].k = "class" => Class(def[j].to, {}) \in 1..(j - 1)
              /\ Ends(def[j].to)
First(l, P(_)) == LET S == {i \in 1..Len(l) : P(i)} IN IF S = {} THEN 0 ELSE l[CHOOSE i \in S : \A k \in S : i <= k]
\* the class whose m is found from name j, by the class itself (own) or by others
Look(j, own) == LET l == Ancestors(j)
                    P(i) == def[l[i]].m = "yes" \/ (own /\ i = 1 /\ def[l[i]].m = "private")
                IN First(l, P)

\* a line has no class twice, ends in a root or meets itself again, and what is found from a parent is found from the child
NoRepeat == Done => \A j \in Names : Cardinality({Ancestors(j)[i] : i \in 1..Len(Ancestors(j))}) = Len(Ancestors(j))
Inherited == Done => \A j \in Names : def[j].k = "class" /\ Ends(j) /\ def[j].m = "no" => Look(j, TRUE) = Look(def[j].to, FALSE)
SameAsTarget == Done => \A j \in Names : def[j].k = "alias" => Ancestors(j) = Ancestors(def[j].to) \/ ~Ends(j)
Emit == Done => PrintT(ToJson([d |-> def, fw |-> {j \in fw : def[j].k # "alias"}, l |-> [j \in Names |-> Ancestors(j)], e |-> [j \in Names |-> Ends(j)],
                               own |-> [j \in Names |-> Look(j, TRUE)], other |-> [j \in Names |-> Look(j, FALSE)]]))
=============================================================================
