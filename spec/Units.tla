-------------------------------- MODULE Units --------------------------------
(***************************************************************************)
(* Loading of units (C15).  The program lists the units in some order;     *)
(* unit N+1 exists in uses clauses only (no file is given for it).         *)
(* Headings are read in the order of the listing, then interface bodies in *)
(* any order in which every used unit with a file comes first, then        *)
(* implementations in any order.  If some interface body can never be read *)
(* the load fails.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Mode, Count, Seed     \* Mode: "all" | "graphs" | "rnd" | "big" (as rnd, one order of reading only)

U == 1..N
Ext == N + 1
VARIABLES listing, iu, mu, heads, intf, impl, seen, outcome
vars == <<listing, iu, mu, heads, intf, impl, seen, outcome>>

Perms == {p \in [U -> U] : \A a, b \in U : p[a] = p[b] => a = b}
Others(u) == U \ {u}
AllUses == {f \in [U -> SUBSET U] : \A u \in U : u \notin f[u]}

\* a pseudo random sequence
R(k) == ((k % 1000003) * 2011 + 12345) % 1000003
Bit(s, k) == (R(R(R(s + k * 7919) + k)) \div 64) % 2
Digit(s, k, m) == (R(R(R(s + k * 104729) + k)) \div 16) % m
RndUses(s, dens) == [u \in U |-> {v \in Others(u) : Digit(s, u * N + v, 100) < dens}]
\* edges from later to earlier units of a random order: never a cycle
RndDag(s, dens) == LET rank == [u \in U |-> Digit(s, 500 + u, 1000) * N + u]
                   IN [u \in U |-> {v \in Others(u) : rank[v] < rank[u] /\ Digit(s, u * N + v, 100) < dens}]
WithExt(f, s) == [u \in U |-> IF Bit(s, 900 + u) = 1 /\ Bit(s, 950 + u) = 1 THEN f[u] \cup {Ext} ELSE f[u]]
SelfUse(f, s) == IF Digit(s, 77, 12) = 0 THEN [f EXCEPT ![1] = @ \cup {1}] ELSE f
RndPerm(s) == LET key == [u \in U |-> Digit(s, 700 + u, 5000) * N + u]
              IN [k \in U |-> CHOOSE u \in U : Cardinality({v \in U : key[v] < key[u]}) = k - 1]

RECURSIVE Bits(_)
Bits(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN 2^x + Bits(S \ {x})
RECURSIVE Code(_, _)
Code(f, u) == IF u > N THEN Seed ELSE (Bits(f[u]) * 131 + Code(f, u + 1) * 37) % 999983

Init == /\ \/ /\ Mode = "all" /\ listing \in Perms /\ iu \in AllUses /\ mu \in AllUses
           \/ /\ Mode = "graphs" /\ iu \in AllUses
              /\ LET s == Code(iu, 1) IN mu = WithExt(RndUses(s, 40), s) /\ listing = RndPerm(s)
           \/ /\ Mode \in {"rnd", "big"}
              /\ \E k \in 1..Count : LET s == R(k * 31 + ((Seed * 7) % 1000)) + k IN
                   /\ iu = SelfUse(WithExt(IF Digit(s, 1, 4) = 0 THEN RndUses(s, IF Mode = "big" THEN 6 ELSE 15) ELSE RndDag(s, IF Mode = "big" THEN 5 + Digit(s, 2, 30) ELSE 20 + Digit(s, 2, 60)), s), s)
                   /\ mu = WithExt(RndUses(s + 5, IF Mode = "big" THEN 10 ELSE 30), s + 9)
                   /\ listing = RndPerm(s)
        /\ heads = 0 /\ intf = <<>> /\ impl = {} /\ outcome = "none"
        /\ seen = [u \in U |-> {}]        \* the interfaces which were complete when u's interface was read

Ran(s) == {s[k] : k \in 1..Len(s)}
ReadHead == /\ heads < N /\ heads' = heads + 1 /\ UNCHANGED <<listing, iu, mu, intf, impl, seen, outcome>>
Ready(u) == u \notin Ran(intf) /\ \A v \in iu[u] \cap U : v \in Ran(intf)
ReadIntf(u) == /\ heads = N /\ outcome = "none" /\ Ready(u)
               /\ Mode = "big" => \A v \in U : Ready(v) => u <= v
               /\ intf' = Append(intf, u) /\ seen' = [seen EXCEPT ![u] = Ran(intf)]
               /\ UNCHANGED <<listing, iu, mu, heads, impl, outcome>>
Stuck == /\ heads = N /\ outcome = "none" /\ Len(intf) < N /\ \A u \in U : ~Ready(u)
         /\ outcome' = "cycle" /\ UNCHANGED <<listing, iu, mu, heads, intf, impl, seen>>
ReadImpl(u) == /\ Len(intf) = N /\ u \notin impl
               /\ u = CHOOSE v \in U \ impl : \A w \in U \ impl : v <= w   \* the order makes no difference
               /\ impl' = impl \cup {u}
               /\ outcome' = IF impl' = U THEN "ok" ELSE outcome
               /\ UNCHANGED <<listing, iu, mu, heads, intf, seen>>
Next == ReadHead \/ Stuck \/ \E u \in U : ReadIntf(u) \/ ReadImpl(u)
USpec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
RECURSIVE Reach(_, _)
Reach(S, k) == IF k = 0 THEN S ELSE Reach(S \cup UNION {iu[u] \cap U : u \in S}, k - 1)
Cyclic == \E u \in U : u \in Reach(iu[u] \cap U, N)
\* whatever order is taken, the outcome is an error exactly if there is a cycle ...
Confluent == outcome # "none" => (outcome = "cycle") = Cyclic
\* ... and every unit sees the complete interface of the units it uses
Complete == \A u \in Ran(intf) : iu[u] \cap U \subseteq seen[u]
ImplComplete == impl # {} => Ran(intf) = U
Progress == ENABLED Next \/ outcome # "none"
Emit == outcome # "none" => PrintT(ToJson([l |-> listing, i |-> iu, m |-> mu, r |-> outcome, n |-> N]))
=============================================================================
