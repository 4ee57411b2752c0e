------------------------------ MODULE DeclMaps ------------------------------
(***************************************************************************)
(* Declaration maps (C21): plain maps, chained maps and composite maps     *)
(* which share each other.  A topology is a sequence of maps; map k is     *)
(* plain, chained to an earlier map, or composed of earlier maps.  Every   *)
(* history of operations up to MaxOps is explored; the finds of every name *)
(* in every map after every operation are part of the behaviour.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, NTopo, Mode, Count, Seed   \* Mode "all": every history; "rnd": Count long histories on many maps

P == <<"plain">>
Ch(k) == <<"chain", k>>
Co(s) == <<"comp", s>>
Topologies == << <<P, P, Ch(1), Co(<<2, 3>>)>>,
                 <<P, P, Co(<<1, 2>>), Ch(3)>>,
                 <<P, Ch(1), Ch(2), Co(<<3, 1>>)>>,
                 <<P, P, P, Co(<<2, 1, 3>>)>>,
                 <<P, P, Co(<<2, 1>>), Co(<<3, 1>>)>>,
                 <<P, P, Ch(2), Co(<<3, 1, 2>>)>> >>
NameSeq == IF Mode = "all" THEN <<"a", "b">> ELSE <<"a", "b", "c", "d", "e", "f">>
Names == {NameSeq[k] : k \in 1..Len(NameSeq)}
NameLists == {<<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>, <<"a", "a">>}

\* pseudo-random topologies: eight maps, chains of chains and composites of composites among them
R(k) == ((k % 1000003) * 2011 + 12345) % 1000003
H(i, j) == R(R(R(Seed * 7919 + i * 17) + j * 101)) \div 11
RMap(i, k) == LET h == H(i, k) IN
              IF k = 1 \/ h % 4 = 0 THEN P
              ELSE IF h % 4 = 1 THEN Ch(((h \div 4) % (k - 1)) + 1)
              ELSE IF h % 4 = 2 THEN Ch(k - 1)
              ELSE Co([j \in 1..(1 + ((h \div 4) % 3)) |-> (H(i, 50 + k * 4 + j) % (k - 1)) + 1])
RTopo(i) == [k \in 1..8 |-> RMap(i, k)]

VARIABLES topo, store, hist, run
vars == <<topo, store, hist, run>>
\* store[k][n]: 0 nothing, d > 0 the d-th declaration made, -1 unspecified (the other
\* names of a failed store of several names)
Fun(k) == topo[k]

RECURSIVE Cell(_)   \* the plain storage which operations on map k go into
Cell(k) == IF Fun(k)[1] = "comp" THEN Cell(Fun(k)[2][1]) ELSE k

RECURSIVE Find(_, _, _)
Find(st, k, n) ==
  IF Fun(k)[1] = "plain" THEN st[k][n]
  ELSE IF Fun(k)[1] = "chain" THEN (IF st[k][n] # 0 THEN st[k][n] ELSE Find(st, Fun(k)[2], n))
  ELSE LET parts == Fun(k)[2]
           hits == {j \in 1..Len(parts) : Find(st, parts[j], n) # 0}
       IN IF hits = {} THEN 0 ELSE Find(st, parts[CHOOSE j \in hits : \A i \in hits : j <= i], n)

Finds(st) == [k \in 1..Len(topo) |-> [n \in Names |-> Find(st, k, n)]]
Decl(h, j) == 10 * (Len(h) + 1) + j    \* identity of the j-th declaration of the next operation

\* storing the names of one declaration node, in order, with the checking operation
RECURSIVE Store(_, _, _, _)
Store(m, ns, j, id) ==
  IF j > Len(ns) THEN [m |-> m, r |-> "ok"]
  ELSE IF m[ns[j]] = 0 THEN Store([m EXCEPT ![ns[j]] = id + j], ns, j + 1, id)
  ELSE IF m[ns[j]] = -1 THEN [m |-> [n \in Names |-> IF \E i \in 1..Len(ns) : ns[i] = n THEN -1 ELSE m[n]], r |-> "?"]
  ELSE [m |-> m, r |-> "dup"]

DoSet(k, ns) ==
  LET c == Cell(k)
      s == Store(store[c], ns, 1, 10 * (Len(hist) + 1))
      before == store[c]
      cell == IF s.r # "dup" \/ Len(ns) = 1 THEN s.m
              ELSE \* unspecified which of the other names are stored
                   [n \in Names |-> IF before[n] = 0 /\ \E i \in 1..Len(ns) : ns[i] = n THEN -1 ELSE before[n]]
      st == [store EXCEPT ![c] = cell]
  IN /\ store' = st
     /\ hist' = Append(hist, [op |-> "set", m |-> k, n |-> ns, r |-> s.r, f |-> Finds(st)])
DoOver(k, n) ==
  LET st == [store EXCEPT ![Cell(k)][n] = 10 * (Len(hist) + 1)]
  IN /\ store' = st
     /\ hist' = Append(hist, [op |-> "over", m |-> k, n |-> <<n>>, r |-> "ok", f |-> Finds(st)])

Init == /\ \/ Mode = "all" /\ topo \in {Topologies[t] : t \in 1..NTopo} /\ run = 0
           \/ Mode = "rnd" /\ run \in 1..Count /\ topo = RTopo(run)
        /\ store = [k \in 1..Len(topo) |-> [n \in Names |-> 0]]
        /\ hist = <<>>
\* the choices of the next operation of a pseudo-random history
G(j) == H(run, 1000 + Len(hist) * 10 + j)
RName(j) == NameSeq[(G(j) % Len(NameSeq)) + 1]
Next == /\ Len(hist) < MaxOps
        /\ UNCHANGED <<topo, run>>
        /\ IF Mode = "rnd"
           THEN LET k == (G(1) % Len(topo)) + 1 IN
                IF G(2) % 3 = 0 THEN DoOver(k, RName(3)) ELSE DoSet(k, IF G(2) % 3 = 1 THEN <<RName(3)>> ELSE [j \in 1..(1 + (G(4) % 3)) |-> RName(4 + j)])
           ELSE \E k \in 1..Len(topo) : (\E ns \in NameLists : DoSet(k, ns)) \/ (\E n \in Names : DoOver(k, n))
DMSpec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Last == hist[Len(hist)]
Prev == IF Len(hist) = 1 THEN [k \in 1..Len(topo) |-> [n \in Names |-> 0]] ELSE hist[Len(hist) - 1].f
\* what is stored is found through the map it was stored into
Found == hist = <<>> \/ Last.op = "set" \/ Last.f[Last.m][Last.n[1]] = 10 * Len(hist)
Stored == hist = <<>> \/ Last.op = "over" \/ Last.r # "ok" \/ \A j \in 1..Len(Last.n) : Last.f[Last.m][Last.n[j]] = 10 * Len(hist) + j
\* a refused single declaration changes nothing anywhere
Refused == hist = <<>> \/ Last.r # "dup" \/ Len(Last.n) > 1 \/ Last.f = Prev
\* a declaration never becomes unfindable
Kept == hist = <<>> \/ \A k \in 1..Len(topo) : \A n \in Names : Prev[k][n] # 0 => Last.f[k][n] # 0
Emit == Len(hist) = MaxOps => PrintT(ToJson([t |-> topo, h |-> hist]))
=============================================================================
