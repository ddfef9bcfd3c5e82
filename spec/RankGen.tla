------------------------------ MODULE RankGen ------------------------------
(***************************************************************************)
(* All sequences of operations on one list within small constants, as      *)
(* scripts for the driver, which runs each on the real code; RankTrace     *)
(* judges the outcome.  Elements are <<id, score, tie, updated>>, indices  *)
(* into tables of the driver (0, ..., largest), so that the extremes of    *)
(* the value range are in every sequence.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS IDs, Scores, Ties, Times, Steps,
          Batch,            \* largest batch of an update or insertion
          Starts,           \* number of starting points, see Start
          Maint             \* maintenance that can occur
VARIABLES st,   \* starting point
          h,    \* operations so far
          here  \* ids in the list
vars == <<st, h, here>>
All == {<<i, s, t, u>> : i \in IDs, s \in Scores, t \in Ties, u \in Times}
(* Initial contents, and split sizes that make several segments of them.   *)
Low == CHOOSE s \in Scores : \A x \in Scores : s <= x
High == CHOOSE s \in Scores : \A x \in Scores : s >= x
TopTie == CHOOSE t \in Ties : \A x \in Ties : t >= x
Start(n) == CASE n = 1 -> [mz |-> 1, sz |-> 2, els |-> <<>>]
              [] n = 2 -> [mz |-> 1, sz |-> 2, els |-> << <<1, High, TopTie, 1>>, <<2, Low, 0, 1>>, <<3, Low, TopTie, 1>>, <<4, High, 0, 1>> >>]
              [] n = 3 -> [mz |-> 1, sz |-> 2, els |-> << <<1, Low, 0, 1>>, <<2, Low, 0, 1>>, <<3, Low, 0, 1>>, <<4, Low, 0, 1>> >>]
              [] n = 4 -> [mz |-> 2, sz |-> 4, els |-> << <<1, High, TopTie, 1>>, <<2, Low, TopTie, 1>> >>]
              [] n = 5 -> [mz |-> 0, sz |-> 2, els |-> << <<1, High, TopTie, 1>>, <<2, High, 0, 1>>, <<3, High, TopTie, 1>> >>]
Batches(S) == UNION {{b \in [1..n -> S] : \A x, y \in 1..n : x < y => b[x][1] < b[y][1]} : n \in 1..Batch}
Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
BIds(b) == {b[i][1] : i \in 1..Len(b)}
Subsets == {S \in SUBSET IDs : Cardinality(S) \in 1..Batch}
RECURSIVE Seqn(_)
Seqn(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Seqn(S \ {x})
Init == \E n \in Starts : st = Start(n) /\ h = <<>> /\ here = {Start(n).els[i][1] : i \in 1..Len(Start(n).els)}
Do(a, els, ids) == h' = Append(h, [a |-> a, els |-> els, ids |-> ids]) /\ UNCHANGED st
Next == /\ Len(h) < Steps
        /\ \/ \E b \in Batches(All) : Do("upd", Rev(b), <<>>) /\ here' = here \cup BIds(b)
           \/ "ins" \in Maint /\ \E b \in Batches({e \in All : e[1] \notin here}) : Do("ins", b, <<>>) /\ here' = here \cup BIds(b)
           \/ \E S \in Subsets : Do("del", <<>>, Seqn(S)) /\ here' = here \ S
           \/ \E a \in Maint \ {"ins"} : Do(a, <<>>, <<>>) /\ UNCHANGED here
        /\ Len(h') = Steps => PrintT(ToJson([mz |-> st.mz, sz |-> st.sz, els |-> st.els, ops |-> h']))
Spec == Init /\ [][Next]_vars
=============================================================================
