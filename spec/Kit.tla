-------------------------------- MODULE Kit --------------------------------
(* Small shared vocabulary: string building, sequence helpers and the test  *)
(* emission used by every exhaustive configuration.                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

Str(n) == ToString(n)

RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN ""
                ELSE IF Len(s) = 1 THEN s[1]
                ELSE s[1] \o sep \o Join(Tail(s), sep)

Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]

Keep(s, P(_)) == SelectSeq(s, P)

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

Elems(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(Elems(s)) = Len(s)

(* index of the first item satisfying P, 0 if there is none *)
First(s, P(_)) == IF \E i \in 1..Len(s) : P(s[i])
                  THEN CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in 1..(i-1) : ~P(s[j])
                  ELSE 0

Bool(b) == IF b THEN "1" ELSE "0"

Contains(s, p) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

(* all sequences over S of length lo..hi *)
SeqsOf(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}

(* one line of JSON on TLC's output, picked up by the replay harness *)
Emit(rec) == PrintT("@@" \o ToJson(rec))
=============================================================================
