----------------------------- MODULE NumberForms -----------------------------
(* The texts a number may have in a document, and what they denote (C33).    *)
(* Sorts of places:                                                          *)
(*   whole   whole numbers: decimal, hexadecimal, binary, octal (0...)       *)
(*   signed  whole numbers that may be negative                              *)
(*   real    decimals with or without fraction and exponent, INF, -INF, NaN  *)
(*   any     numerical values: decimals as above, hexadecimal, binary        *)
EXTENDS Numbers

Sorts == {"whole", "signed", "real", "any"}
IsOct(s) == Len(s) > 1 /\ Ch(s, 1) = "0" /\ All(s, 2, Len(s), "01234567")
NatText(s) == Whole(s) /\ s # "0"
IsWhole(s) == s = "0" \/ IsHex(s) \/ IsBin(s) \/ IsOct(s) \/ NatText(s) \/ (Ch(s, 1) = "+" /\ NatText(Unsigned(s)))
Fits1(sort, s) == s # "" /\
  CASE sort = "whole" -> IsWhole(s)
    [] sort = "signed" -> IsWhole(s) \/ (Ch(s, 1) = "-" /\ NatText(Unsigned(s)))
    [] sort = "real" -> s \in Special \/ IsDec(s)
    [] OTHER -> s \in Special \/ IsDec(s) \/ IsHex(s) \/ IsBin(s)
Means(sort, s) == IF sort \in {"whole", "signed"} /\ IsOct(s) THEN Num(FALSE, FromBase(SubSeq(s, 2, Len(s)), 8, <<>>), 0) ELSE Denote(s)
(* texts of exact numbers; the others are read with the precision of a float *)
Exact(sort, s) == sort \in {"whole", "signed"} \/ (sort = "any" /\ (IsHex(s) \/ IsBin(s) \/ IntForm(s)))
Notation(s) == IF IsHex(s) THEN "HEXADECIMAL" ELSE IF IsBin(s) THEN "BINARY" ELSE ""

-----------------------------------------------------------------------------
(* the texts to try *)
Signs1 == {"", "+", "-"}
Nats == {"1", "7", "8", "10", "26", "99", "255", "4096", "65535", "2147483648", "4294967295", "18446744073709551615"}
Hexs == {p \o d : p \in {"0x", "0X"}, d \in {"0", "7", "a", "F", "1A", "1a", "fF", "00ff", "10", "DEADbeef", "FFFFFFFFFFFFFFFF", "e1", "0E5"}}
Bins == {p \o d : p \in {"0b", "0B"}, d \in {"0", "1", "10", "00101", "11111111", "1000000000000000000000000000000000000000000000000000000000000001"}}
Octs == {"0" \o d : d \in {"0", "1", "7", "10", "17", "032", "777", "1234567", "0000", "1777777777777777777777"}}
Wholes == {"0"} \cup Nats \cup {"+" \o n : n \in Nats} \cup Hexs \cup Bins \cup Octs
Negatives == {"-" \o n : n \in Nats}
Fracs == {"", ".0", ".5", ".125", ".000001", ".10"}
Exps1 == {"", "e0", "E3", "e+3", "E-7", "e-10", "E+20", "e01"}
Reals == {s \o n \o f \o e : s \in Signs1, n \in {"0", "1", "26", "123456789"}, f \in Fracs, e \in Exps1} \cup Special
TextsOf(sort) == {s \in Wholes \cup Negatives \cup Reals : Fits1(sort, s) /\ ~(sort = "any" /\ IsOct(s))}
(* no numbers at all, at any place, and at places of whole numbers *)
NoNumber == {"", "abc", "0x", "0xG", "0b2", "1e", "1e+", "--1", "+-2", "1.2.3", "26 7", "2,5", "1/2", "e5", "0x1.5", "-", "1 e3"}
Faulty(sort) == NoNumber \cup (IF sort \in {"whole", "signed"} THEN {"1.5", "26.0", "2.6e1", "INF", "NaN", "08", "019"} ELSE {})
ASSUME \A sort \in Sorts : \A s \in Faulty(sort) : ~Fits1(sort, s)
ASSUME Means("whole", "032") = Denote("26") /\ Means("any", "0X1a") = Denote("26") /\ Means("real", "2.60e1") = Denote("26")

-----------------------------------------------------------------------------
(* sort, text: what the document says; near: shortest decimal form of the float nearest to it; back: the number read ("" when *)
(* the element was left out), bfmt: its notation; keeps: whether the place keeps notations; fault: the text is no number     *)
Verdict1(rec) ==
  IF rec.fault = "1" THEN (IF rec.back = "" THEN "ok" ELSE "read though it is no number")
  ELSE IF rec.back = "" THEN "not read"
  ELSE IF Exact(rec.sort, rec.text) /\ Denote(rec.back) # Means(rec.sort, rec.text) THEN "another number"
  ELSE IF ~Exact(rec.sort, rec.text) /\ Denote(rec.back) # Denote(rec.near) THEN "another number"
  ELSE IF rec.keeps = "1" /\ Notation(rec.text) # rec.bfmt THEN "another notation"
  ELSE "ok"
=============================================================================
