------------------------------ MODULE Numbers ------------------------------
(* Numbers as texts.  A number is written down as a literal - an integer or *)
(* the shortest decimal form of a float - and a text in ARXML denotes a     *)
(* number.  TLC's integers are too small for either, so a number is its     *)
(* sign, its significant decimal digits and a power of ten, all computed on *)
(* digit sequences.                                                         *)
EXTENDS Kit

Ch(s, i) == SubSeq(s, i, i)
IsIn(c, set) == \E i \in 1..Len(set) : Ch(set, i) = c
DecDigits == "0123456789"
HexDigits == "0123456789abcdef"
Lower(c) == CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d" [] c = "E" -> "e" [] c = "F" -> "f"
              [] c = "X" -> "x" [] OTHER -> c
All(s, lo, hi, set) == \A i \in lo..hi : IsIn(Lower(Ch(s, i)), set)
Digit(c) == (CHOOSE i \in 1..16 : Ch(HexDigits, i) = Lower(c)) - 1
Find(s, c) == IF \E i \in 1..Len(s) : Lower(Ch(s, i)) = c
              THEN CHOOSE i \in 1..Len(s) : Lower(Ch(s, i)) = c /\ \A j \in 1..(i-1) : Lower(Ch(s, j)) # c ELSE 0

-----------------------------------------------------------------------------
(* the texts AUTOSAR allows for a numerical value *)
Unsigned(s) == IF s # "" /\ Ch(s, 1) \in {"+", "-"} THEN SubSeq(s, 2, Len(s)) ELSE s
IsHex(s) == Len(s) > 2 /\ Ch(s, 1) = "0" /\ Lower(Ch(s, 2)) = "x" /\ All(s, 3, Len(s), HexDigits)
IsBin(s) == Len(s) > 2 /\ Ch(s, 1) = "0" /\ Lower(Ch(s, 2)) = "b" /\ All(s, 3, Len(s), "01")
Whole(s) == Len(s) > 0 /\ All(s, 1, Len(s), DecDigits) /\ (Len(s) > 1 => Ch(s, 1) # "0")
Digits1(s) == Len(s) > 0 /\ All(s, 1, Len(s), DecDigits)
Mantissa(s) == LET p == Find(s, ".") IN IF p = 0 THEN Whole(s)
                                        ELSE Whole(SubSeq(s, 1, p - 1)) /\ Digits1(SubSeq(s, p + 1, Len(s)))
IsDec(s) == LET u == Unsigned(s)
                e == Find(u, "e")
            IN IF e = 0 THEN Mantissa(u)
               ELSE Mantissa(SubSeq(u, 1, e - 1)) /\ Digits1(Unsigned(SubSeq(u, e + 1, Len(u))))
Special == {"INF", "-INF", "NaN"}
Valid(s) == s \in Special \/ IsHex(s) \/ IsBin(s) \/ IsDec(s)
Exponent(s) == ~IsHex(s) /\ Find(s, "e") # 0
IntForm(s) == ~IsHex(s) /\ ~IsBin(s) /\ s \notin Special /\ Find(s, ".") = 0 /\ Find(s, "e") = 0

-----------------------------------------------------------------------------
(* what a text denotes *)
RECURSIVE MulAdd(_, _, _)      \* digits (most significant first) * m + a
MulAdd(ds, m, a) == IF ds = <<>> THEN (IF a = 0 THEN <<>> ELSE IF a < 10 THEN <<a>> ELSE Append(MulAdd(<<>>, m, a \div 10), a % 10))
                    ELSE LET x == ds[Len(ds)] * m + a
                         IN Append(MulAdd(SubSeq(ds, 1, Len(ds) - 1), m, x \div 10), x % 10)
RECURSIVE FromBase(_, _, _)
FromBase(s, base, acc) == IF s = "" THEN acc ELSE FromBase(SubSeq(s, 2, Len(s)), base, MulAdd(acc, base, Digit(Ch(s, 1))))
RECURSIVE StripL(_)
StripL(ds) == IF ds # <<>> /\ ds[1] = 0 THEN StripL(Tail(ds)) ELSE ds
RECURSIVE ToNat(_, _)
ToNat(s, acc) == IF s = "" THEN acc ELSE ToNat(SubSeq(s, 2, Len(s)), acc * 10 + Digit(Ch(s, 1)))
ToInt(s) == IF Ch(s, 1) = "-" THEN 0 - ToNat(Unsigned(s), 0) ELSE ToNat(Unsigned(s), 0)
Seqd(s) == [i \in 1..Len(s) |-> Digit(Ch(s, i))]
RECURSIVE StripR(_, _)
StripR(ds, e) == IF ds = <<>> THEN [d |-> <<>>, e |-> 0]
                 ELSE IF ds[Len(ds)] = 0 THEN StripR(SubSeq(ds, 1, Len(ds) - 1), e + 1) ELSE [d |-> ds, e |-> e]
Num(neg, ds, e) == LET r == StripR(StripL(ds), e)
                   IN [s |-> IF r.d = <<>> THEN FALSE ELSE neg, d |-> r.d, e |-> r.e]
Decimal(neg, u) == LET ep == Find(u, "e")
                       m == IF ep = 0 THEN u ELSE SubSeq(u, 1, ep - 1)
                       x == IF ep = 0 THEN 0 ELSE ToInt(SubSeq(u, ep + 1, Len(u)))
                       p == Find(m, ".")
                       w == IF p = 0 THEN m ELSE SubSeq(m, 1, p - 1)
                       f == IF p = 0 THEN "" ELSE SubSeq(m, p + 1, Len(m))
                   IN Num(neg, Seqd(w \o f), x - Len(f))
Denote(s) ==
  IF s \in {"INF", "inf"} THEN [s |-> FALSE, d |-> <<99>>, e |-> 0]
  ELSE IF s \in {"-INF", "-inf"} THEN [s |-> TRUE, d |-> <<99>>, e |-> 0]
  ELSE IF s \in {"NaN", "nan"} THEN [s |-> FALSE, d |-> <<98>>, e |-> 0]
  ELSE IF IsHex(s) THEN Num(FALSE, FromBase(SubSeq(s, 3, Len(s)), 16, <<>>), 0)
  ELSE IF IsBin(s) THEN Num(FALSE, FromBase(SubSeq(s, 3, Len(s)), 2, <<>>), 0)
  ELSE Decimal(Ch(s, 1) = "-", Unsigned(s))

-----------------------------------------------------------------------------
(* notations: what the user asks for, and what it means for the text *)
Notations == {"DEFAULT", "DECIMAL", "HEXADECIMAL", "BINARY", "SCIENTIFIC"}
IsInteger(n) == n.e >= 0 /\ (n.d = <<>> \/ n.d[1] < 10)
Finite(n) == n.d = <<>> \/ n.d[1] < 10
(* hexadecimal and binary texts have no sign and no fraction *)
Fits(fmt, lit) == LET n == Denote(lit) IN
  CASE fmt \in {"HEXADECIMAL", "BINARY"} -> IntForm(lit) /\ IsInteger(n) /\ ~n.s
    [] fmt = "SCIENTIFIC" -> Finite(n)
    [] OTHER -> TRUE
HasNotation(fmt, text) == CASE fmt = "HEXADECIMAL" -> IsHex(text)
                            [] fmt = "BINARY" -> IsBin(text)
                            [] fmt = "SCIENTIFIC" -> Exponent(text)
                            [] OTHER -> ~IsHex(text) /\ ~IsBin(text)
ReadNotation(fmt, lit) == IF fmt \in {"HEXADECIMAL", "BINARY"} /\ Fits(fmt, lit) THEN fmt ELSE ""
(* rec: lit, fmt: what was stored; text: what was written; near: the shortest decimal form of the float nearest  *)
(* to text; back, bfmt: number and notation read back; same: the number read equals the one stored exactly        *)
Verdict(rec) ==
  IF ~Valid(rec.text) THEN "not a number text"
  ELSE IF ~(Denote(rec.text) = Denote(rec.lit) \/ (~IntForm(rec.text) /\ Denote(rec.near) = Denote(rec.lit)))
       THEN "text denotes another number"
  ELSE IF Fits(rec.fmt, rec.lit) /\ ~HasNotation(rec.fmt, rec.text) THEN "notation not used"
  ELSE IF ~(Denote(rec.back) = Denote(rec.lit) /\ rec.same = "1") /\ ~(rec.fmt = "SCIENTIFIC" /\ Denote(rec.back) = Denote(rec.near))
       THEN "another number read back"         \* scientific notation is read with the precision of a float
  ELSE IF ReadNotation(rec.fmt, rec.lit) # "" /\ rec.bfmt # rec.fmt THEN "notation lost"
  ELSE "ok"

ASSUME Denote("0x1F") = Denote("31") /\ Denote("0b101") = Denote("5.0") /\ Denote("1.50e+3") = Denote("1500")
ASSUME Denote("-0.0") = Denote("0") /\ Denote("0xFFFFFFFFFFFFFFFF") = Denote("18446744073709551615")
ASSUME Valid("-1.5E-7") /\ ~Valid("0x-5") /\ ~Valid("1.") /\ ~Valid("-0x5") /\ Valid("0") /\ ~Valid("Infinity") /\ ~Valid("True")

-----------------------------------------------------------------------------
(* the numbers to try *)
Naturals1 == <<"0", "1", "2", "7", "9", "10", "15", "16", "100", "255", "256", "4095", "65535", "1000000", "2147483647", "2147483648",
               "4294967295", "9007199254740992", "9007199254740993", "9223372036854775808", "18446744073709551615",
               "10000000000000000000000", "100000000000000000000001", "123456789012345678901234567890">>
Mants == <<"1", "1.5", "1.25", "9.007199254740993", "1.7976931348623157", "5", "2.2250738585072014", "1.2345678901234567", "3.3", "9.999">>
Exps == <<-323, -308, -300, -45, -20, -10, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 5, 8, 14, 15, 16, 17, 18, 21, 22, 23, 24, 27, 28, 29, 40, 100, 307>>
Ints == {s \o n : s \in {"", "-"}, n \in Elems(Naturals1)} \ {"-0"}
Floats == {s \o m \o "e" \o Str(x) : s \in {"", "-"}, m \in Elems(Mants), x \in Elems(Exps)} \cup {"0.0", "-0.0", "inf", "-inf", "nan"}
=============================================================================
