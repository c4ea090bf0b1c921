-------------------------------- MODULE Text --------------------------------
(* String helpers: TLC treats strings as sequences of characters for Len,    *)
(* SubSeq and \o.  Wildcard matching as users of the shell know it.          *)
EXTENDS Naturals, Sequences, FiniteSets

Ch(s, i) == SubSeq(s, i, i)
Rest(s) == SubSeq(s, 2, Len(s))
EndsWith(s, x) == /\ Len(s) >= Len(x)
                  /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
StartsWith(s, x) == /\ Len(s) >= Len(x)
                    /\ SubSeq(s, 1, Len(x)) = x

\* position just after the "]" closing the set that opens at index i of p (0: unclosed)
RECURSIVE CloseAt(_, _)
CloseAt(p, i) == IF i > Len(p) THEN 0 ELSE IF Ch(p, i) = "]" THEN i + 1 ELSE CloseAt(p, i + 1)

\* glob(p, s): * any run, ? one character, [abc] one of, [!abc] none of
RECURSIVE Glob(_, _)
Glob(p, s) ==
  IF p = "" THEN s = ""
  ELSE IF Ch(p, 1) = "*" THEN Glob(Rest(p), s) \/ (s # "" /\ Glob(p, Rest(s)))
  ELSE IF s = "" THEN FALSE
  ELSE IF Ch(p, 1) = "?" THEN Glob(Rest(p), Rest(s))
  ELSE IF Ch(p, 1) = "[" /\ CloseAt(p, 3) # 0
       THEN LET e == CloseAt(p, 3)
                neg == Ch(p, 2) = "!"
                from == IF neg THEN 3 ELSE 2
                in == \E i \in from .. e - 2 : Ch(p, i) = Ch(s, 1)
            IN  in # neg /\ Glob(SubSeq(p, e, Len(p)), Rest(s))
  ELSE Ch(p, 1) = Ch(s, 1) /\ Glob(Rest(p), Rest(s))

RECURSIVE DigitStr(_)
DigitStr(n) == IF n < 10 THEN Ch("0123456789", n + 1)
               ELSE DigitStr(n \div 10) \o Ch("0123456789", (n % 10) + 1)

\* the elements of a set of strings, in the order of the (sorted) universe
Sorted(S, universe) == SelectSeq(universe, LAMBDA x : x \in S)
SeqToSet(q) == {q[i] : i \in DOMAIN q}
=============================================================================
