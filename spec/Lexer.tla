-------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* How an input line is cut into tokens, given the set of operator names   *)
(* (keywords) currently known.                                             *)
(*                                                                         *)
(* Declaratively: the tokens partition the text, and each token is         *)
(*   - a maximal run of letters (operator names are not searched in it), or*)
(*   - the longest keyword starting at a position where no letter stands,  *)
(*   - else a maximal run of digits none of which begins a keyword, or     *)
(*   - else one single character.                                          *)
(***************************************************************************)
EXTENDS Text

RECURSIVE RunEnd(_, _, _)
RunEnd(s, i, set) == IF i <= Len(s) /\ Ch(s, i) \in set THEN RunEnd(s, i + 1, set) ELSE i - 1

\* length of the longest keyword that begins at position i, 0 if there is none
LongestKeyword(kws, s, i) ==
  LET hits == {Len(k) : k \in {k \in kws : k # "" /\ i + Len(k) - 1 <= Len(s)
                                            /\ SubSeq(s, i, i + Len(k) - 1) = k}}
  IN IF hits = {} THEN 0 ELSE CHOOSE m \in hits : \A h \in hits : h <= m

RECURSIVE NumberEnd(_, _, _)
NumberEnd(kws, s, i) ==
  IF i <= Len(s) /\ IsDigit(Ch(s, i)) /\ LongestKeyword(kws, s, i) = 0 THEN NumberEnd(kws, s, i + 1) ELSE i - 1

TokenEnd(kws, s, i) ==
  IF IsLetter(Ch(s, i)) THEN RunEnd(s, i, LetterCh)
  ELSE LET kw == LongestKeyword(kws, s, i) IN
       IF kw > 0 THEN i + kw - 1
       ELSE IF IsDigit(Ch(s, i)) THEN NumberEnd(kws, s, i)
       ELSE i

RECURSIVE TokFrom(_, _, _)
TokFrom(kws, s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET e == TokenEnd(kws, s, i) IN <<SubSeq(s, i, e)>> \o TokFrom(kws, s, e + 1)

Tokenize(kws, s) == TokFrom(kws, s, 1)

(* Theorems about Tokenize, checked by TLC on every text up to a bound      *)
Lossless(kws, s) == Concat(Tokenize(kws, s)) = s

TokenShape(kws, s) ==
  \A t \in {Tokenize(kws, s)[j] : j \in 1..Len(Tokenize(kws, s))} :
      \/ CharsOf(t) \subseteq LetterCh
      \/ t \in kws
      \/ CharsOf(t) \subseteq DigitCh
      \/ Len(t) = 1

\* two neighbouring tokens never are two pieces of one run
MaximalRuns(kws, s) ==
  LET ts == Tokenize(kws, s) IN
  \A j \in 1..(Len(ts) - 1) :
     /\ ~(CharsOf(ts[j]) \subseteq LetterCh /\ IsLetter(Ch(ts[j + 1], 1)) /\ ts[j] \notin kws)
     /\ ~(CharsOf(ts[j]) \subseteq DigitCh /\ IsDigit(Ch(ts[j + 1], 1)) /\ ts[j] \notin kws
          /\ LongestKeyword(kws, ts[j + 1] \o Concat(SubSeq(ts, j + 2, Len(ts))), 1) = 0)
=============================================================================
