------------------------------ MODULE TshLexer ------------------------------
(* The token grammar.  Text is a sequence of bytes.  One step splits one       *)
(* lexeme off the front of what is left: the longest one the grammar allows.   *)
(* Blanks and comments leave no token; every other lexeme leaves exactly one,  *)
(* with the row and column of its first character.                            *)
EXTENDS Integers, Sequences, TLC

NL == 10  CR == 13  TAB == 9  BLANK == 32
QUOTE == 34  TICK == 96  BACK == 92  SLASH == 47  STAR == 42  MINUS == 45  POINT == 46

IsDigit(c) == c \in 48..57
IsAlpha(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95
IsWord(c) == IsAlpha(c) \/ IsDigit(c)
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1

(* The spellings, as bytes. *)
KwTab == <<
     << <<105, 109, 112, 111, 114, 116>>, "IMPORT">>,  \* import
     << <<118, 97, 114>>, "VAR_DEFINITION">>,  \* var
     << <<102, 117, 110, 99>>, "FUNCTION_DEFINITION">>,  \* func
     << <<114, 101, 116, 117, 114, 110>>, "RETURN">>,  \* return
     << <<105, 102>>, "IF">>,  \* if
     << <<101, 108, 115, 101>>, "ELSE">>,  \* else
     << <<115, 119, 105, 116, 99, 104>>, "SWITCH">>,  \* switch
     << <<99, 97, 115, 101>>, "CASE">>,  \* case
     << <<100, 101, 102, 97, 117, 108, 116>>, "DEFAULT">>,  \* default
     << <<102, 111, 114>>, "FOR">>,  \* for
     << <<114, 97, 110, 103, 101>>, "RANGE">>,  \* range
     << <<98, 114, 101, 97, 107>>, "BREAK">>,  \* break
     << <<99, 111, 110, 116, 105, 110, 117, 101>>, "CONTINUE">>,  \* continue
     << <<110, 105, 108>>, "NIL_LITERAL">>,  \* nil
     << <<116, 114, 117, 101>>, "BOOL_LITERAL">>,  \* true
     << <<102, 97, 108, 115, 101>>, "BOOL_LITERAL">>,  \* false
     << <<108, 101, 110>>, "LEN">>,  \* len
     << <<112, 114, 105, 110, 116>>, "PRINT">>,  \* print
     << <<105, 110, 112, 117, 116>>, "INPUT">>,  \* input
     << <<99, 111, 112, 121>>, "COPY">>,  \* copy
     << <<105, 116, 111, 97>>, "ITOA">>,  \* itoa
     << <<101, 120, 105, 115, 116, 115>>, "EXISTS">>,  \* exists
     << <<114, 101, 97, 100>>, "READ">>,  \* read
     << <<119, 114, 105, 116, 101>>, "WRITE">>,  \* write
     << <<112, 97, 110, 105, 99>>, "PANIC">>,  \* panic
     << <<98, 111, 111, 108>>, "DATA_TYPE">>,  \* bool
     << <<105, 110, 116>>, "DATA_TYPE">>,  \* int
     << <<115, 116, 114, 105, 110, 103>>, "DATA_TYPE">>,  \* string
     << <<101, 114, 114, 111, 114>>, "DATA_TYPE">>   \* error
  >>
PuTab == <<
     << <<61, 61>>, "COMPARE_OPERATOR">>,  \* ==
     << <<33, 61>>, "COMPARE_OPERATOR">>,  \* !=
     << <<60, 61>>, "COMPARE_OPERATOR">>,  \* <=
     << <<62, 61>>, "COMPARE_OPERATOR">>,  \* >=
     << <<38, 38>>, "LOGICAL_OPERATOR">>,  \* &&
     << <<124, 124>>, "LOGICAL_OPERATOR">>,  \* ||
     << <<43, 61>>, "COMPOUND_ASSIGN_OPERATOR">>,  \* +=
     << <<45, 61>>, "COMPOUND_ASSIGN_OPERATOR">>,  \* -=
     << <<42, 61>>, "COMPOUND_ASSIGN_OPERATOR">>,  \* *=
     << <<47, 61>>, "COMPOUND_ASSIGN_OPERATOR">>,  \* /=
     << <<37, 61>>, "COMPOUND_ASSIGN_OPERATOR">>,  \* %=
     << <<58, 61>>, "SHORT_INIT_OPERATOR">>,  \* :=
     << <<43, 43>>, "INCREMENT_OPERATOR">>,  \* ++
     << <<45, 45>>, "DECREMENT_OPERATOR">>,  \* --
     << <<40>>, "OPENING_ROUND_BRACKET">>,  \* (
     << <<41>>, "CLOSING_ROUND_BRACKET">>,  \* )
     << <<91>>, "OPENING_SQUARE_BRACKET">>,  \* [
     << <<93>>, "CLOSING_SQUARE_BRACKET">>,  \* ]
     << <<123>>, "OPENING_CURLY_BRACKET">>,  \* {
     << <<125>>, "CLOSING_CURLY_BRACKET">>,  \* }
     << <<60>>, "COMPARE_OPERATOR">>,  \* <
     << <<62>>, "COMPARE_OPERATOR">>,  \* >
     << <<61>>, "ASSIGN_OPERATOR">>,  \* =
     << <<33>>, "UNARY_OPERATOR">>,  \* !
     << <<43>>, "BINARY_OPERATOR">>,  \* +
     << <<45>>, "BINARY_OPERATOR">>,  \* -
     << <<42>>, "BINARY_OPERATOR">>,  \* *
     << <<47>>, "BINARY_OPERATOR">>,  \* /
     << <<37>>, "BINARY_OPERATOR">>,  \* %
     << <<44>>, "COMMA">>,  \* ,
     << <<58>>, "COLON">>,  \* :
     << <<59>>, "SEMICOLON">>,  \* ;
     << <<46>>, "DOT">>,  \* .
     << <<64>>, "AT">>,  \* @
     << <<124>>, "PIPE">>   \* |
  >>
\* After these a minus is an operator, not the sign of a number.
OperandEnd == {"IDENTIFIER", "BOOL_LITERAL", "NUMBER_LITERAL", "STRING_LITERAL", "NIL_LITERAL",
               "CLOSING_ROUND_BRACKET", "CLOSING_SQUARE_BRACKET", "CLOSING_CURLY_BRACKET"}

At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
In(cls, c) == CASE cls = "digit" -> IsDigit(c) [] cls = "word" -> IsWord(c) [] cls = "line" -> c # NL
RECURSIVE While(_, _, _)
While(t, i, cls) == IF i <= Len(t) /\ In(cls, t[i]) /\ ~(t[i] = CR /\ At(t, i + 1) = NL) THEN While(t, i + 1, cls) ELSE i      \* first index not in the class
RECURSIVE FindEnd(_, _)
FindEnd(t, i) == IF i + 1 > Len(t) THEN 0 ELSE IF t[i] = STAR /\ t[i + 1] = SLASH THEN i ELSE FindEnd(t, i + 1)

-----------------------------------------------------------------------------
(* String literals *)
Utf8(r) == IF r < 128 THEN <<r>>
           ELSE IF r < 2048 THEN <<192 + r \div 64, 128 + (r % 64)>>
           ELSE IF r < 65536 THEN <<224 + r \div 4096, 128 + ((r \div 64) % 64), 128 + (r % 64)>>
           ELSE <<240 + r \div 262144, 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
RECURSIVE Num(_, _, _, _, _)        \* value of n digits of the given base from index i, -1 if there are none
Num(t, i, n, base, acc) ==
  IF n = 0 THEN acc
  ELSE IF At(t, i) = -1 THEN -1
  ELSE LET d == HexVal(t[i]) IN IF d < 0 \/ d >= base THEN -1
       ELSE IF acc > 1114111 THEN Num(t, i + 1, n - 1, base, acc) ELSE Num(t, i + 1, n - 1, base, acc * base + d)
Single == ( 97 :> 7 @@ 98 :> 8 @@ 102 :> 12 @@ 110 :> 10 @@ 114 :> 13 @@ 116 :> 9 @@ 118 :> 11 @@ 92 :> 92 @@ 34 :> 34 )
ERR == [type |-> "ERROR", end |-> 0, val |-> << >>]
UNS == [type |-> "UNSPEC", end |-> 0, val |-> << >>]
\* t[i] is the character behind the backslash: <<index behind the escape, bytes>> or << >>
Escape(t, i) ==
  LET c == At(t, i) IN
  IF c \in DOMAIN Single THEN <<i + 1, <<Single[c]>> >>
  ELSE IF c \in 48..55 THEN LET v == Num(t, i, 3, 8, 0) IN IF v < 0 \/ v > 255 THEN << >> ELSE <<i + 3, <<v>> >>
  ELSE IF c = 120 THEN LET v == Num(t, i + 1, 2, 16, 0) IN IF v < 0 THEN << >> ELSE <<i + 3, <<v>> >>
  ELSE IF c = 117 \/ c = 85 THEN
    LET n == IF c = 117 THEN 4 ELSE 8
        v == Num(t, i + 1, n, 16, 0)
    IN  IF v < 0 \/ v > 1114111 \/ v \in 55296..57343 THEN << >> ELSE <<i + 1 + n, Utf8(v)>>
  ELSE << >>
RECURSIVE Interp(_, _, _)
Interp(t, i, acc) ==
  LET c == At(t, i) IN
  IF c = -1 THEN ERR
  ELSE IF c = QUOTE THEN [type |-> "STRING_LITERAL", end |-> i + 1, val |-> acc]
  ELSE IF c = BACK THEN LET e == Escape(t, i + 1) IN IF e = << >> THEN ERR ELSE Interp(t, e[1], acc \o e[2])
  ELSE IF c = NL \/ c = CR THEN UNS          \* not a Go literal
  ELSE Interp(t, i + 1, Append(acc, c))
RECURSIVE Raw(_, _, _)
Raw(t, i, acc) ==
  LET c == At(t, i) IN
  IF c = -1 THEN ERR
  ELSE IF c = TICK THEN [type |-> "STRING_LITERAL", end |-> i + 1, val |-> acc]
  ELSE Raw(t, i + 1, IF c = CR THEN acc ELSE Append(acc, c))

-----------------------------------------------------------------------------
(* The lexeme at index i; operand: the last token can end an operand.          *)
Tok(t, i, j, type) == [type |-> type, end |-> j, val |-> SubSeq(t, i, j - 1)]
Number(t, i) ==       \* index behind the number at i (i is at a digit)
  LET j == While(t, i, "digit") IN
  IF At(t, j) = POINT /\ IsDigit(At(t, j + 1)) THEN While(t, j + 1, "digit") ELSE j
Word(t, i) ==
  LET j == While(t, i, "word")
      v == SubSeq(t, i, j - 1)
      k == {x \in DOMAIN KwTab : KwTab[x][1] = v}
  IN  Tok(t, i, j, IF k = {} THEN "IDENTIFIER" ELSE KwTab[CHOOSE x \in k : TRUE][2])
Punct(t, i) ==
  LET m(x) == LET p == PuTab[x][1] IN i + Len(p) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(p) - 1) = p
      k == {x \in DOMAIN PuTab : m(x)}
      b == CHOOSE x \in k : \A y \in k : Len(PuTab[x][1]) >= Len(PuTab[y][1])
  IN  IF k = {} THEN ERR ELSE Tok(t, i, i + Len(PuTab[b][1]), PuTab[b][2])
Lexeme(t, i, operand) ==
  LET c == t[i]  d == At(t, i + 1) IN
  IF c = QUOTE THEN Interp(t, i + 1, << >>)
  ELSE IF c = TICK THEN Raw(t, i + 1, << >>)
  ELSE IF c = SLASH /\ d = STAR THEN LET e == FindEnd(t, i + 2) IN IF e = 0 THEN ERR ELSE Tok(t, i, e + 2, "COMMENT")
  ELSE IF c = SLASH /\ d = SLASH THEN Tok(t, i, While(t, i, "line"), "COMMENT")
  ELSE IF IsDigit(c) THEN Tok(t, i, Number(t, i), "NUMBER_LITERAL")
  ELSE IF c = MINUS /\ IsDigit(d) /\ ~operand THEN Tok(t, i, Number(t, i + 1), "NUMBER_LITERAL")
  ELSE IF IsAlpha(c) THEN Word(t, i)
  ELSE IF c = BLANK \/ c = TAB THEN Tok(t, i, i + 1, "SPACE")
  ELSE IF c = NL THEN Tok(t, i, i + 1, "NEWLINE")
  ELSE IF c = CR /\ d = NL THEN [type |-> "NEWLINE", end |-> i + 2, val |-> <<NL>>]
  ELSE Punct(t, i)

\* Position behind the characters t[i..j-1]: <<row, column, columns counted in characters>>
RECURSIVE Advance(_, _, _, _)
Advance(t, i, j, p) ==
  IF i >= j THEN p
  ELSE Advance(t, i + 1, j, IF t[i] = NL THEN <<p[1] + 1, 1, 1>>
                            ELSE <<p[1], p[2] + 1, IF t[i] \in 128..191 THEN p[3] ELSE p[3] + 1>>)
=============================================================================
