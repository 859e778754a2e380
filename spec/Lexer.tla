------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* Tokenization.  Input: a sequence of characters (one-character strings)   *)
(* and a command specification sp (only needed for the starred names).      *)
(*  State: position and tokens so far.  One step = one      *)
(* token, by longest match in the category of the current character.        *)
(*                                                                         *)
(* A token is <<kind, text>>.  Kinds:                                       *)
(*   nl ws com w $ newline cmd begin end bmath emath ebegin eend if else fi *)
(*   left right error m1..m9 and each punctuation mark for itself.          *)
(***************************************************************************)
EXTENDS Spec

LetterSet == {CharTable.letters[i] : i \in 1 .. Len(CharTable.letters)}
PunctSet == {"{", "}", "[", "]", "(", ")", ",", "~", "/", "&", "^", "'",
             "\"", ";", "#", "*", "@", "_"}

\* the category of a character: every character has exactly one
Cls(c) == CASE c \in NlSet -> "nl"
            [] c \in WsSet -> "ws"
            [] c \in LetterSet -> "a"
            [] c \in PunctSet -> c
            [] c = "%" -> "%"
            [] c = "$" -> "$"
            [] c = "\\" -> "\\"
            [] OTHER -> "o"

\* first index >= j whose class is not in S (one past the end if none)
RECURSIVE EndRun(_, _, _)
EndRun(cl, j, S) == IF j <= Len(cl) /\ cl[j] \in S THEN EndRun(cl, j + 1, S) ELSE j

\* first index >= j at which the class is in S (one past the end if none)
RECURSIVE FirstIn(_, _, _)
FirstIn(cl, j, S) == IF j <= Len(cl) /\ cl[j] \notin S THEN FirstIn(cl, j + 1, S) ELSE j

NameCls == {"a", "@"}

\* skip white space and comments (a comment reaches through its line end)
RECURSIVE SkipTrivia(_, _)
SkipTrivia(cl, j) ==
  IF j > Len(cl) THEN j
  ELSE IF cl[j] \in {"ws", "nl"} THEN SkipTrivia(cl, j + 1)
  ELSE IF cl[j] = "%"
       THEN LET e == FirstIn(cl, j, {"nl"})
            IN SkipTrivia(cl, IF e > Len(cl) THEN e ELSE e + 1)
  ELSE j

Text(cs, i, j) == Cat(SubSeq(cs, i, j - 1))     \* characters i .. j-1

T(kind, cs, i, j) == [tok |-> <<kind, Text(cs, i, j)>>, next |-> j]

IfNames == {"if", "iftypst", "iffalse", "iftrue", "ifcase", "ifnum", "ifcat",
            "ifx", "ifvoid", "ifhbox", "ifvbox", "ifhmode", "ifmmode",
            "ifvmode", "ifinner", "ifdim", "ifeof", "@ifstar"}

\* \begin / \end whose command part is i .. j-1
LexEnvClause(cs, cl, i, j, isBegin) ==
  LET bad == T(IF isBegin THEN "ebegin" ELSE "eend", cs, i, j)
      o == SkipTrivia(cl, j)
  IN IF o > Len(cl) \/ cl[o] # "{" THEN bad
     ELSE LET e0 == EndRun(cl, o + 1, NameCls)
              e == IF e0 <= Len(cl) /\ cl[e0] = "*" THEN e0 + 1 ELSE e0
              c == SkipTrivia(cl, e)
          IN IF c > Len(cl) \/ cl[c] # "}" THEN bad
             ELSE [tok |-> <<IF isBegin THEN "begin" ELSE "end", Text(cs, o + 1, e)>>,
                   next |-> c + 1]

\* a backslash at i (not followed by a second one)
LexCommand(cs, cl, i, sp) ==
  IF i + 1 > Len(cl) \/ cl[i + 1] \in {"ws", "nl"} THEN T("cmd", cs, i, i + 1)
  ELSE IF cl[i + 1] \in {"(", "["} THEN T("bmath", cs, i, i + 2)
  ELSE IF cl[i + 1] \in {")", "]"} THEN T("emath", cs, i, i + 2)
  ELSE IF cl[i + 1] \notin NameCls THEN T("cmd", cs, i, i + 2)
  ELSE LET e0 == EndRun(cl, i + 2, NameCls)
           star == e0 <= Len(cl) /\ cl[e0] = "*" /\ HasName(sp, Text(cs, i + 1, e0 + 1))
           e == IF star THEN e0 + 1 ELSE e0
           name == Text(cs, i + 1, e)
       IN CASE name \in IfNames -> T("if", cs, i, e)
            [] name \in {"else", "fi", "left", "right"} -> T(name, cs, i, e)
            [] name \in {"begin", "end"} -> LexEnvClause(cs, cl, i, e, name = "begin")
            [] OTHER -> T("cmd", cs, i, e)

LexOne(cs, cl, i, sp) ==
  LET k == cl[i] IN
  CASE k = "nl" -> T("nl", cs, i, EndRun(cl, i, {"nl"}))
    [] k = "ws" -> T("ws", cs, i, EndRun(cl, i, {"ws"}))
    [] k = "%" -> T("com", cs, i, FirstIn(cl, i, {"nl"}))
    [] k \in {"a", "o"} -> T("w", cs, i, EndRun(cl, i, {"a", "o"}))
    [] k = "$" -> T("$", cs, i, IF i < Len(cl) /\ cl[i + 1] = "$" THEN i + 2 ELSE i + 1)
    [] k = "\\" -> IF i < Len(cl) /\ cl[i + 1] = "\\" THEN T("newline", cs, i, i + 2)
                   ELSE LexCommand(cs, cl, i, sp)
    [] OTHER -> T(k, cs, i, i + 1)

LexInit(cs, sp) == [cs |-> cs, cl |-> [i \in 1 .. Len(cs) |-> Cls(cs[i])],
                       i |-> 1, toks |-> <<>>, starts |-> <<>>, sp |-> sp]
LexDone(s) == s.i > Len(s.cs)
LexStep(s) == LET t == LexOne(s.cs, s.cl, s.i, s.sp)
              IN [s EXCEPT !.i = t.next, !.toks = Append(@, t.tok), !.starts = Append(@, s.i)]
RECURSIVE LexRun(_)
LexRun(s) == IF LexDone(s) THEN s ELSE LexRun(LexStep(s))
Lex(cs, sp) == LexRun(LexInit(cs, sp)).toks
=============================================================================
