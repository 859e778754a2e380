----------------------------- MODULE Converter ------------------------------
(***************************************************************************)
(* The converter: a machine that walks over the syntax tree with an         *)
(* explicit work list and emits Typst source.                               *)
(*                                                                         *)
(* State                                                                   *)
(*   work    pending actions, the next one first                            *)
(*   out     text emitted so far                                            *)
(*   mode    "text" or "math"                                               *)
(*   env     innermost environment: none figure table itemize enumerate     *)
(*           math matrix cases substack curly                               *)
(*   indent  indentation of list items                                      *)
(*   label   pending label of the enclosing environment (<<>> if none)      *)
(*   skip    drop the next white space                                      *)
(*   start   nothing but white space and comments since the last line break  *)
(*   comline there is a comment or a brace among them                        *)
(*   err     the conversion has failed                                      *)
(* Actions: elem (convert an element), emit, mode, enter, exit, label.      *)
(***************************************************************************)
EXTENDS Parser

Do(e) == [a |-> "elem", e |-> e]
Emit(s) == [a |-> "emit", s |-> s]
SetMode(m) == [a |-> "mode", m |-> m]
Enter(v) == [a |-> "enter", v |-> v]
Exit(v) == [a |-> "exit", v |-> v]        \* v: the environment to restore
FlushLabel(l) == [a |-> "label", l |-> l]   \* l: the pending label to restore
NewLine == [a |-> "line"]
Mark == [a |-> "mark"]

DoAll(es) == [i \in 1 .. Len(es) |-> Do(es[i])]
FlatSeq(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

IsTok(e) == e[1] = "T"
K(e) == e[2]
Kids(e) == e[3]
HasKid(e, k) == \E i \in 1 .. Len(Kids(e)) : K(Kids(e)[i]) = k
KidsOf(e, k) == SelectSeq(Kids(e), LAMBDA c : K(c) = k)

\* first token of an element (<<>> if there is none)
RECURSIVE FirstLeaf(_)
FirstLeaf(e) == IF IsTok(e) THEN e ELSE IF Kids(e) = <<>> THEN <<>> ELSE FirstLeaf(Kids(e)[1])

CNameTok(e) == KidsOf(e, "name")[1][3]    \* with its backslash
CName(e) == DropS(CNameTok(e), 1)
CArgs(e) == KidsOf(e, "arg")

\* source text of an argument without comments
RECURSIVE RawText(_)
RawText(e) == IF IsTok(e) THEN IF K(e) = "com" THEN "" ELSE e[3]
              ELSE Cat([i \in 1 .. Len(Kids(e)) |->
                          IF K(Kids(e)[i]) = "comment" THEN "" ELSE RawText(Kids(e)[i])])
Strip(s, l, r) == LET a == IF StartsWith(s, l) THEN DropS(s, 1) ELSE s
                  IN Trim(IF EndsWith(a, r) THEN SubSeq(a, 1, Len(a) - 1) ELSE a)

\* text behind a list on the same line: the end of the list is marked
\* with a token without text
Brk == <<"T", "brk", "">>
RECURSIVE FollowedBy(_)
FollowedBy(ks) == IF ks = <<>> THEN "end"
                  ELSE IF K(Head(ks)) \in {"ws", "com", "comment"} THEN FollowedBy(Tail(ks)) ELSE K(Head(ks))
RECURSIVE MarkEnds(_, _)
MarkEnds(e, behind) ==            \* behind: what is behind e on its line
  IF IsTok(e) THEN e
  ELSE LET ks == Kids(e)
           After(i) == LET k == FollowedBy(SubSeq(ks, i + 1, Len(ks)))
                       IN IF k = "end" /\ K(e) \in {"arg", "attach"} THEN behind ELSE k
       IN <<e[1], e[2], [i \in 1 .. Len(ks) |->
             LET x == MarkEnds(ks[i], After(i)) IN
             IF K(x) = "env" /\ After(i) \notin {"end", "nl", "endc"}
             THEN <<x[1], x[2], Append(Kids(x), Brk)>> ELSE x]>>

CInit(tree, sp, mode) ==
  [work |-> <<Do(MarkEnds(tree, "end"))>>, out |-> "", mode |-> mode, env |-> "none", indent |-> 0,
   label |-> <<>>, skip |-> TRUE, start |-> FALSE, comline |-> FALSE, err |-> FALSE, sp |-> sp]
CDone(c) == c.err \/ c.work = <<>>

Lists == {"itemize", "enumerate"}

CFail(c) == [c EXCEPT !.err = TRUE, !.work = <<>>]
Say(c, s) == [c EXCEPT !.out = @ \o s]
Then(c, acts) == [c EXCEPT !.work = acts \o @]
SayThen(c, s, acts) == Then(Say(c, s), acts)

EscapeOf == ("," :> "\\,") @@ ("/" :> "\\/") @@ ("^" :> "\\^") @@ ("_" :> "\\_") @@
            ("#" :> "\\#") @@ ("*" :> "\\*") @@ ("@" :> "\\@") @@ ("\"" :> "\\\"") @@
            (";" :> "\\;") @@ ("(" :> "\\(") @@ (")" :> "\\)") @@ ("[" :> "\\[") @@
            ("]" :> "\\]") @@ ("'" :> "'")
SilentK == {"{", "}", "$", "bmath", "emath", "com", "comment"}
EnvOfCtx(ctx) == IF ctx = "none" THEN "none" ELSE ctx

----------------------------------------------------------------------------
\* a word of text, where Typst must not read markup
IsDigits(s) == s # "" /\ \A i \in 1 .. Len(s) : At(s, i) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
TextWord(s) ==
  IF EndsWith(s, ".") /\ IsDigits(SubSeq(s, 1, Len(s) - 1)) THEN SubSeq(s, 1, Len(s) - 1) \o "\\."
  ELSE IF s \in {"-", "+"} \/ \A i \in 1 .. Len(s) : At(s, i) = "=" THEN "\\" \o s
  ELSE Cat([i \in 1 .. Len(s) |-> IF At(s, i) \in {"`", "<"} \/ (i > 1 /\ At(s, i) = "?" /\ At(s, i - 1) = "-") THEN "\\" \o At(s, i) ELSE At(s, i)])
CWord(c, text) ==
  IF c.mode = "math"
  THEN Say(c, Cat([i \in 1 .. Len(text) |-> (IF At(text, i) = "!" THEN "\\" ELSE "") \o At(text, i) \o " "]))
  ELSE Say(c, TextWord(text))

\* a formula is closed by the counterpart of its opening mark
Closes(a, b) == \/ a = <<"$", "$">> /\ b = a
                \/ a = <<"$", "$$">> /\ b = a
                \/ a = <<"bmath", "\\(">> /\ b = <<"emath", "\\)">>
                \/ a = <<"bmath", "\\[">> /\ b = <<"emath", "\\]">>
CFormula(c, e) ==
  LET ks == Kids(e)
      a == ks[1]
      b == Top(ks)
      ok == IsTok(a) /\ IsTok(b) /\ Closes(<<a[2], a[3]>>, <<b[2], b[3]>>)
      inline == a[3] \in {"$", "\\("}
  IN IF ~ok THEN CFail(c)
     ELSE IF c.mode = "math" THEN Then(c, DoAll(ks))
     ELSE SayThen(c, IF inline THEN "#math.equation(block: false, $" ELSE "$ ",
                  <<SetMode("math")>> \o DoAll(ks) \o
                  <<SetMode("text"), Emit(IF inline THEN "$);" ELSE " $")>>)

CurlyBlank == {"ws", "nl", "com", "{", "}"}
CCurly(c, e) ==
  LET ks == Kids(e)
      blank == \A i \in 1 .. Len(ks) : K(ks[i]) \in CurlyBlank
      math == c.mode = "math"
      new == math /\ c.env # "substack"
  IN Then(c, (IF new THEN <<Enter("curly")>> ELSE <<>>) \o DoAll(ks) \o
             (IF math /\ blank THEN <<Emit("zws ")>> ELSE <<>>) \o
             (IF new THEN <<Exit(c.env)>> ELSE <<>>))

CClauseLR(c, e) ==
  LET ks == Kids(e)
      name == DropS(ks[1][3], 1)
      One(x) == (IF IsTok(x) /\ K(x) = "w" /\ x[3] = "." THEN <<>> ELSE <<Do(x)>>) \o <<Emit(" ")>>
      acts == FlatSeq([i \in 1 .. Len(ks) - 1 |-> One(ks[i + 1])])
  IN CASE name = "left" -> SayThen(c, "lr(", acts)
       [] name = "right" -> Then(c, acts \o <<Emit(")")>>)
       [] OTHER -> Then(c, acts)

\* the base of a script is a group whose last item has a script itself: `{a_1}_2`
RECURSIVE ScriptLast(_)
ScriptLast(e) ==
  IF IsTok(e) \/ K(e) \notin {"arg", "curly"} THEN FALSE
  ELSE LET ks == SelectSeq(Kids(e), LAMBDA x : K(x) \notin {"}", "ws", "nl", "com", "comment"})
       IN /\ ks # <<>>
          /\ \/ K(e) = "curly" /\ K(Top(ks)) = "attach"
                /\ LET xs == Kids(Top(ks)) IN \E i \in 1 .. Len(xs) : IsTok(xs[i]) /\ K(xs[i]) \in {"_", "^"}
             \/ ScriptLast(Top(ks))

CAttach(c, e) ==
  LET ks == Kids(e)
      M == {i \in 1 .. Len(ks) : IsTok(ks[i]) /\ K(ks[i]) \in {"_", "^"}}
      m == CHOOSE i \in M : \A j \in M : i <= j
      based == \E i \in 1 .. m - 1 : ~(IsTok(ks[i]) /\ K(ks[i]) = "ws")
      again == \E i \in 1 .. m - 1 : ScriptLast(ks[i])
  IN IF c.mode = "text" THEN Then(c, DoAll(ks))
     ELSE IF M = {}
     THEN Then(c, FlatSeq([i \in 1 .. Len(ks) |->
                 (IF K(ks[i]) = "'" /\ \E j \in 1 .. i - 1 : ScriptLast(ks[j]) THEN <<Emit("zws")>> ELSE <<>>) \o <<Do(ks[i])>>]))
     ELSE Then(c, DoAll(SubSeq(ks, 1, m - 1)) \o
                  <<Emit((IF based /\ ~again THEN "" ELSE "zws") \o ks[m][3] \o "(")>> \o
                  DoAll(SubSeq(ks, m + 1, Len(ks))) \o <<Emit(")")>>)

CSym(c, e) ==
  LET n == DropS(e[3], 1) IN
  IF HasCmd(c.sp, n) THEN Say(c, AliasOf(c.sp, n)) ELSE CFail(c)

----------------------------------------------------------------------------
(* commands with their own conversion                                        *)
CItem(c) ==
  IF c.env \notin Lists THEN CFail(c)
  ELSE Say(c, "\n" \o Rep(" ", c.indent - 2) \o (IF c.env = "itemize" THEN "- " ELSE "+ "))

CLabel(c, e) ==
  IF CArgs(e) = <<>> THEN CFail(c)
  ELSE LET l == Strip(RawText(CArgs(e)[1]), "{", "}") IN
       IF c.env \in {"none"} \cup Lists
       THEN IF c.mode = "text" THEN Say(c, "<" \o l \o ">") ELSE c
       ELSE [c EXCEPT !.label = <<l>>]

FirstNode(arg) == LET ns == SelectSeq(Kids(arg), LAMBDA x : ~IsTok(x))
                  IN IF ns = <<>> THEN "" ELSE K(ns[1])
RECURSIVE StripEnds(_, _)
StripEnds(s, x) == IF EndsWith(s, x) THEN StripEnds(SubSeq(s, 1, Len(s) - Len(x)), x) ELSE s
ImgOpt(a) ==
  LET kv == SplitBy(Trim(a), "=")
      key == Trim(kv[1])
      val == IF Len(kv) = 2 THEN Trim(kv[2]) ELSE ""
  IN IF key \notin {"width", "height"} THEN ""
     ELSE key \o ": " \o
          (IF val \in {"\\textwidth", "\\textheight"} THEN "100%"
           ELSE IF EndsWith(val, "\\textwidth") THEN StripEnds(val, "\\textwidth") \o " * 100%"
           ELSE IF EndsWith(val, "\\textheight") THEN StripEnds(val, "\\textheight") \o " * 100%"
           ELSE val) \o ", "
CImage(c, e) ==
  LET opts == SelectSeq(CArgs(e), LAMBDA a : FirstNode(a) = "bracket")
      bodies == SelectSeq(CArgs(e), LAMBDA a : FirstNode(a) = "curly")
  IN IF bodies = <<>> THEN CFail(c)
     ELSE LET o == IF opts = <<>> THEN ""
                   ELSE LET p == SplitBy(Strip(RawText(opts[1]), "[", "]"), ",")
                        IN Cat([i \in 1 .. Len(p) |-> ImgOpt(p[i])])
          IN Say(c, "#image(" \o o \o "\"" \o Strip(RawText(bodies[1]), "{", "}") \o "\")")

TriviaC == {"nl", "ws", "com", "newline"}
RECURSIVE DropTrivia(_)
DropTrivia(s) == IF s # <<>> /\ K(Head(s)) \in TriviaC THEN DropTrivia(Tail(s)) ELSE s
RECURSIVE UntilBracket(_, _)
UntilBracket(s, acc) == IF s = <<>> THEN [t |-> acc, r |-> s]
                        ELSE IF K(Head(s)) = "]" THEN [t |-> acc, r |-> Tail(s)]
                        ELSE UntilBracket(Tail(s), acc \o RawText(Head(s)))
HeadOr(s) == IF s = <<>> THEN <<>> ELSE <<Head(s)>>
TailOr(s) == IF s = <<>> THEN <<>> ELSE Tail(s)

\* an apostrophe after the color is not part of it: [color, apostrophes]
RECURSIVE SplitPrimes(_)
SplitPrimes(x) ==
  LET ks == IF IsTok(x) THEN <<>> ELSE Kids(x) IN
  IF K(x) = "arg" /\ Len(ks) = 1 THEN SplitPrimes(ks[1])
  ELSE IF K(x) = "attach" /\ Len(ks) > 1 /\ K(Top(ks)) = "'"
  THEN LET b == SplitPrimes(ks[1]) IN <<b[1], b[2] \o Tail(ks)>>
  ELSE <<x, <<>> >>
ColorBody(s) ==   \* [color, body]
  IF s = <<>> THEN <<<<>>, <<>> >>
  ELSE LET b == SplitPrimes(Head(s)) IN << <<b[1]>>, b[2] \o Tail(s)>>

\* [model (sequence of at most one string), color (at most one element), body]
ColorParts(name, args) ==
  IF name = "color"
  THEN LET s == DropTrivia(Kids(args[1])) IN
       IF s # <<>> /\ K(Head(s)) = "["
       THEN LET u == UntilBracket(Tail(s), "")
                r == ColorBody(DropTrivia(u.r))
            IN [model |-> <<u.t>>, color |-> r[1], body |-> r[2]]
       ELSE LET r == ColorBody(s) IN [model |-> <<>>, color |-> r[1], body |-> r[2]]
  ELSE LET t == IF args = <<>> THEN "" ELSE RawText(args[1]) IN
       IF StartsWith(t, "[") /\ EndsWith(t, "]") /\ Len(t) >= 2
       THEN [model |-> <<SubSeq(t, 2, Len(t) - 1)>>, color |-> HeadOr(Tail(args)),
             body |-> TailOr(Tail(args))]
       ELSE [model |-> <<>>, color |-> HeadOr(args), body |-> TailOr(args)]

\* the space after the name of a command does not show
RECURSIVE AfterName(_)
AfterName(ks) == IF ks # <<>> /\ K(Head(ks)) \in {"ws", "nl", "com"} THEN AfterName(Tail(ks)) ELSE ks
CColor(c, e) ==
  LET name == CName(e) IN
  IF name = "color" /\ CArgs(e) = <<>> THEN CFail(c)
  ELSE LET al == IF HasCmd(c.sp, name) /\ HasAlias(c.sp, name)
                 THEN AliasOf(c.sp, name) ELSE "mitexcolor"
           p == ColorParts(name, CArgs(e))
           math == c.mode = "math"
           One(x) == IF math THEN <<Emit("$"), Do(x), Emit("$")>> ELSE <<Do(x)>>
       IN SayThen(c, al \o "(" \o
                     (IF p.model = <<>> THEN "none, " ELSE "[" \o p.model[1] \o "], ") \o "[",
                  (IF p.color = <<>> THEN <<Emit("black")>>
                   ELSE <<SetMode("text"), Do(p.color[1]), SetMode(c.mode)>>) \o
                  <<Emit("])[")>> \o (LET b == IF math THEN p.body ELSE AfterName(p.body)
                                         IN FlatSeq([i \in 1 .. Len(b) |-> One(b[i])])) \o
                  <<Emit(IF math THEN "]" ELSE "];")>>)

----------------------------------------------------------------------------
AsciiText == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiSet == {At(AsciiText, i) : i \in 1 .. Len(AsciiText)}
IsAscii(ch) == ch \in AsciiSet
\* the names of symbols that are themselves text
IsMarkup(al) ==
  \/ StartsWith(al, "\\")
  \/ \E i \in 1 .. Len(al) : ~IsAscii(At(al, i))
  \/ \A i \in 1 .. Len(al) : At(al, i) \in {"-", "+", "%"}
CNormal(c, e) ==
  LET name == CName(e)
      args == SelectSeq(Kids(e), LAMBDA x : K(x) # "name")
  IN IF ~HasCmd(c.sp, name) THEN CFail(c)
     ELSE LET shape == Shape(c.sp, name)
              al == IF c.mode = "text" /\ name \in {"textbf", "bf"} THEN "#strong"
                    ELSE IF c.mode = "text" /\ name \in {"textit", "it"} THEN "#emph"
                    ELSE AliasOf(c.sp, name)
              sub == al = "substack"
              pre == IF sub THEN <<Enter("substack")>> ELSE <<>>
              post == IF sub THEN <<Exit(c.env)>> ELSE <<>>
              Sep(xs, k) == FlatSeq([i \in 1 .. Len(xs) |->
                               <<Do(xs[i])>> \o (IF K(xs[i]) = k /\ i < Len(xs)
                                                 THEN <<Emit(",")>> ELSE <<>>)])
          IN IF shape[1] = "none" /\ c.mode = "text" /\ al # "" /\ ~StartsWith(al, "#") /\ ~EndsWith(al, "TeX")
             THEN Say(c, IF IsMarkup(al) THEN al ELSE "$" \o al \o "$")
             ELSE IF shape[1] = "greedy" /\ c.mode = "text"
             THEN SayThen(c, (IF StartsWith(al, "#") THEN "" ELSE "#") \o al \o "[",
                          pre \o DoAll(AfterName(Kids(args[1]))) \o <<Emit("];")>> \o post)
             ELSE IF shape[1] = "none" THEN SayThen(c, al, pre \o <<Emit(" ")>> \o post)
             ELSE IF shape[1] = "greedy"
             THEN SayThen(c, al \o "(", pre \o Sep(Kids(args[1]), "curly") \o <<Emit(")")>> \o post)
             ELSE IF c.mode = "math" /\ ~StartsWith(al, "#")
             THEN SayThen(c, al \o "(", pre \o Sep(args, "arg") \o <<Emit(")")>> \o post)
             ELSE LET as == SelectSeq(args, LAMBDA x : K(x) = "arg")
                  IN IF shape[1] = "n" /\ shape[2] > 0 /\ c.mode = "text" /\ ~StartsWith(al, "#")
                     THEN SayThen(c, "$" \o al \o "(", pre \o
                       FlatSeq([i \in 1 .. Len(as) |->
                          <<Emit(IF i = 1 THEN "#[" ELSE ",#["), Do(as[i]), Emit("]")>>]) \o
                       <<Emit(")$")>> \o post)
                     ELSE SayThen(c, al, pre \o
                       FlatSeq([i \in 1 .. Len(as) |->
                          <<Emit("["), SetMode("text"), Do(as[i]), SetMode(c.mode), Emit("]")>>]) \o
                       <<Emit(";")>> \o post)

CCommand(c, e) ==
  LET name == CName(e) IN
  CASE name = "item" -> CItem(c)
    [] name = "label" -> CLabel(c, e)
    [] name = "includegraphics" -> CImage(c, e)
    [] name \in {"color", "textcolor", "colorbox"} -> CColor(c, e)
    [] OTHER -> CNormal(c, e)

----------------------------------------------------------------------------
(* environments                                                              *)
Clause == {"beginc", "endc", "brk"}
Body(e) == SelectSeq(Kids(e), LAMBDA x : K(x) \notin Clause)

CFigure(c, e, al, outer) ==
  LET body == Body(e)
      Named(x, n) == K(x) = "cmd" /\ CNameTok(x) = "\\" \o n
      caps == SelectSeq(body, LAMBDA x : Named(x, "caption"))
      rest == SelectSeq(body, LAMBDA x : ~Named(x, "caption") /\ ~Named(x, "centering"))
  IN IF \E i \in 1 .. Len(caps) : CArgs(caps[i]) = <<>> THEN CFail(c)
     ELSE SayThen(c, "#" \o al \o "(",
            <<Enter("figure")>> \o
            (IF caps = <<>> THEN <<>>
             ELSE <<Emit("caption: ["), Do(CArgs(Top(caps))[1]), Emit("],")>>) \o
            <<Emit(")[")>> \o DoAll(rest) \o <<Emit("];"), Exit(c.env), FlushLabel(outer)>>)

RuleOf == ("hline" :> ".5pt") @@ ("midrule" :> ".5pt") @@ ("toprule" :> "1pt") @@ ("bottomrule" :> "1pt")
\* the cells: outside of a cell / inside of one
\* columns, cells closed in the current row
EndRow(cols, n) == Rep(" [],", IF cols > n + 1 THEN cols - n - 1 ELSE 0) \o "\n"
RECURSIVE Cells(_, _, _, _, _)
Cells(xs, inside, cols, n, acc) ==
  IF xs = <<>> THEN IF inside THEN Append(acc, Emit("],\n")) ELSE acc
  ELSE LET x == Head(xs)
           k == K(x)
           r == Tail(xs)
       IN IF inside
          THEN CASE k = "&" -> Cells(r, FALSE, cols, n + 1, Append(acc, Emit("], ")))
                 [] k = "newline" -> Cells(r, FALSE, cols, 0, Append(acc, Emit("]," \o EndRow(cols, n))))
                 [] OTHER -> Cells(r, TRUE, cols, n, Append(acc, Do(x)))
          ELSE CASE k \in {"ws", "nl", "com"} -> Cells(r, FALSE, cols, n, acc)
                 [] k = "&" -> Cells(r, FALSE, cols, n + 1, Append(acc, Emit("[], ")))
                 [] k = "newline" -> Cells(r, FALSE, cols, 0, Append(acc, Emit("[]," \o EndRow(cols, n))))
                 [] k = "cmd" /\ CName(x) \in DOMAIN RuleOf ->
                      Cells(r, FALSE, cols, n,
                            Append(acc, Emit("table.hline(stroke: " \o RuleOf[CName(x)] \o "),\n")))
                 [] OTHER -> Cells(r, TRUE, cols, n, acc \o <<Emit("["), Do(x)>>)

AlignOf == ("l" :> "left, ") @@ ("c" :> "center, ") @@ ("r" :> "right, ")
CTable(c, e, al, outer) ==
  LET bargs == SelectSeq(Kids(KidsOf(e, "beginc")[1]), LAMBDA x : K(x) = "arg") IN
  IF bargs = <<>> THEN CFail(c)
  ELSE LET cols == CharsOf(Strip(RawText(bargs[1]), "{", "}"))
           known == DOMAIN AlignOf \cup {"|", " ", "\t", "\r", "\n"}
           aligns == SelectSeq(cols, LAMBDA x : x \in DOMAIN AlignOf)
           before(i) == Len(SelectSeq(SubSeq(cols, 1, i - 1), LAMBDA x : x \in DOMAIN AlignOf))
           vl(i) == IF cols[i] = "|" THEN "table.vline(stroke: .5pt, x: " \o ToString(before(i)) \o "), " ELSE ""
       IN IF \E i \in 1 .. Len(cols) : cols[i] \notin known THEN CFail(c)
          ELSE SayThen(c, "#" \o al \o "(stroke: none,\ncolumns: " \o ToString(Len(aligns)) \o
                          ",\nalign: (" \o Cat([i \in 1 .. Len(aligns) |-> AlignOf[aligns[i]]]) \o
                          "),\n" \o Cat([i \in 1 .. Len(cols) |-> vl(i)]) \o "\n",
                       <<Enter("table")>> \o Cells(Body(e), FALSE, Len(aligns), 0, <<>>) \o
                       <<Emit(");"), Exit(c.env), FlushLabel(outer)>>)

CEnv(c0, e) ==
  LET bc == KidsOf(e, "beginc")[1]
      name == KidsOf(bc, "sym")[1][3]
      bargs == SelectSeq(Kids(bc), LAMBDA x : K(x) = "arg")
  IN IF ~HasEnv(c0.sp, name) THEN CFail(c0)
     ELSE LET al == AliasOf(c0.sp, name)
              ctx == CtxOf(c0.sp, name)
              body == Body(e)
              \* a label before this environment belongs to the one around it
              own == ctx \notin Lists /\ c0.mode = "text"
              outer == IF own THEN c0.label ELSE <<>>
              c == IF own THEN [c0 EXCEPT !.label = <<>>] ELSE c0
          IN CASE ctx \in Lists -> 
                    Then(c, <<Enter(ctx)>> \o DoAll(body) \o <<Exit(c.env)>> \o
                            (IF HasKid(e, "brk") THEN <<NewLine>> ELSE <<>>))
               [] ctx \in {"math", "matrix", "cases"} ->
                    LET dollar == c.mode = "text" IN
                    SayThen(c, (IF dollar THEN "$ " ELSE "") \o al \o "(",
                       <<Enter(ctx), SetMode("math")>> \o
                       FlatSeq([i \in 1 .. Len(bargs) |->
                          <<Emit("arg" \o ToString(i - 1) \o ": "), Do(bargs[i]), Emit(",")>>]) \o
                       DoAll(body) \o <<Emit(")"), Exit(c.env)>> \o
                       (IF dollar THEN <<Emit(" $"), SetMode("text")>> ELSE <<>>) \o <<FlushLabel(outer)>>)
               [] ctx = "figure" -> CFigure(c, e, al, outer)
               [] ctx = "table" -> CTable(c, e, al, outer)
               [] OTHER ->
                    SayThen(c, "#" \o al \o "[",
                       <<Enter("none")>> \o DoAll(body) \o <<Emit("];"), Exit(c.env), FlushLabel(outer)>>)

----------------------------------------------------------------------------
\* a line with nothing but comments or the braces of groups in it is not an empty line
DropBreak(t) == SubSeq(t, IF StartsWith(t, "\r\n") THEN 3 ELSE 2, Len(t))
CElem(c0, e) ==
  LET k == K(e)
      c == CASE k = "ws" -> c0
             [] k \in {"com", "comment", "{", "}"} -> [c0 EXCEPT !.skip = FALSE, !.comline = c0.start]
             [] k = "curly" -> [c0 EXCEPT !.skip = FALSE]
             \* braces of its arguments are not those of groups
             [] k \in {"cmd", "env", "formula", "attach"} ->
                  [c0 EXCEPT !.skip = FALSE, !.start = FALSE, !.comline = FALSE, !.work = <<Mark>> \o @]
             [] OTHER -> [c0 EXCEPT !.skip = FALSE, !.start = (k = "nl"), !.comline = FALSE]
  IN CASE k = "error" -> CFail(c)
       [] k \in {"lr", "arg", "root", "text", "bracket", "paren"} -> Then(c, DoAll(Kids(e)))
       [] k = "formula" -> CFormula(c, e)
       [] k = "curly" -> CCurly(c, e)
       [] k = "lrc" -> CClauseLR(c, e)
       [] k = "attach" -> CAttach(c, e)
       [] k \in {"name", "beginc", "endc"} -> CFail(c)
       [] k = "w" -> CWord(c, e[3])
       [] k \in SilentK -> c
       [] k = "ws" -> IF c.skip THEN [c EXCEPT !.skip = FALSE] ELSE Say(c, e[3])
       [] k = "nl" -> LET t == IF c0.comline THEN DropBreak(e[3]) ELSE e[3]
                       IN [(IF t = "" THEN c ELSE Say(c, t \o Rep(" ", c.indent))) EXCEPT !.skip = TRUE]
       [] k = "~" -> Say(c, IF c.mode = "math" THEN "space.nobreak " ELSE "~")
       [] k = "&" -> Say(c, IF c.env = "matrix" THEN "zws ," ELSE "&")
       [] k = "newline" -> Say(c, CASE c.env = "matrix" -> "zws ;"
                                    [] c.env = "cases" -> ","
                                    [] c.env = "curly" -> ""
                                    [] OTHER -> "\\ ")
       [] k = "sym" -> CSym(c, e)
       [] k = "cmd" -> CCommand(c, e)
       [] k = "env" -> CEnv(c, e)
       [] k = "typst" -> Say(c, TextOf(e))
       [] OTHER -> Say(c, EscapeOf[k])

CStep(c0) ==
  LET x == Head(c0.work)
      c == [c0 EXCEPT !.work = Tail(@)]
  IN CASE x.a = "elem" -> CElem(c, x.e)
       [] x.a = "emit" -> Say(c, x.s)
       [] x.a = "mode" -> [c EXCEPT !.mode = x.m]
       [] x.a = "enter" -> [c EXCEPT !.env = x.v, !.indent = IF x.v \in Lists THEN @ + 2 ELSE @]
       [] x.a = "exit" -> [c EXCEPT !.env = x.v, !.indent = IF c.env \in Lists THEN @ - 2 ELSE @]
       [] x.a = "line" -> [Say(c, "\n" \o Rep(" ", c.indent)) EXCEPT !.skip = TRUE]
       [] x.a = "mark" -> [c EXCEPT !.start = FALSE, !.comline = FALSE]
       [] x.a = "label" -> IF c.mode = "text"
                           THEN [(IF c.label = <<>> THEN c ELSE Say(c, "<" \o c.label[1] \o ">"))
                                   EXCEPT !.label = x.l]
                           ELSE c

RECURSIVE CRun(_)
CRun(c) == IF CDone(c) THEN c ELSE CRun(CStep(c))
\* <<TRUE, output>> or <<FALSE, "">>
ConvertTree(tree, sp, mode) ==
  LET c == CRun(CInit(tree, sp, mode)) IN IF c.err THEN <<FALSE, "">> ELSE <<TRUE, c.out>>
=============================================================================
