------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The parser: a pushdown machine from tokens to a concrete syntax tree.    *)
(*                                                                         *)
(* State                                                                   *)
(*   inp   tokens still to be read                                         *)
(*   ch    finished elements that are not yet wrapped into their node      *)
(*   par   open nodes, outermost first: <<kind, number of the elements of  *)
(*         ch that precede it>>                                            *)
(*   ls    list state: [start, last, scope]; start/last are positions in   *)
(*         ch (None if there is nothing to attach to)                      *)
(*   tv    white space and comments read between arguments                 *)
(*   stk   control stack of pending frames, innermost last                 *)
(*   ret   whether the item just parsed can be attached to                 *)
(* Elements are <<"T", kind, text>> and <<"N", kind, children>>.           *)
(***************************************************************************)
EXTENDS Spec, Integers, FiniteSets, Glob

None == 0 - 1
TriviaK == {"nl", "ws", "com"}
MargK == {"m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9"}

\* the syntax kind of a token
SynKind(k) == CASE k \in {"cmd", "if", "else", "fi", "left", "right"} -> "name"
                [] k \in {"begin", "end"} -> "sym"
                [] k \in {"error", "ebegin", "eend"} -> "error"
                [] k \in MargK -> "w"
                [] OTHER -> k
Leaf(t) == <<"T", SynKind(t[1]), t[2]>>

\* ---- the tree builder ----
Cp(s) == Len(s.ch)
Start(s, kind) == [s EXCEPT !.par = Append(@, <<kind, Len(s.ch)>>)]
StartAt(s, cp, kind) == [s EXCEPT !.par = Append(@, <<kind, cp>>)]
Finish(s) == LET p == Top(s.par)
             IN [s EXCEPT !.par = Init_(@),
                          !.ch = Append(SubSeq(@, 1, p[2]),
                                        <<"N", p[1], SubSeq(@, p[2] + 1, Len(@))>>)]
Put(s, elem) == [s EXCEPT !.ch = Append(@, elem)]

\* ---- reading tokens ----
Peek(s) == IF s.inp = <<>> THEN "eof" ELSE Head(s.inp)[1]
Eat(s) == [s EXCEPT !.inp = Tail(@), !.ch = Append(@, Leaf(Head(s.inp)))]
EatAs(s, k) == [s EXCEPT !.inp = Tail(@), !.ch = Append(@, <<"T", k, Head(s.inp)[2]>>)]
DropTok(s) == [s EXCEPT !.inp = Tail(@)]
Hold(s) == [s EXCEPT !.inp = Tail(@), !.tv = Append(@, Head(s.inp))]
EatIfK(s, k) == IF Peek(s) = k THEN Eat(s) ELSE s
RECURSIVE EatTrivia(_)
EatTrivia(s) == IF Peek(s) \in TriviaK THEN EatTrivia(Eat(s)) ELSE s
\* remove the first n characters of a word token
ConsumeChars(s, n) ==
  LET w == Head(s.inp)[2]
  IN IF n >= Len(w) THEN DropTok(s)
     ELSE [s EXCEPT !.inp = <<<<Head(@)[1], DropS(w, n)>>>> \o Tail(@)]
SingleChar(s) == ConsumeChars(Put(s, <<"T", "w", At(Head(s.inp)[2], 1)>>), 1)
FlushHeld(s) == [s EXCEPT !.ch = @ \o [i \in 1 .. Len(s.tv) |-> Leaf(s.tv[i])], !.tv = <<>>]

\* ---- scopes ----
Closers(scope) ==
  CASE scope = "root" -> {}
    [] scope = "dollar" -> {"}", "end", "right", "$"}
    [] scope = "cmdmath" -> {"}", "end", "right", "emath"}
    [] scope = "env" -> {"}", "end"}
    [] scope = "{" -> {"}"}
    [] scope = "[" -> {"}", "]", "end", "right"}
    [] scope = "(" -> {"}", ")", "end", "right"}
    [] scope = "lr" -> {"}", "end", "right"}
Stops(s, k) == k \in Closers(s.ls.scope)

\* ---- frames ----
Push(s, frames) == [s EXCEPT !.stk = @ \o frames]    \* the last one runs first
Ret(s, v) == [s EXCEPT !.ret = v]

\* start a list of items in the given scope
EnterList(s, scope) ==
  LET cp == Cp(s)
  IN Push([s EXCEPT !.ls = [start |-> cp, last |-> None, scope |-> scope]],
          <<[f |-> "list", saved |-> s.ls, cur |-> cp, wait |-> FALSE, cell |-> FALSE]>>)

FrRet(v) == [f |-> "ret", v |-> v]
FrFin == [f |-> "fin"]
FrEatIf(k) == [f |-> "eatif", k |-> k]
FrContent(whole) == [f |-> "content", whole |-> whole]

GroupInfo(scope) ==
  CASE scope = "{" -> [close |-> "}", kind |-> "curly"]
    [] scope = "[" -> [close |-> "]", kind |-> "bracket"]
    [] scope = "(" -> [close |-> ")", kind |-> "paren"]
    [] scope = "dollar" -> [close |-> "$", kind |-> "formula"]
    [] scope = "cmdmath" -> [close |-> "emath", kind |-> "formula"]

Group(s, scope, ret) ==
  LET g == GroupInfo(scope)
  IN EnterList(Push(Eat(Start(s, g.kind)), <<FrRet(ret), FrFin, FrEatIf(g.close)>>), scope)

ErrorItem(s) == Ret(Finish(Eat(Start(s, "error"))), TRUE)

TextK == {"nl", "ws", "com", "w", ","}
RECURSIVE EatText(_)
EatText(s) == IF Peek(s) \in TextK THEN EatText(Eat(s)) ELSE s
TextItem(s) == Ret(Finish(EatText(Eat(Start(s, "text")))), TRUE)

\* ---- commands ----
\* shapes: <<"none">> | <<"n", max>> | <<"greedy">> | <<"glob", pattern>>
\*         | <<"left1">> | <<"infix">>
NewMatcher(shape) ==
  CASE shape[1] = "none" -> [k |-> "none"]
    [] shape[1] = "n" -> IF shape[2] = 0 THEN [k |-> "none"]
                         ELSE [k |-> "atmost", max |-> shape[2], n |-> 0]
    [] shape[1] = "greedy" -> [k |-> "greedy"]
    [] shape[1] = "glob" -> [k |-> "glob", re |-> shape[2], pre |-> ""]

\* may an argument of kind c (t, b or p) follow?  [ok, m]: answer and new matcher
TryMatch(m, c) ==
  CASE m.k = "none" -> [ok |-> FALSE, m |-> m]
    [] m.k = "greedy" -> [ok |-> TRUE, m |-> m]
    [] m.k = "atmost" -> IF c = "t" /\ m.n < m.max THEN [ok |-> TRUE, m |-> [m EXCEPT !.n = @ + 1]]
                         ELSE [ok |-> FALSE, m |-> m]
    [] m.k = "glob" -> IF PrefixMatch(m.re, m.pre \o c)
                       THEN [ok |-> TRUE, m |-> [m EXCEPT !.pre = @ \o c]]
                       ELSE [ok |-> FALSE, m |-> m]

FrMatch(m, greedy) == [f |-> "match", m |-> m, greedy |-> greedy, phase |-> "next", cur |-> None]

EnterMatch(s, shape, greedy) ==
  Push([s EXCEPT !.ls.last = None,
                 !.ls.start = IF greedy THEN Cp(s) ELSE None],
       <<[f |-> "lsback", start |-> s.ls.start], FrMatch(NewMatcher(shape), greedy)>>)

StartCmdAt(s, pos) ==
  IF pos = None THEN Start(s, "cmd")
  ELSE Finish(StartAt(StartAt(s, pos, "cmd"), pos, "arg"))

CmdShape(s, name) ==
  IF HasCmd(s.sp, name) THEN Shape(s.sp, name) ELSE <<"unknown">>
EnvShape(s, name) ==
  IF HasEnv(s.sp, name) THEN Shape(s.sp, name) ELSE <<"none">>

Command(s) ==
  LET shape == CmdShape(s, DropS(Head(s.inp)[2], 1)) IN
  CASE shape[1] \in {"unknown", "none"} \/ shape = <<"n", 0>> ->
         Ret(Finish(Eat(Start(s, "cmd"))), TRUE)
    [] shape[1] = "left1" ->
         LET pos == IF s.ls.last # None THEN s.ls.last ELSE s.ls.start
         IN Ret(Finish(Eat(StartCmdAt(s, pos))), FALSE)
    [] shape[1] = "infix" ->
         LET s1 == StartCmdAt([s EXCEPT !.ls.start = None], s.ls.start)
         IN EnterMatch(Push(Start(Eat(s1), "arg"),
                            <<FrRet(FALSE), [f |-> "flush"], FrFin, FrFin>>), <<"greedy">>, TRUE)
    [] shape[1] = "greedy" ->
         EnterMatch(Push(Start(Eat(Start(s, "cmd")), "arg"),
                         <<FrRet(FALSE), [f |-> "flush"], FrFin, FrFin>>), shape, TRUE)
    [] OTHER ->
         EnterMatch(Push(Eat(Start(s, "cmd")), <<FrRet(TRUE), [f |-> "flush"], FrFin>>), shape, FALSE)

Environment(s) ==
  LET shape == EnvShape(s, Head(s.inp)[2])
      s1 == Push(Eat(Start(Start(s, "env"), "beginc")),
                 <<FrRet(TRUE), FrFin, [f |-> "envend"], [f |-> "envbody"], [f |-> "flush"], FrFin>>)
  IN IF shape[1] = "none" \/ shape = <<"n", 0>> THEN s1 ELSE EnterMatch(s1, shape, FALSE)

ClauseLR(s) ==
  LET s1 == EatTrivia(Eat(Start(s, "lrc")))
      k == Peek(s1)
      s2 == CASE k = "cmd" -> EatAs(s1, "sym")
              [] k \in {"begin", "end", "bmath", "emath", "ebegin", "eend", "if",
                        "else", "fi", "left", "right", "$", "eof"} -> s1
              [] k = "w" -> SingleChar(s1)
              [] OTHER -> Eat(s1)
  IN Finish(s2)

LrItem(s) == EnterList(Push(ClauseLR(Start(s, "lr")),
                            <<FrRet(TRUE), FrFin, [f |-> "lrend"]>>), "lr")

RECURSIVE EatIfs(_, _)
EatIfs(s, nested) ==
  CASE Peek(s) = "eof" -> s
    [] Peek(s) = "if" -> EatIfs(Eat(s), nested + 1)
    [] Peek(s) = "fi" /\ nested = 0 -> DropTok(s)
    [] Peek(s) = "fi" -> EatIfs(Eat(s), nested - 1)
    [] OTHER -> EatIfs(Eat(s), nested)
Verbatim(s, kind) == Ret(Finish(EatIfs(DropTok(Start(s, kind)), 0)), TRUE)

\* an apostrophe or a script: wraps the last item, if there is one
Attach(s, script) ==
  IF s.ls.last = None /\ ~script THEN Ret(Eat(s), FALSE)
  ELSE LET s1 == IF s.ls.last # None
                 THEN Finish(StartAt(StartAt(s, s.ls.last, "attach"), s.ls.last, "arg"))
                 ELSE Start(s, "attach")
           s2 == Eat(s1)
       IN IF ~script THEN Ret(Finish(s2), FALSE)
          ELSE LET s3 == EatTrivia(s2)
               IN Push([s3 EXCEPT !.ls.start = None, !.ls.last = None],
                       <<FrRet(FALSE), FrFin, [f |-> "lsset", ls |-> s3.ls], FrContent(FALSE)>>)

Content(s, whole) ==
  LET k == Peek(s) IN
  CASE k = "eof" -> Ret(s, TRUE)
    [] k \in {"&", "newline", "nl", "ws", "com", "#", "*", "@", "error"} -> Ret(Eat(s), FALSE)
    [] k = "'" -> Attach(s, FALSE)
    [] k \in {"_", "^"} -> Attach(s, TRUE)
    [] k = "{" -> Group(s, "{", TRUE)
    [] k = "}" \/ k \in MargK -> ErrorItem(s)
    [] k \in {"[", "(", "]", ")", "~", "/", "\"", ";"} -> Ret(Eat(s), TRUE)
    [] k = "w" -> IF whole THEN TextItem(s) ELSE Ret(SingleChar(s), TRUE)
    [] k = "," -> IF whole THEN TextItem(s) ELSE Ret(Eat(s), TRUE)
    [] k = "$" -> Group(s, "dollar", TRUE)
    [] k = "cmd" -> Command(s)
    [] k = "begin" -> Environment(s)
    [] k = "bmath" -> Group(s, "cmdmath", TRUE)
    [] k = "if" /\ Head(s.inp)[2] = "\\iffalse" -> Verbatim(s, "comment")
    [] k = "if" /\ Head(s.inp)[2] = "\\iftypst" -> Verbatim(s, "typst")
    [] k \in {"if", "else", "fi", "right"} -> Command(s)
    [] k = "left" -> LrItem(s)
    [] k \in {"ebegin", "eend"} -> Ret(Eat(s), TRUE)
    [] k \in {"end", "emath"} -> ErrorItem(s)

\* ---- argument matching ----
\* hand the characters of the word to the matcher one by one
RECURSIVE WordArgs(_, _, _, _)
WordArgs(s, w, i, m) ==           \* [s, m, n]: state, matcher, characters taken
  IF i > Len(w) THEN [s |-> s, m |-> m, n |-> i - 1]
  ELSE LET r == TryMatch(m, "t") IN
       IF ~r.ok THEN [s |-> s, m |-> r.m, n |-> i - 1]
       ELSE WordArgs([Put(s, <<"N", "arg", <<<<"T", "w", At(w, i)>>>>>>) EXCEPT !.tv = <<>>],
                     w, i + 1, r.m)

BraceArg(k) == CASE k = "{" -> "t" [] k = "[" -> "b" [] k = "(" -> "p"

StepMatch(s0, fr) ==
  \* s0: state with the frame removed
  LET k == Peek(s0)
      greedy == fr.greedy
      Again(s, f2) == Push(s, <<f2>>)
  IN
  CASE k = "eof" -> s0
    [] k \in TriviaK -> Again(IF greedy THEN Eat(s0) ELSE Hold(s0), fr)
    [] k = "newline" /\ greedy /\ s0.ls.scope = "env" -> s0
    [] k = "&" -> s0
    [] k \in {"^", "_"} /\ ~greedy -> s0
    [] k = "w" /\ ~greedy ->
         LET w == Head(s0.inp)[2]
             r == WordArgs(s0, w, 1, fr.m)
             s1 == IF r.n = 0 THEN s0
                   ELSE LET c == ConsumeChars([r.s EXCEPT !.inp = s0.inp], r.n) IN c
         IN IF r.n < Len(w) THEN s1 ELSE Again(s1, [fr EXCEPT !.m = r.m])
    [] k \in {"{", "[", "("} ->
         LET c == BraceArg(k)
             \* without a pattern every kind of bracket counts as an item
             r0 == TryMatch(fr.m, c)
             \* a bracket that does not match as such is an item of its own
             asTerm == fr.m.k = "atmost" \/ (fr.m.k = "glob" /\ ~r0.ok)
             r == IF asTerm THEN TryMatch(fr.m, "t") ELSE r0
             single == (fr.m.k = "greedy" \/ asTerm) /\ c # "t"
         IN IF ~r.ok THEN s0
            ELSE IF greedy
            THEN LET cur == Cp(s0)
                     s1 == Again(s0, [fr EXCEPT !.m = r.m, !.phase = "setlast", !.cur = cur])
                 IN IF single THEN Eat(s1) ELSE Group(s1, k, TRUE)
            ELSE LET s1 == Push([Start(s0, "arg") EXCEPT !.tv = <<>>],
                                <<[fr EXCEPT !.m = r.m], FrFin>>)
                 IN IF single THEN Eat(s1) ELSE Group(s1, k, TRUE)
    [] OTHER ->
         LET r == TryMatch(fr.m, "t") IN
         IF Stops(s0, k) \/ ~r.ok THEN s0
         ELSE IF greedy
         THEN Push(s0, <<[fr EXCEPT !.m = r.m, !.phase = "setlastif", !.cur = Cp(s0)], FrContent(TRUE)>>)
         ELSE Push([Start(s0, "arg") EXCEPT !.tv = <<>>],
                   <<[fr EXCEPT !.m = r.m], FrFin, FrContent(FALSE)>>)

PInit(toks, sp) ==
  LET s0 == [inp |-> toks, ch |-> <<>>, par |-> <<>>, tv |-> <<>>, stk |-> <<>>, ret |-> TRUE,
             ls |-> [start |-> None, last |-> None, scope |-> "root"], sp |-> sp]
  IN EnterList(Push(Start(s0, "root"), <<FrFin>>), "root")
PDone(s) == s.stk = <<>>

PStep(s) ==
  LET fr == Top(s.stk)
      s0 == [s EXCEPT !.stk = Init_(@)]
  IN CASE fr.f = "list" ->
            IF fr.wait
            THEN \* back from an item
                 \* (neither scripts nor infix commands take the items of the cell before)
                 Push([s0 EXCEPT !.ls.last = IF fr.cell THEN None ELSE IF s.ret THEN fr.cur ELSE @,
                                 !.ls.start = IF fr.cell THEN Cp(s0) ELSE @],
                      <<[fr EXCEPT !.wait = FALSE, !.cur = Cp(s0)]>>)
            ELSE IF Peek(s) = "eof" \/ Stops(s, Peek(s)) THEN [s0 EXCEPT !.ls = fr.saved]
            ELSE Content(Push(s0, <<[fr EXCEPT !.wait = TRUE, !.cell = Peek(s) \in {"&", "newline"}]>>), TRUE)
       [] fr.f = "content" -> Content(s0, fr.whole)
       [] fr.f = "ret" -> Ret(s0, fr.v)
       [] fr.f = "fin" -> Finish(s0)
       [] fr.f = "eatif" -> EatIfK(s0, fr.k)
       [] fr.f = "flush" -> FlushHeld(s0)
       [] fr.f = "lsset" -> [s0 EXCEPT !.ls = fr.ls]
       [] fr.f = "lsback" -> [s0 EXCEPT !.ls.start = fr.start, !.ls.last = None]
       [] fr.f = "envbody" -> EnterList(s0, "env")
       [] fr.f = "envend" -> IF Peek(s) = "end" THEN Finish(Eat(Start(s0, "endc"))) ELSE s0
       [] fr.f = "lrend" -> IF Peek(s) = "right" THEN ClauseLR(s0) ELSE s0
       [] fr.f = "match" ->
            LET s1 == CASE fr.phase = "setlast" -> [s0 EXCEPT !.ls.last = fr.cur]
                        [] fr.phase = "setlastif" /\ s.ret -> [s0 EXCEPT !.ls.last = fr.cur]
                        [] OTHER -> s0
            IN StepMatch(s1, [fr EXCEPT !.phase = "next"])

RECURSIVE PRun(_)
PRun(s) == IF PDone(s) THEN s ELSE PRun(PStep(s))
Parse(toks, sp) == PRun(PInit(toks, sp)).ch[1]

----------------------------------------------------------------------------
\* canonical rendering of an element
RECURSIVE Render(_)
Render(e) ==
  IF e[1] = "T" THEN e[2] \o ":" \o ToString(Len(e[3])) \o ":" \o e[3]
  ELSE e[2] \o "(" \o JoinSep([i \in 1 .. Len(e[3]) |-> Render(e[3][i])], " ") \o ")"

\* leaves of an element in order
RECURSIVE Leaves(_)
Leaves(e) == IF e[1] = "T" THEN <<e>>
             ELSE FoldLeft(LAMBDA a, b : a \o b, <<>>, [i \in 1 .. Len(e[3]) |-> Leaves(e[3][i])])
RECURSIVE TextOf(_)
TextOf(e) == IF e[1] = "T" THEN e[3] ELSE Cat([i \in 1 .. Len(e[3]) |-> TextOf(e[3][i])])
=============================================================================
