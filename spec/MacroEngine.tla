---------------------------- MODULE MacroEngine -----------------------------
(***************************************************************************)
(* The macro engine: a transducer from tokens to tokens.                    *)
(* State: inp  tokens still to be read (source and pushed back expansions), *)
(*        out  tokens already delivered to the parser,                      *)
(*        ifs  stack of open conditionals, innermost last,                  *)
(*        mac  definitions in force (name -> definition).                   *)
(* One step handles the first token of inp.                                 *)
(***************************************************************************)
EXTENDS Spec, Integers

MK == {"m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9"}
MArgNo(k) == CASE k = "m1" -> 1 [] k = "m2" -> 2 [] k = "m3" -> 3 [] k = "m4" -> 4
               [] k = "m5" -> 5 [] k = "m6" -> 6 [] k = "m7" -> 7 [] k = "m8" -> 8
               [] k = "m9" -> 9
MArgKind(d) == "m" \o d

Trivia == {"nl", "ws", "com"}
CmdKinds == {"cmd", "begin", "end", "bmath", "emath", "ebegin", "eend", "if",
             "else", "fi", "left", "right"}
ErrTok == <<"error", "">>

RECURSIVE SkipTriv(_)
SkipTriv(s) == IF s # <<>> /\ Head(s)[1] \in Trivia THEN SkipTriv(Tail(s)) ELSE s

HeadKind(s) == IF s = <<>> THEN "eof" ELSE Head(s)[1]
EatIf(s, k) == IF HeadKind(s) = k THEN Tail(s) ELSE s

\* tokens before the closing mark of the group whose opening mark was consumed
RECURSIVE BalLoop(_, _, _, _)
BalLoop(s, close, lvl, acc) ==
  IF s = <<>> THEN [toks |-> acc, rest |-> s, closed |-> FALSE]
  ELSE LET k == Head(s)[1] IN
       IF lvl = 0 /\ k = close THEN [toks |-> acc, rest |-> Tail(s), closed |-> TRUE]
       ELSE BalLoop(Tail(s), close,
                    IF k = "{" THEN lvl + 1 ELSE IF k = "}" THEN lvl - 1 ELSE lvl,
                    Append(acc, Head(s)))
Balanced(s, close) == BalLoop(s, close, 0, <<>>)

----------------------------------------------------------------------------
(* Parameter marks: '#' followed by a word starting with 1..9 becomes a      *)
(* parameter and takes that digit from the word.                             *)
Digits == {"1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsParam(def, i) == /\ i >= 1 /\ i < Len(def)
                   /\ def[i][1] = "#" /\ def[i + 1][1] = "w"
                   /\ def[i + 1][2] # "" /\ At(def[i + 1][2], 1) \in Digits
ProcessDef(def) ==
  LET m == [i \in 1 .. Len(def) |->
              IF IsParam(def, i) THEN <<MArgKind(At(def[i + 1][2], 1)), "#">>
              ELSE IF IsParam(def, i - 1) THEN <<"w", DropS(def[i][2], 1)>>
              ELSE def[i]]
  IN SelectSeq(m, LAMBDA t : ~(t[1] = "w" /\ t[2] = ""))

----------------------------------------------------------------------------
(* Definitions                                                               *)
DeclCmds ==
  [n \in {"newcommand", "newcommand*"} |-> [env |-> FALSE, act |-> "new"]] @@
  [n \in {"renewcommand", "renewcommand*"} |-> [env |-> FALSE, act |-> "renew"]] @@
  [n \in {"providecommand", "providecommand*"} |-> [env |-> FALSE, act |-> "provide"]] @@
  [n \in {"DeclareRobustCommand", "DeclareRobustCommand*"} |-> [env |-> FALSE, act |-> "declare"]] @@
  [n \in {"newenvironment", "newenvironment*"} |-> [env |-> TRUE, act |-> "new"]] @@
  [n \in {"renewenvironment", "renewenvironment*"} |-> [env |-> TRUE, act |-> "renew"]]
OtherDecls == {"DeclareTextCommand", "DeclareTextCommandDefault", "ProvideTextCommand",
               "ProvideTextCommandDefault", "AtEndOfClass", "AtEndOfPackage",
               "AtBeginDocument", "AtEndDocument"}

\* definitions in force at the beginning of every document
Builtin == [n \in (DOMAIN DeclCmds) |-> [t |-> "decl"] @@ DeclCmds[n]] @@
           [n \in OtherDecls |-> [t |-> "other"]]

Fail(rest) == [ok |-> FALSE, rest |-> rest]

\* the value of a decimal number word, -1 if it is none (or exceeds 9)
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
                 [] OTHER -> 0 - 1
RECURSIVE NumVal(_, _)
NumVal(s, acc) ==
  IF s = "" THEN acc
  ELSE LET d == DigitVal(At(s, 1)) IN
       IF d < 0 \/ acc * 10 + d > 255 THEN 0 - 1 ELSE NumVal(DropS(s, 1), acc * 10 + d)
NArgsOf(t) == IF t[1] # "w" THEN 0 - 1
              ELSE LET s == IF Len(t[2]) > 1 /\ At(t[2], 1) = "+" THEN DropS(t[2], 1) ELSE t[2]
                       v == NumVal(s, 0)
                   IN IF v > 9 THEN 0 - 1 ELSE v

\* {..}, or one single token
DefBody(s) == IF HeadKind(s) = "{" THEN Balanced(Tail(s), "}")
              ELSE [toks |-> <<Head(s)>>, rest |-> Tail(s)]

\* the parts after the name: [n][default]{body} (and {end body})
ReadDefinition(name, d, isEnv) ==
  LET d1 == SkipTriv(d)
      hasN == HeadKind(d1) = "["
      nw == IF hasN THEN SkipTriv(Tail(d1)) ELSE <<>>
      n == IF ~hasN THEN 0 ELSE IF nw = <<>> THEN 0 - 1 ELSE NArgsOf(Head(nw))
      afterN == IF ~hasN THEN d1
                ELSE IF nw = <<>> THEN <<>> ELSE SkipTriv(Tail(nw))
      d2 == IF hasN THEN EatIf(afterN, "]") ELSE d1
  IN IF d1 = <<>> THEN Fail(d1)
     ELSE IF hasN /\ (afterN = <<>> \/ n < 0) THEN Fail(d2)
     ELSE LET d3 == SkipTriv(d2)
              hasOpt == hasN /\ HeadKind(d3) = "["
              opt == IF hasOpt THEN Balanced(Tail(d3), "]") ELSE [toks |-> <<>>, rest |-> d3]
              d4 == SkipTriv(opt.rest)
          IN IF d4 = <<>> THEN Fail(d4)
             ELSE LET b == DefBody(d4)
                      e0 == SkipTriv(b.rest)
                      hasEnd == HeadKind(e0) = "{"
                      e == IF hasEnd THEN Balanced(Tail(e0), "}") ELSE [toks |-> <<>>, rest |-> e0]
                      m == [n |-> n, hasOpt |-> hasOpt, opt |-> opt.toks,
                            def |-> ProcessDef(b.toks)]
                  IN IF ~isEnv
                     THEN [ok |-> TRUE, rest |-> b.rest, name |-> name,
                           m |-> [t |-> "cmd"] @@ m]
                     ELSE IF ~hasEnd THEN Fail(e0)
                     ELSE [ok |-> TRUE, rest |-> e.rest, name |-> name,
                           m |-> [t |-> "env", end |-> ProcessDef(e.toks)] @@ m]

\* inp starts with the defining command
Identify(inp, isEnv) ==
  LET a == SkipTriv(Tail(inp)) IN
  IF HeadKind(a) # "{" THEN Fail(a)
  ELSE LET b == SkipTriv(Tail(a)) IN
       IF b = <<>> THEN Fail(b)
       ELSE LET c == SkipTriv(Tail(b)) IN
            IF c = <<>> THEN Fail(c)
            ELSE LET d == EatIf(c, "}")
                     h == Head(b)
                 IN IF isEnv
                    THEN IF h[1] # "w" THEN Fail(d) ELSE ReadDefinition(h[2], d, TRUE)
                    ELSE IF h[1] \notin CmdKinds \ {"begin", "end"} THEN Fail(d)
                         ELSE ReadDefinition(DropS(h[2], 1), d, FALSE)

----------------------------------------------------------------------------
(* Uses                                                                      *)
RECURSIVE ArgLoop(_, _, _)
ArgLoop(s, n, args) ==
  IF Len(args) = n THEN [ok |-> TRUE, args |-> args, rest |-> s]
  ELSE LET p == SkipTriv(s) IN
       IF p = <<>> THEN Fail(p)
       ELSE LET h == Head(p) IN
            CASE h[1] = "{" -> LET b == Balanced(Tail(p), "}")
                               IN IF b.closed THEN ArgLoop(b.rest, n, Append(args, b.toks))
                                  ELSE Fail(b.rest)
              [] h[1] = "w" -> ArgLoop((IF Len(h[2]) = 1 THEN <<>> ELSE <<<<"w", DropS(h[2], 1)>>>>) \o Tail(p),
                                       n, Append(args, <<<<"w", At(h[2], 1)>>>>))
              [] OTHER -> ArgLoop(Tail(p), n, Append(args, <<h>>))

ReadArgs(s, m) ==
  IF m.n = 0 THEN [ok |-> TRUE, args |-> <<>>, rest |-> s]
  ELSE IF ~m.hasOpt THEN ArgLoop(s, m.n, <<>>)
  ELSE LET p == SkipTriv(s) IN
       IF HeadKind(p) = "["
       THEN LET b == Balanced(Tail(p), "]")
            IN IF b.closed THEN ArgLoop(b.rest, m.n, <<b.toks>>) ELSE Fail(b.rest)
       ELSE ArgLoop(p, m.n, <<m.opt>>)

\* everything up to the \end on the own level; it must name this environment
RECURSIVE BodyLoop(_, _, _, _)
BodyLoop(s, name, lvl, acc) ==
  IF s = <<>> THEN Fail(s)
  ELSE LET h == Head(s) IN
       CASE h[1] = "end" /\ lvl = 0 ->
              IF h[2] = name THEN [ok |-> TRUE, body |-> acc, rest |-> Tail(s)] ELSE Fail(s)
         [] h[1] = "end" -> BodyLoop(Tail(s), name, lvl - 1, Append(acc, h))
         [] h[1] = "begin" -> BodyLoop(Tail(s), name, lvl + 1, Append(acc, h))
         [] OTHER -> BodyLoop(Tail(s), name, lvl, Append(acc, h))

\* the argument of \mitexrecurse is kept as it is, without its braces
RECURSIVE RecLoop(_, _, _, _)
RecLoop(s, i, bc, acc) ==
  IF i > Len(s) THEN [i |-> i, bc |-> bc, acc |-> acc]
  ELSE LET e == s[i] IN
       CASE e[1] = "{" -> RecLoop(s, i + 1, bc + 1, IF bc > 0 THEN Append(acc, e) ELSE acc)
         [] e[1] = "}" -> IF bc - 1 = 0 THEN [i |-> i, bc |-> 0, acc |-> acc]
                          ELSE RecLoop(s, i + 1, bc - 1, Append(acc, e))
         [] bc # 0 -> RecLoop(s, i + 1, bc, Append(acc, e))
         [] e[1] \notin Trivia -> [i |-> i, bc |-> bc, acc |-> Append(acc, e)]
         [] OTHER -> RecLoop(s, i + 1, bc, acc)

RECURSIVE SubstLoop(_, _, _, _, _)
SubstLoop(def, args, i, bc, acc) ==
  IF i > Len(def) THEN acc
  ELSE LET e == def[i] IN
       IF e[1] \in MK
       THEN SubstLoop(def, args, i + 1, bc,
                      IF MArgNo(e[1]) <= Len(args) THEN acc \o args[MArgNo(e[1])] ELSE acc)
       ELSE IF e = <<"cmd", "\\mitexrecurse">>
       THEN LET r == RecLoop(def, i + 1, bc, acc) IN SubstLoop(def, args, r.i + 1, r.bc, r.acc)
       ELSE SubstLoop(def, args, i + 1, bc, Append(acc, e))
Subst(def, args) == SubstLoop(def, args, 1, 0, <<>>)

----------------------------------------------------------------------------
(* Conditionals.  Entries of ifs:                                            *)
(*   lit  in the (kept as a comment) true branch of \iffalse                 *)
(*   tt / tf  first / later branch of \iftypst                               *)
(*   T / F    taken / skipped branch of \iftrue (or else branch of \iffalse) *)
(*   none     any other conditional, which is left to the parser             *)
RECURSIVE SkipFalse(_, _)
SkipFalse(s, nested) ==
  IF s = <<>> THEN s
  ELSE LET k == Head(s)[1] IN
       CASE k = "if" -> SkipFalse(Tail(s), nested + 1)
         [] k = "else" /\ nested = 0 -> s
         [] k = "fi" /\ nested = 0 -> s
         [] k = "fi" -> SkipFalse(Tail(s), nested - 1)
         [] OTHER -> SkipFalse(Tail(s), nested)

Commented(e) == \E i \in 1 .. Len(e.ifs) : e.ifs[i] = "lit"
TopIf(e) == IF e.ifs = <<>> THEN "none" ELSE Top(e.ifs)

EInit(toks, sp) ==
  [inp |-> toks, out |-> <<>>, ifs |-> <<>>, mac |-> Builtin, sp |-> sp, used |-> 0]
\* definitions that use themselves are out of scope: give up after a bound
Diverged(e) == e.used > 400 \/ Len(e.inp) > 6000
EDone(e) == e.inp = <<>> \/ Diverged(e)

Deliver(e) == [e EXCEPT !.inp = Tail(@), !.out = Append(@, Head(e.inp))]

StepIf(e) ==
  LET t == Head(e.inp)
      r == Tail(e.inp)
  IN CASE t[2] = "\\iffalse" -> [e EXCEPT !.inp = r, !.out = Append(@, t), !.ifs = Append(@, "lit")]
       [] t[2] = "\\iftrue" -> [e EXCEPT !.inp = r, !.ifs = Append(@, "T")]
       [] t[2] = "\\iftypst" -> [e EXCEPT !.inp = r, !.out = Append(@, t), !.ifs = Append(@, "tt")]
       [] OTHER -> [e EXCEPT !.inp = r, !.out = Append(@, t), !.ifs = Append(@, "none")]

SetTop(e, v) == [e.ifs EXCEPT ![Len(e.ifs)] = v]
StepElse(e) ==
  LET r == Tail(e.inp) IN
  CASE TopIf(e) = "tt" -> [e EXCEPT !.inp = SkipFalse(r, 0), !.ifs = SetTop(e, "tf")]
    [] TopIf(e) = "T" -> [e EXCEPT !.inp = SkipFalse(r, 0), !.ifs = SetTop(e, "F")]
    [] TopIf(e) = "F" -> [e EXCEPT !.inp = r, !.ifs = SetTop(e, "T")]
    [] TopIf(e) = "tf" -> [e EXCEPT !.inp = r, !.ifs = SetTop(e, "tt")]
    [] TopIf(e) = "lit" -> [e EXCEPT !.inp = r, !.ifs = SetTop(e, "T"),
                                     !.out = Append(@, <<"fi", "\\fi">>)]
    [] OTHER -> Deliver(e)

StepFi(e) ==
  LET ifs1 == IF e.ifs = <<>> THEN <<>> ELSE Init_(e.ifs) IN
  IF TopIf(e) \in {"T", "F"} THEN [e EXCEPT !.inp = Tail(@), !.ifs = ifs1]
  ELSE [Deliver(e) EXCEPT !.ifs = ifs1]

Define(e, d, act) ==
  LET e1 == [e EXCEPT !.inp = d.rest]
      set == [e.mac EXCEPT ![d.name] = d.m]
      upd == IF d.name \in DOMAIN e.mac THEN set ELSE (d.name :> d.m) @@ e.mac
      bad == [e1 EXCEPT !.out = Append(@, ErrTok), !.mac = upd]
      good == [e1 EXCEPT !.mac = upd]
  IN CASE act = "new" -> IF d.name \in DOMAIN e.mac THEN bad ELSE good
       [] act = "renew" -> IF d.name \notin DOMAIN e.mac /\ ~HasName(e.sp, d.name) THEN bad ELSE good
       [] act = "declare" -> good
       [] act = "provide" -> IF d.name \in DOMAIN e.mac THEN e1 ELSE good

ErrAt(e, rest) == [e EXCEPT !.inp = rest, !.out = Append(@, ErrTok)]

StepMacro(e, name, isEnv) ==
  IF name \notin DOMAIN e.mac THEN Deliver(e)
  ELSE LET m == e.mac[name] IN
       IF (m.t = "env") # isEnv THEN Deliver(e)
       ELSE CASE m.t = "decl" -> LET d == Identify(e.inp, m.env)
                                 IN IF d.ok THEN Define(e, d, m.act) ELSE [e EXCEPT !.inp = d.rest]
              [] m.t = "other" -> Deliver(e)
              [] m.t = "cmd" -> LET a == ReadArgs(Tail(e.inp), m)
                                IN IF a.ok
                                   THEN [e EXCEPT !.inp = Subst(m.def, a.args) \o a.rest, !.used = @ + 1]
                                   ELSE ErrAt(e, a.rest)
              [] m.t = "env" -> LET a == ReadArgs(Tail(e.inp), m)
                                    b == BodyLoop(a.rest, name, 0, <<>>)
                                IN IF ~a.ok THEN ErrAt(e, a.rest)
                                   ELSE IF ~b.ok THEN ErrAt(e, b.rest)
                                   ELSE [e EXCEPT !.inp = Subst(m.def, a.args) \o b.body \o
                                                          Subst(m.end, a.args) \o b.rest, !.used = @ + 1]

EStep(e) ==
  LET t == Head(e.inp) IN
  CASE t[1] = "if" -> StepIf(e)
    [] t[1] = "else" -> StepElse(e)
    [] t[1] = "fi" -> StepFi(e)
    [] t[1] = "cmd" /\ ~Commented(e) -> StepMacro(e, DropS(t[2], 1), FALSE)
    [] t[1] = "begin" /\ ~Commented(e) -> StepMacro(e, t[2], TRUE)
    [] OTHER -> Deliver(e)

RECURSIVE ERun(_)
ERun(e) == IF EDone(e) THEN e ELSE ERun(EStep(e))
Expand(toks, sp) == ERun(EInit(toks, sp)).out
=============================================================================
