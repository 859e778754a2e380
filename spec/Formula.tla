------------------------------ MODULE Formula -------------------------------
(***************************************************************************)
(* An author writing a formula, and what the formula means.                 *)
(*                                                                         *)
(* The state is the source written so far and a stack of open constructs;   *)
(* every action writes a piece of source: an atom, the start of a command,  *)
(* of one of its arguments, of a group, of \left..\right, of an             *)
(* environment, of a script, the end of any of these, the next cell or row. *)
(* Along with the source goes its meaning: a sequence of nodes               *)
(*   <<"t", c>>                a character                                   *)
(*   <<"att", base, sup, sub>> scripts        <<"pr", n>> primes             *)
(*   <<"frac", n, d>>  <<"root", index, body>>  <<"binom", n, k>>            *)
(*   <<"lr", body, size>>  delimiters of that size    <<"mid", x>>           *)
(*   <<"acc", base, mark>>  <<"over"/"under".., x>>  <<"style", x, name>>     *)
(*   <<"mat", open, rows>>  <<"cases", side, rows>>  <<"array", aligns, rows>> *)
(*   <<"block", x>>  with <<"&">> and <<"br">> in it    <<"op", x, limits>>  *)
(*   <<"h", amount>>  <<"class", c, x>>  <<"cancel", how, x>>  ..             *)
(* The tables below say, by LaTeX name, what every command means.           *)
(***************************************************************************)
EXTENDS Util, Json, IOUtils, Integers, FiniteSets, SequencesExt

FConf == JsonDeserialize(IOEnv.FORMULA)
  \* atoms: [s: source, m: meaning, split: scripts go to its last part, big, first]
  \* use: names of the constructs, fuel, depth, defs: definitions in front
Atoms == FConf.atoms
Use == {FConf.use[i] : i \in 1 .. Len(FConf.use)}

----------------------------------------------------------------------------
(* what the commands mean                                                   *)
StyleOf ==
  [mathbf |-> "boldupright", bold |-> "bold", bm |-> "bold", boldsymbol |-> "bold", pmb |-> "bold", mathrm |-> "upright",
   mathit |-> "italic", mathnormal |-> "italic", mathsf |-> "sans", mathfrak |-> "frak", mathtt |-> "mono", Bbb |-> "bb",
   mathbb |-> "bb", mathcal |-> "cal", mathscr |-> "scr"]
TextStyleOf == [text |-> "", textmd |-> "", textnormal |-> "", textbf |-> "bold", textit |-> "italic", textrm |-> "upright",
                textup |-> "upright", textsf |-> "sans", texttt |-> "mono"]
\* these hold until the end of the group
DeclOf ==
  [displaystyle |-> "display", textstyle |-> "inline", scriptstyle |-> "script", scriptscriptstyle |-> "sscript",
   bf |-> "boldupright", rm |-> "upright", it |-> "italic", sf |-> "sans", frak |-> "frak", tt |-> "mono", cal |-> "cal"]
AccentOf ==
  [grave |-> "300", acute |-> "301", hat |-> "302", widehat |-> "302", tilde |-> "303", widetilde |-> "303", bar |-> "304",
   breve |-> "306", u |-> "306", dot |-> "307", ddot |-> "308", dddot |-> "20db", ddddot |-> "20dc", H |-> "30b",
   check |-> "30c", widecheck |-> "30c", v |-> "30c", r |-> "30a", mathring |-> "30a", vec |-> "20d7",
   overrightarrow |-> "20d7", overleftarrow |-> "20d6", overleftharpoon |-> "20d0", overrightharpoon |-> "20d1",
   overleftrightarrow |-> "20e1", overlinesegment |-> "20e9", overgroup |-> "311", undergroup |-> "32e"]
ClassOf == [mathbin |-> "binary", mathclose |-> "closing", mathinner |-> "fence", mathop |-> "unary", mathopen |-> "opening",
            mathord |-> "normal", mathpunct |-> "punctuation", mathrel |-> "relation"]
SizeOf == [big |-> "1.2em", bigl |-> "1.2em", bigm |-> "1.2em", bigr |-> "1.2em", Big |-> "1.8em", Bigl |-> "1.8em",
           Bigm |-> "1.8em", Bigr |-> "1.8em", bigg |-> "2.4em", biggl |-> "2.4em", biggm |-> "2.4em", biggr |-> "2.4em",
           Bigg |-> "3em", Biggl |-> "3em", Biggm |-> "3em", Biggr |-> "3em"]
BraceOf == [overbrace |-> "overbrace", underbrace |-> "underbrace", overbracket |-> "overbracket", underbracket |-> "underbracket"]
ArrowOf ==
  [xleftarrow |-> "←", xrightarrow |-> "→", xLeftarrow |-> "⇐", xRightarrow |-> "⇒", xleftrightarrow |-> "↔",
   xLeftrightarrow |-> "⇔", xhookleftarrow |-> "↩", xhookrightarrow |-> "↪", xtwoheadleftarrow |-> "↞",
   xtwoheadrightarrow |-> "↠", xleftharpoonup |-> "↼", xrightharpoonup |-> "⇀", xleftharpoondown |-> "↽",
   xrightharpoondown |-> "⇁", xleftrightharpoons |-> "⇋", xrightleftharpoons |-> "⇌", xtofrom |-> "⇄", xmapsto |-> "↦",
   xlongequal |-> "="]
PlainMat == [matrix |-> "", pmatrix |-> "(", bmatrix |-> "[", Bmatrix |-> "{", vmatrix |-> "|", Vmatrix |-> "‖"]
DisplayEnvs == {"aligned", "align", "align*", "equation", "equation*", "split", "gather", "gather*", "gathered"}
Delims == << <<"(", <<"(">> >>, <<")", <<")">> >>, <<"[", <<"[">> >>, <<"]", <<"]">> >>, <<"|", <<"|">> >>, <<".", <<>> >>,
             <<"\\{", <<"{">> >>, <<"\\}", <<"}">> >>, <<"\\langle ", <<"⟨">> >>, <<"\\rangle ", <<"⟩">> >>,
             <<"\\lfloor ", <<"⌊">> >>, <<"\\rceil ", <<"⌉">> >>, <<"\\|", <<"‖">> >>, <<"\\lbrace ", <<"{">> >>,
             <<"/", <<"/">> >>, <<"\\uparrow ", <<"↑">> >>, <<"\\vert ", <<"|">> >> >>
DelimUse == {FConf.delims[i] : i \in 1 .. Len(FConf.delims)}
DelimMeaning(d) == IF d[2] = <<>> THEN <<>> ELSE << <<"t", d[2][1]>> >>

Frac(n, d) == << <<"frac", n, d>> >>
Binom(n, k) == << <<"binom", n, k>> >>
Style(x, s) == << <<"style", x, s>> >>
T(c) == << <<"t", c>> >>
Lr(x, size) == << <<"lr", x, size>> >>
Limits(x) == << <<"limits", x>> >>
Att(b, sup, sub) == << <<"att", b, sup, sub>> >>
Stack(d, a, b) == << <<"mat", d, << <<a>>, <<b>> >> >> >>
Op(x, l) == << <<"op", x, l>> >>

\* the arguments: g a group or a single atom, o optional in brackets, b a braced group, d a delimiter, x text
Needs ==
  [n \in DOMAIN StyleOf \cup DOMAIN AccentOf \cup DOMAIN ClassOf \cup DOMAIN BraceOf |-> <<"g">>] @@
  [n \in DOMAIN ArrowOf |-> <<"g">>] @@
  [n \in DOMAIN SizeOf |-> <<"d">>] @@ [n \in DOMAIN TextStyleOf |-> <<"x">>] @@
  [n \in {"frac", "cfrac", "dfrac", "tfrac", "binom", "dbinom", "tbinom", "stackrel", "overset", "underset"} |-> <<"g", "g">>] @@
  [n \in {"not", "cancel", "xcancel", "bcancel", "sout", "overline", "underline", "underbar", "boxed", "fbox", "phantom", "hphantom",
          "vphantom", "pmod", "pod", "set", "Set", "bra", "Bra", "ket", "Ket", "braket", "Braket", "operatorname",
          "operatorname*", "operatornamewithlimits", "mathclap", "smash", "hbox"} |-> <<"g">>] @@
  [sqrt |-> <<"o", "g">>] @@
  [n \in {"textcolor"} |-> <<"c", "b">>] @@ [n \in {"colorbox"} |-> <<"c", "b">>] @@
  \* macros, see Defs
  [mf |-> <<"g", "g">>, mo |-> <<"o", "g">>, mv |-> <<>>, mm |-> <<"b">>]

\* definitions that come in front of the formula
Defs == "\\newcommand{\\mf}[2]{\\frac{#2}{#1}}\\newcommand{\\mo}[2][q]{\\hat{#2}_{#1}}\\newcommand{\\mv}{\\beta_0}" \o
        "\\newcommand{\\mm}[1]{\\left(\\mf{z}{#1}\\right)}\\newenvironment{me}[1]{\\left[#1,}{\\right]}"

\* the meaning of a call
Make(n, a) ==
  CASE n \in DOMAIN StyleOf -> Style(a[1], StyleOf[n])
    [] n \in DOMAIN TextStyleOf -> IF TextStyleOf[n] = "" THEN a[1] ELSE Style(a[1], TextStyleOf[n])
    [] n \in DOMAIN AccentOf -> << <<"acc", a[1], AccentOf[n]>> >>
    [] n \in DOMAIN ClassOf -> << <<"class", ClassOf[n], a[1]>> >>
    [] n \in DOMAIN SizeOf -> Lr(a[1], SizeOf[n])
    [] n \in DOMAIN BraceOf -> Limits(<< <<BraceOf[n], a[1]>> >>)
    [] n \in DOMAIN ArrowOf -> Limits(Att(<< <<"stretch", T(ArrowOf[n])>> >>, a[1], <<>>))
    [] n = "frac" -> Frac(a[1], a[2])
    [] n \in {"cfrac", "dfrac"} -> Style(Frac(a[1], a[2]), "display")
    [] n = "tfrac" -> Style(Frac(a[1], a[2]), "inline")
    [] n = "binom" -> Binom(a[1], a[2])
    [] n = "dbinom" -> Style(Binom(a[1], a[2]), "display")
    [] n = "tbinom" -> Style(Binom(a[1], a[2]), "inline")
    [] n \in {"stackrel", "overset"} -> Att(Limits(a[2]), a[1], <<>>)
    [] n = "underset" -> Att(Limits(a[2]), <<>>, a[1])
    [] n = "not" -> << <<"cancel", "20deg", a[1]>> >>
    [] n \in {"cancel", "xcancel"} -> << <<"cancel", "", a[1]>> >>
    [] n = "bcancel" -> << <<"cancel", "inverted", a[1]>> >>
    [] n = "sout" -> << <<"cancel", "90deg", a[1]>> >>
    [] n \in {"overline", "underline"} -> << <<n, a[1]>> >>
    [] n = "underbar" -> << <<"underline", a[1]>> >>
    [] n = "boxed" -> << <<"box", "frame", a[1]>> >>
    [] n = "fbox" -> << <<"box", "frame", a[1]>> >>
    [] n = "phantom" -> << <<"hide", a[1]>> >>
    [] n = "hphantom" -> << <<"box", "height", << <<"hide", a[1]>> >> >> >>
    [] n = "vphantom" -> << <<"box", "width", << <<"hide", a[1]>> >> >> >>
    [] n = "mathclap" -> << <<"box", "width", a[1]>> >>
    [] n = "smash" -> << <<"box", "height", << <<"align", a[1]>> >> >> >>
    [] n = "hbox" -> a[1]
    [] n = "pmod" -> << <<"h", "1em">> >> \o Lr(T("(") \o Op(T("m") \o T("o") \o T("d"), FALSE) \o << <<"h", "0.28em">> >> \o a[1] \o T(")"), "100%")
    [] n = "pod" -> << <<"h", "1em">> >> \o Lr(T("(") \o a[1] \o T(")"), "100%")
    [] n = "set" -> T("{") \o a[1] \o T("}")
    [] n = "Set" -> Lr(T("{") \o a[1] \o T("}"), "100%")
    [] n = "bra" -> T("⟨") \o a[1] \o T("|")
    [] n = "Bra" -> Lr(T("⟨") \o a[1] \o T("|"), "100%")
    [] n = "ket" -> T("|") \o a[1] \o T("⟩")
    [] n = "Ket" -> Lr(T("|") \o a[1] \o T("⟩"), "100%")
    [] n = "braket" -> T("⟨") \o a[1] \o T("⟩")
    [] n = "Braket" -> Lr(T("⟨") \o a[1] \o T("⟩"), "100%")
    [] n = "operatorname" -> Op(Style(a[1], "upright"), FALSE)
    [] n \in {"operatorname*", "operatornamewithlimits"} -> Op(Style(a[1], "upright"), TRUE)
    [] n = "sqrt" -> << <<"root", a[1], a[2]>> >>
    [] n = "textcolor" -> Style(a[2], "plain")
    [] n = "colorbox" -> << <<"box", "fill", a[2]>> >>
    [] n = "mf" -> Frac(a[2], a[1])
    [] n = "mo" -> Att(<< <<"acc", a[2], "302">> >>, <<>>, a[1])
    [] n = "mv" -> Att(T("β"), <<>>, T("0"))
    [] n = "mm" -> Lr(T("(") \o Frac(a[1], T("z")) \o T(")"), "100%")
\* what stands for an optional argument that is not there
Default(n) == IF n = "mo" THEN T("q") ELSE <<>>

Infixes == {"over", "choose", "atop", "brace", "brack"}
MakeInfix(n, a, b) ==
  CASE n = "over" -> Frac(a, b)
    [] n = "choose" -> Binom(a, b)
    [] n = "atop" -> Stack("", a, b)
    [] n = "brace" -> Stack("{", a, b)
    [] n = "brack" -> Stack("[", a, b)

Envs == DOMAIN PlainMat \cup DisplayEnvs \cup {"smallmatrix", "cases", "rcases", "array", "subarray", "alignedat", "substack", "me"}
EnvNeed(n) == CASE n \in {"array", "subarray"} -> {<<"{cc}", <<"center">> >>, <<"{l|l|}", <<"left">> >>,
                                       <<"{r}", <<"right">> >>, <<"{ l @ l }", <<"left">> >>, <<"c", <<"center">> >>}
                [] n = "alignedat" -> {<<"{2}", <<>> >>}
                [] n = "me" -> {<<"{y_1}", Att(T("y"), <<>>, T("1"))>>, <<"w", T("w")>>}
                [] OTHER -> {<<"", <<>> >>}
Pad(rows) == LET m == Max({Len(rows[i]) : i \in 1 .. Len(rows)}) IN
  [i \in 1 .. Len(rows) |-> rows[i] \o [j \in 1 .. m - Len(rows[i]) |-> <<>>]]
Cells(row) == FlattenSeq([i \in 1 .. Len(row) |-> IF i = 1 THEN row[i] ELSE << <<"&">> >> \o row[i]])
Lines(rows) == FlattenSeq([i \in 1 .. Len(rows) |-> IF i = 1 THEN Cells(rows[i]) ELSE << <<"br">> >> \o Cells(rows[i])])
\* last cells say for all columns to come
MakeEnv(n, x, rows) ==
  CASE n \in DOMAIN PlainMat -> << <<"mat", PlainMat[n], Pad(rows)>> >>
    [] n = "smallmatrix" -> Style(<< <<"mat", "", Pad(rows)>> >>, "inline")
    [] n = "cases" -> << <<"cases", "left", [i \in 1 .. Len(rows) |-> Cells(rows[i])]>> >>
    [] n = "rcases" -> << <<"cases", "right", [i \in 1 .. Len(rows) |-> Cells(rows[i])]>> >>
    [] n \in DisplayEnvs -> << <<"block", Style(Lines(rows), "display")>> >>
    [] n = "alignedat" -> << <<"block", Lines(rows)>> >>
    [] n \in {"array", "subarray"} ->
         LET p == Pad(rows) IN
         << <<"array", [i \in 1 .. Len(p[1]) |-> x[IF i <= Len(x) THEN i ELSE Len(x)]], p>> >>
    [] n = "substack" -> Lines(rows)
    [] n = "me" -> Lr(T("[") \o x \o T(",") \o Lines(rows) \o T("]"), "100%")
Rows(n) == n \notin {"equation", "equation*", "me"}
Columns(n) == n \notin {"equation", "equation*", "me", "substack", "gather", "gather*", "gathered"}

----------------------------------------------------------------------------
VARIABLES src,    \* the source so far
          stack,  \* open constructs, the innermost last
          fuel,   \* atoms and constructs left to write
          turn,   \* what the author writes next (with FConf.turns), else ""
          done
fvars == <<src, stack, fuel, turn, done>>

\* an open construct with items in it:
\*   k: top, brace (a group), arg, opt, script, left, env, formula (in text), text
\*   items: [m: meaning, s: scripts it has: none _ ^ both prime off]
\*   decls: declarations seen: [b: what was before, d: name];  inf: infix command and what was before
ListF(k, n) == [list |-> TRUE, k |-> k, name |-> n, items |-> <<>>, decls |-> <<>>, inf |-> <<>>, rows |-> <<>>, row |-> <<>>, x |-> <<>>]
CallF(n, need) == [list |-> FALSE, name |-> n, need |-> need, got |-> <<>>]

Cur == Top(stack)
InList == Cur.list
LastItem == Top(Cur.items)
Nodes(items) == FlattenSeq([i \in 1 .. Len(items) |-> items[i].m])

\* a declaration with nothing but another style after it would not show on its own
OneStyle(v) == Len(v) = 1 /\ v[1][1] = "style"
RECURSIVE Declared(_, _)
Declared(ds, v) == IF ds = <<>> THEN v
                   ELSE Declared(Init_(ds), Top(ds).b \o Style(v, DeclOf[Top(ds).d]))
RECURSIVE DeclsShow(_, _)
DeclsShow(ds, v) == IF ds = <<>> THEN TRUE
                    ELSE ~OneStyle(v) /\ DeclsShow(Init_(ds), Top(ds).b \o Style(v, DeclOf[Top(ds).d]))
Value(f) == LET v == Declared(f.decls, Nodes(f.items))
            IN IF f.inf = <<>> THEN v ELSE MakeInfix(f.inf[1], f.inf[2], v)
Complete(f) == /\ DeclsShow(f.decls, Nodes(f.items))
               /\ f.inf # <<>> => f.items # <<>> \/ f.decls # <<>>
               /\ f.decls # <<>> => Nodes(f.items) # <<>>

Put(st, i) == [st EXCEPT ![Len(st)].items = Append(@, i)]
Item(m, s) == [m |-> m, s |-> s]

\* the value v of an argument arrives at the call on top of st
RECURSIVE Arrive(_, _)
\* the call is complete: its meaning goes where it stands
Finish(st) ==
  LET f == Top(st)
      below == Init_(st)
      l == Top(Top(below).items)
      sub == f.name = "_"
  IN IF f.name \in {"_", "^"}
     THEN [below EXCEPT ![Len(below)].items =
             Append(Init_(@),
               IF l.s = "alone"
               THEN Item(IF sub THEN Att(<<>>, <<>>, f.got[1]) ELSE Att(<<>>, f.got[1], <<>>), "off")
               ELSE IF l.s \in {"none", "text"}
               THEN Item(IF sub THEN Att(l.m, <<>>, f.got[1]) ELSE Att(l.m, f.got[1], <<>>), f.name)
               ELSE Item(IF sub THEN Att(l.m[1][2], l.m[1][3], f.got[1])
                                ELSE Att(l.m[1][2], f.got[1], l.m[1][4]), "both"))]
     ELSE IF Top(below).list THEN Put(below, Item(Make(f.name, f.got), 
                  CASE f.name \in {"pmod", "pod", "mv", "mo"} -> "off"
                    [] f.name \in DOMAIN TextStyleOf -> "text"   \* no primes: Typst drops them there
                    [] OTHER -> "none"))
     ELSE Arrive(below, Make(f.name, f.got))
Arrive(st, v) ==
  LET f == Top(st)
      g == [f EXCEPT !.need = Tail(@), !.got = Append(@, v)]
      s == Append(Init_(st), g)
  IN IF g.need = <<>> THEN Finish(s) ELSE s
\* an item arrives: in a list, or as the argument of a script
Deliver(st, i) == IF Top(st).list THEN Put(st, i) ELSE Arrive(st, i.m)

----------------------------------------------------------------------------
Wants(kinds) == ~InList /\ Head(Cur.need) \in kinds
InText == InList /\ Cur.k = "text"
InMath == InList /\ Cur.k # "text"
Spend == fuel > 0 /\ fuel' = fuel - 1
Room == Len(stack) < FConf.depth
Write(s) == src' = src \o s

Split(a) == IF a.split
            THEN [i \in 1 .. Len(a.m) |-> Item(<<a.m[i]>>, "none")]
            ELSE <<Item(a.m, IF a.off THEN "off" ELSE "none")>>
\* after \\ and in front of an optional argument a bracket would be read as one
MayStart(a) == a.first \/ (Cur.k # "opt" /\ (Cur.items # <<>> \/ Cur.k # "env"))
PutAtom(i) ==
  LET a == Atoms[i] IN
  /\ InMath /\ (Len(stack) > 1 \/ a.top) /\ MayStart(a) /\ (a.m = <<>> => Cur.items # <<>>) /\ Spend
  /\ Write(a.s)
  /\ stack' = [stack EXCEPT ![Len(stack)].items = @ \o Split(a)]
\* \frac12
ShortArg(i) ==
  LET a == Atoms[i] IN
  /\ Wants({"g", "s"}) /\ a.short /\ Spend
  /\ Write(a.s)
  /\ stack' = Arrive(stack, a.m)
OpenArg == /\ Wants({"g", "s", "b"}) /\ Room
           /\ Write("{") /\ stack' = Append(stack, ListF("arg", ""))
           /\ UNCHANGED fuel
OpenOpt == /\ Wants({"o"}) /\ Room
           /\ Write("[") /\ stack' = Append(stack, ListF("opt", ""))
           /\ UNCHANGED fuel
SkipOpt == /\ Wants({"o"}) /\ stack' = Arrive(stack, Default(Cur.name)) /\ UNCHANGED <<src, fuel>>
Color == /\ Wants({"c"})
         /\ \E c \in {"{red}", "[rgb]{1,0,0}", "[RGB]{1,2,3}", "[HTML]{00ff7F}", "{Blue}", "[gray]{0.5}"} :
              Write(c) /\ stack' = Arrive(stack, <<>>) /\ UNCHANGED fuel
DelimArg == /\ Wants({"d"})
            /\ \E i \in DelimUse : /\ Delims[i][2] # <<>>
                                           /\ Write(Delims[i][1]) /\ stack' = Arrive(stack, DelimMeaning(Delims[i]))
                                           /\ UNCHANGED fuel
OpenText == /\ Wants({"x"}) /\ Room
            /\ Write("{") /\ stack' = Append(stack, ListF("text", ""))
            /\ UNCHANGED fuel
Word(w) == /\ InText /\ Spend
           /\ Write((IF Cur.items = <<>> THEN "" ELSE " ") \o w)
           /\ stack' = Put(stack, Item([i \in 1 .. Len(w) |-> <<"t", At(w, i)>>], "none"))
TextFormula == /\ InText /\ Room
               /\ Write(" $") /\ stack' = Append(stack, ListF("formula", ""))
               /\ UNCHANGED fuel

\* commands, also directly as a script: x_\mathrm{a}
Call(n) == /\ InMath \/ (Wants({"s"}) /\ n \in {"mathrm", "mathbf", "frac", "hat", "text"})
           /\ Len(stack) + 1 < FConf.depth
           /\ Spend
           /\ (InMath /\ Cur.k = "opt") => n \notin DOMAIN SizeOf \cup {"sqrt", "mo"}
           /\ Write("\\" \o n \o (IF At(n, Len(n)) = "*" THEN "" ELSE " "))
           /\ stack' = IF Needs[n] = <<>> THEN Finish(Append(stack, CallF(n, <<>>))) ELSE Append(stack, CallF(n, Needs[n]))

OpenGroup == /\ InMath /\ Room /\ Spend
             /\ Write("{") /\ stack' = Append(stack, ListF("brace", ""))
Script(c) == /\ InMath /\ Room
             /\ Cur.items # <<>> /\ LastItem.s \in ({"none", "text", "_", "^"} \ {c})
             /\ Write(c) /\ stack' = Append(stack, CallF(c, <<"s">>))
             /\ Spend
\* no base
Alone(c) == /\ InMath /\ Room /\ Cur.items = <<>> /\ Cur.name # "me" /\ Cur.k # "pair"
            /\ Write(c)
            /\ stack' = Append(Put(stack, Item(<<>>, "alone")), CallF(c, <<"s">>))
            /\ Spend
Prime == /\ InMath /\ Cur.items # <<>>
         /\ \/ LastItem.s = "none" /\ stack' = Put(stack, Item(<< <<"pr", 1>> >>, "prime"))
            \/ LastItem.s = "prime" /\ LastItem.m[1][2] < 3
               /\ stack' = [stack EXCEPT ![Len(stack)].items =
                              Append(Init_(@), Item(<< <<"pr", Top(@).m[1][2] + 1>> >>, "prime"))]
         /\ Spend /\ Write("'")
SetLimits(b) == /\ InMath /\ Cur.items # <<>> /\ LastItem.s = "none" /\ Len(LastItem.m) = 1
                /\ \/ LastItem.m[1][1] = "op"
                   \/ LastItem.m[1][1] = "t" /\ LastItem.m[1][2] \in {"∑", "∏", "∫", "⋃", "⨁"}
                /\ Spend
                /\ Write(IF b THEN "\\limits " ELSE "\\nolimits ")
                /\ stack' = [stack EXCEPT ![Len(stack)].items =
                               Append(Init_(@), Item(<< <<IF b THEN "limits" ELSE "scripts", Top(@).m>> >>, "none"))]
\* (in the me environment and between a pair it would take what is in front as well)
Infix(n) == /\ InMath /\ Cur.name # "me" /\ Cur.k # "pair" /\ Cur.inf = <<>> /\ Cur.decls = <<>> /\ Cur.items # <<>> /\ Spend
            /\ Write("\\" \o n \o " ")
            /\ stack' = [stack EXCEPT ![Len(stack)].inf = <<n, Nodes(Cur.items)>>, ![Len(stack)].items = <<>>]
\* (in a \substack it would hold beyond the line, after a pair beyond the pair)
Declare(n) == /\ InMath /\ Cur.name # "substack" /\ Cur.k # "pair" /\ Len(Cur.decls) < 2 /\ Spend
              /\ Write("\\" \o n \o " ")
              /\ stack' = [stack EXCEPT ![Len(stack)].decls = Append(@, [b |-> Nodes(Cur.items), d |-> n]),
                                        ![Len(stack)].items = <<>>]
OpenLeft == /\ InMath /\ Cur.k # "opt" /\ Room /\ Spend
            /\ \E i \in DelimUse :
                 /\ Write("\\left" \o Delims[i][1])
                 /\ stack' = Append(stack, [ListF("left", "") EXCEPT !.x = DelimMeaning(Delims[i])])
Middle == /\ InMath /\ Cur.k = "left" /\ Cur.decls = <<>> /\ Cur.inf = <<>> /\ Spend
          /\ Write("\\middle|") /\ stack' = Put(stack, Item(<< <<"mid", T("|")>> >>, "off"))
\* a \substack is a script
OpenEnv(n) == /\ InMath /\ Cur.k # "opt" /\ Room /\ Spend
              /\ n = "substack" => Cur.items = <<>> /\ Cur.k = "arg" /\ stack[Len(stack) - 1].name \in {"_", "^"}
              /\ \E a \in EnvNeed(n) :
                   /\ Write(IF n = "substack" THEN "\\substack{" ELSE "\\begin{" \o n \o "}" \o a[1] \o " ")
                   /\ stack' = Append(stack, [ListF("env", n) EXCEPT !.x = a[2]])
\* delimiters that belong together grow with what is between them
Pairs == << <<"\\lceil ", "⌈", "\\rceil ", "⌉">>, <<"\\lfloor ", "⌊", "\\rfloor ", "⌋">>, <<"\\lgroup ", "⟮", "\\rgroup ", "⟯">>,
            <<"\\ulcorner ", "⌜", "\\urcorner ", "⌝">>, <<"\\llcorner ", "⌞", "\\lrcorner ", "⌟">> >>
OpenPair(i) == /\ InMath /\ Cur.k # "opt" /\ Room /\ Spend
               /\ \A j \in 1 .. Len(stack) : stack[j].list => stack[j].decls = <<>>
               /\ Write(Pairs[i][1])
               /\ stack' = Append(stack, ListF("pair", Pairs[i][1]))
EndCell(f) == [f EXCEPT !.row = Append(@, Value(f)), !.items = <<>>, !.decls = <<>>, !.inf = <<>>]
NextCell == /\ InMath /\ Cur.k = "env" /\ Columns(Cur.name) /\ Complete(Cur) /\ Spend
            /\ Write("&") /\ stack' = [stack EXCEPT ![Len(stack)] = EndCell(Cur)]
NextRow == /\ InMath /\ Cur.k = "env" /\ Rows(Cur.name) /\ Complete(Cur) /\ Spend
           /\ Write("\\\\ ")
           /\ stack' = [stack EXCEPT ![Len(stack)] = LET f == EndCell(Cur) IN [f EXCEPT !.rows = Append(@, f.row), !.row = <<>>]]

\* a group hands its items over; a further script goes behind one that is there already
GroupItems(f) ==
  IF f.decls # <<>> \/ f.inf # <<>> THEN
    LET v == Value(f) IN [i \in 1 .. Len(v) |-> Item(<<v[i]>>, "none")]
  ELSE IF f.items = <<>> THEN <<Item(<<>>, "none")>>
  ELSE IF Top(f.items).s \in {"_", "^", "both"} THEN Append(f.items, Item(<<>>, "none"))
  ELSE f.items
Close ==
  /\ InList /\ Cur.k # "top" /\ Complete(Cur)
  /\ UNCHANGED fuel
  /\ LET f == Cur
         below == Init_(stack)
     IN CASE f.k = "brace" -> /\ Write("}") /\ stack' = [below EXCEPT ![Len(below)].items = @ \o GroupItems(f)]
          [] f.k = "arg" -> Write("}") /\ stack' = Arrive(below, Value(f))
          [] f.k = "opt" -> Value(f) # <<>> /\ Write("]") /\ stack' = Arrive(below, Value(f))
          [] f.k = "pair" -> \E i \in 1 .. Len(Pairs) :
                               /\ Pairs[i][1] = f.name
                               /\ Write(Pairs[i][3])
                               /\ stack' = Put(below, Item(Lr(T(Pairs[i][2]) \o Value(f) \o T(Pairs[i][4]), "100%"), "none"))
          [] f.k = "text" -> Write("}") /\ stack' = Arrive(below, Value(f))
          [] f.k = "formula" -> f.items # <<>> /\ Write("$") /\ stack' = Put(below, Item(Value(f), "none"))
          [] f.k = "left" -> \E i \in DelimUse :
                               /\ Write("\\right" \o Delims[i][1])
                               /\ stack' = Put(below, Item(Lr(f.x \o Value(f) \o DelimMeaning(Delims[i]), "100%"), "none"))
          [] f.k = "env" -> LET g == EndCell(f)
                                \* a line end after the last row does not begin another
                                rows == IF f.items = <<>> /\ f.decls = <<>> /\ f.row = <<>> /\ g.rows # <<>> THEN g.rows ELSE Append(g.rows, g.row)
                            IN /\ f.name \in {"array", "subarray"} => Len(rows) > 1
                               /\ \E i \in 1 .. Len(rows) : rows[i] # << <<>> >>
                               /\ Write(IF f.name = "substack" THEN "}" ELSE "\\end{" \o f.name \o "}")
                               /\ stack' = Put(below, Item(MakeEnv(f.name, f.x, rows), IF f.name = "substack" THEN "off" ELSE "none"))

FInit == src = (IF FConf.defs THEN Defs ELSE "") /\ stack = <<ListF("top", "")>> /\ fuel = FConf.fuel /\ turn = "" /\ done = FALSE
Ready == Len(stack) = 1 /\ Cur.items # <<>> /\ Complete(Cur)
Meaning == Value(stack[1])
Stop == /\ Ready /\ done' = TRUE /\ UNCHANGED <<src, stack, fuel>>

Kinds == {"atom", "atom2", "arg", "call", "accent", "group", "script", "prime", "infix", "declare", "left", "middle", "env", "next", "close", "text", "stop"}
Act(k) ==
  CASE k \in {"atom", "atom2"} -> \E i \in 1 .. Len(Atoms) : PutAtom(i) \/ ShortArg(i)
    [] k = "arg" -> OpenArg \/ OpenOpt \/ SkipOpt \/ Color \/ DelimArg \/ OpenText
    [] k = "call" -> \E n \in Use \cap DOMAIN Needs : Call(n)
    [] k = "accent" -> \E n \in Use \cap {"frac", "sqrt", "mathbf", "hat", "binom", "text", "mf", "mo"} : Call(n)
    [] k = "group" -> OpenGroup
    [] k = "script" -> \E c \in {"_", "^"} \cap Use : Script(c) \/ Alone(c)
    [] k = "prime" -> ("'" \in Use /\ Prime) \/ \E b \in BOOLEAN : "limits" \in Use /\ SetLimits(b)
    [] k = "infix" -> \E n \in Use \cap Infixes : Infix(n)
    [] k = "declare" -> \E n \in Use \cap DOMAIN DeclOf : Declare(n)
    [] k = "left" -> "left" \in Use /\ (OpenLeft \/ \E i \in 1 .. Len(Pairs) : OpenPair(i))
    [] k = "middle" -> "left" \in Use /\ Middle
    [] k = "env" -> \E n \in Use \cap Envs : OpenEnv(n)
    [] k = "next" -> NextCell \/ NextRow
    [] k = "close" -> Close
    [] k = "text" -> (\E w \in {"if", "a", "x2"} : Word(w)) \/ TextFormula
    [] k = "stop" -> (~FConf.turns \/ fuel = 0) /\ Stop
\* with turns, the kinds of step are equally likely however many there are of one kind
FNext ==
  /\ ~done
  /\ IF ~FConf.turns THEN turn' = "" /\ (IF fuel = 0 /\ Ready THEN Stop ELSE \E k \in Kinds \ {"atom2", "accent"} : Act(k) /\ (k # "stop" => UNCHANGED done))
     ELSE IF turn = "" THEN turn' \in Kinds /\ UNCHANGED <<src, stack, fuel, done>>
     ELSE turn' = "" /\ ((Act(turn) /\ (turn # "stop" => UNCHANGED done)) \/ UNCHANGED <<src, stack, fuel, done>>)
Emit_ == done => PrintT("@@" \o ToJson([s |-> src, m |-> Meaning]))
=============================================================================
