------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The properties, stated on the results of the views and (for the ones on  *)
(* the machines' steps) on their states.  TLC checks them on every document *)
(* it enumerates or is given; the conformance runs then bind the code to    *)
(* the same documents.                                                     *)
(***************************************************************************)
EXTENDS Mitex

Has(v) == Done /\ v \in DOMAIN res
TypeOK == /\ ph \in 0 .. Len(Plan) + 1
          /\ ph = 0 => st = NoState

----------------------------------------------------------------------------
(* C01: the tokens partition the input into maximal runs of one category.    *)
LexRuns == LexRun(LexInit(Chars, Sp))
RunClass(k) == CASE k = "nl" -> {"nl"} [] k = "ws" -> {"ws"} [] k = "w" -> {"a", "o"}
C01_Partition ==
  Has("lex") =>
    LET s == LexRuns
        n == Len(s.toks)
        To(i) == IF i = n THEN Len(s.cs) ELSE s.starts[i + 1] - 1
    IN /\ n = 0 <=> s.cs = <<>>
       /\ \A i \in 1 .. n :
            LET k == s.toks[i][1]
                a == s.starts[i]
                b == To(i)
                C == {s.cl[j] : j \in a .. b}
                after == IF b = Len(s.cs) THEN "eof" ELSE s.cl[b + 1]
            IN /\ i = 1 => a = 1
               /\ a <= b
               \* what is covered is the text (but for environment clauses)
               /\ k \notin {"begin", "end"} => s.toks[i][2] = Cat(SubSeq(s.cs, a, b))
               \* maximal and of one category
               /\ k \in {"nl", "ws", "w"} => C \subseteq RunClass(k) /\ after \notin RunClass(k)
               /\ k = "com" => s.cl[a] = "%" /\ "nl" \notin C /\ after \in {"nl", "eof"}
               /\ k = "$" => C = {"$"} /\ b - a <= 1 /\ (a = b => after # "$")
               /\ k \in PunctSet => a = b /\ C = {k}
               /\ k = "newline" => b = a + 1 /\ C = {"\\"}
               \* every character of a category is in a token of its kind
               /\ s.cl[a] \in {"nl", "ws"} => k = s.cl[a]
               /\ s.cl[a] = "%" => k = "com"
               /\ s.cl[a] \in {"a", "o"} => k = "w"
               /\ s.cl[a] \in PunctSet \cup {"$"} => k = s.cl[a]
               /\ s.cl[a] = "\\" => k \in CmdKinds \cup {"newline"}

(* C02: names.                                                               *)
C02_Names ==
  Has("lex") =>
    LET s == LexRuns
        n == Len(s.toks)
        To(i) == IF i = n THEN Len(s.cs) ELSE s.starts[i + 1] - 1
    IN \A i \in 1 .. n :
         LET k == s.toks[i][1]
             t == s.toks[i][2]
             a == s.starts[i]
             b == To(i)
             named == b > a /\ s.cl[a + 1] \in NameCls
             after == IF b = Len(s.cs) THEN "eof" ELSE s.cl[b + 1]
             starred == s.cl[b] = "*"
         IN k \in CmdKinds =>
              /\ k = "bmath" <=> t \in {"\\(", "\\["}
              /\ k = "emath" <=> t \in {"\\)", "\\]"}
              /\ k \notin {"begin", "end"} =>
                   /\ ~named => b <= a + 1
                   /\ named => /\ after \notin NameCls \/ starred
                               /\ \A j \in a + 1 .. b : s.cl[j] \in NameCls \/ (j = b /\ starred)
                               /\ starred => HasName(s.sp, DropS(t, 1))
                               /\ (after = "*" /\ ~starred) => ~HasName(s.sp, DropS(t, 1) \o "*")
                   \* classified by the full name
                   /\ k = "left" <=> t = "\\left"
                   /\ k = "right" <=> t = "\\right"
                   /\ k = "else" <=> t = "\\else"
                   /\ k = "fi" <=> t = "\\fi"
                   /\ k = "if" <=> DropS(t, 1) \in IfNames
                   /\ k = "ebegin" <=> t = "\\begin"
                   /\ k = "eend" <=> t = "\\end"
              /\ k \in {"begin", "end"} =>
                   /\ s.cl[b] = "}"
                   /\ \A j \in 1 .. Len(t) : Cls(At(t, j)) \in NameCls \/ (j = Len(t) /\ At(t, j) = "*")

----------------------------------------------------------------------------
(* C04/C05/C06: what an expansion leaves.                                    *)
DefNames == {"\\" \o n : n \in DOMAIN DeclCmds}
\* tokens of commented-out blocks are kept as they are
RECURSIVE OutsideBlocks(_, _, _)
OutsideBlocks(toks, lvl, acc) ==
  IF toks = <<>> THEN acc
  ELSE LET t == Head(toks) IN
       CASE lvl = 0 /\ t = <<"if", "\\iffalse">> -> OutsideBlocks(Tail(toks), 1, acc)
         [] lvl > 0 /\ t[1] = "if" -> OutsideBlocks(Tail(toks), lvl + 1, acc)
         [] lvl > 0 /\ t[1] = "fi" -> OutsideBlocks(Tail(toks), lvl - 1, acc)
         [] lvl > 0 -> OutsideBlocks(Tail(toks), lvl, acc)
         [] OTHER -> OutsideBlocks(Tail(toks), 0, Append(acc, t))
C05_NothingLeft ==
  Has("exp") => LET o == OutsideBlocks(res.exp, 0, <<>>)
                IN \A i \in 1 .. Len(o) : ~(o[i][1] = "cmd" /\ o[i][2] \in DefNames)

\* without definitions and conditionals nothing changes
Plain(toks) == \A i \in 1 .. Len(toks) :
                 /\ toks[i][1] \notin {"if", "else", "fi"}
                 /\ ~(toks[i][1] = "cmd" /\ toks[i][2] \in DefNames)
C04_OthersPass == Has("exp") => (Plain(res.lex) => res.exp = res.lex)

\* one step either delivers the first token or leaves the output's past alone
C04_Steps ==
  [][(ph # 0 /\ ~Done /\ View = "exp" /\ ph' = ph) =>
       /\ IsPrefix(st.out, st'.out)
       /\ Len(st'.out) - Len(st.out) <= 1
       /\ (Head(st.inp)[1] \notin {"cmd", "begin", "if", "else", "fi"}) =>
             (st'.out = Append(st.out, Head(st.inp)) /\ st'.inp = Tail(st.inp) /\ st'.mac = st.mac)
       /\ st'.mac # st.mac => (Head(st.inp)[1] = "cmd" /\ Head(st.inp)[2] \in DefNames)]_vars

(* C07: the branches that count, found by matching each \if with its \fi.    *)
\* the parts of the conditional that starts at the head (an \if token):
\* [first, second, rest]; a missing \fi lets it reach to the end
RECURSIVE IfParts(_, _, _, _, _)
IfParts(toks, lvl, a, b, inElse) ==
  IF toks = <<>> THEN [first |-> a, second |-> b, rest |-> <<>>]
  ELSE LET t == Head(toks)
           add == IF inElse THEN <<a, Append(b, t)>> ELSE <<Append(a, t), b>>
       IN CASE t[1] = "fi" /\ lvl = 0 -> [first |-> a, second |-> b, rest |-> Tail(toks)]
            [] t[1] = "else" /\ lvl = 0 /\ ~inElse -> IfParts(Tail(toks), 0, a, b, TRUE)
            [] t[1] = "fi" -> IfParts(Tail(toks), lvl - 1, add[1], add[2], inElse)
            [] t[1] = "if" -> IfParts(Tail(toks), lvl + 1, add[1], add[2], inElse)
            [] OTHER -> IfParts(Tail(toks), lvl, add[1], add[2], inElse)
RECURSIVE Selected(_)
Selected(toks) ==
  IF toks = <<>> THEN <<>>
  ELSE LET t == Head(toks)
           p == IfParts(Tail(toks), 0, <<>>, <<>>, FALSE)
       IN CASE t = <<"if", "\\iftrue">> -> Selected(p.first) \o Selected(p.rest)
            [] t = <<"if", "\\iffalse">> -> Selected(p.second) \o Selected(p.rest)
            [] OTHER -> <<t>> \o Selected(Tail(toks))
\* well formed: every \if closed, at most one \else each, no other conditionals
RECURSIVE WellIf(_, _)
WellIf(toks, stack) ==
  IF toks = <<>> THEN stack = <<>>
  ELSE LET t == Head(toks) IN
       CASE t[1] = "if" -> t[2] \in {"\\iftrue", "\\iffalse"} /\ WellIf(Tail(toks), Append(stack, "i"))
         [] t[1] = "else" -> stack # <<>> /\ Top(stack) = "i" /\ WellIf(Tail(toks), Append(Init_(stack), "e"))
         [] t[1] = "fi" -> stack # <<>> /\ WellIf(Tail(toks), Init_(stack))
         [] OTHER -> WellIf(Tail(toks), stack)
NoDefs(toks) == \A i \in 1 .. Len(toks) : ~(toks[i][1] = "cmd" /\ toks[i][2] \in DefNames)
C07_Selected ==
  Has("exp") => ((WellIf(res.lex, <<>>) /\ NoDefs(res.lex)) =>
                   OutsideBlocks(res.exp, 0, <<>>) = Selected(res.lex))

----------------------------------------------------------------------------
(* C09: the leaves of the tree are the tokens in order.                      *)
\* equal up to dropped trivia and block marks, and words split into characters
RECURSIVE SameLeaves(_, _)
SameLeaves(toks, lv) ==
  IF toks = <<>> THEN lv = <<>>
  ELSE LET t == Head(toks) IN
       IF t[1] = "w" /\ t[2] = "" THEN SameLeaves(Tail(toks), lv)
       ELSE \/ /\ lv # <<>>
               /\ IF t[1] = "w" THEN /\ lv[1][2] = "w" /\ lv[1][3] # ""
                                     /\ StartsWith(t[2], lv[1][3])
                                     /\ SameLeaves(<<<<"w", DropS(t[2], Len(lv[1][3]))>>>> \o Tail(toks), Tail(lv))
                  ELSE /\ lv[1][3] = t[2]
                       /\ SameLeaves(Tail(toks), Tail(lv))
            \/ t[1] \in TriviaK \cup {"if", "fi"} /\ SameLeaves(Tail(toks), lv)
C09_LeavesAreTokens == Has("tree") => SameLeaves(res.lex, Leaves(res.tree))

(* C10: what a command takes is accepted by its shape.                       *)
RECURSIVE Nodes(_)
Nodes(e) == IF e[1] = "T" THEN {}
            ELSE {e} \cup UNION {Nodes(e[3][i]) : i \in 1 .. Len(e[3])}
ArgKind(a) == LET h == a[3][1] IN
              IF h[1] = "N" /\ h[2] = "bracket" THEN "b"
              ELSE IF h[1] = "N" /\ h[2] = "paren" THEN "p" ELSE "t"
ArgWord(as) == Cat([i \in 1 .. Len(as) |-> ArgKind(as[i])])
TreeOf == IF Has("tree") THEN res.tree ELSE res.treem
C10_Shapes ==
  (Has("tree") \/ Has("treem")) =>
    \A n \in Nodes(TreeOf) :
      n[2] = "cmd" =>
        LET as == KidsOf(n, "arg")
            shape == CmdShape([sp |-> Sp], CName(n))
        IN CASE shape[1] \in {"unknown", "none"} -> as = <<>>
             [] shape[1] = "n" -> Len(as) <= shape[2]
             [] shape[1] = "glob" -> PrefixMatch(shape[2], ArgWord(as))
             [] shape[1] = "left1" -> Len(as) <= 1
             [] shape[1] = "infix" -> Len(as) \in {1, 2}
             [] shape[1] = "greedy" -> Len(as) = 1
C10_EnvShapes ==
  (Has("tree") \/ Has("treem")) =>
    \A n \in Nodes(TreeOf) :
      n[2] = "beginc" =>
        LET as == KidsOf(n, "arg")
            shape == EnvShape([sp |-> Sp], KidsOf(n, "sym")[1][3])
        IN CASE shape[1] = "none" -> as = <<>>
             [] shape[1] = "n" -> Len(as) <= shape[2]
             [] shape[1] = "glob" -> PrefixMatch(shape[2], ArgWord(as))
             [] OTHER -> TRUE

(* C12: closers are where they belong.                                       *)
\* no open construct contains, at its own level, a mark that closes it
OwnTokens(n) == {K(n[3][i]) : i \in {i \in 1 .. Len(n[3]) : IsTok(n[3][i])}}
C12_Closers ==
  (Has("tree") \/ Has("treem")) =>
    \A n \in Nodes(TreeOf) :
      LET ks == n[3]
          inner == {K(ks[i]) : i \in {i \in 1 .. Len(ks) - 1 : IsTok(ks[i]) /\ i > 1}}
      IN CASE n[2] = "curly" -> "}" \notin inner /\ K(ks[1]) = "{"
           [] n[2] = "bracket" -> "]" \notin inner /\ K(ks[1]) = "["
           [] n[2] = "paren" -> ")" \notin inner /\ K(ks[1]) = "("
           [] n[2] = "formula" -> IF K(ks[1]) = "$" THEN "$" \notin inner ELSE "emath" \notin inner
           [] n[2] = "env" -> /\ K(ks[1]) = "beginc"
                              /\ \A i \in 1 .. Len(ks) - 1 : K(ks[i]) # "endc"
           [] n[2] = "lr" -> /\ K(ks[1]) = "lrc"
                             /\ \A i \in 2 .. Len(ks) - 1 : K(ks[i]) # "lrc"
           [] n[2] = "error" -> K(ks[1]) \in {"}", "emath", "sym", "w", "error"}
           [] OTHER -> TRUE

(* C13: operands.                                                            *)
\* an attached item is the one before the mark; a script takes one item
C13_Attach ==
  (Has("tree") \/ Has("treem")) =>
    \A n \in Nodes(TreeOf) :
      n[2] = "attach" =>
        LET ks == n[3]
            M == {i \in 1 .. Len(ks) : IsTok(ks[i]) /\ K(ks[i]) \in {"_", "^", "'"}}
            m == CHOOSE i \in M : \A j \in M : i <= j
            after == SelectSeq(SubSeq(ks, m + 1, Len(ks)), LAMBDA x : K(x) \notin TriviaK)
        IN /\ M # {}
           /\ m \in {1, 2}
           /\ m = 2 => K(ks[1]) = "arg"
           /\ K(ks[m]) = "'" => Len(ks) = m
           /\ K(ks[m]) # "'" => /\ Len(after) <= 1
                                /\ (Len(after) = 1 /\ IsTok(after[1]) /\ K(after[1]) = "w") => Len(after[1][3]) = 1

----------------------------------------------------------------------------
(* C14..C17: the converter restores what it changes.                          *)
CMachine == ph # 0 /\ ~Done /\ View \in {"text", "math"} /\ "work" \in DOMAIN st
Pending(s, a) == Len(SelectSeq(s.work, LAMBDA x : x.a = a))
\* every entered environment has its exit pending, and the indentation is
\* two for every list that is open
ListExits(s) == Len(SelectSeq(s.work, LAMBDA x : x.a = "exit"))
C14_ModeRestored ==
  \* when the work is done the mode is the initial one
  (CMachine /\ CDone(st) /\ ~st.err) => st.mode = View
C16_EnvRestored == (CMachine /\ CDone(st) /\ ~st.err) => st.env = "none"
C17_IndentRestored ==
  CMachine => /\ ((CDone(st) /\ ~st.err) => st.indent = 0)
              /\ (st.env \in Lists => st.indent >= 2)
C15_AppendOnly ==
  [][(CMachine /\ ph' = ph) => StartsWith(st'.out, st.out)]_vars
\* marks that delimit equations are balanced in a text that succeeded
RECURSIVE Dollars(_, _)
Dollars(cs, n) == IF cs = <<>> THEN n
                  ELSE IF Head(cs) = "\\" /\ Len(cs) > 1 THEN Dollars(SubSeq(cs, 3, Len(cs)), n)
                  ELSE Dollars(Tail(cs), IF Head(cs) = "$" THEN n + 1 ELSE n)
\* (raw text may contain anything)
NoRaw == \A i \in 1 .. Len(res.exp) :
           /\ res.exp[i] # <<"if", "\\iftypst">>
           /\ ~(res.exp[i][1] = "cmd" /\ res.exp[i][2] \in {"\\label", "\\includegraphics", "\\color", "\\textcolor", "\\colorbox"})
C14_Balanced ==
  Has("text") => ((res.text[1] /\ NoRaw) => Dollars(CharsOf(res.text[2]), 0) % 2 = 0)

(* C19: every run ends with a result: output or a failure.                   *)
RECURSIVE WellFormed(_)
WellFormed(e) == IF e[1] = "T" THEN Len(e) = 3 ELSE e[1] = "N" /\ \A i \in 1 .. Len(e[3]) : WellFormed(e[3][i])
C19_Total ==
  Done => /\ \A v \in DOMAIN res \cap {"tree", "treem"} : WellFormed(res[v]) /\ res[v][2] = "root"
          /\ \A v \in DOMAIN res \cap {"text", "math"} : res[v][1] \in BOOLEAN

(* C20: errors are not swallowed.                                            *)
\* (arguments used as raw text, and parts of figures, are looked at elsewhere)
RawCmds == {"label", "includegraphics", "caption", "centering", "color", "textcolor", "colorbox"} \cup DOMAIN RuleOf
RECURSIVE LiveErr(_)
LiveErr(e) ==
  \/ K(e) = "error"
  \/ /\ ~IsTok(e)
     /\ K(e) \notin {"beginc", "comment", "typst"}
     /\ ~(K(e) = "cmd" /\ CName(e) \in RawCmds)
     /\ \E i \in 1 .. Len(Kids(e)) : LiveErr(Kids(e)[i])
C20_ErrorsFail ==
  /\ Has("text") => (LiveErr(res.treem) => ~res.text[1])
  /\ Has("math") => (LiveErr(res.treem) => ~res.math[1])
\* documents that were made with a fault fail, and the ones made without succeed
C20_AsMade ==
  (Done /\ Recorded /\ "good" \in DOMAIN Doc) =>
    /\ "text" \in DOMAIN res => res.text[1] = Doc.good
    /\ "math" \in DOMAIN res => res.math[1] = Doc.good
=============================================================================
