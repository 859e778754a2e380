-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* `mitex compile`: arguments, files, faults.                               *)
(*                                                                         *)
(* A run takes its arguments one at a time, applies the rules for named and  *)
(* positional ones, reads the input, converts it, and writes the output.     *)
(* The file system is a function from paths (of a scratch directory) to      *)
(*   <<"none">>, <<"dir">>, <<"bytes", k>> (file k of the given ones: its    *)
(*   text and whether it is text at all), <<"conv", k>>, <<"tree", k>> (what *)
(*   a run writes for file k), <<"full">> (every write fails).               *)
(***************************************************************************)
EXTENDS Lexer, MacroEngine, Converter, FiniteSets
Conf == JsonDeserialize(IOEnv.CONF)
  \* tokens: arguments;  len: number of them;  paths: the paths with their parents
  \* worlds: lists of [path, state];  files: [cs, utf8];  given: argument lists
Docs == ndJsonDeserialize(IOEnv.DOCS)

Tokens == {Conf.tokens[i] : i \in 1 .. Len(Conf.tokens)}
IsHyphen(a) == StartsWith(a, "-") /\ Len(a) > 1

----------------------------------------------------------------------------
(* Paths                                                                     *)
RECURSIVE LastOf(_, _)
LastOf(s, c) == IF s = "" THEN 0 ELSE IF At(s, Len(s)) = c THEN Len(s) ELSE LastOf(SubSeq(s, 1, Len(s) - 1), c)
RECURSIVE NoTrailing(_)
NoTrailing(s) == IF Len(s) > 1 /\ EndsWith(s, "/") THEN NoTrailing(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* the name of the input with the extension .typ
WithExt(path) ==
  LET p == NoTrailing(path)
      cut == LastOf(p, "/")
      dir == SubSeq(p, 1, cut)
      base == DropS(p, cut)
      dot == LastOf(base, ".")
  IN IF base \in {"", ".", ".."} THEN path
     ELSE IF dot <= 1 THEN dir \o base \o ".typ"
     ELSE dir \o SubSeq(base, 1, dot - 1) \o ".typ"
\* the file that a path names
RECURSIVE Resolve(_)
Resolve(p) == IF StartsWith(p, "./") THEN Resolve(DropS(p, 2)) ELSE p
Parent(p) == LET cut == LastOf(p, "/") IN IF cut = 0 THEN "." ELSE SubSeq(p, 1, cut - 1)

----------------------------------------------------------------------------
(* Arguments                                                                 *)
A0 == [pend |-> "", esc |-> FALSE, i |-> <<>>, o |-> <<>>, w |-> <<>>, s |-> <<>>, pos |-> <<>>, end |-> ""]
Fail_(a) == [a EXCEPT !.end = "error"]
Give(a, opt, v) == IF a[opt] # <<>> THEN Fail_(a)
                   ELSE IF opt = "s" /\ v \notin {"syntax", "document"} THEN Fail_(a)
                   ELSE [a EXCEPT ![opt] = <<v>>, !.pend = ""]
Shorts == [c \in {"i", "o", "w"} |-> c]
Longs == ("input" :> "i") @@ ("output" :> "o") @@ ("workspace" :> "w") @@ ("stage" :> "s")
LongArg(a, x) ==
  LET eq == FindFrom(x, "=", 1)
      name == IF eq = 0 THEN x ELSE SubSeq(x, 1, eq - 1)
      val == IF eq = 0 THEN <<>> ELSE <<DropS(x, eq)>>
  IN IF name = "help" THEN [a EXCEPT !.end = IF val = <<>> THEN "help" ELSE "error"]
     ELSE IF name \notin DOMAIN Longs THEN Fail_(a)
     ELSE IF val = <<>> THEN [a EXCEPT !.pend = Longs[name]]
     ELSE Give(a, Longs[name], val[1])
ShortArg(a, x) ==
  LET c == At(x, 1) IN
  IF c = "h" THEN [a EXCEPT !.end = "help"]
  ELSE IF c \notin DOMAIN Shorts THEN Fail_(a)
  ELSE IF Len(x) = 1 THEN [a EXCEPT !.pend = c]
  ELSE Give(a, c, IF At(x, 2) = "=" THEN DropS(x, 2) ELSE DropS(x, 1))
\* one argument
Arg(a, x) ==
  IF a.esc THEN [a EXCEPT !.pos = Append(@, x)]
  ELSE IF IsHyphen(x)
  THEN IF a.pend # "" THEN Fail_(a)
       ELSE IF x = "--" THEN [a EXCEPT !.esc = TRUE]
       ELSE IF StartsWith(x, "--") THEN LongArg(a, DropS(x, 2))
       ELSE ShortArg(a, DropS(x, 1))
  ELSE IF a.pend # "" THEN Give(a, a.pend, x)
  ELSE [a EXCEPT !.pos = Append(@, x)]
\* named and positional arguments mean the same; not both
Val(v) == IF v = <<>> THEN "" ELSE v[1]
Mixed(a) == (Val(a.i) # "" \/ Val(a.o) # "") /\ a.pos # <<>>
Files(a) ==
  IF a.end # "" \/ a.pend # "" \/ Mixed(a) \/ Len(a.pos) > 2 THEN <<>>
  ELSE LET i == IF a.pos # <<>> THEN a.pos[1] ELSE Val(a.i)
           o == IF Len(a.pos) = 2 THEN a.pos[2] ELSE IF a.pos # <<>> THEN "" ELSE Val(a.o)
       IN IF i = "" THEN <<>> ELSE <<i, IF o = "" THEN WithExt(i) ELSE o>>
RECURSIVE ArgsFrom(_, _)
ArgsFrom(a, xs) == IF xs = <<>> \/ a.end # "" THEN a ELSE ArgsFrom(Arg(a, Head(xs)), Tail(xs))

----------------------------------------------------------------------------
VARIABLES args,   \* the arguments after `compile`
          world,  \* number of the initial file system
          fs, fs0,
          st,     \* arguments understood so far
          at,     \* arguments taken
          phase, status,
          text    \* number of the file that was read
vars == <<args, world, fs, fs0, st, at, phase, status, text>>

FsOf(w) == [p \in {Conf.paths[i] : i \in 1 .. Len(Conf.paths)} |->
              LET xs == Conf.worlds[w]
                  k == {i \in 1 .. Len(xs) : xs[i].path = p}
              IN IF k = {} THEN <<"none">> ELSE xs[CHOOSE i \in k : TRUE].state]
Node(p) == LET q == Resolve(p) IN
  IF q \in DOMAIN fs THEN fs[q] ELSE <<"none">>
\* can a file be made there?
Room(p) == LET q == Resolve(p) IN
  /\ q \in DOMAIN fs
  /\ \/ Parent(q) = "." \/ (Parent(q) \in DOMAIN fs /\ fs[Parent(q)] = <<"dir">>)

\* what the files convert to, once for all
Conversion(k) ==
  LET f == Docs[k] IN
  IF ~f.utf8 THEN <<FALSE, "">>
  ELSE ConvertTree(Parse(ERun(EInit(Lex(f.cs, "default"), "default")).out, "default"), "default", "text")

ASSUME \A k \in 1 .. Len(Docs) : PrintT("@@" \o ToJson([doc |-> k, conv |-> Conversion(k)]))

Init == /\ \/ /\ world \in 1 .. Len(Conf.worlds)
              /\ args \in UNION {[1 .. n -> Tokens] : n \in Conf.minlen .. Conf.len}
           \/ \E g \in 1 .. Len(Conf.given) : args = Conf.given[g].args /\ world = Conf.given[g].world
        /\ fs = FsOf(world) /\ fs0 = fs
        /\ st = A0 /\ at = 0 /\ phase = "args" /\ status = "running" /\ text = 0
Leave(s) == phase' = "over" /\ status' = s
Tell(s, f) == PrintT("@@" \o ToJson([args |-> args, world |-> world, status |-> s,
                       changed |-> {[path |-> p, state |-> f[p]] : p \in {q \in DOMAIN f : f[q] # fs0[q]}}]))
TakeArg == /\ phase = "args" /\ at < Len(args) /\ st.end = ""
           /\ st' = Arg(st, args[at + 1]) /\ at' = at + 1
           /\ UNCHANGED <<args, world, fs, fs0, phase, status, text>>
Understand == /\ phase = "args" /\ (at = Len(args) \/ st.end # "")
              /\ IF st.end = "help" THEN Leave("ok") /\ Tell("ok", fs)
                 ELSE IF Files(st) = <<>> THEN Leave("failed") /\ Tell("failed", fs)
                 ELSE phase' = "read" /\ UNCHANGED status
              /\ UNCHANGED <<args, world, fs, fs0, st, at, text>>
Read == /\ phase = "read"
        /\ LET n == Node(Files(st)[1]) IN
           IF n[1] = "bytes" /\ Docs[n[2]].utf8
           THEN phase' = "convert" /\ text' = n[2] /\ UNCHANGED status
           ELSE Leave("failed") /\ Tell("failed", fs) /\ UNCHANGED text
        /\ UNCHANGED <<args, world, fs, fs0, st, at>>
Convert == /\ phase = "convert"
           /\ IF st.s = <<"syntax">> \/ Conversion(text)[1]
              THEN phase' = "write" /\ UNCHANGED status
              ELSE Leave("failed") /\ Tell("failed", fs)
           /\ UNCHANGED <<args, world, fs, fs0, st, at, text>>
Write == /\ phase = "write"
         /\ LET o == Files(st)[2]
                q == Resolve(o)
                new == <<IF st.s = <<"syntax">> THEN "tree" ELSE "conv", text>>
            IN IF EndsWith(o, "/") \/ ~Room(o) \/ fs[q][1] \in {"dir", "full"}
               THEN Leave("failed") /\ UNCHANGED fs /\ Tell("failed", fs)
               ELSE fs' = [fs EXCEPT ![q] = new] /\ Leave("ok") /\ Tell("ok", fs')
         /\ UNCHANGED <<args, world, fs0, st, at, text>>
Next == TakeArg \/ Understand \/ Read \/ Convert \/ Write

----------------------------------------------------------------------------
Over == phase = "over"
\* nothing is touched unless the run succeeds
C23_FailureLeavesFiles == (Over /\ status = "failed") => fs = fs0
\* a run writes at most one file: the one given or the input's with .typ
C23_OneFile == Over =>
  \A p \in DOMAIN fs : fs[p] # fs0[p] => /\ status = "ok" /\ st.end = ""
                                         /\ p = Resolve(Files(st)[2])
\* the input is never modified, unless it is the output
C23_InputKept == (Over /\ Files(st) # <<>> /\ Resolve(Files(st)[1]) \in DOMAIN fs
                  /\ Resolve(Files(st)[1]) # Resolve(Files(st)[2]))
                 => fs[Resolve(Files(st)[1])] = fs0[Resolve(Files(st)[1])]
\* success means that the output holds the conversion of the input
C23_Converted == (Over /\ status = "ok" /\ st.end = "") =>
  LET n == fs0[Resolve(Files(st)[1])] IN
  /\ n[1] = "bytes"
  /\ fs[Resolve(Files(st)[2])] = <<IF st.s = <<"syntax">> THEN "tree" ELSE "conv", n[2]>>
  /\ st.s = <<"syntax">> \/ Conversion(n[2])[1]
\* mixing named and positional files is rejected
C23_NoMixing == (Over /\ st.end = "" /\ Mixed(st)) => status = "failed"
\* positional files mean what named ones mean
Named(a) == ArgsFrom(A0, <<"-i", a.pos[1]>> \o (IF Len(a.pos) = 2 THEN <<"--output", a.pos[2]>> ELSE <<>>)
                       \o (IF a.s = <<>> THEN <<>> ELSE <<"--stage", a.s[1]>>))
C23_SameMeaning == (Over /\ st.end = "" /\ st.pend = "" /\ Len(st.pos) \in {1, 2} /\ ~Mixed(st)
                    /\ \A i \in 1 .. Len(st.pos) : ~IsHyphen(st.pos[i])) => Files(Named(st)) = Files(st)
=============================================================================
