------------------------------ MODULE SnapMap -------------------------------
(***************************************************************************)
(* A map with nested snapshots.  The plain meaning keeps a copy of the map   *)
(* for every open snapshot; the implementation keeps one map and a log of    *)
(* what to undo, which must refine it.                                       *)
(*                                                                         *)
(* Histories are typed one operation at a time (up to LEN of them) or read   *)
(* from a file; at the end of each the expected observations are printed.    *)
(* Observation after every operation: what the operation returns, and the    *)
(* value of every key.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
Conf == JsonDeserialize(IOEnv.CONF)      \* keys, vals, len, init, mode
Recorded == Conf.mode = "docs"
Hists == IF Recorded THEN ndJsonDeserialize(IOEnv.DOCS) ELSE <<>>
Keys == {Conf.keys[i] : i \in 1 .. Len(Conf.keys)}
Vals == {Conf.vals[i] : i \in 1 .. Len(Conf.vals)}
Absent == Conf.absent                    \* how an absent key is shown

VARIABLES hist,   \* operations done
          map, stack,           \* plain: the map, and the copies of the open snapshots
          cmap, log, marks,     \* log based: the map, the undo log, log lengths of the open snapshots
          obs, from, over
vars == <<hist, map, stack, cmap, log, marks, obs, from, over>>

Range_(xs) == {xs[i] : i \in 1 .. Len(xs)}
Ops(depth) == {<<"ins", k, v>> : k \in Keys, v \in Vals}
              \cup (IF "rem" \in Range_(Conf.also) THEN {<<"rem", k>> : k \in Keys} ELSE {})
              \cup {<<"snap">>}
              \cup (IF depth > 0 THEN {<<"roll">>} \cup (IF "commit" \in Range_(Conf.also) THEN {<<"commit">>} ELSE {}) ELSE {})

----------------------------------------------------------------------------
\* plain meaning
PStep(o) ==
  CASE o[1] = "ins" -> /\ map' = [map EXCEPT ![o[2]] = o[3]] /\ UNCHANGED stack
    [] o[1] = "rem" -> /\ map' = [map EXCEPT ![o[2]] = Absent] /\ UNCHANGED stack
    [] o[1] = "snap" -> /\ stack' = Append(stack, map) /\ UNCHANGED map
    [] o[1] = "roll" -> /\ map' = stack[Len(stack)] /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
    [] o[1] = "commit" -> /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED map
Returns(o) == CASE o[1] = "ins" -> map[o[2]] = Absent      \* a new key
                [] o[1] = "rem" -> map[o[2]] # Absent      \* something was removed
                [] OTHER -> TRUE
\* log based; the log only grows while a snapshot is open
Note(e) == log' = IF marks = <<>> THEN log ELSE Append(log, e)
RECURSIVE Undo(_, _, _)
Undo(m, l, n) == IF Len(l) = n THEN m
                 ELSE LET e == l[Len(l)] IN Undo([m EXCEPT ![e[1]] = e[2]], SubSeq(l, 1, Len(l) - 1), n)
LStep(o) ==
  CASE o[1] = "ins" -> /\ Note(<<o[2], cmap[o[2]]>>) /\ cmap' = [cmap EXCEPT ![o[2]] = o[3]] /\ UNCHANGED marks
    [] o[1] = "rem" -> /\ IF cmap[o[2]] = Absent THEN UNCHANGED log ELSE Note(<<o[2], cmap[o[2]]>>)
                       /\ cmap' = [cmap EXCEPT ![o[2]] = Absent] /\ UNCHANGED marks
    [] o[1] = "snap" -> /\ marks' = Append(marks, Len(log)) /\ UNCHANGED <<cmap, log>>
    [] o[1] = "roll" -> LET n == marks[Len(marks)] IN
                        /\ cmap' = Undo(cmap, log, n) /\ log' = SubSeq(log, 1, n)
                        /\ marks' = SubSeq(marks, 1, Len(marks) - 1)
    [] o[1] = "commit" -> /\ marks' = SubSeq(marks, 1, Len(marks) - 1) /\ UNCHANGED cmap
                          /\ log' = IF Len(marks) = 1 THEN <<>> ELSE log
View(m) == [i \in 1 .. Len(Conf.keys) |-> m[Conf.keys[i]]]

Do(o) == /\ PStep(o) /\ LStep(o)
         /\ hist' = Append(hist, o)
         /\ obs' = Append(obs, <<Returns(o), View(map')>>)
         /\ UNCHANGED <<from, over>>
Report == PrintT("@@" \o ToJson([id |-> from, ops |-> IF Recorded THEN <<>> ELSE hist, obs |-> obs]))
Stop == /\ over' = TRUE /\ Report /\ UNCHANGED <<hist, map, stack, cmap, log, marks, obs, from>>

InitMap == [k \in Keys |-> IF k \in DOMAIN Conf.init THEN Conf.init[k] ELSE Absent]
Init == /\ from \in IF Recorded THEN 1 .. Len(Hists) ELSE {0}
        /\ hist = <<>> /\ map = InitMap /\ stack = <<>> /\ obs = <<>> /\ over = FALSE
        /\ cmap = InitMap /\ log = <<>> /\ marks = <<>>
Next == /\ ~over
        /\ IF Recorded
           THEN IF Len(hist) < Len(Hists[from].ops) THEN Do(Hists[from].ops[Len(hist) + 1]) ELSE Stop
           ELSE IF Len(hist) < Conf.len THEN \E o \in Ops(Len(stack)) : Do(o) ELSE Stop

----------------------------------------------------------------------------
TypeOK == map \in [Keys -> Vals \cup {Absent}] /\ Len(stack) = Len(marks)
\* the undo log refines the copies
Same == cmap = map
\* undoing to any open snapshot would restore its copy
LogIsRight == \A i \in 1 .. Len(stack) : Undo(cmap, log, marks[i]) = stack[i]
\* without an open snapshot nothing is logged
NoLeak == marks = <<>> => log = <<>>
\* rolling back restores the map of the matching snapshot
RollRestores == [][Len(stack') < Len(stack) => map' \in {map, stack[Len(stack)]}]_vars
=============================================================================
