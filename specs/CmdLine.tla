------------------------------ MODULE CmdLine ------------------------------
(* What a command line of the compiler means.  An argument is a sequence of bytes.  Reading is a state machine over the
   arguments from left to right; Meaning turns what was read into the settings of a compilation.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* --- bytes and strings
CH == <<" ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/","0","1","2","3","4","5","6","7","8","9",":",";","<","=",">","?",
        "@","A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","[","\\","]","^","_",
        "`","a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z","{","|","}","~">>
RECURSIVE Str(_)
Str(b) == IF b = <<>> THEN "" ELSE (IF b[1] \in 32..126 THEN CH[b[1] - 31] ELSE "\n" \o ToString(b[1]) \o ";") \o Str(Tail(b))
Space(x) == x \in {32, 9, 10, 11, 12, 13}
Digit(x) == x \in 48..57
Alpha(x) == x \in 65..90 \/ x \in 97..122 \/ x = 95
RECURSIVE LTrim(_), RTrim(_), Find(_, _, _)
LTrim(b) == IF b # <<>> /\ Space(b[1]) THEN LTrim(Tail(b)) ELSE b
RTrim(b) == IF b # <<>> /\ Space(b[Len(b)]) THEN RTrim(SubSeq(b, 1, Len(b) - 1)) ELSE b
Find(b, x, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = x THEN i ELSE Find(b, x, i + 1)
From(b, i) == SubSeq(b, i, Len(b))
Mentions(text, what) == Len(what) > 40 \/ \E i \in 1..(Len(text) - Len(what) + 1) : SubSeq(text, i, i + Len(what) - 1) = what
MentionsName(text, n) == \E i \in 1..(Len(text) - Len(n) + 1) : Str(SubSeq(text, i, i + Len(n) - 1)) = n
NONE == <<0>>                       \* not given (arguments hold no byte 0)

\* --- the flags: name, letter (0: none), what it takes
F(n, s, k) == [n |-> n, s |-> s, k |-> k]
Globals == { F("version", 118, "opt"), F("help", 104, "opt"), F("max-errors", 0, "int"), F("warnings", 0, "str"), F("warnings-all", 0, "opt"),
             F("no-color", 0, "opt"), F("without-builtins", 0, "opt"), F("cflags", 0, "arr"), F("no-pie", 0, "opt"),
             F("optimization", 79, "O"), F("define", 68, "def"), F("with-mm", 0, "opt"), F("c-define", 0, "arr"), F("c-header-dir", 0, "arr"),
             F("c-lib-dir", 0, "arr"), F("c-lib", 0, "arr"), F("debug", 103, "opt"), F("debug-pass-manager", 0, "opt"), F("passes", 0, "str"),
             F("load-pass-plugin", 0, "arr"), F("dump-stats", 0, "stats"), F("no-progress", 0, "opt"), F("stdlib", 0, "str") }
Locals == [ dev |-> { F("last-stage", 0, "stage"), F("dump-ast", 0, "dump"), F("clean-ast", 0, "opt"), F("with-location", 0, "opt"),
                      F("without-attrs", 0, "opt"), F("with-named-enums", 0, "opt"), F("output", 111, "str"), F("print-ir", 0, "opt"),
                      F("emit-assembly", 0, "opt"), F("emit-bitcode", 0, "opt") },
            build |-> { F("output", 111, "str"), F("build-dir", 0, "str") },
            test |-> { F("build-dir", 0, "str") },
            help |-> {} ]
Commands == {"help", "dev", "build", "test"}
StageSeq == <<"Parse", "Preprocess", "Shake", "Bind", "ConstCheck", "TypeCheck", "Simplify", "MemoryMgmt", "Lower", "Finalize", "Codegen",
              "Collect", "Compile">>
StageIx(n) == CHOOSE i \in 1..Len(StageSeq) : StageSeq[i] = n
Enum(k) == CASE k = "stage" -> {StageSeq[i] : i \in 1..Len(StageSeq)} [] k = "dump" -> {"NONE", "JSON", "YAML", "CXY"}
             [] k = "stats" -> {"NONE", "SUMMARY", "FULL"}
WarningSeq == <<"MissingStage", "UnusedVariable", "RedundantStmt", "CMacroRedefine", "CUnsupportedField", "MaybeUninitialized">>
AllWarnings == 0..5
DefaultWarnings == {1, 2, 4}

\* --- values: does a flag of this kind take this text
HexV(x) == IF Digit(x) THEN x - 48 ELSE IF x \in 97..102 THEN x - 87 ELSE IF x \in 65..70 THEN x - 55 ELSE 99
RECURSIVE Num(_, _, _)
Num(b, base, acc) ==                     \* -1: not a number of this base.  (Numbers of the inputs fit TLC's, or have 20 digits and more.)
  IF b = <<>> THEN acc ELSE IF HexV(b[1]) >= base THEN -1 ELSE Num(Tail(b), base, acc * base + HexV(b[1]))
IntOf(v) ==                                \* <<ok, value>>
  LET t == LTrim(v)
      signed == t # <<>> /\ t[1] \in {43, 45}
      m == IF signed THEN Tail(t) ELSE t
      base == IF m # <<>> /\ m[1] = 48 THEN (IF Len(m) > 2 /\ m[2] \in {120, 88} THEN 16 ELSE 8) ELSE 10
      d == IF base = 16 THEN From(m, 3) ELSE m
      n == IF d = <<>> \/ Len(d) >= 20 THEN -1 ELSE Num(d, base, 0)
  IN IF n = -1 THEN <<FALSE, 0>> ELSE <<TRUE, IF signed /\ t[1] = 45 THEN 0 - n ELSE n>>
RECURSIVE IdEnd(_, _)
IdEnd(b, i) == IF i <= Len(b) /\ (Alpha(b[i]) \/ Digit(b[i])) THEN IdEnd(b, i + 1) ELSE i
Define(v) ==                             \* <<ok, name, value>>
  LET t == LTrim(v) IN
  IF t = <<>> \/ ~Alpha(t[1]) THEN <<FALSE, NONE, NONE>>
  ELSE LET e == IdEnd(t, 1) IN
       IF e > Len(t) THEN <<TRUE, t, NONE>>
       ELSE IF t[e] = 61 THEN <<TRUE, SubSeq(t, 1, e - 1), From(t, e + 1)>>
       ELSE <<FALSE, NONE, NONE>>
Accepts(k, v) ==
  CASE k = "str" -> TRUE
    [] k = "int" -> IntOf(v)[1]
    [] k = "arr" -> v # <<>>
    [] k = "def" -> Define(v)[1]
    [] k = "O" -> Len(v) = 1 /\ v[1] \in {48, 49, 50, 51, 100, 115}
    [] OTHER -> Str(LTrim(v)) \in Enum(k)

\* --- reading
Read0 == [cmd |-> "dev", chosen |-> FALSE, vals |-> <<>>, files |-> <<>>, err |-> "", culprit |-> NONE, flag |-> "", over |-> FALSE]
Known(st) == Globals \cup Locals[st.cmd]
Bad(st, e, arg, flag) == [st EXCEPT !.err = e, !.culprit = arg, !.flag = flag, !.over = TRUE]
Named(st, n) == {f \in Known(st) : f.n = n}
Lettered(st, c) == {f \in Known(st) : f.s = c /\ c # 0}
\* One argument and, when a flag takes its value from it, the next one.  Answers the new state and how many arguments it used.
ReadOne(st, a, more, next) ==
  LET flagged(fs, v) ==
        IF fs = {} THEN <<Bad(st, "unknown", a, ""), 1>>
        ELSE LET f == CHOOSE f \in fs : TRUE IN
             IF f.k = "opt"
             THEN IF v # NONE THEN <<Bad(st, "unexpected value", NONE, f.n), 1>>
                  ELSE <<[st EXCEPT !.vals = Append(@, <<f.n, f.k, NONE>>)], 1>>
             ELSE LET fromNext == v = NONE
                      w == IF fromNext THEN next ELSE v IN
                  IF fromNext /\ ~more THEN <<Bad(st, "no value", NONE, f.n), 1>>
                  ELSE IF ~Accepts(f.k, w) THEN <<Bad(st, "bad value", NONE, f.n), 1>>
                  ELSE <<[st EXCEPT !.vals = Append(@, <<f.n, f.k, w>>)], IF fromNext THEN 2 ELSE 1>>
  IN IF a = <<45, 45>> THEN <<[st EXCEPT !.over = TRUE], 1>>
     ELSE IF Len(a) > 1 /\ a[1] = 45 /\ a[2] # 45
     THEN flagged(Lettered(st, a[2]), IF Len(a) > 2 THEN From(a, 3) ELSE NONE)
     ELSE IF Len(a) > 2 /\ a[1] = 45 /\ a[2] = 45
     THEN LET e == Find(a, 61, 3) IN
          IF e = 0 THEN flagged(Named(st, Str(From(a, 3))), NONE)
          ELSE flagged(Named(st, Str(SubSeq(a, 3, e - 1))), LTrim(From(a, e + 1)))
     ELSE IF st.cmd = "help" /\ Len(st.files) = 1 THEN <<Bad(st, "positional", NONE, ""), 1>>
     ELSE <<[st EXCEPT !.files = Append(@, a)], 1>>
IsCommand(a) == a # <<>> /\ a[1] # 45 /\ Str(a) \in Commands
RECURSIVE ReadFrom(_, _, _)
ReadFrom(st, args, i) ==
  IF st.over \/ i > Len(args) THEN st
  ELSE LET more == i < Len(args)
           r == ReadOne(st, args[i], more, IF more THEN args[i + 1] ELSE NONE)
       IN ReadFrom(r[1], args, i + r[2])
Read(args) ==
  IF args # <<>> /\ IsCommand(args[1]) THEN ReadFrom([Read0 EXCEPT !.cmd = Str(args[1]), !.chosen = TRUE], args, 2)
  ELSE ReadFrom(Read0, args, 1)

\* --- meaning
Given(st, n) == SelectSeq(st.vals, LAMBDA x : x[1] = n)
On(st, n) == IF Given(st, n) = <<>> THEN 0 ELSE 1
Last(st, n, default) == LET g == Given(st, n) IN IF g = <<>> THEN default ELSE g[Len(g)][3]
All(st, n) == LET g == Given(st, n) IN [i \in 1..Len(g) |-> g[i][3]]
RECURSIVE Warn(_, _, _)
Warn(ws, b, first) ==                 \* <<ok, warnings>> after the list b, items separated by bars
  IF b = <<>> THEN <<TRUE, ws>>
  ELSE IF b[1] = 124 /\ ~first THEN Warn(ws, Tail(b), FALSE)
  ELSE LET e == Find(b, 124, 1)
           item == LTrim(IF e = 0 THEN b ELSE SubSeq(b, 1, e - 1))
           neg == item # <<>> /\ item[1] = 126
           w == Str(RTrim(LTrim(IF neg THEN Tail(item) ELSE item)))
           ids == IF w = "All" THEN AllWarnings ELSE {i \in AllWarnings : WarningSeq[i + 1] = w}
           rest == IF e = 0 THEN <<>> ELSE From(b, e + 1)
       IN IF w = "None" THEN Warn({}, rest, FALSE)
          ELSE IF ids = {} THEN <<FALSE, ws>>
          ELSE Warn(IF neg THEN ws \ ids ELSE ws \cup ids, rest, FALSE)
OptByte(v) == IF v = NONE \/ v[1] = 100 THEN 48 ELSE v[1]
Min(a, b) == IF a < b THEN a ELSE b
\* the settings; env: the environment
Meaning(st, env, base) ==
  LET dev == st.cmd = "dev"
      bc == dev /\ On(st, "emit-bitcode") = 1
      as == dev /\ ~bc /\ On(st, "emit-assembly") = 1
      ir == dev /\ ~bc /\ ~as /\ On(st, "print-ir") = 1
      dump0 == LET v == Last(st, "dump-ast", NONE) IN IF v = NONE THEN "NONE" ELSE Str(LTrim(v))
      dump == IF bc \/ as \/ ir THEN "NONE" ELSE dump0
      stage0 == LET v == Last(st, "last-stage", NONE) IN IF v = NONE THEN "Compile" ELSE Str(LTrim(v))
      stage == IF bc \/ as THEN "Compile" ELSE IF ir THEN "Codegen"
               ELSE IF dump # "NONE" THEN StageSeq[Min(StageIx(stage0), StageIx("Lower"))] ELSE stage0
      stats == LET v == Last(st, "dump-stats", NONE) IN IF v = NONE THEN "SUMMARY" ELSE Str(LTrim(v))
      defs == All(st, "define")
      me == Last(st, "max-errors", NONE)
      b(x) == IF x THEN 1 ELSE 0
      lib == Last(st, "stdlib", NONE)
  IN [ end |-> "ok", cmd |-> st.cmd,
       output |-> IF st.cmd = "test" THEN NONE ELSE Last(st, "output", IF dev THEN NONE ELSE <<97, 112, 112>>),
       buildDir |-> Last(st, "build-dir", NONE),
       libDir |-> IF lib # NONE THEN lib ELSE env.lib,
       os |-> env.os, passes |-> Last(st, "passes", NONE),
       cflags |-> All(st, "cflags"), cDefines |-> base.cDefines \o All(st, "c-define"),
       libPaths |-> All(st, "c-lib-dir"), includes |-> base.includes \o All(st, "c-header-dir"), libs |-> All(st, "c-lib"),
       plugins |-> All(st, "load-pass-plugin"),
       defines |-> base.defines \o [i \in 1..Len(defs) |-> <<Define(defs[i])[2], Define(defs[i])[3]>>],
       withoutBuiltins |-> On(st, "without-builtins"), noPIE |-> On(st, "no-pie"), mm |-> On(st, "with-mm"), debug |-> On(st, "debug"),
       debugPM |-> On(st, "debug-pass-manager"), opt |-> OptByte(Last(st, "optimization", NONE)), stats |-> stats,
       printIR |-> b(ir), bitcode |-> b(bc), assembly |-> b(as), cleanAst |-> On(st, "clean-ast"), withLocation |-> On(st, "with-location"),
       withoutAttrs |-> On(st, "without-attrs"), namedEnums |-> On(st, "with-named-enums"),
       dump |-> IF dev THEN dump ELSE "-", stage |-> IF dev THEN stage ELSE "-",
       maxErrors |-> IF me = NONE THEN 10 ELSE IntOf(me)[2], noColor |-> On(st, "no-color"), progress |-> 1 - On(st, "no-progress"),
       warnings |-> LET ws == Warn(IF On(st, "warnings-all") = 1 THEN AllWarnings ELSE DefaultWarnings, LET w == Last(st, "warnings", NONE) IN IF w = NONE THEN <<>> ELSE w, TRUE) IN ws,
       files |-> st.files ]
\* what the whole command line does: <<"error", ...>>, <<"exit", how>> or <<"ok", settings>>
Outcome(args, env, base) ==
  LET st == Read(args) IN
  IF st.err # "" THEN <<"error", st>>
  ELSE IF On(st, "version") = 1 THEN <<"exit", "version">>
  ELSE IF On(st, "help") = 1 THEN <<"exit", IF st.chosen THEN st.cmd ELSE "[cmd]">>
  ELSE IF st.cmd = "help" THEN <<"exit", IF st.files = <<<<>>>> THEN "dev" ELSE IF st.files # <<>> /\ Str(st.files[1]) \in Commands THEN Str(st.files[1]) ELSE "[cmd]">>
  ELSE LET m == Meaning(st, env, base) IN
       IF ~m.warnings[1] THEN <<"error", [st EXCEPT !.err = "warnings"]>>
       ELSE IF st.files = <<>> THEN <<"error", [st EXCEPT !.err = "no file"]>>
       ELSE <<"ok", m>>
============================================================================
