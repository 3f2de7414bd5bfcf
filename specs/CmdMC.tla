------------------------------ MODULE CmdMC ------------------------------
(* The reader of CmdLine as a machine that takes one step per flag or file, over every command line of up to N tokens. *)
EXTENDS CmdLine
CONSTANTS N
VARIABLES args, i, st
vars == <<args, i, st>>
T(s) == CASE s = "build" -> <<98, 117, 105, 108, 100>> [] s = "f" -> <<102>> [] s = "g" -> <<103>>
          [] s = "-o" -> <<45, 111>> [] s = "-og" -> <<45, 111, 103>> [] s = "-g" -> <<45, 103>> [] s = "-gx" -> <<45, 103, 120>>
          [] s = "-O2" -> <<45, 79, 50>> [] s = "-O" -> <<45, 79>> [] s = "-DA=1" -> <<45, 68, 65, 61, 49>>
          [] s = "--output=g" -> <<45, 45, 111, 117, 116, 112, 117, 116, 61, 103>> [] s = "--output" -> <<45, 45, 111, 117, 116, 112, 117, 116>>
          [] s = "--" -> <<45, 45>> [] s = "-x" -> <<45, 120>> [] s = "--help" -> <<45, 45, 104, 101, 108, 112>>
Tokens == {T("build"), T("f"), T("g"), T("-o"), T("-og"), T("-g"), T("-gx"), T("-O2"), T("-O"), T("-DA=1"), T("--output=g"), T("--output"),
           T("--"), T("-x"), T("--help")}
Init == /\ args \in UNION {[1..n -> Tokens] : n \in 0..N}
        /\ IF args # <<>> /\ IsCommand(args[1]) THEN i = 2 /\ st = [Read0 EXCEPT !.cmd = Str(args[1]), !.chosen = TRUE]
           ELSE i = 1 /\ st = Read0
Done == st.over \/ i > Len(args)
Next == /\ ~Done
        /\ LET more == i < Len(args)
               r == ReadOne(st, args[i], more, IF more THEN args[i + 1] ELSE NONE)
           IN st' = r[1] /\ i' = i + r[2] /\ UNCHANGED args
Fair == Init /\ [][Next]_vars /\ WF_vars(Next)
\* every argument read is a file, a flag, or the value of the flag before it; files keep their order
RECURSIVE Sub(_, _)
Sub(p, q) == p = <<>> \/ (q # <<>> /\ IF p[1] = q[1] THEN Sub(Tail(p), Tail(q)) ELSE Sub(p, Tail(q)))
Read1 == LET n == i - 1 - (IF st.chosen THEN 1 ELSE 0) IN
         st.err = "" /\ ~st.over => Len(st.files) + Len(st.vals) <= n /\ n <= Len(st.files) + 2 * Len(st.vals)
InOrder == Sub(st.files, args)
Stops == st.err # "" => st.over
\* the machine computes what the recursive reader does
Same == Done => st = Read(args)
\* nothing behind -- counts, and a long flag with its value in one argument is the flag followed by the value
Cut == \A k \in 1..Len(args) : (args[k] = T("--") /\ i = k /\ ~Done) =>
         LET p == Read(SubSeq(args, 1, k - 1)) IN p.files = st.files /\ p.vals = st.vals
Split == (Done /\ st.err = "") => \A k \in 1..Len(args) :
           (args[k] = T("--output=g") /\ st.cmd # "help") =>
           LET r == Read(SubSeq(args, 1, k - 1) \o <<T("--output"), T("g")>> \o SubSeq(args, k + 1, Len(args)))
           IN (k > 1 /\ args[k - 1] \in {T("-o"), T("--output"), T("-O")}) \/ (r.vals = st.vals /\ r.files = st.files)
\* two settings of the same flag: the later one holds
LastHolds == st.vals # <<>> /\ st.vals[Len(st.vals)][1] = "output" => Last(st, "output", NONE) = st.vals[Len(st.vals)][3]
Ends == <>Done
==========================================================================
