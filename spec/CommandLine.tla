----------------------------- MODULE CommandLine -----------------------------
(* Interpretation of the arguments: one argument is taken per step. An option  *)
(* takes the arguments that follow it as its parameters, whatever they look    *)
(* like; the first argument outside is the database. After the last argument   *)
(* the commands are carried out in order, or nothing is.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Tokens,    \* arguments to build command lines of
          MaxArgs, Random, Emit

\* [kind |-> "opt", key, style] or [kind |-> "val", text, quote]
Names == [help |-> <<"h", "help", "?">>, noverbose |-> <<"nv", "noverbose">>, quit |-> <<"q", "quit">>,
          eax |-> <<"eax", "exportalltoxml">>, bf |-> <<"bf", "blobtofile">>, pb |-> <<"pb", "parseblob">>,
          ex |-> <<"ex", "exporttoxml">>, ne |-> <<"ne", "notexclusively">>, ddc |-> <<"ddc", "dumpdbconfig">>,
          dc |-> <<"dc", "dumpconfig">>, dvc |-> <<"dvc", "dumpvendorsconfigs">>, dac |-> <<"dac", "dumpallconfigs">>,
          drc |-> <<"drc", "dumpdepotconfig">>, dpc |-> <<"dpc", "dumppartdepotconfig">>, log |-> <<"l", "logfile">>,
          eb |-> <<"eb", "exporttobinary">>, ib |-> <<"ib", "importfrombinary">>, slo |-> <<"slo", "savelostobjects">>,
          sts |-> <<"sts", "savetablessize">>]
Commands == DOMAIN Names
Params(cmd) == CASE cmd \in {"help", "noverbose", "quit", "ne"} -> 0
                 [] cmd \in {"ex", "drc", "dpc", "eb", "ib"} -> 2
                 [] OTHER -> 1
Known(key) == \E k \in Commands : \E i \in 1..Len(Names[k]) : Names[k][i] = key
CommandOf(key) == CHOOSE k \in Commands : \E i \in 1..Len(Names[k]) : Names[k][i] = key
ASSUME \A k, l \in Commands : k # l => \A i \in 1..Len(Names[k]) : \A j \in 1..Len(Names[l]) : Names[k][i] # Names[l][j]

VARIABLES args, pend, cmds, file, bad, fin
vars == <<args, pend, cmds, file, bad, fin>>
None == [cmd |-> "-", got |-> <<>>]
NoFile == [text |-> "", set |-> FALSE]
\* an argument taken as a value: quotes around it and at its end are removed
Plain(tok) == IF tok.kind = "val" THEN [raw |-> FALSE, text |-> tok.text] ELSE [raw |-> TRUE, text |-> tok]

Init == args = <<>> /\ pend = None /\ cmds = <<>> /\ file = NoFile /\ bad = <<>> /\ fin = FALSE
Take(tok) ==
   /\ ~fin /\ Len(args) < MaxArgs
   /\ args' = Append(args, tok) /\ UNCHANGED fin
   /\ IF pend # None
      THEN LET got == Append(pend.got, Plain(tok)) IN
           /\ UNCHANGED <<file, bad>>
           /\ IF Len(got) = Params(pend.cmd) THEN cmds' = Append(cmds, [cmd |-> pend.cmd, par |-> got]) /\ pend' = None
                                             ELSE pend' = [pend EXCEPT !.got = got] /\ UNCHANGED cmds
      ELSE IF tok.kind = "opt"
      THEN IF ~Known(tok.key) THEN bad' = Append(bad, "unknown") /\ UNCHANGED <<pend, cmds, file>>
           ELSE /\ UNCHANGED <<file, bad>>
                /\ IF Params(CommandOf(tok.key)) = 0 THEN cmds' = Append(cmds, [cmd |-> CommandOf(tok.key), par |-> <<>>]) /\ UNCHANGED pend
                                                     ELSE pend' = [cmd |-> CommandOf(tok.key), got |-> <<>>] /\ UNCHANGED cmds
      ELSE /\ UNCHANGED <<pend, cmds>>
           /\ IF file.set THEN bad' = Append(bad, "second file") /\ UNCHANGED file
              ELSE IF tok.text = "" THEN bad' = Append(bad, "empty") /\ UNCHANGED file      \* stands for nothing
                          ELSE file' = [text |-> tok.text, set |-> TRUE] /\ UNCHANGED bad
Finish == /\ ~fin /\ fin' = TRUE
          /\ bad' = IF pend # None THEN Append(bad, "incomplete") ELSE bad
          /\ pend' = None
          /\ UNCHANGED <<args, cmds, file>>
Next == (\E tok \in (IF Random THEN {RandomElement({y \in Tokens : Len(args) >= 0})} ELSE Tokens) : Take(tok)) \/ (IF Random /\ Len(args) < MaxArgs THEN FALSE ELSE Finish)
Spec == Init /\ [][Next]_vars

(* What is then done. *)
Has(cmd) == \E i \in 1..Len(cmds) : cmds[i].cmd = cmd
Settings == {"noverbose", "quit", "log", "ne", "bf", "pb", "help"}
Work == SelectSeq(cmds, LAMBDA c : c.cmd \notin Settings)
Last(cmd) == LET s == SelectSeq(cmds, LAMBDA c : c.cmd = cmd) IN IF s = <<>> THEN <<>> ELSE s[Len(s)].par
Outcome == IF cmds = <<>> THEN "hint" ELSE IF Has("help") THEN "help" ELSE IF ~file.set THEN "no file" ELSE "open"
Plan == [outcome |-> Outcome, work |-> IF Outcome = "open" THEN Work ELSE <<>>, bf |-> Last("bf"), pb |-> Last("pb"), ne |-> Has("ne"), nv |-> Has("noverbose"), log |-> Last("log")]

\* no argument is used twice or lost
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE 1 + Len(Head(s).par) + Sum(Tail(s))
Used == Sum(cmds) + (IF pend = None THEN 0 ELSE 1 + Len(pend.got)) + (IF file.set THEN 1 ELSE 0)
Accounted == ~fin => Used + Len(bad) = Len(args)
Complete == \A i \in 1..Len(cmds) : Len(cmds[i].par) = Params(cmds[i].cmd)
\* what was understood stays understood
Grows == [][/\ Len(cmds') >= Len(cmds) /\ SubSeq(cmds', 1, Len(cmds)) = cmds
            /\ (file.set => file' = file)]_vars

(* What the commands about configurations leave behind, for each kind of database. *)
Kinds == {"plain", "infobase", "depot"}
Dirs == {"d1", "d2", "d 3"}
Names1 == {"a.cf", "B.CF"}                    \* an exact name is only told by its ending
Configs == {"ddc", "dc", "dvc", "dac", "drc", "dpc"}
\* the database of the "depot" kind has versions 1..3
Version(t) == CASE t = "0" -> 3 [] t = "3" -> 3 [] t = "2" -> 2 [] t = "1" -> 1 [] t = "-1" -> 2 [] t = "-2" -> 1 [] OTHER -> 0
At(p, name) == IF p.raw THEN "" ELSE IF p.text \in Names1 THEN p.text ELSE IF p.text \in Dirs THEN p.text \o "/" \o name ELSE ""
Failure == [files |-> {}, fails |-> TRUE]
Put(n, what) == IF n = "" THEN Failure ELSE [files |-> {[name |-> n, what |-> what]}, fails |-> FALSE]
Effect(kind, c) ==
   LET p == c.par[1] IN
   IF c.cmd \in {"ddc", "dc", "dvc", "dac"} /\ kind # "infobase" THEN Failure
   ELSE IF c.cmd \in {"drc", "dpc"} /\ kind # "depot" THEN Failure
   ELSE CASE c.cmd = "ddc" -> Put(At(p, "dbcf.cf"), "stored")
          [] c.cmd = "dc" -> Put(At(p, "cf.cf"), "pending")
          [] c.cmd \in {"dvc", "dac"} ->
                IF p.raw \/ p.text \notin Dirs THEN Failure
                ELSE [fails |-> FALSE,
                      files |-> {[name |-> p.text \o "/{vendor}", what |-> "vendor"]} \union
                                IF c.cmd = "dvc" THEN {} ELSE {[name |-> p.text \o "/dbcf.cf", what |-> "stored"], [name |-> p.text \o "/cf.cf", what |-> "pending"]}]
          [] c.cmd = "drc" -> IF p.raw \/ Version(p.text) = 0 THEN Failure
                              ELSE Put(At(c.par[2], "v" \o ToString(Version(p.text)) \o ".cf"), "version " \o ToString(Version(p.text)))
          [] OTHER -> Failure
\* in the order of the commands: a later one writes over an earlier one
RECURSIVE Left(_, _)
Left(kind, s) == IF s = <<>> THEN {}
                 ELSE LET w == Effect(kind, s[Len(s)]).files
                          ns == {f.name : f \in w}
                      IN w \union {f \in Left(kind, SubSeq(s, 1, Len(s) - 1)) : f.name \notin ns}
OnlyConfigs == SelectSeq(Plan.work, LAMBDA c : c.cmd \in Configs)
After(kind) == [files |-> Left(kind, OnlyConfigs), fails |-> \E i \in 1..Len(OnlyConfigs) : Effect(kind, OnlyConfigs[i]).fails]
\* no two contents under one name
OneContent == fin => \A k \in Kinds : \A f, g \in After(k).files : f.name = g.name => f = g
Record == (Emit /\ fin) => PrintT(ToJson([args |-> args, cmds |-> cmds, file |-> file.text, bad |-> bad, plan |-> Plan, after |-> [k \in Kinds |-> After(k)]]))
=============================================================================
