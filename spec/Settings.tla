------------------------------ MODULE Settings ------------------------------
(* The settings of the tool: a file of the user, overridden by a local one.  *)
(* A file is [st, sets]: st "ok", "broken" (cannot be executed), "absent",   *)
(* "nowhere" (absent and cannot be created) or "dir"; sets: name -> value.   *)
(* A value is [t, tilde, s]; a text "~s" if tilde.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == [t |-> "none", tilde |-> FALSE, s |-> ""]
Text(x) == [t |-> "str", tilde |-> FALSE, s |-> x]

Given(f) == IF f.st = "ok" THEN f.sets ELSE <<>>
\* what a session with these two files goes by
Loaded(user, local) ==
  [n \in DOMAIN Given(user) \cup DOMAIN Given(local) |-> IF n \in DOMAIN Given(local) THEN Given(local)[n] ELSE Given(user)[n]]
\* the user's file after a session: created if it was missing
After(user) == IF user.st = "absent" THEN [st |-> "ok", sets |-> <<>>] ELSE user
Broken(user, local) == {w \in {"user", "local"} : (IF w = "user" THEN user ELSE local).st = "broken"}

Value(set, n, default) == IF n \in DOMAIN set THEN set[n] ELSE default
Expanded(v, home) == IF v.t = "none" THEN v ELSE Text((IF v.tilde THEN home ELSE "") \o v.s)
Path(set, n, default, home) == Expanded(Value(set, n, default), home)

Sep == "/"
Workspaces(set, home) == LET p == Path(set, "workspaces_dir", None, home)
                         IN  IF p.t = "none" THEN home \o "/.dedop/workspaces" ELSE p.s

(* Commands.  A value of type "cmd" is [t, prog, words, code]: a template of *)
(* literal words and placeholders; the program ends with the code.           *)
Falsy(v) == v.t = "none" \/ (v.t = "str" /\ v.s = "" /\ ~v.tilde) \/ (v.t = "int" /\ v.s = "0") \/ (v.t = "bool" /\ v.s = "False")
Bad(v) == ~Falsy(v) /\ v.t # "cmd"

Jupyter(e, dir, path) == <<e.prefix \o "/bin/jupyter", "notebook", "--notebook-dir", dir>> \o path
Script(e, dir, path) == "script jupyter notebook --notebook-dir " \o dir \o (IF path = <<>> THEN "" ELSE " " \o path[1])
Quoted(e, dir, path) == e.prefix \o "/bin/jupyter notebook --notebook-dir \"" \o dir \o "\"" \o (IF path = <<>> THEN "" ELSE " \"" \o path[1] \o "\"")
Words(e, w, a) ==
  CASE w = "{file}" -> <<a.file>>
    [] w = "{title}" -> <<"DeDop - " \o a.title>>
    [] w = "{prefix}" -> <<e.prefix>>
    [] w = "{command}" -> Jupyter(e, a.dir, a.path)
    [] w = "{command_file}" -> <<Script(e, a.dir, a.path)>>
    [] OTHER -> <<w>>
RECURSIVE Args(_, _, _)
Args(e, ws, a) == IF ws = <<>> THEN <<>> ELSE Words(e, Head(ws), a) \o Args(e, Tail(ws), a)

\* [calls, fails]: the programs called, whether failure is to be reported
\* progs: programs that are installed
Editor(set, e, a) == LET v == Value(set, "launch_editor_command", None) IN
  IF Bad(v) THEN [calls |-> <<>>, fails |-> TRUE]
  ELSE IF ~Falsy(v) THEN [calls |-> <<[prog |-> v.prog, args |-> Args(e, v.words, a)]>>, fails |-> FALSE]
  ELSE IF "xdg-open" \in e.progs THEN [calls |-> <<[prog |-> "xdg-open", args |-> <<a.file>>]>>, fails |-> FALSE]
  ELSE IF "open" \in e.progs THEN [calls |-> <<[prog |-> "open", args |-> <<a.file>>]>>, fails |-> FALSE]
  ELSE [calls |-> <<>>, fails |-> FALSE]
Notebook(set, e, a) == LET v == Value(set, "launch_notebook_command", None) IN
  IF Bad(v) THEN [calls |-> <<>>, fails |-> TRUE]
  ELSE IF ~Falsy(v) THEN [calls |-> <<[prog |-> v.prog, args |-> Args(e, v.words, a)]>>, fails |-> v.code # 0]
  ELSE IF "gnome-terminal" \in e.progs THEN [calls |-> <<[prog |-> "gnome-terminal", args |-> <<"-e", Quoted(e, a.dir, a.path)>>]>>, fails |-> FALSE]
  ELSE IF "xterm" \in e.progs THEN [calls |-> <<[prog |-> "xterm", args |-> <<"-T", "DeDop - " \o a.title, "-e", Quoted(e, a.dir, a.path)>>]>>, fails |-> FALSE]
  ELSE [calls |-> <<[prog |-> "jupyter", args |-> Tail(Jupyter(e, a.dir, a.path))]>>, fails |-> FALSE]
=============================================================================
