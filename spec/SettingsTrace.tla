---------------------------- MODULE SettingsTrace ----------------------------
(* Validates real sessions.  A case: steps                                   *)
(*  session [user, local, env, res, warned, warning, after, kept]: a process *)
(*    with these files; warned: the files named in warnings; after: state of *)
(*    the user's file then; kept: existing files are unchanged               *)
(*  value/path [name, default, res, got]   editor/notebook [a, res, calls]   *)
(*  workspace [name, res, dirs]            run [res, ran]                    *)
EXTENDS Settings, Json

Cases == JsonDeserialize("cases.json")
VARIABLES c, l, set, env, verdict
vars == <<c, l, set, env, verdict>>
Range(s) == {s[x] : x \in DOMAIN s}
Ln == Cases[c].steps[l]
Map(s) == [x \in {p.n : p \in Range(s)} |-> (CHOOSE p \in Range(s) : p.n = x).v]
F(f) == [st |-> f.st, sets |-> Map(f.sets)]
Env(e) == [home |-> e.home, prefix |-> e.prefix, progs |-> Range(e.progs)]

Init == c \in DOMAIN Cases /\ l = 1 /\ set = <<>> /\ env = <<>> /\ verdict = "run"

Session(s) == LET u == F(s.user)  lo == F(s.local) IN
  IF s.res # "ok" THEN "settings not loaded: " \o s.res
  ELSE IF Range(s.warned) # Broken(u, lo) \cup (IF u.st = "nowhere" THEN {"user"} ELSE {}) THEN "warnings about " \o ToString(Range(s.warned))
  ELSE IF ~s.kept THEN "a settings file was changed"
  ELSE IF s.after # After(u).st THEN "the settings file of the user is " \o s.after
  ELSE IF Range(s.names) # DOMAIN Loaded(u, lo) THEN "settings are " \o ToString(Range(s.names)) \o " expected " \o ToString(DOMAIN Loaded(u, lo))
  ELSE "ok"
Is(got, e, what) == IF got = e THEN "ok" ELSE what \o " is " \o ToString(got) \o " expected " \o ToString(e)
Calls(s, e) == IF s.calls # e.calls THEN "called " \o ToString(s.calls) \o " expected " \o ToString(e.calls)
               ELSE IF e.fails /\ s.res = "ok" THEN "failure not reported"
               ELSE IF ~e.fails /\ s.res # "ok" THEN s.res ELSE "ok"
Clause ==
  CASE Ln.op = "session" -> Session(Ln)
    [] Ln.op = "value" -> IF Ln.res # "ok" THEN Ln.res ELSE Is(Ln.got, Value(set, Ln.name, Ln.default), Ln.name)
    [] Ln.op = "path" -> IF Ln.res # "ok" THEN Ln.res ELSE Is(Ln.got, Path(set, Ln.name, Ln.default, env.home), Ln.name)
    [] Ln.op = "editor" -> Calls(Ln, Editor(set, env, Ln.a))
    [] Ln.op = "notebook" -> Calls(Ln, Notebook(set, env, Ln.a))
    [] Ln.op = "workspace" -> IF Ln.res # "ok" THEN Ln.res ELSE Is(Range(Ln.dirs), {Workspaces(set, env.home)}, "workspace directory")
    [] Ln.op = "run" -> Is(Ln.ran, Value(set, "processor_factory", None), "processor")
    [] OTHER -> "ok"
Step == /\ verdict = "run" /\ l <= Len(Cases[c].steps)
        /\ LET k == Clause IN
           IF k = "ok" THEN /\ l' = l + 1 /\ UNCHANGED <<c, verdict>>
                            /\ IF Ln.op = "session" THEN set' = Loaded(F(Ln.user), F(Ln.local)) /\ env' = Env(Ln.env) ELSE UNCHANGED <<set, env>>
           ELSE /\ verdict' = "step " \o ToString(l) \o " " \o Ln.op \o ": " \o k
                /\ PrintT("VERDICT " \o ToString(c) \o " " \o verdict') /\ UNCHANGED <<c, l, set, env>>
Done == /\ verdict = "run" /\ l = Len(Cases[c].steps) + 1
        /\ verdict' = "ok" /\ PrintT("VERDICT " \o ToString(c) \o " ok") /\ UNCHANGED <<c, l, set, env>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
