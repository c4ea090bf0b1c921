----------------------------- MODULE MCSettings -----------------------------
(* The loading procedure step by step: create the user's file if missing,    *)
(* read it, read the local one over it; against what a session is to go by.  *)
EXTENDS Settings
CONSTANTS Names, Vals, MaxSessions
VARIABLES user, local, conf, pc, n, u0
vars == <<user, local, conf, pc, n, u0>>
V(x) == Text(x)
SomeSets == UNION {[D -> {V(x) : x \in Vals}] : D \in SUBSET Names}
Files(sts) == {[st |-> s, sets |-> <<>>] : s \in sts \ {"ok", "broken"}}
              \cup {[st |-> s, sets |-> m] : s \in sts \cap {"ok", "broken"}, m \in SomeSets}
UserFiles == Files({"ok", "broken", "absent", "nowhere", "dir"})
LocalFiles == Files({"ok", "broken", "absent", "dir"})
Init == user \in UserFiles /\ local \in LocalFiles /\ conf = <<>> /\ pc = "edit" /\ n = 0 /\ u0 = user
Edit == /\ pc = "edit" /\ n < MaxSessions
        /\ \/ UNCHANGED <<user, local>>
           \/ \E f \in UserFiles : user' = f /\ UNCHANGED local
           \/ \E f \in LocalFiles : local' = f /\ UNCHANGED user
        /\ u0' = user' /\ conf' = <<>> /\ pc' = "create" /\ n' = n + 1
Create == pc = "create" /\ pc' = "user" /\ user' = (IF user.st = "absent" THEN [st |-> "ok", sets |-> <<>>] ELSE user) /\ UNCHANGED <<local, conf, n, u0>>
ReadUser == pc = "user" /\ pc' = "local" /\ conf' = (IF user.st = "ok" THEN user.sets ELSE conf) /\ UNCHANGED <<user, local, n, u0>>
ReadLocal == /\ pc = "local" /\ pc' = "use"
             /\ conf' = (IF local.st = "ok" THEN local.sets @@ conf ELSE conf) /\ UNCHANGED <<user, local, n, u0>>
Leave == pc = "use" /\ pc' = "edit" /\ UNCHANGED <<user, local, conf, n, u0>>
Next == Edit \/ Create \/ ReadUser \/ ReadLocal \/ Leave
Spec == Init /\ [][Next]_vars
AsLoaded == pc = "use" => conf = Loaded(u0, local) /\ user = After(u0)
LocalWins == pc = "use" => \A x \in DOMAIN Given(local) : conf[x] = Given(local)[x]
NothingElse == pc = "use" => DOMAIN conf = DOMAIN Given(user) \cup DOMAIN Given(local)
=============================================================================
