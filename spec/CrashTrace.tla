----------------------------- MODULE CrashTrace -----------------------------
(* Validates interrupted operations of the real store.  A case is            *)
(*   [names, s3, cryosat, o, trees, runs]: trees[1] is the tree before,      *)
(* a run is [mode, k, what, res, ret, t, use, again]:                        *)
(*   mode "none", "kill" (ended at file system call k), "fail" (call k       *)
(*   failed), "full" (no more space from call k on); what: the call          *)
(*   t: index of the tree found afterwards; res: "ok", "err", "killed"       *)
(*   use: did the store answer afterwards ("ok"); again: index of the tree   *)
(*   after the operation was done once more (0: not tried)                   *)
EXTENDS Crash, Json

Cases == JsonDeserialize("cases.json")
VARIABLES c, l, verdict
vars == <<c, l, verdict>>

Tree(x) == {<<x[i][1], x[i][2]>> : i \in DOMAIN x}
R == Cases[c].runs[l]
O == Cases[c].o
B == Tree(Cases[c].trees[1])
E == ApplyX(B, O, Cases[c])
Found == Tree(Cases[c].trees[R.t])

Clause ==
  LET b == B
      e == E
      t == Found
  IN  IF R.mode = "none" \/ R.res = "ok"
      THEN IF R.res = "ok" /\ e.res # "ok" THEN "succeeded"
           ELSE IF R.res # "ok" /\ e.res = "ok" THEN "failed without reason: " \o R.res
           ELSE IF t # e.st THEN "reported as done, but it is not: " \o ToString((t \ e.st) \cup (e.st \ t))
           ELSE "ok"
      ELSE IF ~Meanwhile(b, e.st, O, t, R.mode = "kill")
           THEN "left behind: " \o ToString(t \ b) \o " missing: " \o ToString(b \ t)
      ELSE IF R.use # "ok" THEN "the store does not answer any more: " \o R.use
      ELSE IF R.again # 0 /\ O.op \in Saving
           THEN LET a == Tree(Cases[c].trees[R.again]) IN
                IF \A x \in e.st : x \in a THEN "ok" ELSE "saving again does not help"
      ELSE "ok"

Init == c \in DOMAIN Cases /\ l = 1 /\ verdict = "run"
Step == /\ verdict = "run" /\ l <= Len(Cases[c].runs)
        /\ LET k == Clause IN
           IF k = "ok" THEN l' = l + 1 /\ UNCHANGED <<c, verdict>>
           ELSE /\ verdict' = O.op \o ", " \o R.mode \o " at call " \o ToString(R.k) \o " (" \o R.what \o "): " \o k
                /\ PrintT("VERDICT " \o ToString(c) \o " " \o verdict') /\ UNCHANGED <<c, l>>
Done == /\ verdict = "run" /\ l = Len(Cases[c].runs) + 1
        /\ verdict' = "ok" /\ PrintT("VERDICT " \o ToString(c) \o " ok") /\ UNCHANGED <<c, l>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
