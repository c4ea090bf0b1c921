-------------------------------- MODULE Crash --------------------------------
(* What may be found in the store when an operation o that leads from B to A *)
(* did not come to its end: the process was killed, or the file system       *)
(* failed and the error was reported.                                        *)
EXTENDS Store

(* saving configuration files; a = <<w, c, <<<<key, content>>, ...>>>> *)
CfgFile(w, c, k) == Append(Cfg(w, c), k \o ".json")
RECURSIVE SaveAll(_, _, _, _)
SaveAll(st, w, c, fs) ==
  IF fs = <<>> THEN Ok(st, <<>>)
  ELSE IF ~IsFile(st, CfgFile(w, c, fs[1][1])) THEN Err(st)
  ELSE SaveAll(Write(st, CfgFile(w, c, fs[1][1]), fs[1][2]), w, c, Tail(fs))
Saving == {"save", "websave", "upgrade"}
ApplyX(st, o, K) == IF o.op \in Saving THEN SaveAll(st, o.a[1], o.a[2], o.a[3]) ELSE Apply(st, o, K)

Deleting == {"delete_ws", "delete_cfg", "delete_all", "remove_inputs", "remove_outputs"}
Making == {"create_ws", "copy_ws", "create_cfg", "copy_cfg"}
Target(o) == CASE o.op = "create_ws" -> <<o.a[1]>>
               [] o.op = "copy_ws" -> <<o.a[2]>>
               [] o.op = "create_cfg" -> Cfg(o.a[1], o.a[2])
               [] o.op = "copy_cfg" -> Cfg(o.a[1], o.a[3])
               [] o.op = "new_notebook" -> Notebooks(o.a[1])
               [] o.op = "add_inputs" -> Inputs(o.a[1])

Outside(S, p) == {e \in S : ~Under(p, e[1])}
\* nothing but what is below p is touched (directories on the way to it may appear)
Frame(B, A, T, p) == Outside(B, p) \subseteq T /\ Outside(T, p) \subseteq B \cup A
Except(S, P) == {e \in S : e[1] \notin P}
Parent(p) == SubSeq(p, 1, Len(p) - 1)

Meanwhile(B, A, o, T, crash) ==
  CASE o.op \in {"rename_ws", "rename_cfg"} -> T = B \/ T = A          \* at once
    [] o.op \in Making -> Frame(B, A, T, Target(o))                    \* only the new one can be incomplete
    [] o.op \in Deleting -> A \subseteq T /\ T \subseteq B             \* nothing else goes, nothing comes
    [] o.op \in {"set_cur", "set_cur_cfg"} ->                          \* the old, the new, or none
         LET f == IF o.op = "set_cur" THEN CurFile ELSE CfgCurFile(o.a[1]) IN
         /\ Except(T, {f}) = Except(B, {f})
         /\ {e \in T : e[1] = f} \subseteq B \cup A \cup {Node(f, "=")}
         /\ Has(B, f) => Has(T, f)
    [] o.op = "add_inputs" ->                                          \* other inputs stay
         LET ps == {Append(Inputs(o.a[1]), o.a[2][i][1]) : i \in DOMAIN o.a[2]} IN
         Except(B, ps) \subseteq T /\ Except(T, ps) \subseteq B \cup A
    [] o.op \in Saving ->                                              \* every file is the old or the new one
         LET ps == {CfgFile(o.a[1], o.a[2], o.a[3][i][1]) : i \in DOMAIN o.a[3]}
             more == {e \in T : ~Has(B, e[1])}
         IN  /\ \A e \in B : e[1] \notin ps => e \in T
             /\ \A p \in ps : Has(B, p) => \E e \in T : e[1] = p /\ (e \in B \/ e \in A)
             /\ crash \/ more = {}                                     \* only a killed process leaves its work file
             /\ \A e \in more : Parent(e[1]) = Cfg(o.a[1], o.a[2]) /\ e[1][4] \notin TplFiles
    [] o.op = "new_notebook" -> B \subseteq T /\ Frame(B, A, T, Target(o))
    [] OTHER -> T = B
=============================================================================
