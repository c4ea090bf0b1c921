------------------------------ MODULE MCStore ------------------------------
(* Store explored exhaustively with a few names, and the general guarantees  *)
(* it gives for every operation in every reachable state.                    *)
(* The same module generates behaviours (-simulate) for replay on the code.  *)
EXTENDS Store, Json
CONSTANTS Ws, Cf, Files, Groups, MaxDepth, GenDepth

VARIABLES st, last, hist
vars == <<st, last, hist>>

Names == Ws \cup Cf \cup Files \cup {""}
K == [names |-> <<"", "a", "b", "default", "f.nc", "g.nc", "p.txt", "x", "y">>,
      s3 |-> [f \in TplFiles |-> "s3/" \o f], cryosat |-> [f \in TplFiles |-> "cs/" \o f]]

WsOps == {[op |-> o, a |-> <<w>>] : o \in {"create_ws", "delete_ws", "set_cur"}, w \in Ws \cup {""}}
     \cup {[op |-> "ws_exists", a |-> <<w>>] : w \in Ws}
     \cup {[op |-> o, a |-> <<w, n>>] : o \in {"copy_ws", "rename_ws"}, w \in Ws, n \in Ws \cup {""}}
     \cup {[op |-> o, a |-> <<>>] : o \in {"ws_names", "get_cur"}}
CfOps == {[op |-> "create_cfg", a |-> <<w, n, t>>] : w \in Ws, n \in Cf, t \in {"s3", "cryosat"}}
     \cup {[op |-> o, a |-> <<w, n>>] : o \in {"delete_cfg", "set_cur_cfg"}, w \in Ws, n \in Cf \cup {""}}
     \cup {[op |-> "cfg_exists", a |-> <<w, n>>] : w \in Ws, n \in Cf}
     \cup {[op |-> o, a |-> <<w, n, m>>] : o \in {"copy_cfg", "rename_cfg"}, w \in Ws, n \in Cf, m \in Cf \cup {""}}
     \cup {[op |-> o, a |-> <<w>>] : o \in {"cfg_names", "get_cur_cfg"}, w \in Ws}
AddOps == {[op |-> "add_inputs", a |-> <<w, <<<<f, d>>>>>>] : w \in Ws, f \in Files, d \in {"d1", NONE}}
     \cup {[op |-> "add_inputs", a |-> <<w, <<<<f, "d2">>, <<g, d>>>>>>] : w \in Ws, f \in Files, g \in Files, d \in {"d1", NONE}}
InOps == {[op |-> "remove_inputs", a |-> <<w, <<f>>>>] : w \in Ws, f \in Files}
     \cup {[op |-> "input_names", a |-> <<w, p>>] : w \in Ws, p \in {<<>>, <<"f*">>, <<"*.nc", "f*">>}}
OutOps == {[op |-> "remove_outputs", a |-> <<w, n>>] : w \in Ws, n \in Cf}
OutLs == {[op |-> "output_names", a |-> <<w, n, p>>] : w \in Ws, n \in Cf, p \in {<<>>, <<"?.nc">>}}
NbOps == {[op |-> "new_notebook", a |-> <<w, "inspect-" \o f, "nb">>] : w \in Ws, f \in Files}
     \cup {[op |-> "notebook_names", a |-> <<w>>] : w \in Ws}
\* workspaces and configurations may hold products, inputs, notebooks: they have to travel with them
There == {x \in Ws : IsDir(st, <<x>>)}
EnvOps == {[op |-> "env_write", a |-> <<<<w, "inputs", f>>, "d3">>] : w \in There, f \in Files}
     \cup {[op |-> "env_write", a |-> <<<<w, "notebooks", "n.ipynb">>, "d4">>] : w \in There}
     \cup UNION {{[op |-> "env_write", a |-> <<<<w, "configs", n, "outputs", f>>, "d5">>] :
                    n \in CfgNames(st, w), f \in Files} : w \in There}

NoOp == [op |-> "none", a |-> <<>>, res |-> "ok"]
Init == st = {} /\ last = NoOp /\ hist = <<>>
Do(o) == LET r == Apply(st, o, K)
         IN  /\ st' = r.st
             /\ last' = [op |-> o.op, a |-> o.a, res |-> r.res]
             /\ hist' = IF GenDepth > 0 THEN Append(hist, o) ELSE hist
Next == \/ "ws" \in Groups /\ \E o \in WsOps : Do(o)
        \/ "cf" \in Groups /\ \E o \in CfOps : Do(o)
        \/ "io" \in Groups /\ (\/ \E o \in AddOps : Do(o)
                               \/ \E o \in InOps : Do(o)
                               \/ \E o \in OutOps : Do(o)
                               \/ \E o \in OutLs : Do(o))
        \/ "nb" \in Groups /\ \E o \in NbOps : Do(o)
        \/ "env" \in Groups /\ \E o \in EnvOps : Do(o)
Spec == Init /\ [][Next]_vars

Bounded == TLCGet("level") <= MaxDepth
View == st

\* every file lives in a directory, and no path is both
WellFormed == /\ \A e \in st : Len(e[1]) > 0 => IsDir(st, SubSeq(e[1], 1, Len(e[1]) - 1))
              /\ \A e, f \in st : e[1] = f[1] => e = f

Touched(o) == {o.a[i] : i \in {j \in DOMAIN o.a : j <= 2}}
Rel(t, p) == {Node(SubSeq(e[1], Len(p) + 1, Len(e[1])), e[2]) : e \in Sub(t, p)}
WsArgs == IF last'.op \in {"copy_ws", "rename_ws"} THEN {last'.a[1], last'.a[2]}
          ELSE IF last'.op \in {"ws_names", "get_cur"} THEN {}
          ELSE IF last'.op = "env_write" THEN {last'.a[1][1]} ELSE {last'.a[1]}
Reads == {"ws_names", "get_cur", "ws_exists", "cfg_names", "get_cur_cfg", "cfg_exists", "input_names", "input_paths",
          "output_names", "notebook_names"}
FailedOpKeepsStore == [][(last'.res = "err" /\ last'.op # "add_inputs") => st' = st]_vars
FailedAddOnlyAdds == [][(last'.res = "err" /\ last'.op = "add_inputs") =>
                          \A e \in st : Len(e[1]) # 3 \/ e[1][2] # "inputs" => e \in st']_vars
ReadsKeepStore == [][last'.op \in Reads => st' = st]_vars
OthersUntouched == [][\A w \in Ws : w \notin WsArgs => Sub(st', <<w>>) = Sub(st, <<w>>)]_vars
CopyIsExact == [][(last'.op = "copy_ws" /\ last'.res = "ok") =>
                   /\ Rel(st', <<last'.a[2]>>) = Rel(st, <<last'.a[1]>>)
                   /\ Sub(st', <<last'.a[1]>>) = Sub(st, <<last'.a[1]>>)]_vars
RenameMoves == [][(last'.op = "rename_ws" /\ last'.res = "ok") =>
                   /\ Rel(st', <<last'.a[2]>>) = Rel(st, <<last'.a[1]>>)
                   /\ Sub(st', <<last'.a[1]>>) = {}]_vars
ConfigFrame == [][last'.op \in {"create_cfg", "delete_cfg", "copy_cfg", "rename_cfg", "set_cur_cfg"} =>
                   \A w \in Ws : \A n \in Cf :
                     (w # last'.a[1] \/ \A i \in 2 .. Len(last'.a) : last'.a[i] # n) =>
                        Sub(st', Cfg(w, n)) = Sub(st, Cfg(w, n))]_vars
CreateNeverOverwrites == [][(last'.op = "create_cfg" /\ last'.res = "ok") =>
                             Kids(st, Cfg(last'.a[1], last'.a[2])) = {}]_vars
NotebooksKept == [][last'.op = "new_notebook" => \A e \in st : e \in st']_vars
OutputsOnly == [][last'.op = "remove_outputs" => \A e \in st \ st' : e[1][4] = "outputs"]_vars

\* generation: mostly operations that succeed
Lively == last'.res = "ok" \/ RandomElement(1..5) = 1
\* print a generated behaviour
Gen == (GenDepth > 0 /\ Len(hist) = GenDepth) => PrintT("TRACE " \o ToJson(hist))
=============================================================================
