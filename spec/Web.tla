--------------------------------- MODULE Web ---------------------------------
(* The JSON-RPC service on top of the workspace store.  An operation o has   *)
(* o.op and the arguments o.a, a sequence of strings (o.x: a sequence of     *)
(* strings or pairs for the operations on several files).                    *)
(* The content of a configuration file is what it says (JSON), not how it is *)
(* laid out.                                                                 *)
EXTENDS Shell

\* after a deletion: "default", else the first, else none
WebDeleteWs(st, w, K) ==
  Silent(Then(DeleteWs(st, w), LAMBDA s : SetCurWs(s, Fallback(WsNames(s), K))))
WebRenameWs(st, w, n) ==
  LET r == RenameWs(st, w, n) IN
  IF r.res = "ok" /\ CurWs(st) = w THEN Say(SetCurWs(r.st, n), r.ret) ELSE r
WebDeleteCfg(st, w, c, K) ==
  Silent(Then(DeleteCfg(st, w, c), LAMBDA s : SetCurCfg(s, w, Fallback(CfgNames(s, w), K))))
WebRenameCfg(st, w, c, n) ==
  LET r == RenameCfg(st, w, c, n) IN
  IF r.res = "ok" /\ CurCfg(st, w) = c THEN Silent(SetCurCfg(r.st, w, n)) ELSE r

Keys == <<"CHD.json", "CNF.json", "CST.json">>
CfgContent(st, w, c, k) == IF IsFile(st, Append(Cfg(w, c), k)) THEN Content(st, Append(Cfg(w, c), k)) ELSE NONE
Readable(x) == x # NONE /\ StartsWith(x, "J")
WebGetCfgs(st, w, c) ==
  IF \A i \in 1 .. 3 : Readable(CfgContent(st, w, c, Keys[i]))
  THEN Ok(st, [i \in 1 .. 3 |-> CfgContent(st, w, c, Keys[i])]) ELSE Err(st)
\* one file after the other; a file that isn't there cannot be saved, those before it are
RECURSIVE SaveFrom(_, _, _, _, _)
SaveFrom(st, w, c, x, i) ==
  IF i > 3 THEN Ok(st, <<>>)
  ELSE IF CfgContent(st, w, c, Keys[i]) = NONE THEN Err(st)
  ELSE SaveFrom(Write(st, Append(Cfg(w, c), Keys[i]), x[i]), w, c, x, i + 1)
WebSave(st, w, c, x) == SaveFrom(st, w, c, x, 1)

WebProcess(st, o) ==
  LET w == o.a[2]
      c == o.a[3]
      job == o.a[1] \o "|" \o CfgFile(w, c, "CHD") \o "|" \o CfgFile(w, c, "CNF") \o "|" \o CfgFile(w, c, "CST") \o "|" \o
             o.a[4] \o "|l1bs|" \o o.a[5]
  IN  IF ~\A k \in TplFiles : IsFile(st, Append(Cfg(w, c), k)) THEN Err(st)
      ELSE [st |-> st, res |-> IF Fails(o.a[5]) THEN "err" ELSE "ok", ret |-> <<job>>]

WebApply(st, o, K) ==
  CASE o.op = "web_new"       -> CreateWs(st, o.a[1])
    [] o.op = "web_delete"    -> WebDeleteWs(st, o.a[1], K)
    [] o.op = "web_copy"      -> CopyWs(st, o.a[1], o.a[2])
    [] o.op = "web_rename"    -> WebRenameWs(st, o.a[1], o.a[2])
    [] o.op = "web_cur"       -> Ok(st, Opt(CurWs(st)))
    [] o.op = "web_set_cur"   -> SetCurWs(st, o.a[1])
    [] o.op = "web_all"       -> Ok(st, Sorted(WsNames(st), K.names))
    [] o.op = "web_add_inputs" -> AddInputs(st, o.a[1], o.p)
    [] o.op = "web_rm_inputs" -> RemoveInputs(st, o.a[1], o.x)
    [] o.op = "web_cfgs"      -> IF IsDir(st, <<o.a[1]>>) THEN Ok(st, Sorted(CfgNames(st, o.a[1]), K.names)) ELSE Err(st)
    [] o.op = "web_add_cfg"   -> CreateCfg(st, o.a[1], o.a[2], IF o.a[3] = "cryosat" THEN K.cryosat ELSE K.s3)
    [] o.op = "web_rm_cfg"    -> WebDeleteCfg(st, o.a[1], o.a[2], K)
    [] o.op = "web_cp_cfg"    -> CopyCfg(st, o.a[1], o.a[2], o.a[3])
    [] o.op = "web_rn_cfg"    -> WebRenameCfg(st, o.a[1], o.a[2], o.a[3])
    [] o.op = "web_cur_cfg"   -> IF IsDir(st, <<o.a[1]>>) THEN Ok(st, Opt(CurCfg(st, o.a[1]))) ELSE Err(st)
    [] o.op = "web_set_cur_cfg" -> SetCurCfg(st, o.a[1], o.a[2])
    [] o.op = "web_get_cfgs"  -> WebGetCfgs(st, o.a[1], o.a[2])
    [] o.op = "web_save"      -> WebSave(st, o.a[1], o.a[2], o.x)
    [] o.op = "web_process"   -> WebProcess(st, o)
    [] o.op = "web_outputs"   -> Ok(st, Sorted(OutputNames(st, o.a[1], o.a[2], <<>>), K.names))
    [] o.op = "web_rm_outputs" -> RemoveOutputs(st, o.a[1], o.a[2])
    [] o.op = "web_inspect"   -> Say(NewNotebook(st, o.a[1], "inspect-" \o Base(o.a[2]), "NB:" \o o.a[2]),
                                     Launched(st, o.a[1], "inspect-" \o Base(o.a[2])))
    [] o.op = "web_compare"   -> Say(NewNotebook(st, o.a[1], "compare-" \o Base(o.a[2]) \o "-" \o Base(o.a[3]), "NB:" \o o.a[2] \o "|" \o o.a[3]),
                                     Launched(st, o.a[1], "compare-" \o Base(o.a[2]) \o "-" \o Base(o.a[3])))
    [] o.op = "web_notebooks" -> IF IsDir(st, <<o.a[1]>>) THEN Ok(st, Sorted(NotebookNames(st, o.a[1]), K.names)) ELSE Err(st)
    [] o.op = "web_launch"    -> Ok(st, <<o.a[1] \o "/notebooks/" \o o.a[2]>>)
    [] OTHER -> Apply(st, o, K)
=============================================================================
