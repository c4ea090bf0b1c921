-------------------------------- MODULE Store --------------------------------
(* The workspace store: a tree of files and directories under one root.      *)
(*                                                                           *)
(*   <<>>                                   the root directory               *)
(*   <<".current">>                         name of the current workspace    *)
(*   <<w>>                                  a workspace                      *)
(*   <<w,"inputs",f>>                       its L1A inputs                   *)
(*   <<w,"notebooks",n>>                    its notebooks                    *)
(*   <<w,"configs",".current">>             name of its current config       *)
(*   <<w,"configs",c,k>>                    config files CHD/CNF/CST.json    *)
(*   <<w,"configs",c,"outputs",f>>          products made with config c      *)
(*                                                                           *)
(* A store value is a set of <<path, content>>; directories have content     *)
(* "DIR", a current-file has content "=" \o name, any other file a digest.   *)
(* Every public operation is an operator Op(st, args) giving                 *)
(*   [st |-> new store, res |-> "ok" | "err", ret |-> returned value]        *)
EXTENDS Text, TLC

DIR == "DIR"
NONE == "~none"            \* returned: nothing there

Node(p, c) == <<p, c>>
Has(st, p) == \E e \in st : e[1] = p
IsDir(st, p) == Node(p, DIR) \in st
IsFile(st, p) == \E e \in st : e[1] = p /\ e[2] # DIR
Content(st, p) == (CHOOSE e \in st : e[1] = p)[2]
Under(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Sub(st, p) == {e \in st : Under(p, e[1])}
Kids(st, p) == {e[1][Len(p) + 1] : e \in {x \in st : Len(x[1]) = Len(p) + 1 /\ Under(p, x[1])}}
KidDirs(st, p) == {k \in Kids(st, p) : IsDir(st, Append(p, k))}
KidFiles(st, p) == {k \in Kids(st, p) : IsFile(st, Append(p, k))}
Write(st, p, c) == {e \in st : e[1] # p} \cup {Node(p, c)}
MkDirs(st, p) == st \cup {Node(SubSeq(p, 1, n), DIR) : n \in 0 .. Len(p)}
Remove(st, p) == st \ Sub(st, p)
Graft(st, p, q) == {Node(q \o SubSeq(e[1], Len(p) + 1, Len(e[1])), e[2]) : e \in Sub(st, p)}

Ok(st, ret) == [st |-> st, res |-> "ok", ret |-> ret]
Opt(x) == IF x = NONE THEN <<>> ELSE <<x>>
Err(st) == [st |-> st, res |-> "err", ret |-> <<>>]

\* a usable name is one plain path component
Plain(n) == n # "" /\ n # "." /\ n # ".." /\ \A i \in 1 .. Len(n) : Ch(n, i) # "/"

Cfgs(w) == <<w, "configs">>
Cfg(w, c) == <<w, "configs", c>>
Inputs(w) == <<w, "inputs">>
Outputs(w, c) == <<w, "configs", c, "outputs">>
Notebooks(w) == <<w, "notebooks">>
CurFile == <<".current">>
CfgCurFile(w) == <<w, "configs", ".current">>

WsNames(st) == KidDirs(st, <<>>)
CfgNames(st, w) == KidDirs(st, Cfgs(w))
NcFiles(st, d) == {f \in KidFiles(st, d) : EndsWith(f, ".nc")}

Named(c) == SubSeq(c, 2, Len(c))
CurWs(st) == IF IsFile(st, CurFile) THEN Named(Content(st, CurFile)) ELSE NONE
CurCfg(st, w) == IF IsFile(st, CfgCurFile(w)) THEN Named(Content(st, CfgCurFile(w))) ELSE NONE
Unset(n) == n = NONE \/ n = ""

WsThere(st, w) == IF w = "" THEN IsDir(st, <<>>) ELSE IsDir(st, <<w>>)
CfgThere(st, w, c) == IF c = "" THEN IsDir(st, Cfgs(w)) ELSE IsDir(st, Cfg(w, c))

------------------------------------------------------------------------------
(* workspaces *)
CreateWs(st, w) ==
  IF ~Plain(w) \/ (IsDir(st, <<w>>) /\ Kids(st, <<w>>) # {}) THEN Err(st)
  ELSE Ok(MkDirs(st, <<w>>), <<w>>)

DeleteWs(st, w) ==
  IF ~Plain(w) \/ ~IsDir(st, <<w>>) THEN Err(st) ELSE Ok(Remove(st, <<w>>), <<>>)

CopyWs(st, w, n) ==
  IF ~Plain(w) \/ ~IsDir(st, <<w>>) \/ ~Plain(n) \/ Has(st, <<n>>) THEN Err(st)
  ELSE Ok(st \cup Graft(st, <<w>>, <<n>>), <<n>>)

RenameWs(st, w, n) ==
  IF ~Plain(w) \/ ~IsDir(st, <<w>>) \/ ~Plain(n) \/ Has(st, <<n>>) THEN Err(st)
  ELSE Ok(Remove(st, <<w>>) \cup Graft(st, <<w>>, <<n>>), <<n>>)

SetCurWs(st, w) ==        \* "" means: there is no current workspace
  IF ~WsThere(st, w) THEN Err(st) ELSE Ok(Write(st, CurFile, "=" \o w), <<w>>)

DeleteAll(st) == Ok({}, <<>>)

(* configurations; tpl: template name -> file name -> content *)
TplFiles == {"CHD.json", "CNF.json", "CST.json"}
CreateCfg(st, w, c, tpl) ==
  IF ~Plain(w) \/ ~IsDir(st, <<w>>) \/ ~Plain(c) \/ Kids(st, Cfg(w, c)) # {} THEN Err(st)
  ELSE Ok(MkDirs(st, Cfg(w, c)) \cup {Node(Append(Cfg(w, c), f), tpl[f]) : f \in TplFiles}, <<>>)

DeleteCfg(st, w, c) ==
  IF ~Plain(w) \/ ~IsDir(st, <<w>>) \/ ~Plain(c) \/ ~IsDir(st, Cfg(w, c)) THEN Err(st)
  ELSE Ok(Remove(st, Cfg(w, c)), <<>>)

CopyCfg(st, w, c, n) ==
  IF ~IsDir(st, <<w>>) \/ ~Plain(c) \/ ~IsDir(st, Cfg(w, c)) \/ ~Plain(n) \/ Has(st, Cfg(w, n)) THEN Err(st)
  ELSE Ok(st \cup Graft(st, Cfg(w, c), Cfg(w, n)), <<>>)

RenameCfg(st, w, c, n) ==
  IF ~IsDir(st, <<w>>) \/ ~Plain(c) \/ ~IsDir(st, Cfg(w, c)) \/ ~Plain(n) THEN Err(st)
  ELSE IF n = c THEN Ok(st, <<>>)
  ELSE IF Has(st, Cfg(w, n)) THEN Err(st)
  ELSE Ok(Remove(st, Cfg(w, c)) \cup Graft(st, Cfg(w, c), Cfg(w, n)), <<>>)

SetCurCfg(st, w, c) ==
  IF ~WsThere(st, w) \/ ~CfgThere(st, w, c) THEN Err(st)
  ELSE Ok(Write(st, CfgCurFile(w), "=" \o c), <<>>)

(* inputs and outputs; src: sequence of <<file name, content>>, content NONE = unreadable source *)
RECURSIVE AddFrom(_, _, _)
AddFrom(st, w, src) ==
  IF src = <<>> THEN Ok(st, <<>>)
  ELSE IF src[1][2] = NONE THEN Err(st)           \* files before the failing one stay
  ELSE AddFrom(Write(st, Append(Inputs(w), src[1][1]), src[1][2]), w, Tail(src))
AddInputs(st, w, src) == AddFrom(MkDirs(st, Inputs(w)), w, src)

RemoveInputs(st, w, names) ==
  Ok({e \in st : \A i \in DOMAIN names : e[1] # Append(Inputs(w), names[i])}, <<>>)

RemoveOutputs(st, w, c) ==
  IF ~IsDir(st, Outputs(w, c)) THEN Err(st)
  ELSE Ok({e \in st : ~(Under(Outputs(w, c), e[1]) /\ e[1] # Outputs(w, c))}, <<>>)

\* pats: <<>> = everything
Matching(S, pats) == {f \in S : pats = <<>> \/ \E i \in DOMAIN pats : Glob(pats[i], f)}
InputNames(st, w, pats) == Matching(NcFiles(st, Inputs(w)), pats)
OutputNames(st, w, c, pats) == Matching(NcFiles(st, Outputs(w, c)), pats)
NotebookNames(st, w) == {f \in KidFiles(st, Notebooks(w)) : EndsWith(f, ".ipynb")}

(* notebooks: the new file gets the first free number *)
RECURSIVE FreeIndex(_, _, _, _)
FreeIndex(st, w, base, i) ==
  IF Has(st, Append(Notebooks(w), base \o "-" \o DigitStr(i) \o ".ipynb"))
  THEN FreeIndex(st, w, base, i + 1) ELSE i
NewNotebook(st, w, base, content) ==
  IF ~IsDir(st, <<w>>) THEN Err(st)
  ELSE LET f == base \o "-" \o DigitStr(FreeIndex(st, w, base, 1)) \o ".ipynb"
       IN  Ok(Write(MkDirs(st, Notebooks(w)), Append(Notebooks(w), f), content), <<>>)

(* what others do to the tree: the processor makes products, the user edits files *)
EnvWrite(st, p, c) == Ok(Write(MkDirs(st, SubSeq(p, 1, Len(p) - 1)), p, c), <<>>)
EnvMkdir(st, p) == Ok(MkDirs(st, p), <<>>)
EnvRemove(st, p) == Ok(Remove(st, p), <<>>)

------------------------------------------------------------------------------
(* one recorded or generated operation o = [op |-> .., a |-> sequence of arguments] *)
Apply(st, o, K) ==
  CASE o.op = "create_ws"  -> CreateWs(st, o.a[1])
    [] o.op = "delete_ws"  -> DeleteWs(st, o.a[1])
    [] o.op = "copy_ws"    -> CopyWs(st, o.a[1], o.a[2])
    [] o.op = "rename_ws"  -> RenameWs(st, o.a[1], o.a[2])
    [] o.op = "set_cur"    -> SetCurWs(st, o.a[1])
    [] o.op = "get_cur"    -> Ok(st, Opt(CurWs(st)))
    [] o.op = "ws_names"   -> Ok(st, Sorted(WsNames(st), K.names))
    [] o.op = "ws_exists"  -> Ok(st, IF IsDir(st, <<o.a[1]>>) THEN <<"yes">> ELSE <<"no">>)
    [] o.op = "delete_all" -> DeleteAll(st)
    [] o.op = "create_cfg" -> CreateCfg(st, o.a[1], o.a[2], IF o.a[3] = "cryosat" THEN K.cryosat ELSE K.s3)
    [] o.op = "delete_cfg" -> DeleteCfg(st, o.a[1], o.a[2])
    [] o.op = "copy_cfg"   -> CopyCfg(st, o.a[1], o.a[2], o.a[3])
    [] o.op = "rename_cfg" -> RenameCfg(st, o.a[1], o.a[2], o.a[3])
    [] o.op = "set_cur_cfg" -> SetCurCfg(st, o.a[1], o.a[2])
    [] o.op = "get_cur_cfg" -> IF IsDir(st, <<o.a[1]>>) THEN Ok(st, Opt(CurCfg(st, o.a[1]))) ELSE Err(st)
    [] o.op = "cfg_names"  -> IF IsDir(st, <<o.a[1]>>) THEN Ok(st, Sorted(CfgNames(st, o.a[1]), K.names)) ELSE Err(st)
    [] o.op = "cfg_exists" -> Ok(st, IF Kids(st, Cfg(o.a[1], o.a[2])) # {} THEN <<"yes">> ELSE <<"no">>)
    [] o.op = "add_inputs" -> AddInputs(st, o.a[1], o.a[2])
    [] o.op = "remove_inputs" -> RemoveInputs(st, o.a[1], o.a[2])
    [] o.op = "input_names" -> Ok(st, Sorted(InputNames(st, o.a[1], o.a[2]), K.names))
    [] o.op = "input_paths" -> Ok(st, Sorted(InputNames(st, o.a[1], <<>>), K.names))
    [] o.op = "output_names" -> Ok(st, Sorted(OutputNames(st, o.a[1], o.a[2], o.a[3]), K.names))
    [] o.op = "remove_outputs" -> RemoveOutputs(st, o.a[1], o.a[2])
    [] o.op = "notebook_names" -> IF IsDir(st, <<o.a[1]>>) THEN Ok(st, Sorted(NotebookNames(st, o.a[1]), K.names))
                                  ELSE Err(st)
    [] o.op = "new_notebook" -> NewNotebook(st, o.a[1], o.a[2], o.a[3])
    [] o.op = "env_write"  -> EnvWrite(st, o.a[1], o.a[2])
    [] o.op = "env_mkdir"  -> EnvMkdir(st, o.a[1])
    [] o.op = "env_rm"     -> EnvRemove(st, o.a[1])
=============================================================================
