------------------------------- MODULE MCShell -------------------------------
(* Shell explored exhaustively with a few names: the current workspace and   *)
(* configuration stay valid, commands change nothing but their target.       *)
EXTENDS Shell, Json
CONSTANTS Ws, Cf, Groups, MaxDepth, GenDepth

VARIABLES st, last, hist
vars == <<st, last, hist>>

K == [names |-> <<"", "a", "a_1", "a_2", "b", "b_1", "b_2", "default", "default_1", "default_2", "f.nc", "g.nc", "x", "x_2", "x_copy",
                  "default_copy">>,
      s3 |-> [f \in TplFiles |-> "s3/" \o f], cryosat |-> [f \in TplFiles |-> "cs/" \o f],
      src |-> <<<<"s1", "f.nc", "d1">>, <<"s2", "f.nc", "d2">>, <<"s2", "g.nc", "d3">>>>, ext |-> <<"p1.nc">>]

C0 == [op |-> "", a |-> <<>>, w |-> "", c |-> "", n |-> "", x |-> <<>>, p |-> <<>>, yes |-> "-", f |-> <<>>, w2 |-> "", c2 |-> "", n2 |-> ""]
Cm(o, w, c, n) == [C0 EXCEPT !.op = o, !.w = w, !.c = c, !.n = n]
W0 == Ws \cup {""}
Cf0 == Cf \cup {""}
WsCmds == {Cm("sh_ws_add", "", "", n) : n \in Ws} \cup {Cm(o, w, "", "") : o \in {"sh_ws_rm", "sh_ws_cur", "sh_ws_cp"}, w \in W0}
     \cup {Cm(o, w, "", n) : o \in {"sh_ws_cp", "sh_ws_rn"}, w \in Ws, n \in Ws} \cup {Cm("sh_ws_rn", "", "", n) : n \in Ws}
     \cup {[Cm("sh_ws_rm", w, "", "") EXCEPT !.yes = "no"] : w \in W0}
CfCmds == {Cm("sh_cf_add", w, c, "") : w \in W0, c \in Cf} \cup {Cm(o, w, c, "") : o \in {"sh_cf_rm", "sh_cf_cur", "sh_cf_cp", "sh_cf_ed"}, w \in W0, c \in Cf0}
     \cup {Cm(o, w, c, n) : o \in {"sh_cf_cp", "sh_cf_rn"}, w \in W0, c \in Cf, n \in Cf} \cup {Cm("sh_cf_rn", w, "", n) : w \in W0, n \in Cf}
InCmds == {[Cm("sh_in_add", w, "", "") EXCEPT !.p = <<<<d, p>>>>] : w \in W0, d \in {"s1", "s2"}, p \in {"f.nc", "*", "no"}}
     \cup {[Cm(o, w, "", "") EXCEPT !.x = x] : o \in {"sh_in_rm", "sh_in_ls"}, w \in W0, x \in {<<>>, <<"f*">>}}
     \cup {Cm(o, w, c, "") : o \in {"sh_out_clean", "sh_out_ls", "sh_out_open"}, w \in W0, c \in Cf0}
RunCmds == {[Cm("sh_run", w, c, "") EXCEPT !.f = f, !.x = x] : w \in W0, c \in Cf0, f \in {<<>>, <<"all">>, <<"skip">>}, x \in {<<>>, <<"ext/p1.nc", "ext/bad.nc">>}}
NbCmds == {Cm("sh_out_ins", w, c, n) : w \in W0, c \in Cf0, n \in {"f.nc", "ext/p1.nc"}}
     \cup {[Cm("sh_out_cmp", w, c, n) EXCEPT !.n2 = m, !.c2 = d] : w \in W0, c \in Cf0, n \in {"f.nc", "ext/p1.nc"}, m \in {"", "f.nc"}, d \in Cf0}
EnvCmds == UNION {{[C0 EXCEPT !.op = "env_write", !.a = <<Append(Outputs(w, c), "f.nc"), "d5">>] : c \in CfgNames(st, w)} : w \in WsNames(st)}

NoOp == [C0 EXCEPT !.op = "none"]
Init == st = {} /\ last = [o |-> NoOp, res |-> "ok", ret |-> <<>>] /\ hist = <<>>
Do(o) == LET r == ShellApply(st, o, K)
         IN  /\ st' = r.st
             /\ last' = [o |-> o, res |-> r.res, ret |-> r.ret]
             /\ hist' = IF GenDepth > 0 THEN Append(hist, o) ELSE hist
Next == \/ "ws" \in Groups /\ \E o \in WsCmds : Do(o)
        \/ "cf" \in Groups /\ \E o \in CfCmds : Do(o)
        \/ "in" \in Groups /\ \E o \in InCmds : Do(o)
        \/ "run" \in Groups /\ \E o \in RunCmds : Do(o)
        \/ "nb" \in Groups /\ \E o \in NbCmds : Do(o)
        \/ "env" \in Groups /\ \E o \in EnvCmds : Do(o)
Spec == Init /\ [][Next]_vars
\* names made by copying copies of copies are not followed
Bounded == /\ TLCGet("level") <= MaxDepth
           /\ \A e \in st : Len(e[1]) > 0 => (e[1][1] = ".current" \/ e[1][1] \in SeqToSet(K.names))
           /\ \A e \in st : Len(e[1]) > 2 => (e[1][2] # "configs" \/ e[1][3] = ".current" \/ e[1][3] \in SeqToSet(K.names))
View == st

WellFormed == /\ \A e \in st : Len(e[1]) > 0 => IsDir(st, SubSeq(e[1], 1, Len(e[1]) - 1))
              /\ \A e, f \in st : e[1] = f[1] => e = f
\* commands alone never leave the shell pointing at something that isn't there
CurrentValid == /\ Unset(CurWs(st)) \/ CurWs(st) \in WsNames(st)
                /\ \A w \in WsNames(st) : Unset(CurCfg(st, w)) \/ CurCfg(st, w) \in CfgNames(st, w)
\* ... and while workspaces were only made by "workspace add/copy", one of them is current
SomeCurrent == ("in" \in Groups \/ WsNames(st) = {} \/ ~Unset(CurWs(st)))

IsCur(e) == Len(e[1]) > 0 /\ e[1][Len(e[1])] = ".current"
\* a failed command leaves everything there was as it was (it may have made "default", or added the inputs before the failing one)
FailedKeeps == [][last'.res = "err" => \A e \in st : IsCur(e) \/ e \in st']_vars
\* declining changes nothing
DeclinedKeeps == [][(last'.o.op \in {"sh_ws_rm", "sh_cf_rm", "sh_in_rm", "sh_out_clean"} /\ ~Agrees(last'.o)) => st' = st]_vars
\* other workspaces than the one meant are untouched
Target == Given(last'.o.w, NamedOr(CurWs(st)))
OthersKept == [][\A w \in WsNames(st) : (w # WsOr(Target) /\ last'.o.op \notin {"env_write"}) => Sub(st', <<w>>) = Sub(st, <<w>>)]_vars
\* what isn't removed or renamed by name stays
NothingLost == [][last'.o.op \notin {"sh_ws_rm", "sh_ws_rn", "sh_cf_rm", "sh_cf_rn", "sh_in_rm", "sh_out_clean", "env_write"} =>
                    \A e \in st : \/ e \in st'
                                  \/ IsCur(e)
                                  \/ last'.o.op = "sh_in_add" /\ Len(e[1]) = 3 /\ e[1][2] = "inputs"]_vars
\* a run does each configuration with each input exactly once, in full or up to the first failure
RunOnce == [][(last'.o.op = "sh_run" /\ last'.res = "ok") =>
                /\ \A i, j \in DOMAIN last'.ret : last'.ret[i] = last'.ret[j] => i = j
                /\ Len(last'.ret) = (IF last'.o.x = <<>> THEN Cardinality(InputNames(st, WsOr(Target), <<>>)) ELSE Len(last'.o.x))
                                    * (IF Flag(last'.o, "all") THEN Cardinality(CfgNames(st, WsOr(Target))) ELSE 1)]_vars
NotebooksKept == [][last'.o.op \in {"sh_out_ins", "sh_out_cmp"} => \A e \in st : e \in st' \/ IsCur(e)]_vars

Gen == (GenDepth > 0 /\ Len(hist) = GenDepth) => PrintT("TRACE " \o ToJson(hist))
Lively == last'.res = "ok" \/ RandomElement(1..5) = 1
=============================================================================
