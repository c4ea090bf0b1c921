-------------------------------- MODULE MCWeb --------------------------------
(* Web explored exhaustively with a few names.                               *)
EXTENDS Web
CONSTANTS Ws, Cf, MaxDepth
VARIABLES st, last
vars == <<st, last>>

K == [names |-> <<"", "a", "b", "default", "f.nc", "x", "y">>, ext |-> <<"p1.nc">>,
      s3 |-> [f \in TplFiles |-> "Js3/" \o f], cryosat |-> [f \in TplFiles |-> "Jcs/" \o f]]
O(op, a) == [op |-> op, a |-> a, x |-> <<>>, p |-> <<>>]
Ops == {O(op, <<w>>) : op \in {"web_new", "web_delete", "web_set_cur", "web_cfgs", "web_cur_cfg", "web_notebooks"}, w \in Ws}
  \cup {O(op, <<>>) : op \in {"web_cur", "web_all"}}
  \cup {O(op, <<w, n>>) : op \in {"web_copy", "web_rename"}, w \in Ws, n \in Ws}
  \cup {O(op, <<w, c>>) : op \in {"web_rm_cfg", "web_set_cur_cfg", "web_get_cfgs", "web_outputs"}, w \in Ws, c \in Cf}
  \cup {O("web_add_cfg", <<w, c, "s3">>) : w \in Ws, c \in Cf}
  \cup {O(op, <<w, c, n>>) : op \in {"web_cp_cfg", "web_rn_cfg"}, w \in Ws, c \in Cf, n \in Cf}
  \cup {[O("web_save", <<w, c>>) EXCEPT !.x = <<"J1", "J2", "J3">>] : w \in Ws, c \in Cf}
Init == st = {} /\ last = [o |-> O("none", <<>>), res |-> "ok", ret |-> <<>>]
Next == \E o \in Ops : LET r == WebApply(st, o, K) IN st' = r.st /\ last' = [o |-> o, res |-> r.res, ret |-> r.ret]
Spec == Init /\ [][Next]_vars
Bounded == TLCGet("level") <= MaxDepth
View == st

CurrentValid == /\ Unset(CurWs(st)) \/ CurWs(st) \in WsNames(st)
                /\ \A w \in WsNames(st) : Unset(CurCfg(st, w)) \/ CurCfg(st, w) \in CfgNames(st, w)
FailedKeeps == [][last'.res = "err" => st' = st]_vars
OthersKept == [][last'.o.op \in {"web_cur", "web_all"} \/
                 \A w \in WsNames(st) : (\A i \in DOMAIN last'.o.a : i > 2 \/ last'.o.a[i] # w) => Sub(st', <<w>>) = Sub(st, <<w>>)]_vars
\* what was saved is what is read
SavedIsRead == [][(last'.o.op = "web_save" /\ last'.res = "ok") =>
                    WebGetCfgs(st', last'.o.a[1], last'.o.a[2]).ret = last'.o.x]_vars
=============================================================================
