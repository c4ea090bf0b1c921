-------------------------------- MODULE Shell --------------------------------
(* The command-line shell on top of the workspace store.  A command record o *)
(* has the fields                                                            *)
(*   op    which command                                                     *)
(*   w, c  the WORKSPACE and CONFIG given, "" = not given                    *)
(*   n     the new name (copy, rename, add), or the file name                *)
(*   x     a sequence of strings: patterns or inputs                         *)
(*   p     files to add, a sequence of <<directory, pattern>>                *)
(*   yes   what the user answers if asked, "-" = the option not to ask       *)
(*   f     a sequence of option letters                                      *)
(*   w2,c2,n2  of the second product of "compare"                            *)
(* The result is that of Store: new store, "ok"/"err", what is listed,       *)
(* opened, launched or processed.                                            *)
EXTENDS Store

NotGiven == ""
Flag(o, x) == \E i \in DOMAIN o.f : o.f[i] = x
Given(a, b) == IF a # NotGiven THEN a ELSE b
Then(r, F(_)) == IF r.res = "ok" THEN F(r.st) ELSE r
Agrees(o) == o.yes \in {"-", "yes", "", "YES", "Yes", " yes "}
NamedOr(x) == IF x = NONE THEN "" ELSE x

RECURSIVE FirstFree(_, _, _)
FirstFree(S, n, i) == LET m == IF i = 1 THEN n ELSE n \o "_" \o DigitStr(i)
                      IN  IF m \in S THEN FirstFree(S, n, i + 1) ELSE m
\* never an existing name: NAME, NAME_2, NAME_3, ...
Unused(S, n) == FirstFree(S, n, 1)

\* what to fall back to when the current one is gone
Fallback(S, K) == IF "default" \in S THEN "default" ELSE IF S = {} THEN "" ELSE Sorted(S, K.names)[1]

\* the workspace a command is about
Wsp(st, o) == Given(o.w, NamedOr(CurWs(st)))
\* ... and the configuration; asking a workspace that isn't there is an error
CfgKnown(st, o) == o.c # NotGiven \/ Wsp(st, o) = "" \/ IsDir(st, <<Wsp(st, o)>>)
Conf(st, o) == IF o.c # NotGiven THEN o.c ELSE IF Wsp(st, o) = "" THEN "" ELSE NamedOr(CurCfg(st, Wsp(st, o)))

\* "default" is made on demand, and is current when it was made
NeedWs(st, w) ==
  IF w # "" THEN Ok(st, <<w>>)
  ELSE IF Has(st, <<"default">>) THEN Ok(st, <<"default">>)
  ELSE Then(CreateWs(st, "default"), LAMBDA s : SetCurWs(s, "default"))
WsOr(w) == Given(w, "default")
NewCfg(st, w, c, tpl) == Then(CreateCfg(st, w, c, tpl), LAMBDA s : SetCurCfg(s, w, c))
NeedCfg(st, w, c, K) ==
  IF c # "" THEN Ok(st, <<c>>)
  ELSE IF Kids(st, Cfg(w, "default")) # {} THEN Ok(st, <<"default">>)
  ELSE NewCfg(st, w, "default", K.s3)

Say(r, ret) == IF r.res = "ok" THEN [r EXCEPT !.ret = ret] ELSE r
Silent(r) == Say(r, <<>>)

------------------------------------------------------------------------------
(* workspace *)
WsAdd(st, o) == Silent(Then(CreateWs(st, o.n), LAMBDA s : SetCurWs(s, o.n)))

WsRm(st, o, K) ==
  LET w == Wsp(st, o) IN
  IF w = "" THEN Err(st)
  ELSE IF ~Agrees(o) THEN Ok(st, <<>>)
  ELSE Silent(Then(DeleteWs(st, w),
                   LAMBDA s : IF CurWs(s) = w THEN SetCurWs(s, Fallback(WsNames(s), K)) ELSE Ok(s, <<>>)))

WsCp(st, o) ==
  LET w == Wsp(st, o) IN
  IF w = "" THEN Err(st)
  ELSE Silent(CopyWs(st, w, Unused(WsNames(st), Given(o.n, w \o "_1"))))

WsRn(st, o) ==
  LET w == Wsp(st, o)
      n == Unused(WsNames(st), o.n) IN
  IF w = "" THEN Err(st)
  ELSE Silent(Then(RenameWs(st, w, n), LAMBDA s : IF CurWs(s) = w THEN SetCurWs(s, n) ELSE Ok(s, <<>>)))

WsCur(st, o) ==
  IF o.w # NotGiven THEN Say(SetCurWs(st, o.w), <<o.w>>)
  ELSE Ok(st, IF Unset(CurWs(st)) THEN <<>> ELSE <<CurWs(st)>>)

WsLs(st, K) == Ok(st, Sorted(WsNames(st), K.names))

(* config *)
CfgAdd(st, o, K) ==
  Silent(Then(NeedWs(st, Wsp(st, o)),
              LAMBDA s : NewCfg(s, WsOr(Wsp(st, o)), o.c, IF Flag(o, "cryosat") THEN K.cryosat ELSE K.s3)))

CfgRm(st, o, K) ==
  LET w == Wsp(st, o)
      c == Conf(st, o) IN
  IF w = "" \/ ~CfgKnown(st, o) \/ c = "" THEN Err(st)
  ELSE IF ~Agrees(o) THEN Ok(st, <<>>)
  ELSE Silent(Then(DeleteCfg(st, w, c),
                   LAMBDA s : IF CurCfg(s, w) = c THEN SetCurCfg(s, w, Fallback(CfgNames(s, w), K)) ELSE Ok(s, <<>>)))

CfgCp(st, o) ==
  LET w == Wsp(st, o)
      c == Conf(st, o) IN
  IF w = "" \/ ~CfgKnown(st, o) \/ c = "" THEN Err(st)
  ELSE Silent(CopyCfg(st, w, c, Unused(CfgNames(st, w), Given(o.n, c \o "_copy"))))

CfgRn(st, o) ==
  LET w == Wsp(st, o)
      c == Conf(st, o)
      n == Unused(CfgNames(st, w), o.n) IN
  IF w = "" \/ ~CfgKnown(st, o) \/ c = "" THEN Err(st)
  ELSE Silent(Then(RenameCfg(st, w, c, n), LAMBDA s : IF CurCfg(s, w) = c THEN SetCurCfg(s, w, n) ELSE Ok(s, <<>>)))

CfgCur(st, o) ==
  LET w == WsOr(Wsp(st, o))
      c == Conf(st, o) IN
  IF ~CfgKnown(st, o) THEN Err(st)
  ELSE IF c # "" THEN Say(SetCurCfg(st, w, c), <<c>>)
  ELSE IF ~IsDir(st, <<w>>) THEN Err(st)
  ELSE Ok(st, IF Unset(CurCfg(st, w)) THEN <<>> ELSE <<CurCfg(st, w)>>)

CfgLs(st, o, K) ==
  LET w == Wsp(st, o) IN
  IF w = "" \/ ~IsDir(st, <<w>>) THEN Err(st) ELSE Ok(st, Sorted(CfgNames(st, w), K.names))

CfgFile(w, c, k) == w \o "/configs/" \o c \o "/" \o k \o ".json"
CfgEd(st, o, K) ==
  IF ~CfgKnown(st, o) THEN Err(st)
  ELSE Then(NeedWs(st, Wsp(st, o)),
            LAMBDA s : LET w == WsOr(Wsp(st, o))
                           c == Conf(st, o)
                       IN  Say(NeedCfg(s, w, c, K), [i \in 1 .. 3 |-> CfgFile(w, Given(c, "default"), <<"CHD", "CNF", "CST">>[i])]))

CfgInfo(st, o) ==
  IF Wsp(st, o) = "" \/ ~CfgKnown(st, o) \/ Conf(st, o) = "" THEN Err(st)
  ELSE IF ~IsDir(st, Cfg(Wsp(st, o), Conf(st, o))) THEN Err(st) ELSE Ok(st, <<Wsp(st, o), Conf(st, o)>>)

(* input; K.src: the L1A files of the user, <<directory, name, content>> *)
Expand(K, x) == SelectSeq(K.src, LAMBDA s : s[1] = x[1] /\ Glob(x[2], s[2]))
RECURSIVE ExpandAll(_, _)
ExpandAll(K, xs) == IF xs = <<>> THEN <<>> ELSE Expand(K, xs[1]) \o ExpandAll(K, Tail(xs))
InAdd(st, o, K) ==
  LET es == ExpandAll(K, o.p) IN
  IF es = <<>> THEN Err(st)
  ELSE Silent(Then(NeedWs(st, Wsp(st, o)),
                   LAMBDA s : AddInputs(s, WsOr(Wsp(st, o)), [i \in DOMAIN es |-> <<es[i][2], es[i][3]>>])))

InRm(st, o, K) ==
  LET w == Wsp(st, o)
      ns == InputNames(st, w, IF o.x = <<>> THEN <<"*.nc">> ELSE o.x) IN
  IF w = "" \/ ns = {} THEN Err(st)
  ELSE IF ~Agrees(o) THEN Ok(st, <<>>)
  ELSE RemoveInputs(st, w, Sorted(ns, K.names))

InLs(st, o, K) ==
  IF Wsp(st, o) = "" THEN Err(st) ELSE Ok(st, Sorted(InputNames(st, Wsp(st, o), o.x), K.names))

(* output *)
OutBad(st, o) == Wsp(st, o) = "" \/ ~CfgKnown(st, o) \/ Conf(st, o) = ""
OutClean(st, o) ==
  LET w == Wsp(st, o)
      c == Conf(st, o) IN
  IF OutBad(st, o) \/ OutputNames(st, w, c, <<>>) = {} THEN Err(st)
  ELSE IF ~Agrees(o) THEN Ok(st, <<>>)
  ELSE RemoveOutputs(st, w, c)

OutLs(st, o, K) ==
  IF OutBad(st, o) THEN Err(st) ELSE Ok(st, Sorted(OutputNames(st, Wsp(st, o), Conf(st, o), o.x), K.names))

OutPath(w, c) == w \o "/configs/" \o c \o "/outputs"
OutOpen(st, o) ==
  IF OutBad(st, o) THEN Err(st)
  ELSE Ok(st, IF IsDir(st, Outputs(Wsp(st, o), Conf(st, o))) THEN <<OutPath(Wsp(st, o), Conf(st, o))>> ELSE <<>>)

\* a product is a plain file name in the outputs of a configuration, or a path (written "ext/NAME" here, K.ext: what exists)
IsPath(f) == StartsWith(f, "ext/")
Base(f) == IF IsPath(f) THEN SubSeq(f, 5, Len(f)) ELSE f
ProductThere(st, w, c, f, K) == IF IsPath(f) THEN Base(f) \in SeqToSet(K.ext) ELSE c # "" /\ Has(st, Append(Outputs(w, c), f))
ProductPath(w, c, f) == IF IsPath(f) THEN f ELSE OutPath(w, c) \o "/" \o f
Launched(st, w, base) == <<w \o "/notebooks/" \o base \o "-" \o DigitStr(FreeIndex(st, w, base, 1)) \o ".ipynb">>

OutInspect(st, o, K) ==
  IF ~CfgKnown(st, o) THEN Err(st)
  ELSE Then(NeedWs(st, Wsp(st, o)),
            LAMBDA s : LET w == WsOr(Wsp(st, o))
                           c == Conf(st, o)
                           b == "inspect-" \o Base(o.n)
                       IN  IF ~ProductThere(s, w, c, o.n, K) THEN Err(s)
                           ELSE Say(NewNotebook(s, w, b, "NB:" \o ProductPath(w, c, o.n)), Launched(s, w, b)))

OutCompare(st, o, K) ==
  IF ~CfgKnown(st, o) THEN Err(st)
  ELSE Then(NeedWs(st, Wsp(st, o)),
            LAMBDA s : LET w == WsOr(Wsp(st, o))
                           c == Conf(st, o)
                           w2 == Given(o.w2, w)
                           c2 == Given(o.c2, c)
                           m == Given(o.n2, o.n)
                           b == "compare-" \o Base(o.n) \o "-" \o Base(m)
                       IN  IF ~ProductThere(s, w, c, o.n, K) \/ ~ProductThere(s, w2, c2, m, K) THEN Err(s)
                           ELSE Say(NewNotebook(s, w, b, "NB:" \o ProductPath(w, c, o.n) \o "|" \o ProductPath(w2, c2, m)),
                                    Launched(s, w, b)))

(* run: every configuration of the run with every input, once, in order; the first failure ends the run *)
Job(w, c, o, i) == c \o "|" \o CfgFile(w, c, "CHD") \o "|" \o CfgFile(w, c, "CNF") \o "|" \o CfgFile(w, c, "CST") \o "|" \o
                   Given(o.n, OutPath(w, c)) \o "|" \o (IF Flag(o, "skip") THEN "skip" ELSE "l1bs") \o "|" \o i
Fails(i) == \E k \in 1 .. Len(i) - 2 : SubSeq(i, k, k + 2) = "bad"
RECURSIVE RunInputs(_, _, _, _)
RunInputs(w, c, o, is) ==
  IF is = <<>> THEN <<"ok", <<>>>>
  ELSE IF Fails(is[1]) THEN <<"err", <<Job(w, c, o, is[1])>>>>
  ELSE LET r == RunInputs(w, c, o, Tail(is)) IN <<r[1], <<Job(w, c, o, is[1])>> \o r[2]>>
RECURSIVE RunConfigs(_, _, _, _, _)
RunConfigs(st, w, cs, o, is) ==
  IF cs = <<>> THEN <<"ok", <<>>>>
  ELSE IF ~\A k \in TplFiles : IsFile(st, Append(Cfg(w, cs[1]), k)) THEN <<"err", <<>>>>
  ELSE LET r == RunInputs(w, cs[1], o, is) IN
       IF r[1] = "err" THEN r
       ELSE LET q == RunConfigs(st, w, Tail(cs), o, is) IN <<q[1], r[2] \o q[2]>>
RunAll(st, w, cs, o, K) ==
  LET ins == Sorted(InputNames(st, w, <<>>), K.names)
      is == IF o.x # <<>> THEN o.x ELSE [i \in DOMAIN ins |-> w \o "/inputs/" \o ins[i]]
      r == RunConfigs(st, w, cs, o, is)
  IN  IF is = <<>> THEN Err(st) ELSE [st |-> st, res |-> r[1], ret |-> r[2]]
Run(st, o, K) ==
  IF (Flag(o, "all") /\ o.c # NotGiven) \/ ~CfgKnown(st, o) THEN Err(st)
  ELSE Then(NeedWs(st, Wsp(st, o)),
            LAMBDA s : LET w == WsOr(Wsp(st, o))
                           c == Conf(st, o)
                       IN  IF Flag(o, "all")
                           THEN IF ~IsDir(s, <<w>>) \/ CfgNames(s, w) = {} THEN Err(s)
                                ELSE RunAll(s, w, Sorted(CfgNames(s, w), K.names), o, K)
                           ELSE Then(NeedCfg(s, w, c, K), LAMBDA t : RunAll(t, w, <<Given(c, "default")>>, o, K)))

Status(st, K) ==
  IF ~IsDir(st, <<>>) THEN Ok(st, <<"(not yet created)", "(not set)", "(not set)">>)
  ELSE LET ws == Sorted(WsNames(st), K.names)
           w == NamedOr(CurWs(st))
           Join[i \in 1 .. Len(ws)] == IF i = 1 THEN ws[1] ELSE Join[i - 1] \o ", " \o ws[i]
       IN  IF w # "" /\ ~IsDir(st, <<w>>) THEN Err(st)
           ELSE Ok(st, <<IF ws = <<>> THEN "(not set)" ELSE Join[Len(ws)], Given(w, "(not set)"),
                         Given(IF w = "" THEN "" ELSE NamedOr(CurCfg(st, w)), "(not set)")>>)

ShellApply(st, o, K) ==
  CASE o.op = "sh_ws_add" -> WsAdd(st, o)
    [] o.op = "sh_ws_rm"  -> WsRm(st, o, K)
    [] o.op = "sh_ws_cp"  -> WsCp(st, o)
    [] o.op = "sh_ws_rn"  -> WsRn(st, o)
    [] o.op = "sh_ws_cur" -> WsCur(st, o)
    [] o.op = "sh_ws_ls"  -> WsLs(st, K)
    [] o.op = "sh_cf_add" -> CfgAdd(st, o, K)
    [] o.op = "sh_cf_rm"  -> CfgRm(st, o, K)
    [] o.op = "sh_cf_cp"  -> CfgCp(st, o)
    [] o.op = "sh_cf_rn"  -> CfgRn(st, o)
    [] o.op = "sh_cf_cur" -> CfgCur(st, o)
    [] o.op = "sh_cf_ls"  -> CfgLs(st, o, K)
    [] o.op = "sh_cf_ed"  -> CfgEd(st, o, K)
    [] o.op = "sh_cf_info" -> CfgInfo(st, o)
    [] o.op = "sh_in_add" -> InAdd(st, o, K)
    [] o.op = "sh_in_rm"  -> InRm(st, o, K)
    [] o.op = "sh_in_ls"  -> InLs(st, o, K)
    [] o.op = "sh_out_clean" -> OutClean(st, o)
    [] o.op = "sh_out_ls" -> OutLs(st, o, K)
    [] o.op = "sh_out_open" -> OutOpen(st, o)
    [] o.op = "sh_out_ins" -> OutInspect(st, o, K)
    [] o.op = "sh_out_cmp" -> OutCompare(st, o, K)
    [] o.op = "sh_run"    -> Run(st, o, K)
    [] o.op = "sh_status" -> Status(st, K)
    [] OTHER -> Apply(st, o, K)
=============================================================================
