---------------------------- MODULE InspectTrace ------------------------------
(* Real inspectors and comparators with a pyplot that records.                 *)
EXTENDS Inspect, Json
VARIABLES c, verdict
Cases == JsonDeserialize("cases.json")
K == Cases[c]
How == IF K.inter THEN "show" ELSE Kind(IF K.ext = "PDF" THEN "pdf" ELSE K.ext, K.fmt)
Refused == \/ How \notin {"show", "dir", "pdf"} \/ (How = "pdf" /\ K.ext \notin {"", "pdf", "PDF"})
           \/ (K.two /\ ~Comparable(K.p, K.q))
PdfPath == K.dir \o (IF K.ext = "" THEN ".pdf" ELSE "")
Expect(x) == IF K.two THEN Compared(K.p, K.q, x) ELSE Shown(K.p, x)
(* maps cannot be pages of a PDF document *)
Want(x) == IF How = "pdf" /\ x.op = "locations" THEN Said("message") ELSE Expect(x)
Items(x) == {x.items[i] : i \in DOMAIN x.items}
Say(x) == x.op \o " " \o x.z \o x.x \o " " \o x.y
CallOk(x) ==
  LET e == Want(x)
  IN IF x.out # e.out THEN Say(x) \o ": " \o x.out \o ", expected: " \o e.out
     ELSE IF x.offer # <<>> /\ {x.offer[i] : i \in DOMAIN x.offer} # Images(K.p) THEN Say(x) \o ": offers " \o ToString(x.offer)
     ELSE IF e.out # "figure" THEN "ok"
     ELSE IF x.n # 1 THEN Say(x) \o ": " \o ToString(x.n) \o " figures"
     ELSE IF {i.k : i \in Items(x)} # {i.k : i \in e.items} THEN Say(x) \o ": shows " \o ToString({i.k : i \in Items(x)})
     ELSE IF Items(x) # e.items THEN Say(x) \o ": shows " \o ToString(Items(x) \ e.items) \o ", expected " \o ToString(e.items \ Items(x))
     ELSE IF x.name # (CASE How = "show" -> "" [] How = "pdf" -> "page" [] How = "dir" -> e.name) THEN Say(x) \o ": saved as " \o x.name
     ELSE IF How = "dir" /\ x.where # K.dir THEN Say(x) \o ": saved in " \o x.where
     ELSE "ok"
Span(S) == <<Least(S), Most(S)>>
InfoOk(p, y) ==
  IF y.dims # <<Len(p.wave), Len(p.wave[1])>> THEN "dimensions"
  ELSE IF y.wave # p.wave THEN "waveforms " \o ToString(y.wave) \o ", expected " \o ToString(p.wave)
  ELSE IF y.wrange # Span(Values(p.wave)) THEN "range of waveforms " \o ToString(y.wrange)
  ELSE IF y.lat # p.lat \/ y.lon # p.lon THEN "positions"
  ELSE IF y.latr # Span(Values(<<p.lat>>)) \/ y.lonr # Span(Values(<<p.lon>>)) THEN "ranges of positions"
  ELSE IF {y.vars[i] : i \in DOMAIN y.vars} # DOMAIN p.vars THEN "names of variables"
  ELSE "ok"
RECURSIVE Pages(_)
Pages(i) == IF i > Len(K.calls) THEN 0 ELSE (IF Want(K.calls[i]).out = "figure" THEN 1 ELSE 0) + Pages(i + 1)
Verdict ==
  IF Refused THEN IF K.open = "refused" THEN "ok" ELSE "opened or failed otherwise: " \o K.open
  ELSE IF K.open # "" THEN "not opened: " \o K.open
  ELSE LET bad == {i \in DOMAIN K.calls : CallOk(K.calls[i]) # "ok"}
           inf == {i \in DOMAIN K.info : InfoOk(IF i = 1 THEN K.p ELSE K.q, K.info[i]) # "ok"}
       IN IF inf # {} THEN LET i == Least(inf) IN InfoOk(IF i = 1 THEN K.p ELSE K.q, K.info[i])
          ELSE IF bad # {} THEN CallOk(K.calls[Least(bad)])
          ELSE IF How = "pdf" /\ (K.pages # Pages(1) \/ (Pages(1) > 0 /\ K.pdf # PdfPath)) THEN ToString(K.pages) \o " pages in " \o K.pdf \o ", expected " \o ToString(Pages(1)) \o " in " \o PdfPath
          ELSE IF ~K.closed THEN "left open"
          ELSE "ok"
Init == c \in DOMAIN Cases /\ verdict = "run"
Step == /\ verdict = "run"
        /\ verdict' = Verdict
        /\ PrintT("VERDICT " \o ToString(c) \o " " \o verdict')
        /\ UNCHANGED c
Spec == Init /\ [][Step]_<<c, verdict>>
===============================================================================
