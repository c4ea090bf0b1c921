------------------------------ MODULE MCInspect -------------------------------
(* A session with an inspector of a small product: figures are shown or go into *)
(* a directory or a document until it is closed.  Whatever is drawn belongs to  *)
(* the product, limits that are not given leave nothing out, a figure of a      *)
(* name is overwritten by a later one with that name and by no other, and a     *)
(* document has a page for each figure that was drawn.                          *)
EXTENDS Inspect
CONSTANT Steps
VARIABLES p, how, files, pages, drawn, open, last
vars == <<p, how, files, pages, drawn, open, last>>
Cell2 == {0, 1, Missing}
Products == {[vars |-> [a |-> [d |-> 2, m |-> <<<<2, x>>, <<y, 5>>>>], b |-> [d |-> 1, m |-> <<<<4, z>>>>]],
              wave |-> <<<<x, 3>>, <<1, y>>>>, lat |-> <<1, 2>>, lon |-> <<3, 4>>] : x \in Cell2, y \in Cell2, z \in {0, 9}}
Call(op, z, x, y, lo, hi, i, j) == [op |-> op, z |-> z, x |-> x, y |-> y, lo |-> lo, hi |-> hi, i |-> i, j |-> j]
Limits == {NoLimit, 0}
Calls == {Call("im", z, "", "", lo, NoLimit, 0, 0) : z \in {"a", "b", "", "none"}, lo \in Limits}
         \cup {Call("im_line", "a", "", "", lo, 4, i, j) : lo \in Limits, i \in {-1, 0, 1}, j \in {-1, 0, 1}}
         \cup {Call("line", "", x, y, NoLimit, NoLimit, 0, 0) : x \in {"index", "b", ""}, y \in {"b", ""}}
         \cup {Call("waveform_line", "", "", "", NoLimit, NoLimit, i, j) : i \in {-1, 0, 1}, j \in {-1, 0, 1}}
         \cup {Call(op, "", "", "", lo, hi, 0, 0) : op \in {"waveform_im", "waveform_hist"}, lo \in Limits, hi \in Limits}
None == Call("", "", "", "", 0, 0, 0, 0)
Init == p \in Products /\ how \in {"dir", "pdf", "show"} /\ files = <<>> /\ pages = 0 /\ drawn = 0 /\ open = TRUE /\ last = None
Draw(c) ==
  LET f == Shown(p, c)
  IN /\ open /\ drawn < Steps
     /\ last' = c
     /\ IF f.out = "figure"
        THEN /\ drawn' = drawn + 1
             /\ files' = IF how = "dir" THEN (f.name :> c) @@ files ELSE files
             /\ pages' = IF how = "pdf" THEN pages + 1 ELSE pages
        ELSE UNCHANGED <<drawn, files, pages>>
     /\ UNCHANGED <<p, how, open>>
Close == open /\ open' = FALSE /\ UNCHANGED <<p, how, files, pages, drawn, last>>
Next == (\E c \in Calls : Draw(c)) \/ Close
Spec == Init /\ [][Next]_vars

Mine == Values(p.wave) \cup Values(p.vars["a"].m) \cup Values(p.vars["b"].m) \cup {0, 1}
ItemsOf(c) == IF c = None THEN {} ELSE Shown(p, c).items
OnlyMine == \A i \in ItemsOf(last) : Values(i.m) \subseteq Mine
Whole == \A i \in ItemsOf(last) : i.k = "image" /\ last.lo = NoLimit => \A v \in Values(i.m) : v >= i.lo
Wide == \A i \in ItemsOf(last) : i.k = "hist" => i.lo # i.hi
Given == \A i \in ItemsOf(last) : i.k \in {"image", "hist"} /\ last.lo # NoLimit => i.lo = last.lo
Single == \A n \in DOMAIN files : Shown(p, files[n]).name = n
Counted == (how = "pdf" => pages = drawn) /\ (how = "show" => pages = 0 /\ files = <<>>) /\ Cardinality(DOMAIN files) <= drawn
Marked == last.op = "im_line" =>
            {i.k : i \in ItemsOf(last)} = {"image"} \cup (IF last.i = -1 THEN {} ELSE {"column", "line"}) \cup (IF last.j = -1 THEN {} ELSE {"row", "line"})
Kinds == Kind("", "") = "dir" /\ Kind("pdf", "") = "pdf" /\ Kind("pdf", "dir") = "dir" /\ Kind("", "pdf") = "pdf"
===============================================================================
