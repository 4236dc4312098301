------------------------------- MODULE ProjMC -------------------------------
(* Files of random and of all small shapes, and clients that open and close several readers on them and ask.      *)
EXTENDS Proj, TLC, Json
CONSTANTS Mode, MaxEl, MaxRows, Depth
VARIABLES phase, kind, tabs, open, hist
R(S) == RandomElement(S)
Elements == {"S", "Si", "Sn", "Se", "C", "Cl", "Co", "Cs", "Os", "O", "Mo", "H", "Hf", "N", "Na", "I", "In", "P", "Pt", "B", "Be"}
Orbs(k) == IF k = "dos" THEN {"s", "p", "d", "f"} ELSE {"3S", "4Pz", "4Px", "4Py", "4Dz2", "4Dxy", "4D(x^2-y^2)", "5S"}
Name(c) == <<c.el, c.orb>>
RndTab(i, k) ==
  LET n == R(1..MaxEl)
      els == [j \in 1..n |-> R(Elements)]
      m == R(1..(2 * MaxEl))
      cols == [j \in 1..m |-> [el |-> els[R(1..n)], orb |-> R(Orbs(k))]]
      nb == IF k = "dos" THEN 1 ELSE R(2..4)
  IN [nb |-> nb, cols |-> cols, rows |-> [j \in 1..(nb * R(1..MaxRows)) |-> [x |-> <<R(0..99999), R(-999999..999999), R(0..20000)>>, w |-> [c \in 1..m |-> R({0, R(0..30000), R(0..30000)})]]]]
(* columns may be copies of one another: equal contributions are still two contributions *)
Copy(t, d) == LET m == Len(t.cols)
                  of == [c \in 1..m |-> IF d = 0 THEN c ELSE IF d = 1 THEN 1 ELSE R(1..m)]
              IN [t EXCEPT !.rows = [j \in 1..Len(t.rows) |-> [t.rows[j] EXCEPT !.w = [c \in 1..m |-> t.rows[j].w[of[c]]]]]]
AllTabs(k) == {[nb |-> IF k = "dos" THEN 1 ELSE 2, cols |-> <<[el |-> a, orb |-> o], [el |-> b, orb |-> p]>> \o (IF c THEN <<[el |-> "Mo", orb |-> o]>> ELSE <<>>),
                rows |-> [j \in 1..2 |-> [x |-> <<j, 10 * j, 7>>, w |-> IF c THEN <<j, IF e THEN j ELSE 100 * j, 3>> ELSE <<j, IF e THEN j ELSE 100>>]]]
               : a, b \in {"S", "Si", "Cs", "Os"}, o, p \in Orbs(k) \cap {"s", "p", "3S", "4Pz", "4Dxy", "4D(x^2-y^2)"}, c \in BOOLEAN, e \in BOOLEAN}
(* column names distinct in fat-band files (the reader's table needs unique names); DOS files may repeat one *)
OK(t, k) == k = "dos" \/ \A i, j \in 1..Len(t.cols) : i # j => Name(t.cols[i]) # Name(t.cols[j])
Slots == 1..3
Init == phase = "pick" /\ kind = "dos" /\ tabs = <<>> /\ open = [i \in Slots |-> 0] /\ hist = <<>>
Pick == /\ phase = "pick" /\ UNCHANGED <<open, hist>>
        /\ \E k \in (IF Mode = "all" THEN {"dos", "fat"} ELSE {R({"dos", "fat"})}) : kind' = k
             /\ IF Mode = "all" THEN \E t \in AllTabs(k) : OK(t, k) /\ tabs' = <<t>>
                ELSE \E t \in {Copy(RndTab(1, k), R(0..2))}, u \in {Copy(RndTab(2, k), R(0..2))} : OK(t, k) /\ OK(u, k) /\ tabs' = <<t, u>>
        /\ phase' = "use"
Retry == Mode = "random" /\ phase = "pick" /\ UNCHANGED <<phase, kind, tabs, open, hist>>
Kinds == IF kind = "dos" THEN {"tdos", "elements", "orbitals"} ELSE {"shape", "total", "elements", "orbital"}
Use == /\ phase = "use" /\ Len(hist) < Depth /\ UNCHANGED <<phase, kind, tabs>>
       /\ \E i \in (IF Mode = "all" THEN {1} ELSE {R(Slots)}) :
            IF open[i] = 0
              THEN \E p \in {R(1..Len(tabs))} : open' = [open EXCEPT ![i] = p] /\ hist' = Append(hist, [op |-> "open", slot |-> i, tab |-> p, col |-> 0, case |-> 0])
              ELSE IF Mode = "random" /\ R(1..5) = 1
                THEN open' = [open EXCEPT ![i] = 0] /\ hist' = Append(hist, [op |-> "close", slot |-> i, tab |-> open[i], col |-> 0, case |-> 0])
                ELSE open' = open /\ \E q \in (IF Mode = "all" THEN Kinds ELSE {R(Kinds)}), c \in {R(1..Len(tabs[open[i]].cols))}, lc \in {R(0..2)} :
                       hist' = Append(hist, [op |-> q, slot |-> i, tab |-> open[i], col |-> c, case |-> lc])
Finish == phase = "use" /\ Len(hist) = Depth /\ phase' = "done" /\ UNCHANGED <<kind, tabs, open, hist>>
Next == Pick \/ Retry \/ Use \/ Finish
Theorems == phase = "use" /\ hist = <<>> => \A i \in 1..Len(tabs) : Complete(tabs[i])
PrintCase == phase = "done" => PrintT("VFCASE " \o ToJson([kind |-> kind, tabs |-> tabs, hist |-> hist]))
=============================================================================
