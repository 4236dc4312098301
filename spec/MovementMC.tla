------------------------------ MODULE MovementMC ------------------------------
(* Trajectories with every combination of optional sections, and clients that ask for frames in any order. *)
EXTENDS Movement, TLC, Json
CONSTANTS Mode, MaxAtoms, MaxFrames, Depth, Grid
VARIABLES phase, opts, zs, frames, hist
R(S) == RandomElement(S)
B(i) == IF Mode = "all" THEN BOOLEAN ELSE {R(BOOLEAN)}
RL(i) == IF Grid THEN 1000 * R(-8..8) ELSE R({0, R(-29999..29999)})
RD(i) == IF Grid THEN 1000 * R(25..60) ELSE R(60000..999999)
RF(i) == IF Grid THEN 250000 * R(0..3) ELSE R({0, 999999, -1, R(-1000000..2000000), R(0..999999), R(0..999999)})
RE(i) == R(-200000000..200000000)
(* one lattice in twelve has its first vector turned around, one its last two exchanged *)
Some(c, k) == CASE k = 1 -> << <<-c[1][1], -c[1][2], -c[1][3]>>, c[2], c[3] >> [] k = 2 -> <<c[1], c[3], c[2]>> [] OTHER -> c
Lat(i) == IF Mode = "all" THEN << <<100000 + i, 0, 0>>, <<-5000, 123456, i>>, <<0, 7, 200000>> >>
          ELSE Some(<< <<RD(i), RL(i), RL(i)>>, <<RL(i), RD(i), RL(i)>>, <<RL(i), RL(i), RD(i)>> >>, R(1..12))
V3(i) == IF Mode = "all" THEN <<i, -i, 10 * i>> ELSE <<R(-9999999..9999999), R(-999..999), R(-9999999..9999999)>>
(* the numbers of some sections vanish, all or here and there, or are negative, or cancel *)
Abs(x) == IF x < 0 THEN -x ELSE x
Shade(m, i, v) == CASE m = 1 -> <<0, 0, 0>>
                    [] m = 2 -> [c \in 1..3 |-> -Abs(v[c]) - 1]
                    [] m = 3 -> IF R(1..2) = 1 THEN <<0, 0, 0>> ELSE v
                    [] m = 4 -> IF i % 2 = 1 THEN <<4500, 30, 7>> ELSE <<-4500, -30, -7>>
                    [] m = 5 -> [c \in 1..3 |-> IF R(1..3) = 1 THEN 0 ELSE v[c]]
                    [] OTHER -> v
Sec(title, n, row(_)) == <<Title(title)>> \o [i \in 1..n |-> row(i)]
(* in mode mixed every frame has its own elements; now and then a frame repeats an earlier one *)
MkFrame(k) ==
  LET n == Len(zs)
      el == IF Mode = "mixed" THEN [i \in 1..n |-> zs[R(1..n)]] ELSE zs
      pos == IF Mode = "all" THEN [i \in 1..n |-> <<100000 * k + i, 1, 999999>>] ELSE [i \in 1..n |-> <<RF(i), RF(i), RF(i)>>]
      lat == Lat(k)
      sh == [j \in 1..3 |-> IF opts.shade = 9 THEN R(1..7) ELSE opts.shade]
  IN [e |-> IF Mode = "all" THEN <<-1000 * k, -1000 * k - 7, 7>> ELSE <<RE(1), RE(2), R({0, R(0..9999999)})>>, it |-> k,
      lines |-> <<[k |-> "count", n |-> n], Title("lattice")>>
        \o [r \in 1..3 |-> Row(0, lat[r] \o (IF opts.stress THEN Shade(sh[1], r, V3(r)) ELSE <<>>))]
        \o Sec("position", n, LAMBDA i : Row(el[i], pos[i]))
        \o (IF opts.force THEN Sec("force", n, LAMBDA i : Row(el[i], Shade(sh[2], i, V3(i + k)))) ELSE <<>>)
        \o (IF opts.velo \/ (opts.late /\ k > 1) THEN Sec("velocity", n, LAMBDA i : Row(el[i], V3(i))) ELSE <<>>)
        \o (IF opts.eatom THEN Sec("energy", n, LAMBDA i : Row(el[i], Shade(sh[3], i, V3(i + 5 * k)))) ELSE <<>>)
        \o (IF opts.mag THEN Sec("magnetic", n, LAMBDA i : Row(el[i], <<IF Mode = "all" THEN i - k ELSE R(-999..999)>>)) ELSE <<>>)]
Init == phase = "opts" /\ opts = [stress |-> FALSE, force |-> FALSE, velo |-> FALSE, late |-> FALSE, eatom |-> FALSE, mag |-> FALSE, scf |-> TRUE, shade |-> 0] /\ zs = <<>> /\ frames = <<>> /\ hist = <<>>
PickOpts == /\ phase = "opts" /\ phase' = "frames"
            /\ \E a \in B(1), b \in B(2), v \in (IF Mode = "all" THEN {FALSE} ELSE B(3)), d \in B(4), g \in B(5), h \in B(6), s \in B(7) :
                 opts' = [stress |-> a, force |-> b, velo |-> v, late |-> d, eatom |-> g, mag |-> h, scf |-> s, shade |-> IF Mode = "all" THEN 0 ELSE IF R(1..2) = 1 THEN 0 ELSE R({1, 2, 3, 4, 5, 9})]
            /\ \E n \in (IF Mode = "all" THEN {2} ELSE {R(1..MaxAtoms)}) : zs' = [i \in 1..n |-> IF Mode = "all" THEN 40 + i ELSE R({1, 3, 8, 14, 16, 79, 118, R(1..118)})]
            /\ UNCHANGED <<frames, hist>>
Apart(f) == LET p == ReadF(f.lines) IN \A i, j \in 1..Len(p) : i # j => p[i] # p[j]
AddFrame == /\ phase = "frames" /\ Len(frames) < MaxFrames /\ \E f \in {IF Mode # "all" /\ frames # <<>> /\ R(1..7) = 1 THEN [frames[R(1..Len(frames))] EXCEPT !.it = Len(frames) + 1] ELSE MkFrame(Len(frames) + 1)} : Apart(f) /\ frames' = Append(frames, f)
            /\ phase' = (IF Mode = "all" /\ Len(frames) + 1 < MaxFrames THEN "frames" ELSE IF Mode # "all" /\ Len(frames) + 1 < MaxFrames /\ R(1..MaxFrames) > Len(frames) + 1 THEN "frames" ELSE "ask")
            /\ UNCHANGED <<opts, zs, hist>>
Kinds == {"all", "labels", "count", "frame", "str", "m_all", "m_info", "m_frame", "m_energy", "m_virial"} \cup (IF Grid THEN {"m_volume", "m_nbrs"} ELSE {})
Ask == /\ phase = "ask" /\ Len(hist) < Depth
       /\ \E kd \in (IF Mode = "all" THEN {"all", "labels", "frame", "m_info", "m_energy", "m_virial"} ELSE {R(Kinds)}), k \in {R(1..Len(frames))}, rc \in {R(61..199)} :
            hist' = Append(hist, [op |-> kd, k |-> k, rch |-> 2 * rc + 1, scale |-> <<R({1, 3}), R({1, 3}), R({1, 3})>>])
       /\ UNCHANGED <<phase, opts, zs, frames>>
Finish == phase = "ask" /\ Len(hist) = Depth /\ phase' = "done" /\ UNCHANGED <<opts, zs, frames, hist>>
Retry == Mode # "all" /\ phase = "frames" /\ UNCHANGED <<phase, opts, zs, frames, hist>>
Next == Retry \/ PickOpts \/ AddFrame \/ Ask \/ Finish
Formed == phase = "done" => Homogeneous(frames) /\ (\A k \in 1..Len(frames) : WellFormed(frames[k].lines)) /\ (Grid => OnGrid(frames))
PrintCase == phase = "done" => PrintT("VFCASE " \o ToJson([opts |-> opts, frames |-> frames, hist |-> hist]))
=============================================================================
