---------------------------- MODULE CollectionTrace ----------------------------
EXTENDS VFTrace, Collection
MInit(t) == [fr |-> t.init, cols |-> <<[k \in 1..Len(t.init) |-> k]>>, dirs |-> [d \in 1..2 |-> NoDir]]
MStep(s, e) == IF e.op \in {"to", "save"} THEN [s EXCEPT !.dirs[e.d] = Stored(s.dirs[e.d], s.cols, e)]
               ELSE [s EXCEPT !.cols = @ \o Derived(s.cols, e)]
Fail(b, name) == IF b THEN {} ELSE {name}
L(s, k) == s.fr[k].lines
(* an observed collection against the frames it should hold *)
AboutFail(s, c, o) ==
  LET z == ReadZ(L(s, c[1])) IN
  Fail(o.n = Len(c) /\ o.len = Len(c) /\ Len(o.frames) = Len(c), "a collection has as many frames as it was made of")
  \cup (IF Len(o.frames) # Len(c) THEN {} ELSE
  Fail(\A k \in 1..Len(c) : o.frames[k].lat = ReadLattice(L(s, c[k])) /\ o.frames[k].z = ReadZ(L(s, c[k])) /\ o.frames[k].f = ReadF(L(s, c[k])), "the frames, in the order asked for")
  \cup Fail(\A k \in 1..Len(c) : o.force[k] = Flat3(ReadForce(L(s, c[k]))) /\ o.eatom[k] = Eatom(L(s, c[k])), "each frame keeps its atoms' forces and energies"))
  \cup Fail(o.en = [k \in 1..Len(c) |-> s.fr[c[k]].e], "each frame keeps its energies")
  \cup Fail(o.vir = IF OfferStress(s.fr) THEN [k \in 1..Len(c) |-> Stress(L(s, c[k]))] ELSE <<>>, "each frame keeps its virial")
  \cup Fail(o.natoms = Len(z) /\ o.els = Firsts(z) /\ o.num = [i \in 1..Len(Firsts(z)) |-> NumOf(z, Firsts(z)[i])], "the elements and their numbers of atoms")
Opt(got, want, needed) == IF needed THEN got = want ELSE (got = <<>> \/ got = want)
SetFail(s, all, ss, j, o) ==
  LET c == ss[j] IN
  Fail(o.name = SetName(j), "the sets are numbered from 000")
  \cup Fail(o.box = [k \in 1..Len(c) |-> Flat3(ReadLattice(L(s, c[k])))] /\ o.coord = [k \in 1..Len(c) |-> Flat3(GridSt(L(s, c[k])).pos)]
            /\ o.energy = [k \in 1..Len(c) |-> <<s.fr[c[k]].e[1]>>] /\ o.force = [k \in 1..Len(c) |-> Flat3(ReadForce(L(s, c[k])))], "a set holds its frames: cell, positions, total energy, forces")
  \cup Fail(o.virial = IF Some([k \in 1..Len(all) |-> Stress(L(s, all[k]))]) THEN [k \in 1..Len(c) |-> Stress(L(s, c[k]))] ELSE <<>>, "virials are stored where the trajectory has them")
  \cup Fail(o.eatom = IF Some([k \in 1..Len(all) |-> Eatom(L(s, all[k]))]) THEN [k \in 1..Len(c) |-> Eatom(L(s, c[k]))] ELSE <<>>, "atomic energies are stored where the trajectory has them")
Tie(g, scale) == \E i \in 1..Len(g.pos) : \E x \in PS!PyNbrs(g, scale, 520, i) : C!Norm2(x[2]) = 67600
ImgFail(s, w, o) ==
  LET l == L(s, w.f)
      g == GridSt(l)
  IN Fail(o.lines # <<>> /\ WellFormed(o.lines) /\ Read(o.lines) = Read(l), "an image's atom.config reads as its frame")
  \cup Fail(o.box = Flat3(ReadLattice(l)) /\ o.coord = Flat3(g.pos) /\ o.energy = s.fr[w.f].e /\ o.force = Flat3(ReadForce(l)), "an image holds cell, positions, energies, forces")
  \cup Fail(Opt(o.eatom, Eatom(l), Has(l, "energy")) /\ Opt(o.virial, Stress(l), HasStress(l)), "an image holds its atomic energies and virial where there are any")
  \cup Fail(o.els = Firsts(ReadZ(l)), "an image names its elements")
  \cup (IF Tie(g, w.scale) THEN {} ELSE PS!FailPyNbr(g, [scale |-> w.scale, rch |-> 520, z |-> o.nz, xyz |-> o.nxyz, d2 |-> o.nd2, err |-> ""]))
DirFail(s, d, o) ==
  LET all == Joined(d.sets)
      z == ReadZ(L(s, 1))
      fs == Firsts(z)
      names == {o.imgs[j].name : j \in 1..Len(o.imgs)}
  IN Fail(Len(o.sets) = Len(d.sets), "the frames are cut into sets of the size asked for, the rest in the last")
  \cup (IF Len(o.sets) # Len(d.sets) THEN {} ELSE UNION {SetFail(s, all, d.sets, j, o.sets[j]) : j \in 1..Len(d.sets)})
  \cup Fail(IF d.sets = <<>> THEN o.tm = <<>> /\ o.ty = <<>> ELSE o.tm = fs /\ o.ty = [i \in 1..Len(z) |-> Place(fs, z[i]) - 1], "type.raw numbers the atoms' elements as type_map.raw lists them")
  \cup Fail(names = {w.name : w \in d.imgs} /\ Len(o.imgs) = Cardinality(names) /\ o.other = 0, "the directory holds what was stored in it last, and nothing else")
  \cup UNION {IF \E w \in d.imgs : w.name = o.imgs[j].name THEN ImgFail(s, CHOOSE w \in d.imgs : w.name = o.imgs[j].name, o.imgs[j]) ELSE {} : j \in 1..Len(o.imgs)}
MFail(s, e) ==
  LET new == Derived(s.cols, e)
      c == s.cols[e.c]
      z == ReadZ(L(s, c[1]))
  IN CASE e.op = "slice" -> IF new = <<>> THEN {} ELSE IF e.err # "" THEN {"a part of a collection is a collection"} ELSE AboutFail(s, new[1], e.about)
       [] e.op \in {"item", "pick"} -> IF new = <<>> THEN Fail(e.err # "", "an index the collection does not have is refused")
                                       ELSE IF e.err # "" THEN {"a part of a collection is a collection"} ELSE AboutFail(s, new[1], e.about)
       [] e.err # "" -> {e.op \o " succeeds"}
       [] e.op = "about" -> AboutFail(s, c, e.about)
       [] e.op = "show" -> Fail(e.shown = [n |-> Len(c), natoms |-> Len(z), vir |-> Some([k \in 1..Len(c) |-> Stress(L(s, c[k]))]), els |-> Firsts(z), num |-> [i \in 1..Len(Firsts(z)) |-> NumOf(z, Firsts(z)[i])]], "the summary says what the collection holds")
       [] e.op \in {"to", "save"} -> DirFail(s, Stored(s.dirs[e.d], s.cols, e), e.dir)
       [] e.op = "nbrs" -> Fail(e.reply = MaxNbrs(s.fr, c, e), "the largest neighbour count over the frames")
       [] e.op = "elnbrs" -> Fail(\A j \in 1..Len(e.els) : e.reply[j] = MaxNbrsOf(s.fr, c, e, e.els[j]), "the largest neighbour count per element over the frames")
=============================================================================
