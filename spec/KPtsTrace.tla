------------------------------ MODULE KPtsTrace ------------------------------
EXTENDS VFTrace, KPts
MInit(t) == t.init
MStep(s, e) == s
Fail(b, name) == IF b THEN {} ELSE {name}
Pick(ks, F(_)) == [i \in 1..Len(ks) |-> F(ks[i])]
Six(v) == [i \in 1..3 |-> 6 * v[i]]
(* a printed or stored coordinate (in 1E-6) against one in sixths *)
Near(p, v) == \A i \in 1..3 : Abs(6 * p[i] - 1000000 * v[i]) <= 6
MFail(x, e) ==
  IF e.err # "" THEN {e.op \o " succeeds"} ELSE
  CASE e.op = "count" -> Fail(e.reply = Len(x.ks), "every k-point is counted") \cup Fail(e.mode = <<2, 0>>, "the second line is read: reciprocal cell, no unit")
    [] e.op = "frac" -> Fail(e.reply = Pick(x.ks, LAMBDA k : k.c), "fractional coordinates in file order")
    [] e.op = "weights" -> Fail(e.reply = Pick(x.ks, LAMBDA k : k.w), "weights in file order")
    [] e.op = "hsp" -> Fail(e.names = Pick(Hsp(x.ks), LAMBDA k : k.lab) /\ e.reply = Pick(Hsp(x.ks), LAMBDA k : k.c), "the labelled points, in file order")
    [] e.op = "cart" -> Fail(e.reply = Pick(x.ks, LAMBDA k : KCart(k.c, x.cell)), "reciprocal coordinates (1/angstrom)")
    [] e.op = "cartb" -> Fail(e.reply = Pick(x.ks, LAMBDA k : KCart(k.c, x.cell)), "reciprocal coordinates (1/bohr)")
    [] e.op \in {"axis", "axisb"} -> Fail(e.reply = [i \in 1..Len(x.ks) |-> Advance2(x.ks, x.cell, i)] /\ e.rising, "the plot axis advances by the distances along each path and stands still across jumps")
    [] e.op = "points" -> Fail({p.n : p \in SeqSet(e.reply)} = Names(x.fam, x.dim) /\ Len(e.reply) = Cardinality(Names(x.fam, x.dim))
                               /\ \A p \in SeqSet(e.reply) : Near(p.c, Pts(x.fam)[p.n]), "the points of high symmetry of the lattice and dimension")
    [] e.op = "paths" -> Fail(e.reply = Paths(x.fam, x.dim), "the paths of the lattice and dimension")
    [] e.op = "highk" -> Fail({p.n : p \in SeqSet(e.reply)} = Names(x.fam, x.dim) /\ Len(e.reply) = Cardinality(Names(x.fam, x.dim))
                               /\ \A p \in SeqSet(e.reply) : Near(p.c, Pts(x.fam)[p.n]), "HIGHK lists every point once")
    [] e.op = "gen" -> LET sg == Segments(x.fam, x.dim) IN
                       Fail([i \in 1..Len(e.reply) |-> <<e.reply[i].p.n, e.reply[i].q.n>>] = sg
                            /\ \A i \in 1..Len(e.reply) : Near(e.reply[i].p.c, Pts(x.fam)[e.reply[i].p.n]) /\ Near(e.reply[i].q.c, Pts(x.fam)[e.reply[i].q.n]),
                            "gen.kpt lists every segment of every path, in order")
                       \cup Fail(Len(e.reply) = Len(sg) => \A i \in 1..Len(sg) : PointsOK(x, sg[i], e.reply[i].num), "as many points as the segment's length over the density, rounded up")
    [] e.op = "mesh" -> Fail(Len(e.reply) = 3 /\ \A i \in 1..3 : MeshOK(x, i, e.reply[i]), "the mesh of the requested density")
    [] e.op = "irr" -> Fail(Len(e.reply) = Irr(x.mesh, x.shift) /\ SumSeq(e.reply) = x.mesh[1] * x.mesh[2] * x.mesh[3], "irreducible points, their weights adding up to the mesh")
    [] e.op = "nirr" -> Fail(e.reply = Irr(x.mesh, x.shift), "the number of irreducible points")
=============================================================================
