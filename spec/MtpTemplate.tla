----------------------------- MODULE MtpTemplate -----------------------------
(***************************************************************************)
(* The .almtp template of a moment tensor potential: ten header lines and  *)
(* seven named fields in a fixed order.  A reader takes the fields one by  *)
(* one; it ends with the contents or with an error, never with less.       *)
(* The contents are a little program: basic moments 0..nb-1, then products *)
(* (i, j, m, k), adding m times moments i and j to moment k, and the list  *)
(* of the moments that are the potential's scalar basis functions.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Fields == <<"alpha_moments_count", "alpha_index_basic_count", "alpha_index_basic", "alpha_index_times_count", "alpha_index_times",
            "alpha_scalar_moments", "alpha_moment_mapping">>
Lists == {3, 5, 7}
None == [kind |-> "none", field |-> 0]
\* what may be wrong with a file: absent; the name of a field misspelt; cut off before, or inside the value of, a field; a list shorter than its count
Size(c, f) == IF f = 3 THEN Len(c.basic) ELSE IF f = 5 THEN Len(c.times) ELSE Len(c.map)
Damages(c) == {None, [kind |-> "absent", field |-> 1]} \cup {[kind |-> k, field |-> f] : k \in {"name", "cut", "cutin"}, f \in 1..7}
              \cup {[kind |-> "short", field |-> f] : f \in {g \in Lists : Size(c, g) > 0}}
\* the field at which a reader notices; an empty list has no inside to be cut
Notices(c, d) == IF d.kind = "none" THEN 0 ELSE IF d.kind = "cutin" /\ d.field \in Lists /\ Size(c, d.field) = 0 THEN (IF d.field = 7 THEN 0 ELSE d.field + 1) ELSE d.field
\* well-formedness of the program, and the level of each moment
BasicLevel(b) == 2 + 4 * b[1] + b[2] + b[3] + b[4]
Lasts(c) == [k \in 0..(c.nm - 1) |-> LET s == {n \in 1..Len(c.times) : c.times[n][4] = k} IN IF s = {} THEN 0 ELSE CHOOSE n \in s : \A m \in s : m <= n]
Runs(c) == LET last == Lasts(c) IN
           \A n \in 1..Len(c.times) : LET t == c.times[n] IN /\ t[1] \in 0..(c.nm - 1) /\ t[2] \in 0..(c.nm - 1) /\ t[4] \in Len(c.basic)..(c.nm - 1)
                                       /\ \A a \in {t[1], t[2]} : IF a < Len(c.basic) THEN TRUE ELSE last[a] # 0 /\ last[a] < n
Names(c) == /\ Cardinality({c.basic[n] : n \in 1..Len(c.basic)}) = Len(c.basic)
            /\ Cardinality({c.map[n] : n \in 1..Len(c.map)}) = Len(c.map) /\ \A n \in 1..Len(c.map) : c.map[n] \in 0..(c.nm - 1)
=============================================================================
