------------------------------ MODULE FileStore ------------------------------
(* Files, the directory a process stands in, and readers.  Every file is named X, in directory 1 or 2; its content is *)
(* a version number.  A reader made and asked at once must answer with the content the file has now; a reader that is *)
(* kept while the file is rewritten may answer with any content the file has had since the reader was made.  Readers change   *)
(* nothing. *)
EXTENDS Integers, Sequences
Dirs == {1, 2}
Slots == 1..2
NoReader == [dir |-> 0, seen |-> {}]
Store0(v1, v2) == [content |-> <<v1, v2>>, cwd |-> 1, readers |-> [i \in Slots |-> NoReader]]
Write(s, d, v) == [s EXCEPT !.content[d] = v, !.readers = [i \in Slots |-> IF s.readers[i].dir = d THEN [s.readers[i] EXCEPT !.seen = @ \cup {v}] ELSE s.readers[i]]]
Chdir(s, d) == [s EXCEPT !.cwd = d]
Open(s, i, d) == [s EXCEPT !.readers[i] = [dir |-> d, seen |-> {s.content[d]}]]
Fresh(s, d) == {s.content[d]}
Kept(s, i) == s.readers[i].seen
=============================================================================
