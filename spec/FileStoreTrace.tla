---------------------------- MODULE FileStoreTrace ----------------------------
EXTENDS VFTrace, FileStore
MInit(t) == Store0(1, 2)
MStep(s, e) == CASE e.op = "write" -> Write(s, e.d, e.v) [] e.op = "chdir" -> Chdir(s, e.d) [] e.op = "open" -> Open(s, e.slot, e.d) [] OTHER -> s
Fail(b, name) == IF b THEN {} ELSE {name}
MFail(s, e) ==
  Fail(e.intact, "reading leaves the files as they are and adds none")
  \cup (IF e.err # "" THEN {e.op \o " succeeds"}
        ELSE CASE e.op = "rel" -> Fail(e.reply \in Fresh(s, s.cwd), "a relative name means the file in the current directory, as it is now")
               [] e.op = "abs" -> Fail(e.reply \in Fresh(s, e.d), "a new reader sees the file as it is now")
               [] e.op = "ask" -> Fail(e.reply \in Kept(s, e.slot), "a kept reader shows a content its file has had since")
               [] OTHER -> {})
=============================================================================
