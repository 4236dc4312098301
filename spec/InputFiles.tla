------------------------------ MODULE InputFiles ------------------------------
(***************************************************************************)
(* Input files for other programs: gen.vext and DOS.input for PWmat, job   *)
(* scripts for slurm.  A file is what its reader makes of it: assignments  *)
(* key -> values (gen.vext, #SBATCH options) or rows of numbers            *)
(* (DOS.input).  Numbers are decimals <<m, k>> = m / 10^k without trailing  *)
(* zeros.  Writing replaces a file.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Dec(_, _)
Dec(m, k) == IF m = 0 THEN <<0, 0>> ELSE IF m % 10 = 0 THEN Dec(m \div 10, k - 1) ELSE <<m, k>>
N(m) == Dec(m, 0)
Decs(q) == [i \in 1..Len(q) |-> Dec(q[i][1], q[i][2])]
NumDetail == <<3, 6, 2>>
(* what the program reading the file will find *)
Contents(o) ==
  CASE o.kind = "vext" -> [set |-> {<<"VR_CENTER", Decs(o.center)>>, <<"VR_TYPE", <<N(o.type)>>>>, <<"VR_DETAIL", Decs(o.detail)>>}, flags |-> {<<"ADD_VR", IF o.add THEN "T" ELSE "F">>}, n |-> 4]
    [] o.kind = "dos" -> [rows |-> <<<<N(o.atoms)>>, <<N(o.method)>>, <<Dec(o.smear, 5), N(o.num)>>, [i \in 1..3 |-> N(o.grid[i])], <<N(0)>>>>]
    [] o.kind = "job" -> [set |-> {<<"partition", o.partition>>, <<"job-name", o.name>>, <<"nodes", ToString(o.nodes)>>, <<"ntasks-per-node", ToString(o.tasks)>>,
                                   <<"threads-per-core", ToString(o.threads)>>, <<"gres", "gpu:" \o ToString(o.gpus)>>, <<"gpus-per-task", ToString(o.pertask)>>}, n |-> 7]
LegalVext(o) == o.type \in 1..3 /\ Len(o.detail) = NumDetail[o.type]
=============================================================================
