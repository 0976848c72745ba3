----------------------------- MODULE FoldersMC -----------------------------
(* Design model of the creation of results folders: P processes, each of which wants one of K names, look whether the folder
   is there, make it (an atomic operation which fails if it is there), write into it, and run; they may be interrupted
   between any two steps.  Every step emits the event of Folders; Sound says that Folders has nothing against any of them. *)
EXTENDS Folders, TLC
CONSTANTS P, K
VARIABLES pc, want, disk, s, bad, refused
vars == <<pc, want, disk, s, bad, refused>>
Proc == 1..P
NameOf(k) == <<"d/QuOCS_Results/0_a", "d/QuOCS_Results/0_b", "d/QuOCS_Results/0_c">>[k]
Base(k) == <<"a", "b", "c">>[k]
Tree(d) == SelectSeq([i \in 1..K |-> [f |-> NameOf(i), d |-> d[i], l |-> 0]], LAMBDA x : x.d > 0)
Ev(e, p, d, ok) == [e |-> e, who |-> p, tree |-> Tree(d), out |-> 0, ok |-> ok, path |-> NameOf(want[p]), dir |-> "d",
                    base |-> "0_" \o Base(want[p]), stamp |-> "0", name |-> Base(want[p]), logged |-> 0, res |-> 1, lg |-> 0,
                    ev |-> 0, log |-> 0, part |-> 0, nested |-> 0]
Init == /\ pc = [p \in Proc |-> "look"] /\ want \in [Proc -> 1..K] /\ disk = [k \in 1..K |-> 0]
        /\ s = [FInit(0) EXCEPT !.tree = Tree([k \in 1..K |-> 0])] /\ bad = {} /\ refused = {}
Emit(e) == /\ bad' = bad \cup FViol(s, e) /\ s' = FStep(s, e)
Refuse(p) == /\ pc' = [pc EXCEPT ![p] = "refused"] /\ refused' = refused \cup {p} /\ disk' = disk
             /\ Emit(Ev("create", p, disk, 0))
Look(p) == /\ pc[p] = "look" /\ want' = want
           /\ IF disk[want[p]] > 0 THEN Refuse(p)
              ELSE /\ pc' = [pc EXCEPT ![p] = "make"] /\ disk' = disk /\ refused' = refused
                   /\ Emit(Ev("pause", p, disk, 1))
Make(p) == /\ pc[p] = "make" /\ want' = want
           /\ IF disk[want[p]] > 0 THEN Refuse(p)
              ELSE /\ disk' = [disk EXCEPT ![want[p]] = 100 * p] /\ pc' = [pc EXCEPT ![p] = "write"] /\ refused' = refused
                   /\ Emit(Ev("pause", p, disk', 1))
Write(p) == /\ pc[p] = "write" /\ want' = want /\ refused' = refused
            /\ disk' = [disk EXCEPT ![want[p]] = @ + 1] /\ pc' = [pc EXCEPT ![p] = "run"] /\ Emit(Ev("create", p, disk', 1))
Run(p) == /\ pc[p] = "run" /\ want' = want /\ refused' = refused
          /\ disk' = [disk EXCEPT ![want[p]] = @ + 1] /\ pc' = [pc EXCEPT ![p] = "done"] /\ Emit(Ev("run", p, disk', 1))
Next == \E p \in Proc : Look(p) \/ Make(p) \/ Write(p) \/ Run(p)
Spec == Init /\ [][Next]_vars
Sound == bad = {}
Exclusive == \A p, q \in Proc : p # q /\ want[p] = want[q] => ~({pc[p], pc[q]} \subseteq {"write", "run", "done"})
NoTrace == \A p \in refused : s.own[p] = ""
(* what a process has written stays *)
Kept == \A p \in Proc : pc[p] \in {"run", "done"} => disk[want[p]] \div 100 = p
=============================================================================
