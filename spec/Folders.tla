------------------------------ MODULE Folders ------------------------------
(***************************************************************************)
(* Results folders.  Between two events of a history exactly one actor     *)
(* acts (who), and every event carries the state of the disk after it:     *)
(* tree is a sequence of [f |-> folder, d |-> digest of its files without  *)
(* the logs, l |-> digest of its logs].  Folders are named by their path   *)
(* relative to the scratch directory.                                      *)
(*   "init"                                                                *)
(*   "put"    the user creates something                                   *)
(*   "pause"  who is interrupted inside the creation of its optimization   *)
(*   "create" the creation by who ends: ok, path, dir (current folder of   *)
(*            the creation), base (last component), stamp, name            *)
(*   "run"    who's optimization was executed (or a part of it): res       *)
(*            (its own results, best controls, settings are all in the     *)
(*            folder and its own), lg (own lines of the log), ev (own      *)
(*            evaluations), log (log file configured), part (not finished) *)
(*            nested (another optimization was created in between)         *)
(* out is a digest of everything outside the results folders.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

FC(name, broken) == IF broken THEN {name} ELSE {}
Set(tree) == {tree[i] : i \in 1..Len(tree)}
Names(tree) == {x.f : x \in Set(tree)}
At(tree, f) == CHOOSE x \in Set(tree) : x.f = f
Ids == 1..9

FInit(cfg) == [tree |-> <<>>, out |-> 0, own |-> [a \in Ids |-> ""], made |-> [a \in Ids |-> {}], last |-> 0]

(* folders which differ; logs: with respect to their logs as well *)
Changed(s, e, logs) ==
  {f \in Names(s.tree) \cup Names(e.tree) :
     \/ f \notin Names(s.tree) \/ f \notin Names(e.tree)
     \/ At(s.tree, f).d # At(e.tree, f).d
     \/ logs /\ At(s.tree, f).l # At(e.tree, f).l}
(* folders which who may change: its own; during the creation also new ones *)
Mine(s, e) == IF s.own[e.who] # "" THEN {s.own[e.who]}
              ELSE s.made[e.who] \cup (Names(e.tree) \ Names(s.tree))

FViol(s, e) ==
  CASE e.e = "init" -> {}
    [] e.e = "put" -> {}
    [] OTHER ->
       FC("F_foreign", \E f \in Changed(s, e, e.e # "run") : f \notin Mine(s, e))
       \cup FC("F_deleted", ~(Names(s.tree) \subseteq Names(e.tree)))
       \cup FC("F_outside", e.out # s.out)
       \cup FC("F_log_foreign", e.e = "run" /\ e.nested = 0 /\ s.last = e.who
                                /\ \E f \in Changed(s, e, TRUE) : f \notin Mine(s, e))
       \cup (IF e.e # "create" THEN {}
             ELSE IF e.ok = 0
             THEN FC("F_trace", s.made[e.who] \cup (Names(e.tree) \ Names(s.tree)) # {})
                  \cup FC("F_spurious", e.path \notin Names(e.tree))
             ELSE FC("F_shared", \E a \in Ids : a # e.who /\ s.own[a] = e.path)
                  \cup FC("F_reuse", e.path \in Names(s.tree) /\ e.path \notin s.made[e.who])
                  \cup FC("F_missing", e.path \notin Names(e.tree))
                  \cup FC("F_other", (s.made[e.who] \cup Changed(s, e, TRUE)) \ {e.path} # {})
                  \cup FC("F_name", e.base # e.stamp \o "_" \o e.name)
                  \cup FC("F_dir", e.path # e.dir \o "/QuOCS_Results/" \o e.base))
       \cup (IF e.e # "run" THEN {}
             ELSE FC("F_content", e.part = 0 /\ e.res = 0)
                  \cup FC("F_log", e.log = 1 /\ e.nested = 0 /\ s.last = e.who /\ e.part = 0 /\ e.lg < e.ev)
                  \cup FC("F_log_off", e.log = 0 /\ e.lg > 0))

FStep(s, e) ==
  LET t == [s EXCEPT !.tree = e.tree, !.out = e.out] IN
  CASE e.e = "pause" -> [t EXCEPT !.made[e.who] = @ \cup Changed(s, e, TRUE)]
    [] e.e = "create" -> IF e.ok = 1 THEN [t EXCEPT !.own[e.who] = e.path, !.last = e.who, !.made[e.who] = {}]
                         ELSE [t EXCEPT !.made[e.who] = {}, !.last = IF e.logged = 1 THEN 0 ELSE @]
    [] OTHER -> t
=============================================================================
