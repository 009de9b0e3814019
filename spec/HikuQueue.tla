------------------------------ MODULE HikuQueue -------------------------------
(***************************************************************************)
(* The work queue under every executor: task sets, forks, futures and      *)
(* callbacks.  A program is [main: Seq(op), body: callback -> Seq(op)]     *)
(* with ops  [op: "fork", id, at]  new task set `id` forked from `at`      *)
(*           [op: "submit", id, at] new future `id` in task set `at`       *)
(*           [op: "cb", id, at]    callback `id` on task set or future `at`*)
(* at = "" in a fork means no parent.                                      *)
(*                                                                         *)
(* Rules the queue has to keep:                                            *)
(*  - a callback of a future runs once, in the progress the future is done *)
(*  - a task set is complete when all its futures are done, their          *)
(*    callbacks have run, and all its forks are complete including their   *)
(*    callbacks; then its callbacks run, once, in the same progress        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt


Empty == [live |-> {}, futs |-> {}, owner |-> <<>>, parent |-> <<>>, reg |-> {}, due |-> {},
          busy |-> FALSE]

Apply(q, op) ==
  CASE op.op = "fork" -> [q EXCEPT !.live = @ \cup {op.id},
                                   !.parent = (op.id :> op.at) @@ @]
    [] op.op = "submit" -> [q EXCEPT !.futs = @ \cup {op.id},
                                     !.owner = (op.id :> op.at) @@ @]
    [] op.op = "cb" -> [q EXCEPT !.reg = @ \cup {<<op.id, op.at>>}]

ApplyAll(q, ops) == FoldLeft(Apply, q, ops)

Begin(prog) == ApplyAll(Empty, prog.main)

\* the executor reports finished futures
Progress(q, done) == [q EXCEPT !.futs = @ \ done,
                               !.due = {r \in q.reg : r[2] \in done},
                               !.reg = {r \in q.reg : r[2] \notin done},
                               !.busy = TRUE]

\* nothing of task set t is left to do
Idle(q, t) == /\ t \in q.live
              /\ \A f \in q.futs : q.owner[f] # t
              /\ \A k \in q.live : q.parent[k] # t
              /\ \A r \in q.due : r[2] \in DOMAIN q.owner => q.owner[r[2]] # t

SetCallbacks(q, t) == {r \in q.reg : r[2] = t}

Fireable(q) == q.due \cup UNION {SetCallbacks(q, t) : t \in {x \in q.live : Idle(q, x)}}

\* a callback runs: it is removed and its operations take effect.  The task
\* set of a fired callback stays in the way of its parent until complete.
Fire(q, r, prog) ==
  ApplyAll([q EXCEPT !.due = @ \ {r}, !.reg = @ \ {r}],
           IF r[1] \in DOMAIN prog.body THEN prog.body[r[1]] ELSE <<>>)

\* idle task sets without callbacks left become complete
RECURSIVE Collect(_)
Collect(q) ==
  LET dead == {t \in q.live : Idle(q, t) /\ SetCallbacks(q, t) = {}} IN
  IF dead = {} THEN q ELSE Collect([q EXCEPT !.live = @ \ dead])

Settled(q) == q.due = {} /\ Fireable(q) = {}
=============================================================================
