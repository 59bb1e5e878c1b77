------------------------------ MODULE MC_Exec ------------------------------
(* The design of the root executor: a root future driven by run_now/schedule (flags `scheduled` and `active`, timers)
   that itself runs a queue of tasks. Every step is also a step of Exec: the design refines the rules.
   act: what happens next inside a run ("idle", "loop", "root", "task").                                  *)
EXTENDS Exec, Sequences, TLC, TLCExt, Json
CONSTANTS NT, NTimers, NActs
VARIABLES op, q, sch, act, acts, started
dvars == <<q, sch, act, acts, started>>
Tasks == 1..NT
Init == /\ ExecInit /\ op = <<"init">> /\ q = <<>> /\ sch = FALSE /\ act = "idle" /\ acts = 0 /\ started = FALSE
Add(i) == IF i \in {q[k] : k \in DOMAIN q} THEN q ELSE Append(q, i)
(* schedule(): asks for a timer unless one was asked for or a run is in progress *)
Sched == /\ sch' = TRUE
         /\ LET m == IF ~sch /\ act = "idle" THEN n + 1 ELSE n IN
            m <= NTimers
NewN == IF ~sch /\ act = "idle" THEN n + 1 ELSE n
Inside == act = "task" /\ acts < NActs
May == act = "idle" \/ Inside
Count == acts' = IF act = "idle" THEN 0 ELSE acts + 1
(* a task is queued: the executor's own future is woken if it is asleep; while it runs it may be *)
Notify == IF act = "idle" THEN Sched /\ started' = started
          ELSE started' = started /\ (UNCHANGED sch \/ sch' = TRUE)
Next ==
  \/ \E i \in Tasks \ live : May /\ Notify /\ Spawn(i, NewN) /\ q' = Add(i) /\ UNCHANGED act /\ Count /\ op' = <<"spawn", i>>
  \/ \E i \in live : /\ May /\ Wake(i, IF i \in pend THEN n ELSE NewN) /\ (IF i \in pend THEN UNCHANGED <<sch, started>> ELSE Notify)
                     /\ q' = Add(i) /\ UNCHANGED act /\ Count /\ op' = <<"wake", i>>
  \/ \E i \in live : /\ May /\ UNCHANGED <<sch, started>> /\ Cancel(i, n)
                     /\ q' = SelectSeq(q, LAMBDA x : x # i) /\ UNCHANGED act /\ Count /\ op' = <<"cancel", i>>
  \/ May /\ Sched /\ Schedule({}, NewN) /\ UNCHANGED <<q, act, started>> /\ Count /\ op' = <<"sched">>
  (* a run begins: from a timer or an event handler; nested it does nothing *)
  \/ act = "idle" /\ n > 0 /\ In("timer", n - 1) /\ act' = "loop" /\ UNCHANGED <<q, sch, acts, started>> /\ op' = <<"timer">>
  \/ act = "idle" /\ In("run", n) /\ act' = "loop" /\ UNCHANGED <<q, sch, acts, started>> /\ op' = <<"run">>
  \/ Inside /\ In("run", n) /\ act' = "nested" /\ UNCHANGED <<q, sch, started>> /\ Count /\ op' = <<"run">>
  \/ act = "nested" /\ Out(n) /\ act' = "task" /\ UNCHANGED <<q, sch, acts, started>> /\ op' = <<"->">>
  \/ act = "loop" /\ sch /\ sch' = FALSE /\ act' = "root" /\ UNCHANGED <<evars, q, acts, started>> /\ op' = <<"->">>
  \/ act = "loop" /\ ~sch /\ act' = "idle" /\ Out(n) /\ UNCHANGED <<q, sch, acts, started>> /\ op' = <<"->">>
  (* the executor's own future polls queued tasks until none is left *)
  \/ act = "root" /\ q # <<>> /\ Poll(Head(q), n) /\ q' = Tail(q) /\ act' = "task" /\ acts' = 0 /\ UNCHANGED <<sch, started>> /\ op' = <<"poll", Head(q)>>
  \/ act = "root" /\ q = <<>> /\ act' = "loop" /\ UNCHANGED <<evars, q, sch, acts, started>> /\ op' = <<"->">>
  \/ act = "task" /\ \E i \in cur, d \in BOOLEAN :
        /\ Polled(i, d, n) /\ act' = "root" /\ UNCHANGED <<sch, acts, started>>
        /\ q' = IF d THEN SelectSeq(q, LAMBDA x : x # i) ELSE q
        /\ op' = <<"polled", i, d>>
Spec == Init /\ [][Next]_<<op, evars, dvars>>
View == <<evars, dvars>>
(* the same without the rules, to see that the design never gets stuck because of one of them *)
Queued == pend = {q[k] : k \in DOMAIN q}
Runs == act = "idle" /\ pend # {} => n > 0
NotNested == Cardinality(cur) <= 1 /\ (depth = 0 <=> act = "idle")
AskedOnce == act = "idle" => asked = sch
(* no step of the design is forbidden by the rules of Exec *)
Free == /\ act = "root" => q = <<>> \/ ENABLED Poll(Head(q), n)
        /\ act = "task" => ENABLED Polled(CHOOSE i \in cur : TRUE, FALSE, n)
        /\ act = "loop" /\ ~sch => ENABLED Out(n)
Fp(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EdgeOut == PrintT("EDGE " \o ToJson(<<Fp(View), op', Fp(View')>>))
==========================================================================
