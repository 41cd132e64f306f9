----------------------------- MODULE MCCompileIO ------------------------------
(* All runs of a small scope: every way to cut text and code into pieces, with *)
(* every fault at every point. The runs of the source and of the sink are      *)
(* replayed on the real compiler.                                              *)
EXTENDS CompileIO, TLC, Json
CONSTANTS In, Out, Tries, Emit
VARIABLES s, h
vars == <<s, h>>
Init == s \in {Start(t, In, IF t = "good" THEN Out ELSE 0) : t \in {"good", "bad", "bytes"}} /\ h = <<>>
Count(k) == Len(SelectSeq(h, LAMBDA e : e.k = k))
Events == {[k |-> "r", n |-> n] : n \in 1..In} \cup {[k |-> "w", n |-> n] : n \in 1..Out}
          \cup {[k |-> k, n |-> 0] : k \in {"r", "ri", "rf", "wi", "wz", "wf", "fl", "ff", "ok", "err"}}
Fair(ev) == /\ ev.k \in {"ri", "wi"} => Count(ev.k) < Tries
            /\ (ev.k = "r" /\ ev.n = 0) => ~\E i \in 1..Len(h) : h[i].k = "r" /\ h[i].n = 0
            \* the text's end is seen before anything is written, and the sink is flushed at the end
            /\ ev.k \in {"w", "wi", "wz", "wf", "fl", "ff", "ok"} => \E i \in 1..Len(h) : h[i].k = "r" /\ h[i].n = 0
            /\ ev.k = "err" => s.fault \/ \E i \in 1..Len(h) : h[i].k = "r" /\ h[i].n = 0
            /\ ev.k \in {"wi", "wz", "wf"} => s.put < s.out
            /\ ev.k \in {"fl", "ff"} => s.put = s.out /\ ~s.clean
            /\ s.ph = "lost" => ev.k = "err"
Next == \E ev \in Events : May(s, ev) /\ Fair(ev) /\ s' = Step(s, ev) /\ h' = Append(h, ev)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == Whole(s) /\ Nothing(s) /\ Told(s)
Ends == <>(s.ph = "done")
Emitted == (Emit /\ s.ph = "done") => PrintT("RUN " \o ToJson([text |-> s.text, h |-> h]))
===============================================================================
