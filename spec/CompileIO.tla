------------------------------ MODULE CompileIO -------------------------------
(* One run of the compiler between a source of text and a sink of code, as     *)
(* compile_fbs_generic has them: the source gives the text in pieces, may be   *)
(* interrupted and may fail; the sink takes the code in pieces, may be         *)
(* interrupted, may take nothing and may fail, also when it is flushed. Code   *)
(* is written only once the whole text is there and is a valid schema, and     *)
(* success is reported only once the sink has all of it.                       *)
EXTENDS Naturals, Sequences

\* the state: in, out: lengths of the text and of the code of it
Start(text, in, out) == [text |-> text, in |-> in, out |-> out, ph |-> "read", got |-> 0, put |-> 0, clean |-> FALSE, fault |-> FALSE, res |-> "none"]
Ended(s, r) == [s EXCEPT !.ph = "done", !.res = r]
Bad(s) == s.text # "good"

\* ev: [k, n]; which events may happen
May(s, ev) ==
  CASE ev.k = "r" -> s.ph = "read" /\ ev.n <= s.in - s.got /\ (ev.n = 0 => s.got = s.in)
    [] ev.k \in {"ri", "rf"} -> s.ph = "read"
    \* the first write says that the text was read and understood
    [] ev.k = "w" -> /\ \/ s.ph \in {"lost", "write"}
                        \/ s.ph = "read" /\ s.got = s.in /\ ~Bad(s)
                     /\ ev.n > 0 /\ (ev.n <= s.out - s.put \/ s.ph = "lost")
    [] ev.k \in {"wi", "wz", "wf"} -> s.ph = "lost" \/ s.ph = "write" \/ (s.ph = "read" /\ s.got = s.in /\ ~Bad(s))
    [] ev.k \in {"fl", "ff"} -> s.ph \in {"lost", "write"} \/ (s.ph = "read" /\ s.got = s.in /\ ~Bad(s))
    [] ev.k = "ok" -> s.ph \in {"read", "write"} /\ s.got = s.in /\ ~Bad(s) /\ ~s.fault /\ s.put = s.out /\ s.clean
    [] ev.k = "err" -> s.ph # "done" /\ (s.fault \/ Bad(s))
    [] OTHER -> FALSE
Step(s, ev) ==
  CASE ev.k = "r" -> [s EXCEPT !.got = @ + ev.n]
    [] ev.k = "ri" -> s
    [] ev.k = "rf" -> [s EXCEPT !.fault = TRUE, !.ph = "stop"]
    \* a sink that failed may be tried again; it is lost all the same
    [] ev.k \in {"w", "wi", "fl"} /\ s.ph = "lost" -> s
    [] ev.k = "w" -> [s EXCEPT !.ph = "write", !.put = @ + ev.n, !.clean = FALSE]
    [] ev.k = "wi" -> [s EXCEPT !.ph = "write"]
    [] ev.k \in {"wz", "wf", "ff"} -> [s EXCEPT !.fault = TRUE, !.ph = "lost"]
    [] ev.k = "fl" -> [s EXCEPT !.ph = "write", !.clean = TRUE]
    [] ev.k \in {"ok", "err"} -> Ended(s, ev.k)

Whole(s) == s.res = "ok" => s.put = s.out /\ s.clean /\ ~s.fault /\ ~Bad(s)
Nothing(s) == (Bad(s) \/ s.got < s.in) => s.put = 0
Told(s) == s.ph = "done" => s.res = (IF s.fault \/ Bad(s) THEN "err" ELSE "ok")
===============================================================================
