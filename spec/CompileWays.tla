----------------------------- MODULE CompileWays ------------------------------
(* The ways to run the compiler (as a library from a path or between streams,  *)
(* from the command line), the situations it may be run in, and what comes of  *)
(* it: the same code in every way, formatted or not, or an error and no code.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Mode     \* "ways", "names": print all cases; "trace", "placed": judge a log

Ways == {[kind |-> "generic", ugly |-> u, in |-> "file", out |-> "file"] : u \in BOOLEAN}
        \cup {[kind |-> "path", ugly |-> FALSE, in |-> "file", out |-> "file"]}
        \cup {[kind |-> "cli", ugly |-> u, in |-> "file", out |-> o] : u \in BOOLEAN, o \in {"file", "stdout"}}
        \cup {[kind |-> "cli", ugly |-> u, in |-> "stdin", out |-> "stdout"] : u \in BOOLEAN}
Texts == {"good", "other", "large", "bad", "bytes"}   \* large: its code is more than a pipe holds
Ins == {"there", "missing", "dir"}
Outs == {"new", "old", "full", "nodir"}
Tools == {"real", "missing", "fails", "half", "stops"}   \* stops: takes a part of the code, and says all is well
Situations == [text : Texts, inp : Ins, outp : Outs, fmt : Tools]
Makes(w, x) ==
  /\ w.in = "stdin" => x.inp = "there"
  /\ w.out = "stdout" => x.outp \in {"new", "full"}
  /\ w.kind = "path" => x.outp # "full"       \* it names its output itself
  \* one thing wrong at a time
  /\ Cardinality({k \in {"text", "inp", "outp", "fmt"} : x[k] \notin {"good", "other", "large", "there", "new", "old", "real"}}) <= 1
  /\ x.text = "other" => x.fmt = "real"
  /\ (x.text = "large") = (x.fmt = "stops")
Succeeds(w, x) == /\ x.text \in {"good", "other", "large"} /\ x.inp = "there" /\ x.outp \in {"new", "old"}
                  /\ w.ugly \/ x.fmt = "real"
\* what the place of the output holds then; "none": nothing is there
Holds(w, x, code, pretty, out) ==
  IF Succeeds(w, x) THEN out = (IF w.ugly THEN code ELSE pretty)
  ELSE (x.outp = "old" /\ out = "old") \/ out \in {"", "none"}

(* Where the code of a schema file goes, when only its path is given: into the  *)
(* output directory, under the file's own name with its last extension, if it  *)
(* has one, made "rs", and nowhere else. A name is a sequence of the parts that *)
(* dots divide.                                                                 *)
Words == {"a", "b2", "fbs", "rs", "two words", "Caf_"}
Exts == {"fbs", "txt", "rs", "v1"}
Names == {<<a>> : a \in Words} \cup {<<a, e>> : a \in Words, e \in Exts}
         \cup {<<a, b, e>> : a \in Words, b \in Words \cup Exts, e \in Exts}
         \cup {<<a, b, c, "fbs">> : a \in Words, b \in Exts, c \in Words}
Wheres == {"bare", "below", "dot", "up", "absolute"}     \* how the path leads to the file
OutDirs == {"plain", "dotted", "relative"}
Place(parts) == (IF Len(parts) = 1 THEN parts ELSE SubSeq(parts, 1, Len(parts) - 1)) \o <<"rs">>

Logs == {"trace", "placed"}
Trace == IF Mode \in Logs THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>
VARIABLES rec
Init == IF Mode \in Logs THEN rec \in 1..Len(Trace)
        ELSE IF Mode = "names" THEN rec \in Names \X Wheres \X OutDirs
        ELSE rec \in {<<w, x>> \in Ways \X Situations : Makes(w, x)}
Next == FALSE
Spec == Init /\ [][Next]_rec
R == Trace[rec]
RecOk == /\ (R.ok = TRUE) = Succeeds(R.way, R.x)
         /\ Holds(R.way, R.x, R.code, R.pretty, R.out)
\* the files made, by the parts of their names, and whether they hold the code
PlacedOk == R.ok = TRUE /\ R.made = <<Place(R.parts)>> /\ R.whole = TRUE
Conforms == Mode \in Logs => ((IF Mode = "trace" THEN RecOk ELSE PlacedOk) \/ (PrintT("BAD " \o ToJson([id |-> R.id])) /\ FALSE))
Emitted == IF Mode = "names" THEN PrintT("NAME " \o ToJson([parts |-> rec[1], where |-> rec[2], dir |-> rec[3]])) ELSE Mode = "ways" => PrintT("WAY " \o ToJson([way |-> rec[1], x |-> rec[2]]))
===============================================================================
