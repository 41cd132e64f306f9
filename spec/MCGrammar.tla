------------------------------- MODULE MCGrammar ------------------------------
(* The schema language once more, as the grammar that derives its sentences:   *)
(* leftmost derivations from a start symbol. Model checked: what is derived is *)
(* exactly what Parse accepts and reads back (the two descriptions of the      *)
(* language agree on every sentence of the scope). The sentences are emitted   *)
(* and parsed by the real parser.                                              *)
EXTENDS SchemaGrammar, Json, FiniteSets
CONSTANTS Start,      \* the start symbol: "Schema", or one element kind
          MaxToks,    \* sentences have at most this many tokens
          Rich,       \* TRUE: many names and constants (for simulation)
          Emit
VARIABLES stack, out

W(s) == [t |-> "w", s |-> s]
Pu(s) == [t |-> "p", s |-> s]
NT(s) == [t |-> "nt", s |-> s]
I(neg, base, d) == [t |-> "i", neg |-> neg, base |-> base, d |-> d]
F(neg, base, d, fr, x) == [t |-> "f", neg |-> neg, kind |-> "fin", base |-> base, d |-> d, fr |-> fr, x |-> x]
S(s, n) == [t |-> "s", s |-> s, n |-> n]
D(s) == [t |-> "d", s |-> s]

Names == IF Rich THEN {"a", "Foo", "b_1", "table", "int", "nan_", "trueish", "bool_", "X9", "include", "self", "infinite"} ELSE {"a"}
Types == IF Rich THEN Builtin ELSE {"int"}
Ints == IF Rich THEN {I(FALSE, 10, <<0>>), I(TRUE, 10, <<4, 2>>), I(FALSE, 16, <<15, 15>>), I(FALSE, 10, <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>)}
        ELSE {I(TRUE, 10, <<7>>)}
Flts == IF Rich THEN {F(FALSE, 10, <<1, 5>>, 1, 0), F(TRUE, 10, <<2>>, 0, 10), F(FALSE, 16, <<1, 8>>, 1, 3),
                      [t |-> "f", neg |-> TRUE, kind |-> "inf", base |-> 10, d |-> <<>>, fr |-> 0, x |-> 0]}
        ELSE {F(FALSE, 10, <<1, 5>>, 1, 0)}
Strs == IF Rich THEN {S("", 0), S("abcd", 4), S("x y//z", 6), S("q\\\"", 3)} ELSE {S("x", 1)}
DocL == IF Rich THEN {D(" text"), D(""), D("/ a // b")} ELSE {D(" d")}

One(set) == {<<x>> : x \in set}
Prods(s) ==
  CASE s = "Schema" -> {<<NT("Includes"), NT("Elements")>>}
    [] s = "Includes" -> {<<>>, <<NT("Docs"), W("include"), S("x", 1), Pu(";"), NT("Includes")>>}
    [] s = "Elements" -> {<<>>, <<NT("Element"), NT("Elements")>>}
    [] s = "Element" -> {<<NT(x)>> : x \in {"Table", "Struct", "Enum", "Union", "Namespace", "Root", "Attr", "Ext", "Ident", "Rpc", "Object"}}
    [] s = "Docs" -> {<<>>, <<NT("Doc"), NT("Docs")>>}
    [] s = "Doc" -> One(DocL)
    [] s = "Name" -> {<<W(n)>> : n \in Names}
    [] s = "Path" -> {<<NT("Name")>>, <<NT("Name"), Pu("."), NT("Path")>>}
    [] s = "TypePath" -> {<<W(n)>> : n \in Names \ Builtin} \cup {<<W(n), Pu("."), NT("Path")>> : n \in Names \ Builtin}
    [] s = "Type" -> {<<W(b)>> : b \in Types} \cup {<<NT("TypePath")>>, <<Pu("["), NT("Type"), Pu("]")>>}
    [] s = "Meta" -> {<<>>, <<Pu("("), Pu(")")>>, <<Pu("("), NT("MetaList"), Pu(")")>>}
    [] s = "MetaList" -> {<<NT("MetaItem")>>, <<NT("MetaItem"), Pu(","), NT("MetaList")>>}
    [] s = "MetaItem" -> {<<NT("Name")>>, <<NT("Name"), Pu(":"), NT("Single")>>}
    [] s = "Scalar" -> One(Ints \cup Flts) \cup {<<W("true")>>, <<W("inf")>>}
    [] s = "Single" -> {<<NT("Scalar")>>} \cup One(Strs)
    [] s = "Default" -> {<<>>, <<Pu("="), NT("Scalar")>>, <<Pu("="), NT("Name")>>}
    [] s = "Field" -> {<<NT("Docs"), NT("Name"), Pu(":"), NT("Type"), NT("Default"), NT("Meta"), Pu(";")>>}
    [] s = "Fields" -> {<<>>, <<NT("Field"), NT("Fields")>>}
    [] s = "Table" -> {<<NT("Docs"), W("table"), NT("Name"), NT("Meta"), Pu("{"), NT("Fields"), Pu("}")>>}
    [] s = "Struct" -> {<<NT("Docs"), W("struct"), NT("Name"), NT("Meta"), Pu("{"), NT("Fields"), Pu("}")>>}
    [] s = "Int" -> One(Ints)
    [] s = "Value" -> {<<>>, <<Pu("="), NT("Int")>>}
    [] s = "Variants" -> {<<NT("Docs"), NT("Name"), NT("Value")>>, <<NT("Docs"), NT("Name"), NT("Value"), Pu(",")>>,
                          <<NT("Docs"), NT("Name"), NT("Value"), Pu(","), NT("Variants")>>}
    [] s = "Enum" -> {<<NT("Docs"), W("enum"), NT("Name"), Pu(":"), NT("Type"), NT("Meta"), Pu("{"), NT("Variants"), Pu("}")>>}
    [] s = "Union" -> {<<NT("Docs"), W("union"), NT("Name"), NT("Meta"), Pu("{"), NT("Variants"), Pu("}")>>}
    [] s = "Namespace" -> {<<NT("Docs"), W("namespace"), NT("Path"), Pu(";")>>}
    [] s = "Root" -> {<<NT("Docs"), W("root_type"), NT("Name"), Pu(";")>>}
    [] s = "Attr" -> {<<NT("Docs"), W("attribute"), NT("Name"), Pu(";")>>} \cup {<<NT("Docs"), W("attribute"), x, Pu(";")>> : x \in Strs}
    [] s = "Ext" -> {<<NT("Docs"), W("file_extension"), x, Pu(";")>> : x \in Strs}
    [] s = "Ident" -> {<<NT("Docs"), W("file_identifier"), S("abcd", 4), Pu(";")>>}
    [] s = "Method" -> {<<NT("Docs"), NT("Name"), Pu("("), NT("Path"), Pu(")"), Pu(":"), NT("Path"), NT("Meta"), Pu(";")>>}
    [] s = "Methods" -> {<<NT("Method")>>, <<NT("Method"), NT("Methods")>>}
    [] s = "Rpc" -> {<<NT("Docs"), W("rpc_service"), NT("Name"), Pu("{"), NT("Methods"), Pu("}")>>}
    [] s = "Object" -> {<<NT("Docs"), Pu("{"), Pu("}")>>, <<NT("Docs"), Pu("{"), NT("KVs"), Pu("}")>>}
    [] s = "KVs" -> {<<NT("Name"), Pu(":"), NT("Val")>>, <<NT("Name"), Pu(":"), NT("Val"), Pu(","), NT("KVs")>>}
    [] s = "Val" -> {<<NT("Single")>>, <<NT("Object")>>, <<Pu("["), Pu("]")>>, <<Pu("["), NT("Vals"), Pu("]")>>}
    [] s = "Vals" -> {<<NT("Val")>>, <<NT("Val"), Pu(","), NT("Vals")>>}

\* the fewest tokens a symbol stands for
MinLen(x) ==
  IF x.t # "nt" THEN 1
  ELSE CASE x.s \in {"Schema", "Includes", "Elements", "Docs", "Meta", "Default", "Fields", "Value"} -> 0
         [] x.s \in {"Doc", "Name", "Path", "TypePath", "Type", "MetaList", "MetaItem", "Scalar", "Single", "Int", "Variants", "Val", "Vals"} -> 1
         [] x.s \in {"Element", "Object"} -> 2
         [] x.s \in {"Namespace", "Root", "Attr", "Ext", "Ident", "KVs"} -> 3
         [] x.s \in {"Field", "Table", "Struct"} -> 4
         [] x.s = "Union" -> 5
         [] x.s \in {"Method", "Methods"} -> 7
         [] x.s = "Enum" -> 7
         [] x.s = "Rpc" -> 11
SumMin(ss) == FoldLeft(LAMBDA a, x : a + MinLen(x), 0, ss)

\* terminals at the front of the stack go out at once
Lead(ss) == LET nts == {i \in 1..Len(ss) : ss[i].t = "nt"} IN
            IF nts = {} THEN Len(ss) ELSE (CHOOSE i \in nts : \A j \in nts : i <= j) - 1

Init == stack = <<NT(Start)>> /\ out = <<>>
Next ==
  /\ stack # <<>>
  /\ \E p \in Prods(Head(stack).s) :
       LET s == p \o Tail(stack)
           n == Lead(s) IN
       /\ Len(out) + SumMin(s) <= MaxToks
       /\ out' = out \o SubSeq(s, 1, n)
       /\ stack' = SubSeq(s, n + 1, Len(s))
Spec == Init /\ [][Next]_<<stack, out>>

Done == stack = <<>>
\* the comma before a closing brace and empty metadata leave no trace in the tree
Skip(T, i) ==
  \/ P(T, i, ",") /\ P(T, i + 1, "}")
  \/ P(T, i, "(") /\ P(T, i + 1, ")")
  \/ P(T, i, ")") /\ i > 1 /\ P(T, i - 1, "(")
Plain(T) == Cat([i \in 1..Len(T) |-> IF Skip(T, i) THEN <<>> ELSE <<T[i]>>])
Readable(e) == e.k \in {"table", "struct", "namespace", "enum", "union", "rpc"}
NoDocs(T) == SelectSeq(T, LAMBDA x : x.t # "d")

\* every derived sentence is in the language, and its tree is the sentence
Derived == Done => LET p == Parse(out) IN
             /\ p.ok
             /\ (p.v.inc = <<>> /\ \A i \in 1..Len(p.v.el) : Readable(p.v.el[i])) => Unparse(p.v) = Plain(out)
             /\ (p.v.inc = <<>> /\ \A i \in 1..Len(p.v.el) : Readable(p.v.el[i]) \/ p.v.el[i].k = "root") => NoDocs(Unparse(p.v)) = NoDocs(Plain(out))
\* a sentence cut short before its end is another text
Emitted == (Done /\ Emit) => PrintT("SENT " \o ToJson(out))
===============================================================================
