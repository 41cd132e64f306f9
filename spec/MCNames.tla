-------------------------------- MODULE MCNames -------------------------------
(* Names in every place of a schema where one can stand: clear names do not    *)
(* clash once they are Rust names, and all of them are identifiers.            *)
EXTENDS GenNames, Json
CONSTANTS Mode, Emit
VARIABLES k, a, b
vars == <<k, a, b>>

Plain == {"fooBar", "FOO_BAR", "x_", "_x", "f_1", "F1", "_1", "a__b", "HTTPServer", "aB1c", "x9Y", "III", "_", "__", "A_", "int", "string"}
Weak == {"gen", "union", "auto", "raw", "default", "safe", "macro_rules", "async_", "ty", "Type", "TYPE", "Match", "Crate", "SELF", "Try"}
\* names that stand in generated code: parameters, locals, members, traits
Inside == {"Error", "Inner", "Output", "Buf", "Item", "table", "Table", "value", "fbb", "args", "builder", "buf", "loc", "start", "o", "x",
           "e", "s", "dst", "scalar", "rest", "new", "finish", "create", "get_root", "get_type", "follow", "follow_buf", "push", "from",
           "into", "clone", "eq", "fmt", "try_from", "get", "unwrap", "Vec", "String", "Box", "TryFrom", "AsRef", "Follow", "Push",
           "None", "Some", "Ok", "Err", "Result", "Option", "Default", "From", "B", "T", "u8", "i32", "str", "bool", "butte", "std", "core",
           "alloc", "WIPOffset", "Vector", "ForwardsUOffset", "VT_A", "Args", "Builder", "Foo", "FooArgs"}
Schemaish == {"table", "namespace", "root_type", "attribute", "rpc_service", "include", "file_identifier", "required", "float", "nan", "inf"}
AllNames == Keywords \cup Plain \cup Weak \cup Inside \cup Schemaish
Pairs == {"type", "ty", "Type", "self", "self_", "Self", "aB", "a_b", "AB", "ab", "A", "a", "n", "N", "butte_gen", "a_type", "aType", "AArgs", "AType", "_"}

\* texts with holes
Skeletons == <<
  <<"table", "%1", "{", "a", ":", "int", ";", "}", "table", "Q", "{", "r", ":", "%1", ";", "v", ":", "[", "%1", "]", ";", "}">>,
  <<"table", "Q", "{", "%1", ":", "int", ";", "%2", ":", "string", ";", "}">>,
  <<"table", "Q", "{", "%1", ":", "string", "(", "required", ")", ";", "%2", ":", "[", "string", "]", ";", "}">>,
  <<"enum", "Ee", ":", "byte", "{", "X", ",", "Y", "}", "table", "Q", "{", "%1", ":", "Ee", "=", "Y", ";", "%2", ":", "Ee", ";", "}">>,
  <<"table", "T1", "{", "}", "union", "U", "{", "T1", "}", "table", "Q", "{", "%1", ":", "U", ";", "%2", ":", "float", "=", "nan", ";", "}">>,
  <<"table", "T1", "{", "}", "union", "U", "{", "T1", "}", "table", "Q", "{", "%1", ":", "U", "(", "required", ")", ";", "%2", ":", "bool", "=", "true", "(", "required", ")", ";", "}">>,
  <<"enum", "%1", ":", "int", "{", "P1", ",", "%2", "}", "table", "Q9", "{", "f", ":", "%1", ";", "g", ":", "%1", "=", "P1", ";", "h", ":", "[", "%1", "]", ";", "}">>,
  <<"enum", "Ee", ":", "ubyte", "{", "%1", ",", "%2", "}", "table", "Q", "{", "f", ":", "Ee", "=", "%1", ";", "g", ":", "[", "Ee", "]", "(", "required", ")", ";", "}">>,
  <<"table", "T1", "{", "}", "union", "%1", "{", "T1", "}", "table", "Q", "{", "f", ":", "%1", ";", "g", ":", "%1", "(", "required", ")", ";", "}">>,
  <<"table", "%1", "{", "}", "table", "%2", "{", "}", "union", "U", "{", "%1", ",", "%2", "}", "table", "Q9", "{", "u", ":", "U", ";", "v", ":", "U", "(", "required", ")", ";", "}">>,
  <<"namespace", "%1", ";", "table", "T1", "{", "a", ":", "int", ";", "}", "enum", "Ee", ":", "byte", "{", "Z", "}", "union", "U", "{", "T1", "}",
    "namespace", "%2", ";", "table", "Q", "{", "u", ":", "%1", ".", "U", ";", "t", ":", "%1", ".", "T1", ";", "e", ":", "%1", ".", "Ee", "=", "Z", ";", "}">>,
  <<"namespace", "k9", ".", "%1", ";", "table", "T1", "{", "a", ":", "int", ";", "}", "union", "U", "{", "T1", "}", "enum", "Ee", ":", "byte", "{", "Z", "}",
    "namespace", "%2", ".", "z", ";", "table", "Q", "{", "x", ":", "k9", ".", "%1", ".", "T1", ";", "u", ":", "k9", ".", "%1", ".", "U", ";", "w", ":", "[", "k9", ".", "%1", ".", "Ee", "]", ";", "}">>,
  <<"namespace", "%1", ".", "%2", ";", "table", "T1", "{", "a", ":", "int", ";", "}", "union", "U", "{", "T1", "}",
    "namespace", "%1", ";", "table", "Q", "{", "x", ":", "%1", ".", "%2", ".", "T1", ";", "u", ":", "%1", ".", "%2", ".", "U", "(", "required", ")", ";", "}">>,
  <<"table", "A1", "{", "}", "rpc_service", "%1", "{", "%2", "(", "A1", ")", ":", "A1", ";", "}">>,
  <<"enum", "%1", ":", "long", "{", "P", "}", "enum", "%2", ":", "long", "{", "P", "}">>,
  <<"table", "T1", "{", "}", "union", "%1", "{", "T1", "}", "union", "%2", "{", "T1", "}">>,
  <<"enum", "%1", ":", "short", "{", "P", "}", "namespace", "%2", ";", "table", "T1", "{", "}">>,
  <<"namespace", "m", ";", "table", "%1", "{", "x", ":", "m", ".", "%2", ".", "Q", ";", "}", "namespace", "m", ".", "%2", ";", "table", "Q", "{", "y", ":", "m", ".", "%1", ";", "}">>,
  <<"table", "%1", "{", "x", ":", "[", "%2", "]", ";", "}", "enum", "%2", ":", "ulong", "{", "P", "}">>
>>
Puncts == {"{", "}", "(", ")", "[", "]", ":", ";", ",", "=", "."}
Fill1(s) == IF s = "%1" THEN a ELSE IF s = "%2" THEN b ELSE s
Toks == [i \in 1..Len(Skeletons[k]) |-> LET s == Skeletons[k][i] IN IF s \in Puncts THEN Pn(s) ELSE Word(Fill1(s))]
Uses2 == \E i \in 1..Len(Skeletons[k]) : Skeletons[k][i] = "%2"

Init == k \in 1..Len(Skeletons) /\ a = "" /\ b = ""
Next == /\ a = "" /\ UNCHANGED k
        /\ IF Mode = "single" THEN a' \in AllNames /\ b' = "other9"
           ELSE IF Mode = "second" THEN a' = "Other9" /\ b' \in AllNames
           ELSE a' \in Pairs /\ b' \in Pairs
Spec == Init /\ [][Next]_vars

Pr == Parse(Toks)
D0 == Decls(Pr.v)
Filled == a # "" /\ Pr.ok
Sound == Filled /\ Clear(D0) /\ Valid(Pr.v) => NoClash(D0)
Usable == Filled /\ Clear(D0) => Idents(D0)
\* a name converted once is not changed again
Stable == a # "" => \A s \in {a, b} : Norm(s) = "" \/ Snake(Snake(s)) = Snake(s)
\* the ones that must compile
Emitted == Filled /\ Emit /\ Clear(D0) /\ (Mode = "single" \/ Uses2) => PrintT("SENT " \o ToJson(Toks))
===============================================================================
