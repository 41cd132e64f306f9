#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusted: TLC, the executor's encoding of calls and answers as JSON, and that little-endian 64-bit hosts are representative."
C = {
 "W01": ("TLA+ model of builder and reader (TLC), every model behaviour replayed on the real builder, its read-back checked by TLC trace validation",
         "Exhaustive over small scopes of the model and of the code (all call sequences of the scope are run), sampled by seed beyond: long strings, wide tables, many objects, 17-bit offsets, vectors and strings of more than 16-bit counts."),
 "W02": ("TLA+ wire-format predicate, invariant of the builder model (TLC) and evaluated by TLC on the real builder's bytes",
         "As W01; the predicate does not fix a layout, only validity."),
 "W03": ("TLA+ vtable-sharing invariant (TLC), checked on model behaviours and on the real builder's bytes by trace validation",
         "All pairs of tables in all scripts of the scopes, incl. unreachable ones."),
 "W04": ("TLA+ builder model behaviours (TLC) replayed on real builders of many capacities and pasts; TLC checks that one outcome exists",
         "Twelve capacity/past/clone combinations per script, sampled by seed, incl. arbitrary call sequences before reset."),
 "W05": ("TLA+ protocol state machine (TLC, all call sequences to a length), replayed on the real builder, refusals checked by trace validation",
         "All sequences over one call of each kind to length 4 (quick) or 5, random ones to length 16; tables around 64 KiB and buffers around 2 GiB. Debug builds only; calls whose legality is not promised are not made."),
 "W06": ("TLA+ elision and required-field rules; model behaviours and random tables replayed, read-back and refusals checked by TLC",
         "All layouts of the vt scope, random values and defaults of every type beyond."),
 "R01": ("TLA+ total reader specification; TLC-enumerated and mutated buffers read by the real reader, answers checked by TLC",
         "All buffers of three small scopes times all questions; mutated real buffers and random bytes by seed. Out-of-bounds reads are seen as answers where the bytes are not in the buffer, as panics, or as crashes of a build with debug assertions."),
 "R02": ("TLA+ total reader specification; TLC-enumerated and mutated buffers read by the real reader, answers checked by TLC",
         "As R01, exact answers; where several errors describe the same bytes any of them is admissible."),
 "R03": ("TLA+ iterator state machine (TLC, all histories of a scope), real iterator histories checked by trace validation",
         "All histories of 4 (quick) or 5 calls on up to 2 iterators over up to 3 elements (sampled when replayed), random longer ones on damaged vectors."),
 "S01": ("TLA+ grammar, twice (recogniser with syntax trees and constants by value; generative), model checked equal; its sentences parsed by the real parser, trees checked by TLC",
         "All sentences to a length in tokens, each in several spellings and spacings; simulated and random longer ones by seed. Constants are compared as exact numbers (floats: correctly rounded)."),
 "S02": ("TLA+ declarative meaning of schemas and model of the multi-pass resolution (TLC: same verdict for all schemas and orders of a scope); real compiler's code checked by trace validation",
         "All schemas of four small alphabets (sampled when replayed), random larger ones in four orders, chains of up to 260 references. References are read off the generated code's signatures."),
 "S03": ("TLA+ grammar and validity rules; TLC-enumerated, token-mutated and semantically wrong schemas given to the real compiler, refusals checked by TLC trace validation",
         "Sampled by seed around exhaustive small scopes; texts garbled character by character are judged for panics and hangs only. Sizes and depths by the table SchemaLimits."),
 "S04": ("TLA+ state machine of a compilation between a source and a sink that divide and fail, and table of all ways and situations (TLC); every run replayed on the real compiler, its calls checked by trace validation",
         "All divisions and failures over texts and codes of 3 (quick) or 4 pieces, random finer ones, texts to 80 KB; 172 ways and situations with real processes, files and formatters, one thing wrong at a time."),
 "G01": ("TLA+ meaning of tables (slots, widths, wire layout) with an independent encoder; model cases (TLC) and random schemas compiled and run, slot constants, written buffers and read-back of the specification's buffers checked by TLC",
         "All tables of up to two fields over 19 field kinds in the model (sampled when compiled), random schemas to 70 fields beyond."),
 "G02": ("TLA+ read-back relation between a written value and what accessors give, invariant of the model (TLC); generated code writes and reads model and random values, checked by trace validation",
         "As G01; values random by seed with defaults, extremes, NaN, empty and nested ones. What a missing required scalar reads as is left open."),
 "G03": ("TLA+ model of the Rust names a schema turns into (TLC: clear names never clash); all its schemas, accepted model schemas and random ones are generated and compiled, outcome judged by TLC",
         "All names of a list of 160 in 19 places, pairs of 20; compiled with rustc in editions 2018 and 2021. Schemas whose names are not clear (see GenNames) are not judged."),
 "G04": ("TLA+ values of enums and unions; generated conversions probed and buffers of the specification's encoder with unknown values read by generated code, checked by TLC",
         "All 256 values of one-byte enums and unions, boundary and random values of wider ones."),
 "G05": ("TLA+ read-back relation between schema versions, invariant of the model (TLC) for all prefixes; code of each version reads buffers of every other, checked by trace validation",
         "All pairs of prefixes of the model's tables, random schemas in three versions (shortened tables, enums, unions), buffers by generated code and by the specification's encoder."),
 "G07": ("TLA+ total semantics of accessors over arbitrary bytes; damaged and hostile buffers of the specification's encoder read by generated code, every answer checked by TLC",
         "Random by seed: bytes, offsets and lengths changed, truncations, wrong table, wrong prefix; nesting to three tables, eight elements per vector."),
 "G06": ("TLA+ meaning of services; model schemas (TLC) compiled with a recording RPC generator, the recorded calls and the place of their output checked by TLC",
         "All schemas of the rpc alphabet (sampled when replayed), random larger ones."),
 "G08": ("TLA+ meaning of comments, enum members (counter model, TLC) and union values; comments at all places of model and random schemas compared with the generated items, helpers and differently held buffers run, all judged by TLC",
         "Schemas of the resolution scopes with random comments and random ones, all small enums around the limits of their base (sampled), written and damaged buffers in six kinds of holder."),
}
props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
checks = [{"property": p, "quick_cmd": "python3 checks/run.py %s" % p,
           "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py %s" % p,
           "evidence_file": "evidence/%s.json" % p, "technique": C[p][0], "level": "model_checking",
           "level_note": C[p][1] + TRUST} for p in props if p in C]
na = [{"property": p, "reason": "check not built yet"} for p in props if p not in C]
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks are needed", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "One driver, checks/run.py; specifications in spec/, executors in rt/ and fe/. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
