#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
"C01": ("every ordered lexeme set x every text, real tokenizers against a reference tokenizer", "reference: first accepting lexeme at each offset, hand-written matcher per pattern"),
"C02": ("every literal set in every listing order x every text, five realisations against longest-prefix search", "oracle: scan over all literals"),
"C03": ("every adaptor stack x every text and token history against composed reference functions", "closures are functions of their arguments"),
"C04": ("explicit enumeration of pushdown tokenizers (all action assignments) x every text against a reference pushdown automaton", "every reachable stack content within the text bound is visited"),
"C05": ("every grammar up to a size x every text, lexerless parser against an executable ordered-choice semantics", "the reference interpreter is written from the documentation, tracks furthest positions, and shares no code with the library"),
"C06": ("every grammar up to a size x every token sequence, token parser against an executable ordered-choice semantics", "grammars in which a skipped alternative could hide a validation of nothing are set aside (statement)"),
"C07": ("every grammar mixing raw and structural regions x every token sequence against a two-pointer reference", "as C06"),
"C08": ("every item/separator pair and list grammar x every input in three input modes against the reference", "as C05/C06"),
"C09": ("every suffix grammar x every input in three input modes against the reference", "as C05/C06"),
"C10": ("every grammar x every text x every placement of ignorable tokens: the library's own routes against each other", "differential: no reference semantics involved"),
"C11": ("every grammar x every input: invariants evaluated on every node of every returned tree, spans recomputed by the reference", "containment is not claimed for grammars that ask for raw tokens"),
"C12": ("every grammar x every failing input: error pointer and message against furthest position computed by the reference", "wording beyond position, end of file and offending text is not judged"),
"C13": ("every grammar with validators x every input: outcome and the log of closure calls against the reference", "as C05/C06"),
"C14": ("every grammar x every placement of memoizing symbols x every input, evaluation counts observed; every cache operation sequence up to a depth", "keys created through the guarded hook"),
"C15": ("every system of up to three rules: construction verdict against a least-fixpoint computation over the grammar graph, every order of validation", "rule names unique"),
"C16": ("every accepted grammar x every input under a step and depth observer: verdict reached without panic or runaway", "runaway = recursion or steps beyond a bound far above what the reference needs; one known finding"),
"C17": ("every operation sequence up to a depth on one or two parsers, each step against a fresh object", "closures are functions of their arguments"),
"C18": ("every log level on every symbol x every grammar x every input against the unlogged object", "output itself is not judged"),
"C19": ("every registered symbol x every text x every offset against matching that symbol there", "entry points exist in builds with debug assertions only"),
"C20": ("every text x every offset x every query history against counting", "columns count bytes"),
"C21": ("every labelled tree up to a size x every query against an explicit walk", ""),
"C22": ("every token sequence up to a length x every query argument against the plain list", "arguments lie within the stream"),
"C23": ("every JSON token sequence and byte string up to a length against two hand-written readers", ""),
"C24": ("every grammar and lexer up to a size: printed text against the grammar graph, repeated printings compared", "layout is free; names, bodies and order are judged"),
"C25": ("every grammar x every construction route x every input, outcomes compared", "differential plus reference on a subset"),
"C26": ("lockstep exploration of the same cases by two builds, observations compared", "thorough also runs every other exploration in the second build"),
}
base = ("Bounded exhaustive: everything in the space named in the evidence is executed on the real library, nothing is sampled; "
        "beyond the bounds nothing is claimed. ")
checks = []
for k, (t, n) in T.items():
    checks.append(dict(property=k, quick_cmd=f"bash check.sh {k} quick", thorough_cmd=f"bash check.sh {k} thorough",
        technique="bounded exhaustive model checking of the implementation: " + t, level="model_checking",
        level_note=base + (n[0].upper() + n[1:] + "." if n else "")))
m = dict(version=1, setup_cmd="bash setup.sh",
    hooks=dict(guard="lang_pt_verif", enable='RUSTFLAGS="--cfg lang_pt_verif"', source_commits=["363ab2481f31ccc0655a5f8d85a9e92fc192c5ad"]),
    checks=checks, not_applicable=[],
    notes="Every check rebuilds the harness and the library from /repo's working tree (about 16 s) and writes evidence/<id>.json; './check.sh replay FILE' runs one recorded case again. See DESIGN.md.")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
json.dump(m, open(out, "w"), indent=1)
