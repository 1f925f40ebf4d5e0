#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TECH = ("contract-based deductive verification (Verus/Z3): contracts, invariants and ghost code woven into the functions extracted from /repo on "
        "every run; a bounded run of the real crate replays and looks for failing inputs")
BASE = ("Every function named in the evidence is verified against its contract for all inputs and iterations; assumed: contracts of std, smallvec, "
        "itertools, alloy and the other dependencies (verus/p2_std.rs, p5_ext.rs, p7_serde.rs), the extraction and its rewrites (DESIGN.md), usize = 64 bit. ")
DER = ("Derived code: every definition of the corpus in derive/ is verified for all field types and values; the shapes of definitions are enumerated "
       "(bounded), the macros' own token-building code is not under contract. ")
NOTE = {
    "C01": DER + "Ord/Clone of element types are assumed to agree with the abstract value.",
    "C02": DER, "C03": DER + "The reference serializer is hand-written in verus/ from the SSZ specification.",
    "C04": DER + "The reference deserializer is hand-written in verus/ from the SSZ specification.",
    "C05": DER + "Covers panics, overflow, bounds and termination of every function under contract; stack depth is not modelled.",
    "C06": "Proved: every explicit reservation is at most the bytes (items) of the function's own input. Not proved: the sum of reservations over a "
           "nested decode and the growth policy of collections; the harness measures the peak heap (bounded). " + DER,
    "C07": DER,
    "C08": "Bounded in the shape of the definition (the corpus in derive/ plus definitions that must be rejected); for each definition of the corpus the "
           "generated code is proved equal to the schema's codec for all field types and values, compute_union_selectors for all counts. ",
    "C09": "Over an arbitrary sequence of registrations: the builder's ghost state.",
    "C10": "SszEncoder is specified as a state machine, so it holds for any sequence of appends.",
    "C11": "Each operation is proved against the boolean sequence, so it holds for any history. Display is not covered.",
    "C12": "", "C13": "", "C14": "",
    "C15": DER + "Unions of 1, 2, 3, 4 and 128 variants are in the corpus; compute_union_selectors is proved for every count.",
    "C16": "Container is any TryFromIter implementation satisfying the trait's contract.",
    "C17": "four_byte_option_impl! is verified on an abstract payload type, hence for every payload.",
    "C18": "The hex functions of ethereum_serde_utils and the serde traits are assumed contracts; encodings shorter than 2^32 bytes.",
    "C19": "BTreeMap/BTreeSet are assumed contracts (sorted, last duplicate wins).",
    "C20": "Unstructured is an assumed contract.",
}
LEVEL = {"C08": "exploration"}
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                 "technique": TECH, "level": LEVEL.get(i, "proof"), "level_note": (BASE + NOTE[i]).strip()} for i in ids],
     "not_applicable": [],
     "notes": "No hooks: nothing in /repo is guarded for the machinery. Defects repaired are in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
