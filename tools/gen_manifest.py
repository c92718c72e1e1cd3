#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
TECH = {
 "pure": "stateless explicit-state model checking: exhaustive bounded enumeration of programs x inputs, every execution of the real code replayed against a reference model",
 "hist": "stateless explicit-state model checking: exhaustive enumeration of operation histories on the real code, compared step by step with a reference model",
 "fault": "stateless explicit-state model checking with exhaustive fault injection (every call of every run fails once, and from then on)",
 "rel": "stateless explicit-state model checking: exhaustive bounded enumeration, comparing executions of the real code with each other",
}
N = {
 "C01": ("pure", "Every notation of the grammar up to the size bound, at every width up to the bound. Trusts the 900-line reference layout (harness/mc/model.rs), written from the documentation."),
 "C02": ("pure", "Every notation/document combination of the stated spaces. Trusts the reference elaboration."),
 "C03": ("pure", "Every path and every focus target of every explored document and width; lines and styles against the model of the whole document."),
 "C04": ("pure", "Every path and target of every explored document and width; the expected position comes from the model's elaboration."),
 "C05": ("hist", "Every interleaving of pulls up to the length bound, from one or two printings sharing one document."),
 "C06": ("pure", "Free (non-commutative, non-idempotent) style combination, so any wrong order, loss or duplication is visible."),
 "C07": ("pure", "Choice-free documents: exact bound from the model's set of needed nodes; with choices: call counts compared between members of families that differ only in far-away subtrees."),
 "C08": ("fault", "Every document call of every explored run fails once / from then on."),
 "C09": ("pure", "Mismatched notations and bad paths enumerated; the errors accepted are those present in the model's layout."),
 "C10": ("pure", "Every notation up to the size bound over all constructors. Two flaw sets (must/may) leave undocumented corner cases open."),
 "C11": ("pure", "A recording document asserts the documented contract on every call of every run, with default and overridden sibling methods."),
 "C12": ("pure", "Every pane notation of the stated spaces in every window size; cell-by-cell comparison with a grid model."),
 "C13": ("pure", "Cell-by-cell comparison with a grid model that crops the reference layout. Two recorded findings (zero-width characters)."),
 "C14": ("pure", "As C13, with a free style combination, styles of every cell compared."),
 "C15": ("fault", "Every window call and document call of every explored display fails once."),
 "C16": ("pure", "Texts, sums, widths, windows, weights and heights at and around the limits of their types, all combinations of the listed values."),
 "C17": ("pure", "Every JSON value of the stated spaces at every width that matters; independent JSON page model, and serde_json as parser."),
 "C18": ("rel", "Printer against the in-tree oracle on every explored program (both are code under test)."),
 "C19": ("rel", "Round trip through serde_json and bincode for every notation up to the size bound, and of their printing and validation."),
 "C20": ("hist", "Every sequence of writes up to the bounds, and every permutation of larger write sets, against a cell model."),
 "C21": ("hist", "Every construction history up to the length bound; all styles, labels and pairs."),
 "C22": ("rel", "Every law instance up to the size bound in every context up to the size bound, at every width up to the bound."),
}
checks = []
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
assert sorted(ids) == sorted(N), set(ids) ^ set(N)
for i in ids:
    t, note = N[i]
    checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
        evidence_file=f"evidence/{i}.json", technique=TECH[t], level="model_checking",
        level_note=note + " Exhaustive within the bounds written to the evidence file; nothing is claimed beyond them."))
json.dump(dict(version=1, setup_cmd="./check build", checks=checks, not_applicable=[],
    notes="No hooks: the crate's public interface is enough. The checks mirror /repo's src into build/ppp, with a Cargo.toml from which the unreachable git dependency is taken out."),
    open(f"{here}/MANIFEST.json", "w"), indent=1)
