#!/usr/bin/env python3
"""Writes the table of planted changes at the end of DESIGN.md."""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "## Planted changes and which checks catch them\n"
txt = open(f"{R}/DESIGN.md").read()
txt = txt[: txt.index(HEAD)] + HEAD + """
Each was written from a property's text and the code; each compiles, passes the 46 tests, and has a demonstration.
The check of the property it breaks (middle column) reports every one of them, with a counterexample that was replayed on the compiled code
(headers: with the compiler's verdict). Those marked † needed inputs that the checks did not have before (larger values, stabby's types, clones of plain values, default bodies, odd field names): they were added.

| change | caught by | needs |
|---|---|---|
"""
MISSED = {"large-values-tail", "stabby-table-order", "stabby-slice-end", "box-clone-shallow", "dyn-default-bodies", "struct-underscore-field"}
for d in sorted(glob.glob(f"{R}/seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[-2]
    txt += f"| {i}{' †' if i in MISSED else ''} | {m['property']} | {m['needs'].rstrip('.')} |\n"
txt += """
Besides these, a textual mutator (operators, constants, negations, deleted statements, emptied `Some`s, characters of emitted text)
was run over `src/` in scratch copies, with the checks of the properties anchored in each file as the judges. Survivors were reviewed one by one:
what mattered led to new harness inputs (nested generics of private names in headers, fields that are references, arrays
and function pointers in derived types, sizes far above the inline capacities); what remains is equivalent (initial capacities, values of private
placeholders, indentation of the emitted text, ignored attributes) or only visible when a compile-time assertion of the crate fails.

The other direction was tried too: behaviour-preserving rewrites (range resolution and `split_at` of bytes as helpers, guards
of `with_rust_mut` as a struct, retain/release of arc closures, the future's poll function, executors, `from_raw`, the C emitter's loops, the
derive's `is_valid`). All checks stayed quiet.

Limit met on the way: stabby's own `is_invalid` never rejects the byte arrays that stabby declares as forbidden (a matter of that
dependency), so types wrapped as `Stabbied<_>` are checked for acceptance of every valid value and for layout, not for
rejection.
"""
open(f"{R}/DESIGN.md", "w").write(txt)
