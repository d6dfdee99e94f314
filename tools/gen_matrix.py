#!/usr/bin/env python3
"""Puts the table of planted bugs into DESIGN.md, from seeded/*/meta.json."""
import json, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "own-inherited": "family shared (C02)", "escapes-255": "all escapes at every length (C04)", "pairs-128": "pairs around powers of two (C23)", "parent-late": "texts that are right in family far (C35), late parents in family wide (C09)",
    "link-target": "family links (C12)", "pct-path": "family names (C12)", "err-deep-file": "family chains (C17)", "clone-large": "family sizes (C26)", "dotted-get": "lookups of what is no name (C09)", "name-1k": "family long (C32)",
    "caret-prefix": "family names (C33)", "from-whole": "2^k in 12 places (C33)", "name-whole": "family values (C34)", "name-include": "family files (C34)",
    "dup-window": "family far (C35)", "line-16": "family far (C35)", "nul-end": "unusual characters at each place (C35)", "at-reserved": "family globals (C32)",
    "col-shared": "24 kinds of fault in two threads (C25)", "under-once": "family underscores (C05)", "gt-comment": "layouts with includes (C21)",
    "angle-adjacent": "family includes (C22)",
    "thread-tag": "family threads (C18)", "dec-sign": "family numbers (C02, C03: fractions near powers)",
    "index-plus": "family numbers (C01: 2^k+-2 as index and operand)", "nested-global": "family steps (C07: larger steps)",
    "memo-print": "more operations in the thread programs (C25)",
    "same-name": "alike names (C13, C14, C12)", "u64-wrap": "family natives (C20)", "arr-file-close": "family files (C22)",
    "dot-copy": "families paths and dots (C26)", "elide-500": "containers displayed at every size (C03)",
    "tup-buffer": "family nests (C01)", "escape-path": "names with escapes, alone after a pair (C12)", "mismatch-late": "family scale (C10)",
    "big-nocache": "family big (C14, C12, C13)", "auto-close": "shape cut (C22, C17)", "hash-order": "family tables (C28)", "intern": "family names (C28)",
    "missing-at": "family missing (C29)", "file-sep": "tokens and files with , (C31)", "tup-group": "what is no value (C31)", "contains-case": "similar names looked up (C32)",
    "nfc-name": "family unicode (C32)", "empty-name-dot": "family inside (C22)", "depth-leak": "dotted operands (C16)",
    "rc-arr": "handles of the parts of the shared value (C25)", "sync-ignored": "pwrite and pread by their plain names (C15)", "eval-twice": "program moves (C33)", "parent-order": "program moves (C33)",
    "str-cached-eq": "strings, names and numbers in family long (C19)", "digits-sep": "family long-numbers (C03, C02)",
    "path-sum": "family crowd (C14)", "zwj-col": "family columns (C17)", "cycle-name": "circles by links of other names (C29)", "mid-op": "family long (C06)",
    "block-comment": "caught once; family comments (C21) for more",
}
rows = []
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"], MISSED.get(os.path.basename(os.path.dirname(f)), "")))
t = "| property | bug | needs | first missed; added |\n|---|---|---|---|\n"
for r in sorted(rows):
    t += "| %s | %s | %s | %s |\n" % tuple(x.replace("|", "\\|") for x in r)
d = os.path.join(here, "DESIGN.md")
s = open(d).read()
i = s.index("| property | bug |")
j = s.index("\n\n", i) + 1
open(d, "w").write(s[:i] + t + s[j:])
print(len(rows), "planted bugs")
