#!/usr/bin/env python3
"""Rewrites /verif/known_findings.json: python3 tools/findings.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []
def known(id, property, entry, what, kind="assert", match="assertion 1"):
    F.append(dict(id=id, property=property, entry=entry, kind=kind, match=match, what=what))
def fixed(property, commit, what):
    F.append(dict(id="fixed-%s-%s" % (property, commit), property=property, fixed=commit, what=what, record="fixed: property=%s %s %s" % (property, commit, what)))
known("K1", "C12", "fall_raw_edit", "grammar-language text 'r## ', inserting '\"x\"##' at 3: the re-lexer keeps the old tokens of 'r##' although the new text is one raw string token r##\"x\"## (a custom or regular-expression token may look arbitrarily far ahead)")
known("K2", "C23", "rust_raw_edit", "Rust text 'r## ', inserting '\"x\"##' at 3: the re-lexer keeps the old tokens of 'r##' although the new text is one raw string token r##\"x\"##")
known("K3", "C23", "rust_char_edit", "Rust text \"'{ \", inserting \"'\" at 2: the re-lexer keeps the old lifetime and brace tokens although the new text is the one char token \"'{'\"")
known("K4", "C22", "rust_assign", "Rust text 'a = b = c': parsed as (a = b) = c; assignment is right-associative in Rust, and the operator-precedence engine only groups to the left")
exec(open(os.path.join(V, "tools", "fixed_list.py")).read())
json.dump({"findings": F}, open(V + "/known_findings.json", "w"), indent=1)
