#!/usr/bin/env python3
"""Builds the planted bugs of tools/seeds_def.py in a scratch copy, confirms them and writes seeded/<id>/.
usage: mkseed.py [ID..]"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"
DEPS = dict(fall_text="fall/text", fall_tree="fall/tree", fall_parse="fall/parse", fall_editor="fall/editor", lang_json="lang/json", lang_bnf="lang/bnf", lang_fall="lang/fall", lang_fall_syntax="lang/fall/syntax", lang_rust="lang/rust", lang_rust_syntax="lang/rust/syntax", fall_gen="fall/gen", indxr="indxr")
SEEDS = []
def seed(id, property, edits, main, needs, breaks, deps=("fall_parse",), prelude=True, regen=None):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks, deps=deps, prelude=prelude, regen=regen))
exec(open(os.path.join(V, "tools", "seeds_def.py")).read())
def run(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main():
    want = sys.argv[1:] or [s["id"] for s in SEEDS if not os.path.exists(V + "/seeded/%s/patch.diff" % s["id"])]
    if run("git -C /repo status --porcelain").stdout.strip(): sys.exit("dirty /repo")
    for s in SEEDS:
        if s["id"] not in want: continue
        d = V + "/seeded/" + s["id"]; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        ok = False
        try:
            open(d + "/main.rs", "w").write(("mod prelude;\nuse prelude::*;\n" if s["prelude"] else "") + s["main"].lstrip("\n"))
            if s["prelude"]: shutil.copy(V + "/tools/demo/prelude.rs", d)
            t = open(V + "/tools/demo/demo.sh").read().replace("@ID@", s["id"]).replace("@DEPS@", "\n".join('%s = { path = "/repo/%s" }' % (x, DEPS[x]) for x in s["deps"]))
            open(d + "/demo.sh", "w").write(t); os.chmod(d + "/demo.sh", 0o755)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            r = run("bash %s/demo.sh" % d, cwd="/repo")
            if r.returncode != 0: print(s["id"], "demo fails on the unchanged tree", r.returncode, r.stdout.decode()[-1500:]); continue
            for f, a, b in s["edits"]:
                p = "/repo/" + f; x = open(p).read()
                if x.count(a) != 1: raise Exception("%s: %d matches in %s for %r" % (s["id"], x.count(a), f, a))
                open(p, "w").write(x.replace(a, b))
            if s["regen"]: run(". /opt/vp/env.sh; rewrite=%s cargo test --offline -p fall_gen --test cli test_grammars" % s["regen"], cwd="/repo", executable="/bin/bash")
            r = run("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed-out.json")
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            o = json.load(open("/tmp/seed-out.json")) if r.returncode in (0, 100, 1) and os.path.exists("/tmp/seed-out.json") else dict(passed=[])
            bad = [t for t in base if t not in o["passed"]]
            if bad: print(s["id"], "tests fail:", bad[:4], r.stdout.decode()[-600:] if len(bad) > 50 else ""); continue
            r = run("bash %s/demo.sh" % d, cwd="/repo")
            if r.returncode in (0, 4): print(s["id"], "demo", r.returncode, "with the patch", r.stdout.decode()[-800:]); continue
            open(d + "/patch.diff", "wb").write(run("git -C /repo diff").stdout)
            ok = True; print(s["id"], "confirmed", r.returncode, r.stdout.decode()[-200:].strip().replace("\n", " | "))
        finally:
            run("git -C /repo checkout -- .")
            if os.path.exists("/tmp/seed-out.json"): os.remove("/tmp/seed-out.json")
            if not ok: shutil.rmtree(d, ignore_errors=True)
main()
