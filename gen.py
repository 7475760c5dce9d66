#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
import props
V = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the compiled Rust (LLVM IR) with SMT-decided branches and assertions; native replay of counterexamples"
NOTE = ("Exhaustive within the stated bounds: every path of the real code over the symbolic input is followed, every branch and assertion decided by value-set reasoning or Z3, "
        "nothing is sampled. Nothing is claimed beyond the bounds. Trusts rustc, the IR executor (validated on every run by native replays of solved inputs) and Z3 (sampled queries re-decided by cvc5). ")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i, p in props.PROPS.items():
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": p["hook"]}},
                           ensure_ascii=False) + "\n")
commits = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    if l.split(" ", 1)[1].startswith("hook:"):
        commits.append(l.split()[0])
m = {"version": 1, "setup_cmd": "python3 /verif/run.py --setup",
     "hooks": {"guard": "cfg(mitex_verif)", "enable": "RUSTFLAGS --cfg mitex_verif, set by run.py for the builds that need it", "source_commits": commits},
     "checks": [{"property": i, "quick_cmd": "python3 /verif/run.py --property %s --tier quick" % i, "thorough_cmd": "python3 /verif/run.py --property %s --tier thorough" % i,
                 "technique": p["technique"] or TECH, "level": "model_checking", "level_note": NOTE + "Bounds: " + p["bounds"] + ". Outside: " + p["outside"] + "." + (" " + p["note"] if p["note"] else "")}
                for i, p in props.PROPS.items() if i not in props.NOT_APPLICABLE],
     "not_applicable": [{"property": i, "reason": r} for i, r in props.NOT_APPLICABLE.items()],
     "notes": "See DESIGN.md. Exit 2 means no answer (build failure, time limit, unsupported construct, engine and native run disagree)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
from oracles import ORACLES
p = os.path.join(V, "DESIGN.md")
s = open(p).read()


def between(s, a, b, t):
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + "\n" + t + s[j:]


t = ""
for i, q in props.PROPS.items():
    n = ""
    f = os.path.join(V, "evidence", i + ".json")
    if os.path.exists(f):
        e = json.load(open(f))
        if e["tier"] == "quick":
            c = e["coverage"]
            n = "%d jobs, %d paths, %d Z3 queries, %d native replays, %d s on 8 cores" % (
                len(c["jobs"]), c["states"], c["solver"]["z3_queries"], c["traces_validated_against_impl"], round(c["engine_wall_s"] + .5))
    t += "### %s %s\n\n%s\n\n* Decided by: %s\n* Encoded: %s, reached through %s\n* Bounds: %s\n* Outside: %s\n* Beyond the tests: %s\n%s\n" % (
        i, q["title"], q["statement"], ORACLES[i], "; ".join("%s (%s)" % (b, a) for a, b in q["mech"]), ", ".join(q["observe"]), q["bounds"], q["outside"], q["why"],
        "* Cost (quick): " + n + "\n" if n else "")
s = between(s, "<!-- properties -->", "<!-- end -->", t)
t = "| change | property | needs | breaks |\n|---|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    t += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|"))
missed = getattr(props, "MISSED", {})
t += "\nEach is caught by the quick check of its property" + ("" if not missed else ", except: " + "; ".join("%s (%s)" % x for x in missed.items())) + ".\n"
s = between(s, "<!-- seeded -->", "<!-- end seeded -->", t)
open(p, "w").write(s)
