#!/usr/bin/env python3
"""mkseed.py SPEC.py [--check]: build /verif/seeded/<id>/ from a spec, confirming it in a scratch copy of /repo.

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo=<python source>, needs, breaks)].
A seed is kept only if: the patch applies, stable tests still pass, demo passes unpatched and fails patched.
"""
import json, os, re, shutil, subprocess, sys, tempfile

ROOT = "/verif/seeded"


def sh(cmd, cwd, env=None, timeout=300):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)


def tests(repo):
    w = tempfile.mkdtemp()
    try:
        sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --basetemp={w}/tmp --timeout=60 --continue-on-collection-errors --codeblocks --tb=no "
           f"-o junit_family=xunit2 --junitxml={w}/j.xml" if False else
           f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --basetemp={w}/tmp --timeout=60 --continue-on-collection-errors --codeblocks --tb=no "
           f"-o junit_family=xunit2 --junitxml={w}/j.xml", repo, {"PYTHONPATH": repo + "/src", "PYTHONHASHSEED": "0"})
        sh(["python3", "/opt/vp/results.py", w + "/o.json", f"junit:{w}/j.xml"], repo)
        o = json.load(open(w + "/o.json"))
    finally:
        shutil.rmtree(w)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [x for x in base if x not in set(o["passed"])]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = [a for a in sys.argv[2:] if not a.startswith("--")]
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        scratch = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
        repo = scratch + "/repo"
        try:
            subprocess.run(["cp", "-a", "/repo", repo], check=True)
            d = os.path.join(scratch, "d")
            os.makedirs(d)
            open(d + "/demo.py", "w").write(s["demo"])
            open(d + "/demo.sh", "w").write('#!/bin/bash\n# cwd: the repository\nhere=$(cd "$(dirname "$0")" && pwd)\nw=$(mktemp -d)\ntrap \'rm -rf "$w"\' EXIT\n'
                                            'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"\ncd "$w"\nexec_py=/opt/venv/bin/python\n"$exec_py" "$here/demo.py"\n')
            ok0 = sh(["bash", d + "/demo.sh"], repo)
            for f, old, new in s["edits"]:
                p = os.path.join(repo, f)
                t = open(p).read()
                if t.count(old) < 1:
                    print(s["id"], "NOT FOUND in", f, repr(old[:60]))
                    break
                open(p, "w").write(t.replace(old, new, 1))
            else:
                diff = sh(["git", "diff"], repo).stdout
                bad = sh(["bash", d + "/demo.sh"], repo)
                lost = tests(repo)
                good = ok0.returncode == 0 and bad.returncode != 0 and not lost
                caught = []
                for m in json.load(open("/verif/MANIFEST.json"))["checks"]:
                    if "--all" in sys.argv or m["property"] == s["property"]:
                        ev = tempfile.mkdtemp(dir=scratch)
                        r = sh(["python3", "/verif/check.py", m["property"]], "/verif", {"MSA_REPO": repo, "MSA_EVIDENCE": ev}, 900)
                        if r.returncode == 1 and "VIOLATION property=" + m["property"] in r.stdout:
                            caught.append(m["property"])
                        elif r.returncode != 0:
                            caught.append(m["property"] + f"(exit {r.returncode})")
                print(s["id"], "KEEP" if good else f"REJECT demo0={ok0.returncode} demo1={bad.returncode} lost={lost[:3]}", "caught by", caught, flush=True)
                if not good:
                    print(ok0.stderr[-300:], bad.stdout[-200:])
                else:
                    rp = "/verif/tools/seed_results.json"
                    res = json.load(open(rp)) if os.path.exists(rp) else {}
                    res[s["id"]] = {"property": s["property"], "caught": caught, "needs": s["needs"], "breaks": s["breaks"]}
                    json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
                    out = os.path.join(ROOT, s["id"])
                    os.makedirs(out, exist_ok=True)
                    open(out + "/patch.diff", "w").write(diff)
                    shutil.copy(d + "/demo.py", out)
                    shutil.copy(d + "/demo.sh", out)
                    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(scratch)


main()
