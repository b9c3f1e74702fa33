#!/usr/bin/env python3
"""plant.py SPEC.py [--keep] : try a planted bug in a scratch copy.

SPEC defines ID, PROP, EDITS=[(file below src, old, new)...], NEEDS, BREAKS, DEMO (python text), optionally CHECKS.  The change is
applied to a copy of /repo (with a copy of /verif whose paths point there); the tests are run, the demonstration is run with
and without it, then every check named in PROP and CHECKS.  With --keep the bug is stored in /verif/seeded/ID when it counts."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(spec, keep):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join("/tmp/plant", ns["ID"])
    w = d + ".w"
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    os.makedirs(w + "/verif")
    sh(f"cp -a /repo {w}/repo")
    for x in ("check.py", "vc", "contracts", "known_findings.json", "properties.jsonl"):
        sh(f"cp -a {V}/{x} {w}/verif/")
    sh(f"grep -rlE '/repo|/verif' {w}/verif --include=*.py | xargs sed -i 's#/repo#{w}/repo#g; s#/verif\\b#{w}/verif#g'")
    open(d + "/demo.py", "w").write(ns["DEMO"].strip() + "\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen\nPYTHONPATH=/repo/src exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    demo = lambda: sh(f"PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen PYTHONPATH={w}/repo/src {PY} -W ignore {d}/demo.py", cwd=w + "/repo")
    r0 = demo()
    print(ns["ID"], "demo on the unchanged tree:", r0.returncode, r0.stdout[-300:], r0.stderr[-600:] if r0.returncode else "")
    ok = r0.returncode == 0
    for f, old, new in ns["EDITS"]:
        p = f"{w}/repo/src/{f}"
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    open(d + "/patch.diff", "wb").write(subprocess.run(f"git -C {w}/repo diff", shell=True, capture_output=True).stdout)
    r1 = demo()
    print(ns["ID"], "demo with the change:", r1.returncode, (r1.stdout + r1.stderr)[-200:].strip())
    t = sh(f"PYTHONPATH={w}/repo/src MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen {PY} -m pytest -q -p no:cacheprovider tests | tail -1", cwd=w + "/repo").stdout.strip()
    print(ns["ID"], "tests:", t)
    ok = ok and r1.returncode != 0 and "1151 passed" in t and "failed" not in t
    for c in [ns["PROP"]] + ns.get("CHECKS", []):
        r = sh(f"VERIF_SEED=1 PYTHONPATH={w}/repo/src {PY} {w}/verif/check.py {c}")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(ns["ID"], "check", c, "exit", r.returncode, [x.replace(w, "") for x in v[:2]], "" if v else r.stdout[-300:] + r.stderr[-300:])
    print(ns["ID"], "COUNTS" if ok else "DOES NOT COUNT")
    if ok and keep:
        sh(f"mkdir -p {V}/seeded && rm -rf {V}/seeded/{ns['ID']} && cp -r {d} {V}/seeded/{ns['ID']}")
    shutil.rmtree(w, ignore_errors=True)


main(sys.argv[1], "--keep" in sys.argv)
