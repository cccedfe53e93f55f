#!/usr/bin/env python3
"""Development aid: turn an edit into a confirmed planted change under seeded/, and run its property's check on it.
usage: seed.py add SPEC.py   (SPEC defines ID, PROP, FILE, EDITS=[(old,new)...] or FILES={file:[...]}, MAIN, NEEDS, BREAKS)
       seed.py run [ID...]   run the property's quick check against each planted change (in a copy of /repo)"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds the small program beside this file against the crate in the current directory and runs it
exec python3 - "$(cd "$(dirname "$0")" && pwd)" "$PWD" <<'PY'
import os, shutil, subprocess, sys, tempfile
here, repo = sys.argv[1:3]
with tempfile.TemporaryDirectory() as w:
    os.mkdir(os.path.join(w, "src"))
    shutil.copy(os.path.join(here, "main.rs"), os.path.join(w, "src", "main.rs"))
    open(os.path.join(w, "Cargo.toml"), "w").write('[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\namxml = { path = "%s" }\\n[workspace]\\n' % repo)
    try:
        r = subprocess.run(["cargo", "run", "-q", "--offline", "--target-dir", os.path.join(w, "t")], cwd=w, timeout=200,
                           env=dict(os.environ, RUSTFLAGS="-Awarnings")).returncode
    except subprocess.TimeoutExpired:
        r = 99
sys.exit(0 if r == 0 else 1)
PY
'''


def rep(p, prs):
    s = open(p, newline="").read()
    crlf = "\r\n" in s
    s = s.replace("\r\n", "\n")
    for a, b in prs:
        assert s.count(a) == 1, (p, s.count(a), a)
        s = s.replace(a, b)
    if crlf:
        s = s.replace("\n", "\r\n")
    open(p, "w", newline="").write(s)


def copy(d):
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    subprocess.check_call(["git", "-C", d, "checkout", "-q", "--", "."])


def add(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.environ.get("SEEDWT", "/tmp/seedwt")
    copy(d)
    files = ns.get("FILES") or {ns["FILE"]: ns["EDITS"]}
    for f, e in files.items():
        rep(os.path.join(d, f), e)
    out = os.path.join(V, "seeded", ns["ID"])
    os.makedirs(out, exist_ok=True)
    patch = subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE).stdout
    open(os.path.join(out, "patch.diff"), "wb").write(patch)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "main.rs"), "w").write(ns["MAIN"])
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    t = subprocess.run(["cargo", "test", "--workspace", "--no-fail-fast", "--locked", "--offline", "--", "--test-threads", "8"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = [l for l in t.stdout.splitlines() if l.startswith("error") or "FAILED" in l or "failed;" in l and " 0 failed;" not in l]
    r0 = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r1 = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = t.returncode == 0 and r0.returncode == 0 and r1.returncode != 0
    print("%s: tests rc %d, demo clean rc %d, demo patched rc %d -> %s" % (ns["ID"], t.returncode, r0.returncode, r1.returncode, "OK" if ok else "NOT USABLE"))
    if not ok:
        print("\n".join(bad[:12]), r0.stdout[-800:], r1.stdout[-300:])
        shutil.rmtree(out)
        return
    if not os.environ.get("VET"):
        run1(ns["ID"], d)


def run1(i, d):
    p = json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]
    r = subprocess.run([sys.executable, os.path.join(V, "check.py"), p, "quick"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=d))
    hit = ("VIOLATION property=%s " % p) in r.stdout
    print("  %s %s rc %d %s" % (i, p, r.returncode, "CAUGHT" if hit else "MISSED"))
    print("    " + "\n    ".join(x[:300] for x in r.stdout.splitlines()[:4]))
    f = os.path.join(V, "tools", "seed_results.json")
    m = json.load(open(f)) if os.path.exists(f) else {}
    by = sorted({re.match(r"\s+(\w+\([\d,]*\))", x).group(1) for x in r.stdout.splitlines() if re.match(r"\s+\w+\([\d,]*\) \w+:", x)})
    m[i] = "%s: %s" % (p, ", ".join(by[:3]) + (" and %d more" % (len(by) - 3) if len(by) > 3 else "")) if hit else "missed by %s" % p
    json.dump(m, open(f, "w"), indent=1, sort_keys=True)


if sys.argv[1] == "add":
    for s in sys.argv[2:]:
        add(s)
else:
    for i in sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded"))):
        d = "/tmp/seedwt"
        copy(d)
        r = subprocess.run(["git", "-C", d, "apply", os.path.join(V, "seeded", i, "patch.diff")], stderr=subprocess.STDOUT)
        if r.returncode:
            print(i, "DOES NOT APPLY")
            continue
        run1(i, d)
