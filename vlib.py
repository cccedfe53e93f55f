"""Build, job scheduling, replay and evidence for the symbolic checks."""
import hashlib, json, os, re, shutil, subprocess, sys, time, threading, queue, resource

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TC = "stable-x86_64-unknown-linux-gnu"
NPROC = max(2, min(8, os.cpu_count() or 8))


class BuildError(Exception):
    pass


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build"))
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode() + b"\0")
                    with open(q, "rb") as fh:
                        h.update(fh.read())
        elif os.path.exists(p):
            h.update(p.encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def sh(cmd, cwd, env=None, timeout=1500):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TC
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        err = [l for l in p.stdout.splitlines() if "warning" not in l]
        k = next((i for i, l in enumerate(err) if l.startswith("error")), max(0, len(err) - 30))
        raise BuildError("%s failed in %s:\n%s" % (" ".join(cmd), cwd, "\n".join(err[k:k + 40])))
    return p.stdout


def _clean_old(prefix, keep):
    if not os.path.isdir(BUILD):
        return
    ds = [d for d in os.listdir(BUILD) if d.startswith(prefix) and d != keep]
    ds.sort(key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in ds[:-2] if len(ds) > 2 else []:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)


def build_engine():
    h = tree_hash([os.path.join(VERIF, "engine", x) for x in ("src", "Cargo.toml", "build.rs")])
    t = os.path.join(BUILD, "engine-" + h)
    exe = os.path.join(t, "release", "symex")
    if not os.path.exists(os.path.join(t, "ok")):
        sh(["cargo", "build", "--release", "--offline", "--target-dir", t], os.path.join(VERIF, "engine"))
        open(os.path.join(t, "ok"), "w").close()
        _clean_old("engine-", "engine-" + h)
    return exe


def src_hash():
    return tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"),
                      os.path.join(VERIF, "harness", "src"), os.path.join(VERIF, "harness", "Cargo.toml"),
                      os.path.join(VERIF, "harness", "build.rs")])


def harness_dir():
    """The harness crate; when VERIF_REPO points elsewhere (experiments), a copy with that path dependency."""
    if REPO == "/repo":
        return os.path.join(VERIF, "harness")
    d = os.path.join(BUILD, "hcopy-" + hashlib.sha256(REPO.encode()).hexdigest()[:8])
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, "harness"), d)
    p = os.path.join(d, "Cargo.toml")
    s = open(p).read().replace('path = "/repo"', 'path = "%s"' % REPO)
    open(p, "w").write(s)
    return d


def build_ir(h, hd):
    t = os.path.join(BUILD, "ir-" + h)
    ir = os.path.join(t, "harness.ll")
    if not os.path.exists(os.path.join(t, "ok")):
        sh(["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "cdylib", "--target-dir", t], hd,
           {"RUSTFLAGS": "--emit=llvm-ir --cfg amxml_verif -Cno-vectorize-loops -Cno-vectorize-slp"})
        shutil.move(os.path.join(t, "release", "deps", "harness.ll"), ir)
        shutil.rmtree(os.path.join(t, "release"), ignore_errors=True)
        open(os.path.join(t, "ok"), "w").close()
        _clean_old("ir-", "ir-" + h)
    return ir


def build_replay(h, hd):
    t = os.path.join(BUILD, "replay-" + h)
    exe = os.path.join(t, "replay", "replay")
    if not os.path.exists(os.path.join(t, "ok")):
        sh(["cargo", "build", "--profile", "replay", "--offline", "--bin", "replay", "--target-dir", t], hd,
           {"RUSTFLAGS": "--cfg amxml_verif -Awarnings"})
        open(os.path.join(t, "ok"), "w").close()
        _clean_old("replay-", "replay-" + h)
    return exe


def build_all():
    os.makedirs(BUILD, exist_ok=True)
    h = src_hash()
    hd = harness_dir()
    res = {}

    def run(k, f):
        try:
            res[k] = f()
        except Exception as e:  # noqa
            res[k] = e
    ts = [threading.Thread(target=run, args=(k, f)) for k, f in
          (("engine", build_engine), ("ir", lambda: build_ir(h, hd)), ("replay", lambda: build_replay(h, hd)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for k in res:
        if isinstance(res[k], Exception):
            raise BuildError("%s: %s" % (k, res[k]))
    return res["engine"], res["ir"], res["replay"]


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay_lines(exe, lines, timeout=60):
    try:
        p = subprocess.run([exe], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           text=True, timeout=timeout, preexec_fn=_limits)
        return p.stdout.splitlines(), p.returncode
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return (o.decode() if isinstance(o, bytes) else o).splitlines(), "timeout"


def case_line(entry, params, inputs):
    return "%s|%s|%s" % (entry, ",".join(map(str, params)), ",".join(str(v) for _, v in inputs))


def confirm(exe, entry, v, params):
    """does the violation reproduce natively?  returns (bool, text)"""
    out, rc = replay_lines(exe, [case_line(entry, params, v["inputs"])], timeout=20)
    o = out[0] if out else ""
    if v["kind"] == "assert":
        return o.startswith("FAIL %d " % v["id"]) or o.strip() == "FAIL %d" % v["id"], o or str(rc)
    if v["kind"] == "panic":
        return o.startswith("PANIC") or (not out and rc not in (0, "timeout")), o or str(rc)
    if v["kind"] in ("hang", "overflow"):
        return rc == "timeout" or (not out and rc != 0), o or str(rc)
    return False, o
