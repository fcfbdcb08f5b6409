#!/usr/bin/env python3
"""Decide one property of the crate in /repo by static analysis.

usage: check.py ID [--tier quick|thorough] [--repo DIR]
"""
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.pool
import os
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)
CACHE = os.environ.get("VERIF_CACHE", os.path.join(HERE, ".cache"))
NIGHTLY = "+nightly"
FEATURES = ["zeroize", "serde", "mime", "language-tags"]


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def fail(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def sysroot():
    r = sh(["rustc", NIGHTLY, "--print", "sysroot"])
    if r.returncode:
        fail("no nightly toolchain: " + r.stdout[-400:])
    return r.stdout.strip()


def build_driver():
    src = os.path.join(HERE, "driver", "main.rs")
    h = digest([src])
    d = os.path.join(CACHE, "driver-" + h)
    exe = os.path.join(d, "driver")
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        r = sh(["rustc", NIGHTLY, "--edition", "2024", "-O", src, "-o", tmp])
        if r.returncode:
            fail("the fact driver does not build:\n" + r.stdout[-3000:])
        os.rename(tmp, exe)
    return exe, h


def sources(repo):
    out = []
    for d, ds, fs in os.walk(os.path.join(repo, "src")):
        out += [os.path.join(d, f) for f in fs]
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(repo, f)
        if os.path.exists(p):
            out.append(p)
    return out


def configs(tier):
    if tier == "quick":
        return {"default": [], "all-features": ["--all-features"]}
    out = {}
    for m in range(1 << len(FEATURES)):
        fs = [f for i, f in enumerate(FEATURES) if m >> i & 1]
        n = "+".join(fs) or "none"
        out[n] = ["--no-default-features"] + (["--features", ",".join(fs)] if fs else [])
    return out


def one_facts(args):
    repo, exe, dh, name, flags, h, sr = args
    d = os.path.join(CACHE, "facts")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s.json" % (h, name))
    if os.path.exists(out):
        return name, out, None
    target = os.path.join(CACHE, "target-" + name)
    tmp = out + ".%d.tmp" % os.getpid()
    env = dict(os.environ, LD_LIBRARY_PATH=sr + "/lib", RUSTC_WRAPPER=exe, VCARD_FACTS_OUT=tmp,
               CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0")
    env.pop("RUSTFLAGS", None)
    # cargo would not run the compiler again for sources it has seen
    for x in (".fingerprint", "build"):
        fp = os.path.join(target, "debug", x)
        for y in os.listdir(fp) if os.path.isdir(fp) else []:
            if y == "vcard4" or y.startswith("vcard4-"):
                shutil.rmtree(os.path.join(fp, y), ignore_errors=True)
    for last in (False, True):
        r = sh(["cargo", NIGHTLY, "check", "--offline", "--lib", "-q"] + flags, cwd=repo, env=env)
        if r.returncode or os.path.exists(tmp) or last:
            break
        shutil.rmtree(target, ignore_errors=True)
    if r.returncode or not os.path.exists(tmp):
        return name, None, r.stdout[-3000:]
    os.rename(tmp, out)
    return name, out, None


def facts(repo, tier):
    exe, dh = build_driver()
    sr = sysroot()
    h = digest(sources(repo), dh)
    d = os.path.join(CACHE, "facts")
    if os.path.isdir(d):
        old = sorted((os.path.join(d, f) for f in os.listdir(d) if not f.startswith(h)), key=os.path.getmtime)
        for f in old[:-40]:
            try:
                os.remove(f)
            except OSError:
                pass
    jobs = [(repo, exe, dh, n, f, h, sr) for n, f in configs(tier).items()]
    with multiprocessing.pool.ThreadPool(min(8, len(jobs))) as pool:
        res = pool.map(one_facts, jobs)
    out = {}
    for n, f, e in res:
        if f is None:
            fail("cannot build %s (%s):\n%s" % (repo, n, e))
        out[n] = f
    return out


def analyse(job):
    pid, name, path, part = job
    import an
    import ctx
    import engine
    t = time.time()
    a = an.An(engine.Program(path), name)
    c = ctx.Ctx(a, pid)
    mod = importlib.import_module("rules." + pid)
    err = None
    try:
        if part is None:
            mod.check(c)
        else:
            mod.check(c, part)
    except an.Missing as e:
        c.missing(str(e))
    except engine.Abort as e:
        c.ob("analysis", False, "crate", "the analysis does not converge: %s" % e)
    except Exception:
        err = traceback.format_exc()
        c.ob("analysis", False, "crate", "the analysis could not be completed: " + err.strip().splitlines()[-1])
    roots = {}
    nb = 0
    for r in a.runs.values():
        roots[r.fn["name"]] = {"states": len(r.rets), "events": len(r.events), "blocks": r.E.nblocks,
                               "functions": len(r.E.visited_fns), "loops": r.E.loops_run}
        nb += r.E.nblocks
    return {"config": name, "part": part, "n": c.n, "discharged": c.discharged, "viol": c.viol, "counts": c.counts, "samples": c.samples,
            "notes": c.notes, "how": c.how, "roots": roots, "blocks": nb, "err": err, "wall": time.time() - t}


def merged(res):
    out = {}
    for r in res:
        o = out.setdefault(r["config"], {"obligations": {}, "roots": {}, "blocks_interpreted": 0, "discharged_by": {}, "cpu_s": 0})
        for k, v in r["counts"].items():
            o["obligations"][k] = o["obligations"].get(k, 0) + v
        for k, v in r["how"].items():
            o["discharged_by"][k] = o["discharged_by"].get(k, 0) + v
        o["roots"].update(r["roots"])
        o["blocks_interpreted"] += r["blocks"]
        o["cpu_s"] = round(o["cpu_s"] + r["wall"], 2)
    for o in out.values():
        if len(o["roots"]) > 40:
            n = len(o["roots"])
            o["roots"] = dict(sorted(o["roots"].items(), key=lambda x: -x[1]["blocks"])[:40])
            o["roots_total"] = n
        o["discharged_by"] = dict(sorted(o["discharged_by"].items(), key=lambda x: -x[1])[:12])
    return out


def known(pid):
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                ident, _, desc = rest.partition(" :: ")
                out.append((ident, desc or ident))
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--no-evidence", action="store_true")
    o = ap.parse_args()
    t0 = time.time()
    sys.setrecursionlimit(20000)
    fs = facts(o.repo, o.tier)
    mod = importlib.import_module("rules." + o.id)
    cfgs = getattr(mod, "CONFIGS", {}).get(o.tier)
    parts = getattr(mod, "PARTS", [None])
    jobs = [(o.id, n, f, p) for p in parts for n, f in fs.items() if cfgs is None or n in cfgs]
    with multiprocessing.Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        res = pool.map(analyse, jobs, chunksize=1)
    errs = [r for r in res if r["err"]]
    kn = known(o.id)
    viol, found = [], {}
    for r in res:
        for v in r["viol"]:
            ident = "%s@%s" % (v["rule"], v.get("key") or v["where"])
            hit = next((k for k in kn if k[0] == v.get("ident", ident)), None)
            if hit:
                found[hit[0]] = hit[1]
            else:
                viol.append(v)
    for k, d in sorted(found.items()):
        print("KNOWN-FINDING: property=%s %s" % (o.id, d))
    n = sum(r["n"] for r in res)
    disc = sum(r["discharged"] for r in res)
    level = getattr(mod, "LEVEL", "proof")
    cov = {
        "explanation": mod.__doc__.strip(),
        "obligations": n,
        "discharged": disc,
        "checker_cmd": "python3 check.py %s --tier %s" % (o.id, o.tier),
        "trusted_base": getattr(mod, "TRUST", TRUST),
        "configurations": merged(res),
        "samples": [dict(s, config=r["config"]) for r in res[:1] for s in r["samples"]],
        "notes": sorted({x for r in res for x in r["notes"]}),
        "known_findings": sorted(found),
    }
    ev = {"property": o.id, "tier": o.tier if o.tier in ("quick", "thorough") else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov,
          "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    if not o.no_evidence:
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, o.id + ".json"), "w"), indent=1)
    for r in errs:
        print("ERROR in configuration %s\n%s" % (r["config"], r["err"]))
    if viol:
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, o.id + ".violation.json")
        json.dump(viol, open(path, "w"), indent=1)
        for v in viol[:12]:
            print("  [%s] %s: %s (%s)" % (v["rule"], v["where"], v["what"], v["config"]))
        print("VIOLATION property=%s replay=%s" % (o.id, path))
        sys.exit(1)
    print("ok: %s, %d obligations discharged in %d analyses, %.1f s" % (o.id, disc, len(res), time.time() - t0))
    sys.exit(0)


TRUST = [
    "rustc's MIR construction and trait resolution (the facts come from its own type-checked bodies before optimisation)",
    "the models of std, logos, aho-corasick, time, uriparse, mime and language-tags calls in engine/models.py",
    "the fixpoint engine in engine/engine.py",
]


if __name__ == "__main__":
    main()
