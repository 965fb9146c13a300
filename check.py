#!/usr/bin/env python3
"""check.py ID TIER | build
Builds the harness from /repo's working tree, runs the property's components, merges their reports into evidence/ID.json."""
import hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo/iOverlay"
TARGET = os.path.join(V, "target")
INNER = {"C17", "C18"}  # properties that also drive private code through /verif/inner and the hooks in /repo
PLAIN = {"C03"}  # properties that compare with the library built without its default features (/verif/plain)
NOTES = {}
# seconds after which a quick run leaves the rest of its cases out (it takes a tenth of that as a rule) and says so
BUDGET = {"engine": 380, "inner": 200}

def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()

def env(crate, cfgs=()):
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = target(crate)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    if cfgs:
        e["RUSTFLAGS"] = " ".join("--cfg verif_" + c for c in cfgs)
    return e

def target(crate):
    return TARGET if crate == "engine" else os.path.join(TARGET, crate)

def cargo(crate, cfgs, *a):
    return subprocess.run(["cargo", *a, "--offline"], cwd=os.path.join(V, crate), env=env(crate, cfgs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

HOOKS = ["cross", "grid", "near", "order"]

def build(crates):
    """cargo decides by mtime; a hash of the contents decides here, so that restored or back-dated files count"""
    h = tree_hash()
    res = {}
    for c in crates:
        stamp = os.path.join(V, ".last_build_hash_" + c)
        old = open(stamp).read().strip() if os.path.exists(stamp) else ""
        if old != h:
            if os.path.exists(stamp):
                os.remove(stamp)
            if old:
                cargo(c, (), "clean", "--release", "-p", "i_overlay")
        # the hooks of /repo are compiled into inner only; leave out those that no longer compile
        sets = [()]
        if c == "inner":
            sets = [tuple(HOOKS)] + [tuple(x for x in HOOKS if x != k) for k in HOOKS] + [(k,) for k in HOOKS]
        for f in sets:
            r = cargo(c, f, "build", "--release")
            if r.returncode == 0:
                break
        res[c] = r.returncode == 0
        if r.returncode != 0:
            print("\n".join([l for l in r.stdout.splitlines()][-60:]))
            print("BUILD of /verif/%s failed" % c)
            continue
        if f != sets[0]:
            NOTES[c] = "/verif/inner built with the hooks %s only" % ", ".join(f)
            print("NOTE: " + NOTES[c])
        with open(stamp, "w") as fh:
            fh.write(h)
    return res

def main():
    if sys.argv[1] == "build":
        r = build(["engine", "inner", "plain"])
        sys.exit(0 if r.get("engine") else 2)
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    crates = ["engine"] + (["inner"] if pid in INNER else [])
    ok = build(crates + (["plain"] if pid in PLAIN else []))
    if not ok.get("engine"):
        sys.exit(2)
    tb = time.time() - t0
    plain = os.path.join(target("plain"), "release", "plain")
    os.environ["VERIF_PLAIN"] = plain if ok.get("plain") else os.path.join(V, "no-plain-build")
    ev = os.path.join(V, "evidence")
    rp = os.path.join(V, "replays")
    os.makedirs(ev, exist_ok=True)
    frags, code, notes = [], 0, []
    if pid in PLAIN and not ok.get("plain"):
        notes.append("/verif/plain did not build: the comparison with the library built without default features was left out of this run")
    for c in crates:
        if not ok.get(c):
            notes.append("%s did not build: its components were left out of this run" % c)
            continue
        if c in NOTES:
            notes.append(NOTES[c])
        out = os.path.join(ev, ".%s-%s.frag" % (pid, c))
        if os.path.exists(out):
            os.remove(out)
        r = subprocess.run([os.path.join(target(c), "release", c), "run", pid, "--tier", tier, "--seed", str(seed), "--out", out, "--replays", rp] + (["--budget", str(BUDGET[c])] if tier == "quick" else []))
        if r.returncode not in (0, 1):
            print("ERROR: %s ended with %s" % (c, r.returncode))
            code = max(code, 2)
        elif r.returncode == 1:
            code = 1 if code in (0, 1) else code
        if os.path.exists(out):
            with open(out) as fh:
                frags.append(json.load(fh))
            os.remove(out)
    # a violation that was found stands even if another part of the run ended in an error
    if any(f["failures"] for f in frags):
        code = 1
    for f in frags:
        for k in f["components"]:
            if k["cases"] < k["planned"] and k["failure"] is None:
                notes.append("%s: the time budget ended it after %d of %d cases" % (k["component"], k["cases"], k["planned"]))
    findings = known(pid)
    viol = sum(len(f["failures"]) for f in frags)
    cov = {
        "evaluations": sum(f["evaluations"] for f in frags),
        "distinct_nontrivial": sum(f["distinct_nontrivial"] for f in frags),
        "rule": " | ".join(f["rule"] for f in frags),
        "samples": [s for f in frags for s in f["samples"]],
        "components": [c for f in frags for c in f["components"]],
        "failures": [x for f in frags for x in f["failures"]],
        "build_s": round(tb, 1),
    }
    if findings:
        cov["known_findings"] = findings
    rep = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": ASSUME.get(pid, []) + ASSUME["*"] + notes, "wall_s": round(time.time() - t0, 1), "violations": viol}
    with open(os.path.join(ev, pid + ".json"), "w") as fh:
        json.dump(rep, fh, indent=1)
        fh.write("\n")
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s %s seed %d: %d cases, %d distinct non-trivial, %d violations, %.1f s (build %.1f s)" % (pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], viol, time.time() - t0, tb))
    sys.exit(code)

def known(pid):
    """open findings (lines 'open: property=ID [case=NAME] text'): each is re-run by 'engine finding NAME', which exits 0 when it still fails"""
    f = os.path.join(V, "known_findings.txt")
    out = []
    if not os.path.exists(f):
        return out
    for l in open(f):
        m = re.match(r"open: property=(\S+) case=(\S+) (.*)", l.strip())
        if not m or m.group(1) != pid:
            continue
        r = subprocess.run([os.path.join(TARGET, "release", "engine"), "finding", m.group(2)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode == 0:
            out.append("%s (case %s)" % (m.group(3), m.group(2)))
        else:
            print("NOTE: listed finding %s no longer fails" % m.group(2))
    return out

ASSUME = {
    "*": ["the oracles in /verif/engine and /verif/kit are right; the external crates i_float, i_shape, i_tree and i_key_sort behave as pinned",
          "release build with overflow checks and debug assertions on"],
}
main()
