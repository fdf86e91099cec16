#!/usr/bin/env python3
"""Decide one property of /repo's current tree by symbolic execution (see DESIGN.md).

  check.py C03 [--tier quick|thorough]     exit 0 held, 1 VIOLATION, 2 no answer
  check.py --setup                          build the engine
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)
WHAT = {
    101: "panics", 102: "does not terminate (instruction budget exceeded)", 103: "overflows the stack or touches memory out of bounds",
}


def die(msg):
    print("ERROR:", msg, file=sys.stderr)
    sys.exit(2)


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        die("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def files(*pats):
    return [f for p in pats for f in glob.glob(p, recursive=True) if os.path.isfile(f)]


def engine():
    src = files(VERIF + "/engine/src/*.rs", VERIF + "/engine/Cargo.*")
    tag = digest(src)
    out = os.path.join(BUILD, "engine")
    exe = os.path.join(out, "release", "mdsym")
    stamp = os.path.join(out, "stamp")
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == tag):
        run(["cargo", "build", "-q", "--release", "--offline"], cwd=VERIF + "/engine", env=dict(ENV, CARGO_TARGET_DIR=out))
        with open(stamp, "w") as f:
            f.write(tag)
    return exe


def program(exe):
    """Whole-program IR and native replay library of the harness over /repo's current tree, rebuilt on every run."""
    prog, so = os.path.join(BUILD, "p.bc"), os.path.join(BUILD, "replay", "replay", "libharness.so")
    os.makedirs(BUILD, exist_ok=True)
    old = files(BUILD + "/ir/sym/deps/*.bc", BUILD + "/ir/sym/deps/*.ll") + [prog, so]
    for f in old:
        if os.path.exists(f) and (f in (prog, so) or "harness" in os.path.basename(f)):
            os.remove(f)
    # whatever cargo thinks of time stamps, compile these two again (their dependencies stay)
    for d in glob.glob(BUILD + "/*/*/.fingerprint/*"):
        if re.match(r"(markdown-fmt|markdown_fmt|harness)-", os.path.basename(d)):
            shutil.rmtree(d)
    nat = subprocess.Popen(["cargo", "build", "-q", "--profile", "replay", "--offline"], cwd=VERIF + "/harness",
                           env=dict(ENV, CARGO_TARGET_DIR=BUILD + "/replay"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    run(["bash", VERIF + "/build_ir.sh", BUILD + "/ir"], env=ENV)
    bc = files(BUILD + "/ir/sym/deps/harness*.lto.after-restriction.bc")
    if len(bc) != 1:
        die("whole-program bitcode not found")
    run([exe, "prep", bc[0], prog, "h_entry"])
    out, _ = nat.communicate()
    if nat.returncode != 0:
        die("native build failed:\n" + out[-4000:])
    return prog, so


def known(prop):
    """The listed findings of this property: id -> (codes, input pattern, example line, text)."""
    ks = {}
    for l in open(VERIF + "/known_findings.txt"):
        m = re.match(r'known: property=(C\d+) id=(\S+) codes=(\S+) example=("(?:[^"\\]|\\.)*")(?: (w=\S+))?(?: (r=\S+))? input=/(.*)/ -- (.*)', l)
        if m and m[1] == prop:
            line = " ".join(x for x in (m[5] or "w=none", m[6] or "r=0") if x) + " :: " + escape(json.loads(m[4]))
            ks[m[2]] = ({int(c) for c in m[3].split(",")}, re.compile(m[7], re.S), line, m[8])
        elif l.startswith("known: ") and not m:
            die("bad line in known_findings.txt: " + l)
    return ks


def escape(doc):
    """A template line that denotes exactly this document."""
    o = ""
    for c in doc:
        o += {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\\": "\\\\", "{": "\\{"}.get(c) or (c if " " <= c < "\x7f" else "\\u{%x}" % ord(c))
    return o


def confirm(exe, so, num, v):
    """Replay a violating input natively; returns (code, output) - 102 when it hangs, 103 when it dies."""
    d = os.path.join(BUILD, "cand.%d.md" % os.getpid())
    with open(d, "wb") as f:
        f.write(v["doc"].encode())
    try:
        p = subprocess.run([exe, "native", so, str(num), str(-1 if v["width"] is None else v["width"]), str(v["flags"]), d],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20,
                           preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (4 << 30, 4 << 30)))
    except subprocess.TimeoutExpired:
        return 102, ""
    finally:
        os.remove(d)
    m = re.search(rb"\nverdict (\d+)\s*$", p.stdout)
    if not m:
        return 103, ""
    return int(m[1]), p.stdout[:m.start()].decode("utf-8", "replace")


def main():
    t0 = time.time()
    a = sys.argv[1:]
    if a == ["--setup"]:
        exe = engine()
        program(exe)
        return 0
    prop = a[0]
    num = int(prop[1:])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.chdir(VERIF)
    os.makedirs(BUILD, exist_ok=True)
    exe = engine()
    prog, so = program(exe)
    t1 = time.time()
    plan = json.load(open(VERIF + "/templates/plan.json"))
    sel = plan[tier]
    tfiles, lines = [], []
    for e in [e for e in sel["all"] if e not in sel.get("skip", {}).get(prop, [])] + sel.get(prop, []):
        if "%" in e:  # every n-th position of each document; which ones depends on the property and the seed
            name, n = e.split("%")
            out = os.path.join(BUILD, "%s.%s" % (prop, name))
            with open(os.path.join(VERIF, "templates", name)) as f, open(out, "w") as g:
                g.write(f.read().replace("m=r ::", "m=r every=%s off=%d ::" % (n, (num + seed) % int(n))))
            tfiles.append(out)
        elif e.endswith(".txt"):
            tfiles.append(os.path.join(VERIF, "templates", e))
        else:
            lines += ["--line", e]
    ks = known(prop)
    for k in ks.values():
        lines += ["--line", k[2]]
    deadline = float(os.environ.get("MDSYM_DEADLINE", sel.get("deadline", 500)))
    raw = os.path.join(BUILD, "raw.%s.json" % prop)
    if os.path.exists(raw):
        os.remove(raw)
    p = subprocess.run([exe, "check", prog, so, str(num), raw] + tfiles + lines +
                       ["--threads", str(os.cpu_count() or 8), "--deadline", str(deadline), "--seed", str(seed), "--maxviol", "20000"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(raw):
        die("executor failed:\n" + p.stdout[-4000:])
    r = json.load(open(raw))
    if r["errors"]:
        for e in r["errors"][:5]:
            print("executor error:", e[:400], file=sys.stderr)
    found, kn, unconfirmed = [], {}, []
    for v in r["violations"]:
        v["width"] = None if v["width"] == -1 else v["width"]
        c = v["code"]
        hit = [k for k in ks if c in ks[k][0] and ks[k][1].fullmatch(v["doc"])]
        if hit:
            kn.setdefault(hit[0], []).append(v)
        else:
            found.append(v)
    found.sort(key=lambda v: (len(v["doc"]), v["doc"]))
    confirmed = []
    for v in found[:40]:
        code, out = confirm(exe, so, num, v)
        if code >= 2:
            v["native_code"], v["native_output"] = code, out
            confirmed.append(v)
            if len(confirmed) >= 5:
                break
        else:
            unconfirmed.append(v)
    incomplete = [x["key"] for x in r["rows"] if not x["complete"]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": r["paths"], "transitions": r["decisions"], "traces_validated_against_impl": r["replays"],
            "samples": r["samples"][:12],
            "explanation": "states: execution paths of the real code (whole program: markdown-fmt, pulldown-cmark, std) through the property's assertion, each deciding "
                           "every input in its path condition; transitions: branch decisions on symbolic data, each decided by Z3 (a repeated query is answered from the cache "
                           "of Z3's answers); traces_validated: path representatives whose verdict and output the natively compiled code reproduced.",
            "symbolic_inputs": "template instances (document shapes with symbolic characters, width and reflow setting)",
            "templates": len(r["rows"]), "instances": r["instances"], "instances_complete": r["complete"],
            "inputs_decided": r["inputs_covered"], "paths_holding": r["holds"], "paths_outside_domain": r["outside"],
            "paths_violating": r["violating"] - sum(len(x) for x in kn.values()), "paths_known_findings": sum(len(x) for x in kn.values()),
            "reachability_notes": r["notes"], "forks": r["forks"], "instructions_executed": r["steps"],
            "functions_encoded": len(r["functions"]), "functions": r["functions"], "instructions_encoded": r["instructions_encoded"],
            "solver": "Z3 " + r["z3"], "queries": r["solver_queries"], "queries_cached": r["solver_cached"], "solver_s": r["solver_s"],
            "bounds": [{"template": x["key"], "inputs": x["inputs"], "decided": x["covered"], "paths": x["paths"]} for x in r["rows"][:: max(1, len(r["rows"]) // 60)]],
            "incomplete_templates": incomplete[:50],
            "undecided_paths": len(r["errors"]), "undecided": [e[:300] for e in r["errors"][:20]],
            "exhaustive": not incomplete and not r["errors"],
            "encoding_rebuilt_this_run": True, "build_s": round(t1 - t0, 1),
        },
        "assumptions": [
            "inputs are the documents the templates denote (bounds); documents outside them are not decided",
            "the IR executed is rustc's (opt-level 0, overflow checks on in markdown-fmt) linked with its dependencies; allocation never fails",
            "the oracle compares events of the same pulldown-cmark parser (trusted) with the options markdown-fmt uses",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(kn):
        print("KNOWN-FINDING: property=%s %s %s (e.g. %s)" % (prop, k, ks[k][3], json.dumps(kn[k][0]["doc"])))
    print("%s %s: %d instances (%d complete), %d inputs decided on %d paths, %d queries + %d cached, build %.0f s, %.0f s" % (
        prop, tier, r["instances"], r["complete"], r["inputs_covered"], r["paths"], r["solver_queries"], r["solver_cached"], t1 - t0, time.time() - t0))
    if confirmed:
        v = confirmed[0]
        d = os.path.join(BUILD, "violations")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "violations": confirmed}, f, indent=1)
        for v in confirmed[:3]:
            print("  %s width=%s reflow=%s: code %d %s\n    output %s" % (
                json.dumps(v["doc"]), v["width"], bool(v["flags"] & 1), v["native_code"], WHAT.get(v["native_code"], ""), json.dumps(v["native_output"][:300])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if unconfirmed:
        die("%d counterexamples did not reproduce natively, e.g. %r" % (len(unconfirmed), unconfirmed[0]["doc"]))
    if len(r["errors"]) > 0.02 * (r["paths"] + len(r["errors"])):
        die("%d paths were not decided: %s" % (len(r["errors"]), r["errors"][0][:300]))
    if r["holds"] == 0:
        die("vacuous: no path reached the assertion")
    return 0


if __name__ == "__main__":
    sys.exit(main())
