#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]

Decides one property: builds the harness crate against /repo's working tree
(with the primitives replaced by the ideal models of /verif/models), lets Kani
compile the real functions to a bit-precise program and CBMC decide every
assertion for all inputs, replays counterexamples natively, and writes
evidence/PROPERTY.json.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, signal

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks
import vendor

REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLCHAIN = "nightly-2026-08-21"
# the budget of one check, with some reserve for the replays
BUDGET = {"quick": 840, "thorough": 4 * 3600}


def env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS",
              "CARGO_BUILD_TARGET", "RUSTC", "CARGO_INCREMENTAL", "RUST_BACKTRACE"):
        e.pop(k, None)
    for k in list(e):
        if k.startswith("CARGO_PROFILE_"):
            e.pop(k)
    e["HOME"] = os.path.expanduser("~") if "HOME" not in e else e["HOME"]
    e["PATH"] = e["HOME"] + "/.cargo/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def run(cmd, cwd, timeout, out, extra=None, mem_gb=26):
    """Runs cmd in its own process group; returns its code or None on timeout."""
    e = env()
    e.update(extra or {})
    with open(out, "w") as f:
        p = subprocess.Popen(["bash", "-c", f"ulimit -v {mem_gb * 1000000}; exec \"$@\"", "x"] + cmd,
                             cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            return p.wait(timeout=max(5, timeout))
        except subprocess.TimeoutExpired:
            return None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


class Work:
    def __init__(self, prop):
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=base)
        self.h = self.dir + "/h"
        shutil.copytree(HERE + "/harness", self.h)
        if REPO != "/repo":
            t = open(self.h + "/Cargo.toml").read().replace('path = "/repo"', f'path = "{REPO}"')
            open(self.h + "/Cargo.toml", "w").write(t)
        vendor.make(self.dir + "/vendor", REPO)
        os.makedirs(self.h + "/.cargo")
        with open(self.h + "/.cargo/config.toml", "w") as f:
            f.write('[source.crates-io]\nreplace-with = "v"\n[source.v]\n'
                    f'directory = "{self.dir}/vendor"\n[net]\noffline = true\n')

    def close(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)


KFLAGS = ["--no-memory-safety-checks", "--no-assertion-reach-checks", "-Z", "unstable-options"]
RUSTFLAGS = "--cfg orchard_verif -Zmir-opt-level=2 -Zinline-mir=yes"


def cbmc_args(spec):
    # these have to come last on the command line
    return ["--cbmc-args"] + spec["cbmc"] if spec.get("cbmc") else []


def kani(w, harnesses, timeout, jobs, per, last):
    # full name after the module; --exact needs the whole path
    a = []
    for h in harnesses:
        m, n = h.split("::")
        a += ["--harness", f"{m}::proofs::{n}"]
    log = w.dir + "/kani.log"
    rc = run(["cargo", "kani", "--exact"] + a + KFLAGS +
             ["--output-into-files", "-j", str(jobs), "--output-format", "terse",
              "--harness-timeout", f"{int(per)}s"] + last,
             w.h, timeout, log, {"RUSTFLAGS": RUSTFLAGS})
    res = {}
    for root, dirs, _ in os.walk(w.h):
        if "result_output_dir" in dirs:
            d = os.path.join(root, "result_output_dir")
            for h in harnesses:
                m, n = h.split("::")
                p = os.path.join(d, f"{m}::proofs::{n}")
                if os.path.exists(p):
                    res[h] = open(p, errors="replace").read()
            break
    return rc, log, res


CHECK = re.compile(r"^Check \d+: (.+)\n\s+- Status: (\w+)\n\s+- Description: \"(.*)\"\n(?:\s+- Location: (.*)\n)?", re.M)


def parse(txt):
    """-> dict(status, failed[], undecided, checks, covers, functions, time)"""
    r = {"status": "none", "failed": [], "checks": 0, "covers": (0, 0), "functions": set(), "time": 0.0, "bad": []}
    covers = {}
    for name, st, desc, loc in CHECK.findall(txt):
        fn = (loc or "").rsplit(" in function ", 1)
        if len(fn) == 2:
            r["functions"].add((fn[0].split(":")[0], re.sub(r"::<.*", "", fn[1])))
        if st in ("SATISFIED", "UNSATISFIABLE") or ".cover." in name:
            # the optimizer may duplicate a witness: one copy has to be reachable
            covers[desc] = covers.get(desc, False) or st == "SATISFIED"
            continue
        r["checks"] += 1
        if st == "FAILURE":
            r["failed"].append((name, desc, loc))
        elif st not in ("SUCCESS", "UNREACHABLE"):
            r["bad"].append((name, st, desc))
    r["covers"] = (sum(covers.values()), len(covers))
    m = re.search(r"VERIFICATION:- (\w+)", txt)
    if m:
        r["status"] = m.group(1)
    m = re.search(r"Verification Time: ([\d.]+)s", txt)
    if m:
        r["time"] = float(m.group(1))
    return r


def encoded(w):
    """The functions of the repository that are in the goto programs."""
    names = set()
    for root, _, files in os.walk(w.h + "/target/kani"):
        for f in files:
            if f.endswith(".symtab.out"):
                b = open(os.path.join(root, f), "rb").read()
                for m in re.findall(rb"<?orchard::[ -~]{3,300}", b):
                    n = m.decode()
                    while True:
                        k = re.sub(r"(::)?<[^<>]*>", "", n)
                        if k == n:
                            break
                        n = k
                    if "<" in n or ">" in n or "{" in n:
                        n = re.split(r"[<>{]", n)[0]
                    if "::1::" in n:
                        continue
                    if re.fullmatch(r"orchard(::\w+)*::[a-z]\w*", n) and n.count("::") > 1:
                        names.add(n)
    return sorted(names)


def machinery(f):
    """Failures that say that the analysis was incomplete, not that the code is wrong."""
    name, desc, _ = f
    return "unwinding assertion" in desc or "unwind" in name or "unsupported" in desc.lower() or "recursion" in name


PLAYBACK = re.compile(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", re.S)


def counterexamples(w, h, timeout, last):
    m, n = h.split("::")
    log = w.dir + f"/cex-{n}.log"
    run(["cargo", "kani", "--exact", "--harness", f"{m}::proofs::{n}"] + KFLAGS +
        ["-Z", "concrete-playback", "--concrete-playback=print"] + last,
        w.h, timeout, log, {"RUSTFLAGS": RUSTFLAGS})
    txt = open(log, errors="replace").read()
    out = []
    for body in PLAYBACK.findall(txt):
        data = bytearray()
        for v in re.findall(r"vec!\[([\d,\s]*)\]", body):
            data += bytes(int(x) for x in v.replace(",", " ").split())
        if bytes(data) not in out:
            out.append(bytes(data))
    return out


def native(w, timeout):
    rc = run(["cargo", f"+{TOOLCHAIN}", "build", "--offline", "--bin", "replay", "--target-dir", w.dir + "/native"],
             w.h, timeout, w.dir + "/native.log", {"RUSTFLAGS": "--cfg orchard_verif"})
    p = w.dir + "/native/debug/replay"
    return p if rc == 0 and os.path.exists(p) else None


def known_findings():
    r = []
    p = HERE + "/known-findings.jsonl"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                r.append(json.loads(l))
    return r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = checks.CHECKS[prop]
    hs = list(spec["quick"]) + (list(spec.get("thorough", [])) if tier == "thorough" else [])
    t0 = time.time()
    end = t0 + BUDGET.get(tier, 840)
    w = Work(prop)
    try:
        return decide(prop, tier, seed, spec, hs, t0, end, w)
    finally:
        w.close()


def decide(prop, tier, seed, spec, hs, t0, end, w):
    jobs = spec.get("jobs", 8)
    per = spec.get("harness_timeout", 600) if tier == "quick" else 7200
    rc, log, res = kani(w, hs, end - time.time() - 30, jobs, min(per, end - time.time() - 60), cbmc_args(spec))
    if not res:
        print(open(log, errors="replace").read()[-6000:])
        print(f"ERROR property={prop}: the harnesses could not be built or run")
        return 2
    known = [k for k in known_findings() if k.get("property") == prop and k.get("kind") == "known"]
    violations, errors, notes = [], [], []
    tot = {"checks": 0, "time": 0.0, "covers": 0}
    functions, per_h, replays = set(), [], 0
    replay_bin = None
    for h in hs:
        if h not in res:
            errors.append(f"{h}: no result")
            continue
        r = parse(res[h])
        tot["checks"] += r["checks"]
        tot["time"] += r["time"]
        tot["covers"] += r["covers"][0]
        functions |= r["functions"]
        per_h.append({"harness": h, "result": r["status"], "assertions": r["checks"], "failed": len(r["failed"]),
                      "witnesses": f"{r['covers'][0]}/{r['covers'][1]}", "solver_s": r["time"]})
        if r["status"] == "SUCCESSFUL" and not r["failed"] and not r["bad"] and r["covers"][0] == r["covers"][1] > 0:
            continue
        fails = [f for f in r["failed"] if not machinery(f)]
        if not fails:
            if r["status"] == "SUCCESSFUL":
                errors.append(f"{h}: a witness is not reachable ({r['covers'][0]} of {r['covers'][1]})")
            else:
                errors.append(f"{h}: undecided ({r['status']}; {[f[1] for f in r['failed']][:2]} {r['bad'][:2]})")
            continue
        # the solver found counterexamples: replay them against the real code
        if violations and time.time() > end - 200:
            continue
        if replay_bin is None:
            replay_bin = native(w, end - time.time())
            if replay_bin is None:
                errors.append("the replay program does not build: " + open(w.dir + "/native.log").read()[-1500:])
                break
        ok = False
        cexs = counterexamples(w, h, end - time.time() - 20, cbmc_args(spec))
        for i, data in enumerate(cexs):
            replays += 1
            p = f"{w.dir}/cex.bin"
            open(p, "wb").write(data)
            code = run([replay_bin, h, p], w.h, 60, w.dir + "/replay.log")
            if code == 1 or (code is not None and code < 0):
                d = f"{HERE}/evidence/replay"
                os.makedirs(d, exist_ok=True)
                dst = f"{d}/{prop}-{h.replace('::', '-')}.bin"
                shutil.copy(p, dst)
                msg = [l for l in open(w.dir + "/replay.log", errors="replace").read().splitlines() if l.strip()]
                msg = " ".join(msg[:3])[:300]
                key = h
                kn = [k for k in known if k["harness"] == h and re.search(k["match"], msg)]
                if kn:
                    notes.append(f"KNOWN-FINDING: property={prop} {kn[0]['what']}")
                    ok = True
                    continue
                violations.append((h, dst, msg, fails[0]))
                ok = True
                break
        if not ok:
            errors.append(f"{h}: counterexample for {fails[0][1:]} did not reproduce ({len(cexs)} tried)")
        if violations:
            break
    src = encoded(w)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "other"),
        "coverage": {
            "explanation": spec["explanation"],
            "engine": "Kani 0.68 / CBMC 6.11 (bit-precise symbolic execution of the compiled MIR, SAT)",
            "bounds": spec["bounds"],
            "queries": len(per_h),
            "obligations": tot["checks"],
            "discharged": tot["checks"] - sum(x["failed"] for x in per_h),
            "witnesses_reached": tot["covers"],
            "solver_s": round(tot["time"], 1),
            "counterexamples_replayed": replays,
            "functions_encoded": src,
            "samples": per_h,
        },
        "assumptions": spec.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{HERE}/evidence/{prop}.json", "w"), indent=1)
    for x in per_h:
        print(f"  {x['harness']}: {x['result']} assertions={x['assertions']} witnesses={x['witnesses']} {x['solver_s']:.1f}s")
    for n in notes:
        print(n)
    for h, p, msg, f in violations:
        print(f"  {h}: {f[1]} at {f[2]}; replayed: {msg}")
        print(f"VIOLATION property={prop} replay={p}")
    if violations:
        return 1
    if errors:
        for e in errors:
            print(f"ERROR property={prop}: {e}")
        return 2
    print(f"OK property={prop}: {tot['checks']} assertions in {len(per_h)} harnesses, {ev['wall_s']} s")
    return 0


COMMON = [
    "The primitives (curve and field arithmetic, hashes, Sinsemilla, Poseidon, AEAD, FF1, Schnorr signatures, the "
    "proof system) are replaced by ideal models with the same interfaces; their own correctness is assumed.",
    "Counterexamples are replayed natively against the same code linked with the same models.",
]

if __name__ == "__main__":
    sys.exit(main())
