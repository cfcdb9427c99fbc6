"""Builds an offline cargo directory source from the crates that /repo's
Cargo.lock pins.  Crates that have a directory under /verif/models are copied
and overlaid with the model sources ("ideal primitives"); every other crate is
linked unchanged from the local registry."""
import os, re, json, shutil, sys

MODELS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "models")
REPLACE_SRC = {"pasta_curves", "blake2b_simd", "chacha20"}   # src/ fully replaced


def registry():
    base = os.path.expanduser("~/.cargo/registry/src")
    return [os.path.join(base, d) for d in sorted(os.listdir(base))]


def make(out, repo="/repo", models=True):
    lock = open(os.path.join(repo, "Cargo.lock")).read()
    os.makedirs(out, exist_ok=True)
    regs = registry()
    pat = (r'\[\[package\]\]\nname = "([^"]+)"\nversion = "([^"]+)"\n'
           r'source = "registry[^"]*"\nchecksum = "([0-9a-f]+)"')
    for m in re.finditer(pat, lock):
        n, v, c = m.groups()
        d = None
        for r in regs:
            if os.path.isdir(f"{r}/{n}-{v}"):
                d = f"{r}/{n}-{v}"
                break
        if d is None:
            continue
        o = f"{out}/{n}-{v}"
        if os.path.isdir(o):
            shutil.rmtree(o)
        model = os.path.join(MODELS, n)
        if models and os.path.isdir(model):
            shutil.copytree(d, o, ignore=shutil.ignore_patterns("benches", "book", "tests", "examples")
                            if n not in ("reddsa",) else None)
            if n in REPLACE_SRC:
                shutil.rmtree(o + "/src")
            shutil.copytree(model, o, dirs_exist_ok=True)
        else:
            os.makedirs(o)
            for f in os.listdir(d):
                os.symlink(f"{d}/{f}", f"{o}/{f}")
        cs = o + "/.cargo-checksum.json"
        if os.path.lexists(cs):
            os.unlink(cs)
        json.dump({"files": {}, "package": c}, open(cs, "w"))


if __name__ == "__main__":
    make(sys.argv[1])
