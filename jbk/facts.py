"""Extraction and loading of the resolved program (MIR facts) of /repo.

Every run re-extracts from the current working tree: the rustc_private driver in
/verif/driver is injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly
check --features all --lib --bins`; cargo's fingerprints of the workspace crate are
removed first so that the wrapper always runs.
"""
import glob, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JBK_REPO", "/repo")
BUILD = os.environ.get("JBK_BUILD", os.path.join(VERIF, "build"))
DRIVER = os.path.join(VERIF, "driver")


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN",
              "CARGO_INCREMENTAL", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
    return e


def _run(cmd, cwd, env, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def build_driver():
    env = _env()
    tgt = os.path.join(BUILD, "driver")
    env["CARGO_TARGET_DIR"] = tgt
    rc, out = _run(["cargo", "build", "--release", "--offline"], DRIVER, env)
    if rc != 0:
        raise ExtractError("cannot build the fact extractor:\n" + out[-4000:])
    return os.path.join(tgt, "release", "jbkfacts")


def extract(mode="release", repo=None):
    """Returns the directory holding jubako-lib.json and jbk-bin.json."""
    repo = repo or REPO
    drv = build_driver()
    env = _env()
    rc, sysroot = _run(["rustc", "--print", "sysroot"], "/", env)
    if rc != 0:
        raise ExtractError("no nightly toolchain: " + sysroot)
    sysroot = sysroot.strip().splitlines()[-1]
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
    tgt = os.path.join(BUILD, "target-" + mode)
    env["CARGO_TARGET_DIR"] = tgt
    env["CARGO_INCREMENTAL"] = "0"
    env["RUSTC_WORKSPACE_WRAPPER"] = drv
    out = os.path.join(BUILD, "facts-%s-%d" % (mode, os.getpid()))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env["JBKFACTS_OUT"] = out
    env["JBKFACTS_MODE"] = mode
    # cargo's freshness cache would skip the wrapper: drop whatever it remembers of the
    # workspace crate (both the old and the new layout of the build directory).
    for pat in (("debug", ".fingerprint", "jubako-*"), ("debug", "build", "jubako"),
                ("debug", "build", "jubako-*"), ("debug", "deps", "*jubako*"), ("debug", "deps", "*jbk-*")):
        for f in glob.glob(os.path.join(tgt, *pat)):
            if os.path.isdir(f):
                shutil.rmtree(f, ignore_errors=True)
            else:
                os.unlink(f)
    rc, txt = _run(["cargo", "check", "--offline", "--features", "all", "--lib", "--bins",
                    "--manifest-path", os.path.join(repo, "Cargo.toml")], repo, env)
    if rc != 0:
        raise ExtractError("cargo check of the repository failed:\n" + txt[-4000:])
    for n in ("jubako-lib.json", "jbk-bin.json"):
        if not os.path.exists(os.path.join(out, n)):
            raise ExtractError("no facts produced for %s:\n%s" % (n, txt[-2000:]))
    return out


class Crate:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.name = d["crate"]
        self.types = d["types"]
        self.adts = d["adts"]
        self.impls = d["impls"]
        self.consts = d["consts"]
        self.fns = d["fns"]
        self.by_path = {}
        for k, f in self.fns.items():
            f["key"] = k
            self.by_path.setdefault(f["path"], []).append(k)

    def local_fns(self):
        return [f for f in self.fns.values() if f["local"]]


def load(mode="release", repo=None, which=("lib",)):
    d = extract(mode, repo)
    try:
        r = []
        for w in which:
            r.append(Crate(os.path.join(d, {"lib": "jubako-lib.json", "bin": "jbk-bin.json"}[w])))
    finally:
        if not os.environ.get("JBK_KEEP_FACTS"):
            shutil.rmtree(d, ignore_errors=True)
    return r if len(r) > 1 else r[0]
