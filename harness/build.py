"""Build the Python extension from /repo's current tree (plus the verification-only `_vh` module)."""
import os, re, shutil, subprocess, sys, glob, fcntl, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, "build")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/vp/venv/bin/python"
MODS = ("vh_int", "vh_buf", "vh_elem", "vh_msg", "vh_oid")


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", CARGO_TARGET_DIR=os.path.join(BUILD, "target"), PYO3_PYTHON=PY, CARGO_INCREMENTAL="1",
             PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"))
    e.pop("RUSTFLAGS", None)
    return e


def sync(src, dst):
    """copy changed files only (cargo works by mtime)"""
    seen = set()
    for root, _, files in os.walk(src):
        for f in files:
            if f.endswith((".so", ".pyc")) or "__pycache__" in root:
                continue
            p = os.path.join(root, f)
            q = os.path.join(dst, os.path.relpath(p, src))
            seen.add(q)
            put(q, open(p, "rb").read())
    for root, _, files in os.walk(dst):
        for f in files:
            q = os.path.join(root, f)
            if q not in seen and not f.startswith(("vh_", "vharness")) and not f.endswith(".so"):
                os.unlink(q)


def put(q, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        if open(q, "rb").read() == data:
            return
    except OSError:
        os.makedirs(os.path.dirname(q), exist_ok=True)
    open(q, "wb").write(data)


def vharness(mods):
    use = "".join(f'#[path = "{m}.rs"]\nmod {m};\n' for m in mods)
    reg = "".join(f"    {m}::register(m)?;\n" for m in mods)
    return (f"#![allow(dead_code)]\nuse pyo3::prelude::*;\n{use}\n#[pymodule]\n#[pyo3(name = \"_vh\")]\n"
            f"fn vh_module(m: &Bound<'_, PyModule>) -> PyResult<()> {{\n    let _ = &m;\n{reg}    Ok(())\n}}\n")


def build():
    """-> (python path, list of usable vh modules, log)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build()


def _build():
    crate = os.path.join(BUILD, "crate")
    sync(os.path.join(REPO, "src"), os.path.join(crate, "src"))
    toml = open(os.path.join(REPO, "Cargo.toml")).read()
    parts = re.split(r"(?m)^(?=\[)", toml)
    parts = [p for p in parts if not p.startswith(("[[bench]]", "[dev-dependencies]", "[workspace"))]
    toml = "".join(parts) + "\n[workspace]\n\n[profile.vh]\ninherits = \"release\"\nlto = false\nopt-level = 2\noverflow-checks = true\nincremental = true\ncodegen-units = 32\n"
    put(os.path.join(crate, "Cargo.toml"), toml)
    lock = os.path.join(crate, "Cargo.lock")
    if not os.path.exists(lock):
        src = os.path.join(REPO, "Cargo.lock")
        shutil.copy(src if os.path.exists(src) else os.path.join(HERE, "Cargo.lock"), lock)
    lib = os.path.join(crate, "src", "lib.rs")
    put(lib, open(os.path.join(REPO, "src", "lib.rs")).read() + "\n#[path = \"vharness.rs\"]\nmod vharness;\n")
    for m in MODS:
        put(os.path.join(crate, "src", m + ".rs"), open(os.path.join(HERE, "rs", m + ".rs")).read())
    mods, log = list(MODS), []
    while True:
        put(os.path.join(crate, "src", "vharness.rs"), vharness(mods))
        p = subprocess.run(["cargo", "build", "--profile", "vh", "--lib", "--offline"], cwd=crate, env=env(),
                           capture_output=True, text=True)
        if p.returncode == 0:
            break
        log.append(p.stderr[-6000:])
        bad = set()
        for blk in re.split(r"\n(?=error)", p.stderr):
            if blk.startswith("error"):
                bad |= set(re.findall(r"src/(vh_\w+)\.rs", blk))
        bad &= set(mods)
        if not bad:
            if mods:
                mods = []
                continue
            raise SystemExit("build failed:\n" + p.stderr[-4000:])
        mods = [m for m in mods if m not in bad]
    pkg = os.path.join(BUILD, "py")
    sync(os.path.join(REPO, "src", "gufo"), os.path.join(pkg, "gufo"))
    so = os.path.join(BUILD, "target", "vh", "libgufo_snmp.so")
    put(os.path.join(pkg, "gufo", "snmp", "_fast.so"), open(so, "rb").read())
    return pkg, mods, log


if __name__ == "__main__":
    print(build())
