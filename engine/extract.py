"""Builds the MIR extractor and runs it over /repo's current working tree."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SWIG_REPO", "/repo")
MEMBERS = ["instructions", "state", "assertions", "no-padding"]
DEPS = ["swig_state", "swig_assertions", "swig_compact_instructions", "swig"]

class ExtractError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()

def cache_dir():
    d = os.environ.get("SWIG_CACHE") or os.path.join(VERIF, ".work")
    os.makedirs(d, exist_ok=True)
    return d

def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    roots = [os.path.join(REPO, m) for m in MEMBERS + ["program", "interface"]] + [os.path.join(VERIF, "analysis"), os.path.join(VERIF, "driver")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")]
    for r in roots:
        for dp, dn, fn in os.walk(r):
            dn[:] = sorted(x for x in dn if x not in ("target", "tests", ".git"))
            files += [os.path.join(dp, f) for f in sorted(fn) if f.endswith((".rs", ".toml", ".lock"))]
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]

def driver():
    src = os.path.join(VERIF, "driver/src/main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(cache_dir(), "mirdump-" + h)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = sh(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp])
        if r.returncode:
            raise ExtractError("driver build failed:\n" + r.stdout[-4000:])
        os.rename(tmp, out)
    return out

def layout(ws):
    os.makedirs(ws, exist_ok=True)
    for m in MEMBERS:
        os.symlink(os.path.join(REPO, m), os.path.join(ws, m))
    for m in ("program", "stubs", "probe"):
        shutil.copytree(os.path.join(VERIF, "analysis", m), os.path.join(ws, m))
    pt = os.path.join(ws, "program/Cargo.toml")
    s = open(pt).read().replace("/repo/", REPO.rstrip("/") + "/")
    open(pt, "w").write(s)
    if os.path.isdir(os.path.join(VERIF, "analysis", "probe2")):
        shutil.copytree(os.path.join(VERIF, "analysis", "probe2"), os.path.join(ws, "probe2"))
    text = open(os.path.join(REPO, "Cargo.toml")).read()
    text = re.sub(r"(?ms)^default-members\s*=\s*\[.*?\]\n", "", text)
    mem = MEMBERS + ["program", "probe", "stubs/shank", "stubs/pinocchio-token"]
    text, n = re.subn(r"(?ms)^members\s*=\s*\[.*?\]\n", lambda _: "members = [\n" + "".join('  "%s",\n' % m for m in mem) + "]\n", text)
    if n != 1:
        raise ExtractError("no members list in Cargo.toml")
    open(os.path.join(ws, "Cargo.toml"), "w").write(text)
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(ws, "Cargo.lock"))

def run_extract(out, cfg):
    d = driver()
    ws = tempfile.mkdtemp(prefix="swigws-")
    try:
        w = os.path.join(ws, "ws")
        layout(w)
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("CARGO_") and k != "CARGO_HOME":
                env.pop(k)
        env.pop("RUSTC_WRAPPER", None)
        env.pop("RUSTUP_TOOLCHAIN", None)
        flags = "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off -Awarnings"
        if cfg == "solana":
            flags += " --cfg target_os=\"solana\" -Aexplicit_builtin_cfgs_in_flags"
        env.update({
            "CARGO_TARGET_DIR": os.path.join(ws, "target"),
            "CARGO_NET_OFFLINE": "true",
            "CARGO_INCREMENTAL": "0",
            "RUSTFLAGS": flags,
            "RUSTC_WORKSPACE_WRAPPER": d,
            "LD_LIBRARY_PATH": sysroot() + "/lib",
            "MIRDUMP_CRATE": "probe",
            "MIRDUMP_DEPS": ",".join(DEPS),
            "MIRDUMP_OUT": out,
            "RUST_MIN_STACK": "67108864",
        })
        r = sh(["cargo", "+nightly", "check", "--offline", "-p", "probe"], cwd=w, env=env)
        if r.returncode or not os.path.exists(out):
            raise ExtractError("cargo check failed:\n" + "\n".join(l[:400] for l in r.stdout.splitlines() if "-L dependency" not in l)[-4000:])
    finally:
        shutil.rmtree(ws, ignore_errors=True)

def extract(cfg="host"):
    """Path of the JSON dump for the current tree (cached by content hash of every input file)."""
    c = cache_dir()
    key = tree_hash(cfg)
    out = os.path.join(c, "mir-%s-%s.json" % (cfg, key))
    with open(os.path.join(c, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            for f in os.listdir(c):
                if f.startswith(("mir-%s-" % cfg, "pkl-")) and time.time() - os.path.getmtime(os.path.join(c, f)) > 0:
                    os.unlink(os.path.join(c, f))
            tmp = out + ".tmp"
            run_extract(tmp, cfg)
            os.rename(tmp, out)
    return out

if __name__ == "__main__":
    t = time.time()
    try:
        p = extract(sys.argv[1] if len(sys.argv) > 1 else "host")
    except ExtractError as e:
        print(e); sys.exit(2)
    print(p, os.path.getsize(p), round(time.time() - t, 1))
