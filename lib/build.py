# Builds what a check needs from /repo's current working tree: the engine, the LLVM IR of the crate
# with the harnesses in it, and a native program that replays recorded inputs through the same code.
import os, re, shutil, subprocess, hashlib, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ND_REPO", "/repo")
TARGET = "x86_64-unknown-linux-gnu"

ENV = dict(os.environ)
ENV.update({
    "HOME": os.environ.get("HOME", "/root"),
    "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
    "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
    "RUSTC_WRAPPER": "", "CARGO_INCREMENTAL": "0",
})
ENV["PATH"] = ENV["HOME"] + "/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTFLAGS",
          "CARGO_PROFILE_DEV_DEBUG"):
    ENV.pop(k, None)


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-6000:]))
    return p.stdout.decode("utf-8", "replace")


def engine():
    d = os.path.join(VERIF, "engine")
    sh(["cargo", "build", "--release", "--offline", "--quiet"], cwd=d)
    return os.path.join(d, "target", "release", "ndx")


def strip_tests(text):
    return text


def overlay(src, block, margin):
    """the copied source with small buffer sizes, so that few bytes already cross buffer boundaries"""
    n = 0
    for root, _, files in os.walk(src):
        for f in files:
            if not f.endswith(".rs"):
                continue
            p = os.path.join(root, f)
            t = open(p).read()
            t2, k = re.subn(r"(const\s+BLOCK_SIZE\s*:\s*usize\s*=)[^;]*;", r"\1 %d;" % block, t)
            n += k
            if margin is not None:
                t2 = re.sub(r"(const\s+MARGIN_SIZE\s*:\s*usize\s*=)[^;]*;", r"\1 %d;" % margin, t2)
            if t2 != t:
                open(p, "w").write(t2)
    return n


def patch_std(src, subst):
    for root, _, files in os.walk(src):
        for f in files:
            if f.endswith(".rs"):
                p = os.path.join(root, f)
                t = open(p).read()
                t2 = t
                for a, b in subst:
                    t2 = re.sub(a, b, t2)
                if t2 != t:
                    open(p, "w").write(t2)


def shadow_std(src, name, dirs):
    """what `std` means in parts of the source: the stand-ins of a module of the harness"""
    for d in dirs:
        for root, _, files in os.walk(os.path.join(src, d)):
            if d == "." and root != os.path.join(src, d):
                continue
            for f in files:
                p = os.path.join(root, f)
                t = open(p).read()
                if f.endswith(".rs") and re.search(r"\bstd\b", t):
                    m = re.search(r"(?m)^(use|pub|mod|fn|struct|enum|impl|const|static|type|trait|#\[)", t)
                    if m:
                        open(p, "w").write(t[:m.start()] + "use crate::%s as std;\n" % name + t[m.start():])


def fake_main(src):
    """the program takes its arguments from the harness"""
    p = os.path.join(src, "main.rs")
    t = open(p).read()
    args, bad = "crate::fakefs::args()", "unwrap_or_else(|e| crate::fakefs::usage(e))"
    t = re.sub(r"\.get_matches(_mut)?\(\)", r".try_get_matches_from\1(%s).%s" % (args, bad), t)
    t = re.sub(r"\.try_get_matches\(\)", ".try_get_matches_from(%s)" % args, t)
    t = re.sub(r"\b(\w*Args)::parse\(\)", r"\1::try_parse_from(%s).%s" % (args, bad), t)
    t = re.sub(r"\b(\w*Args)::try_parse\(\)", r"\1::try_parse_from(%s)" % args, t)
    open(p, "w").write(t)


MODULES = ["nd", "run", "refm"]
NEEDS = {"h_run": ["fakestd", "fakefs"], "h_regex": ["h_segs"], "h_parse": ["h_text"], "h_format": ["h_segs", "h_text"], "h_out": ["h_segs", "h_text", "h_format"], "h_main": ["h_segs", "h_text", "h_format"], "h_back": ["fakestd", "h_segs", "h_text", "h_format"]}  # harness modules that use another


def closure(modules):
    out = []
    for m in modules:
        for x in NEEDS.get(m, []) + [m]:
            if x not in out:
                out.append(x)
    return out


def sync(dst, files):
    """write files (name -> text) below dst, leaving unchanged ones alone, removing others"""
    have = set()
    for root, _, fs in os.walk(dst):
        for f in fs:
            have.add(os.path.relpath(os.path.join(root, f), dst))
    for n, t in files.items():
        p = os.path.join(dst, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if n in have:
            have.discard(n)
            if open(p, "rb").read() == t:
                continue
        open(p, "wb").write(t)
    for n in have:
        os.unlink(os.path.join(dst, n))


def make_crate(work, modules, block=8, margin=None, native=False, subst=()):
    """work/: a crate with a copy of /repo/src plus the harness modules"""
    tmp = work + ".new"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(tmp, "src"))
    src = os.path.join(tmp, "src")
    if block is not None:
        if overlay(src, block, margin) == 0:
            raise BuildError("no BLOCK_SIZE constant found in the source")
    if subst:
        patch_std(src, subst)
    hdir = os.path.join(VERIF, "harness")
    modules = closure(modules)
    if "fakefs" in modules:
        shadow_std(src, "fakefs", [".", "byte", "drain", "segment", "text"])
        fake_main(src)
        # the crate root has to be a file of its own for its `std` to be another one
        lib = ["#![allow(dead_code, unused, clippy::all)]", open(os.path.join(src, "main.rs")).read()]
    else:
        if "fakestd" in modules:
            shadow_std(src, "fakestd", ["byte", "drain", "segment"])
        lib = ["#![allow(dead_code, unused, clippy::all)]", 'include!("main.rs");']
    for m in MODULES + list(modules):
        shutil.copy(os.path.join(hdir, m + ".rs"), os.path.join(src, m + ".rs"))
        lib.append("mod %s;" % m)
    entries = []
    for m in modules:
        t = open(os.path.join(hdir, m + ".rs")).read()
        for e in re.findall(r'pub extern "C" fn (\w+)\(\)', t):
            entries.append((m, e))
    cargo = open(os.path.join(REPO, "Cargo.toml")).read()
    deps = re.search(r"\[dependencies\]\n(.*?)(\n\[|\Z)", cargo, re.S).group(1)
    edition = re.search(r'edition\s*=\s*"(\d+)"', cargo).group(1)
    manifest = ['[package]', 'name = "ndh"', 'version = "0.0.1"', 'edition = "%s"' % edition, '',
                '[workspace]', '', '[features]', 'native = []', '', '[dependencies]', deps, '']
    if native:
        lib.append("pub fn entry(n: &str) -> Option<extern \"C\" fn()> { match n {")
        for m, e in entries:
            lib.append('"%s" => Some(%s::%s),' % (e, m, e))
        lib.append("_ => None } }")
        lib.append("pub fn replay(p: Vec<i64>, i: Vec<(u32, u64)>) { *nd::raw::PARAMS.lock().unwrap() = p; *nd::raw::IN.lock().unwrap() = (i, 0); }")
        shutil.copy(os.path.join(hdir, "replay_main.rs"), os.path.join(src, "replay_main.rs"))
        manifest += ['[lib]', 'path = "src/lib.rs"', '', '[[bin]]', 'name = "replay"',
                     'path = "src/replay_main.rs"', '', '[profile.dev]', 'opt-level = 1',
                     'debug = "line-tables-only"', 'incremental = false', 'overflow-checks = true', 'debug-assertions = true']
    else:
        manifest += ['[lib]', 'path = "src/lib.rs"', 'crate-type = ["cdylib"]', '',
                     '[profile.release]', 'lto = "fat"', 'codegen-units = 1', 'panic = "abort"',
                     'opt-level = 2', 'debug = false', '',
                     '[profile.release.package.ndh]', 'overflow-checks = true', 'debug-assertions = true']
    open(os.path.join(src, "lib.rs"), "w").write("\n".join(lib) + "\n")
    open(os.path.join(tmp, "Cargo.toml"), "w").write("\n".join(manifest) + "\n")
    lock = open(os.path.join(REPO, "Cargo.lock")).read().replace('name = "nd"\n', 'name = "ndh"\n')
    # packages are sorted by name in a lock file; cargo reorders without complaint when not --locked
    open(os.path.join(tmp, "Cargo.lock"), "w").write(lock)
    files = {}
    for root, _, fs in os.walk(tmp):
        for f in fs:
            p = os.path.join(root, f)
            files[os.path.relpath(p, tmp)] = open(p, "rb").read()
    shutil.rmtree(tmp)
    crate = os.path.join(work, "crate")
    os.makedirs(crate, exist_ok=True)
    if os.path.exists(os.path.join(crate, "Cargo.lock")):
        files["Cargo.lock"] = open(os.path.join(crate, "Cargo.lock"), "rb").read()
    sync(crate, files)
    return crate, entries


def llvm_bin(name):
    root = subprocess.run(["rustc", "--print", "sysroot"], env=ENV, stdout=subprocess.PIPE).stdout.decode().strip()
    p = os.path.join(root, "lib", "rustlib", TARGET, "bin", name)
    if not os.path.exists(p):
        raise BuildError("no %s in the toolchain" % name)
    return p


def build_ir(work, modules, block=8, margin=None, flags="", subst=()):
    crate, entries = make_crate(work, modules, block, margin, False, subst)
    tgt = os.path.join(work, "target")
    env = dict(ENV)
    env["CARGO_TARGET_DIR"] = tgt
    env["RUSTFLAGS"] = ("-C no-vectorize-loops -C no-vectorize-slp -C llvm-args=-fast-isel -C llvm-args=-regalloc=fast " + flags).strip()
    deps = os.path.join(tgt, TARGET, "release", "deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith("ndh") or f.startswith("libndh"):
                os.unlink(os.path.join(deps, f))
    sh(["cargo", "rustc", "--release", "--offline", "--quiet", "--lib", "--target", TARGET, "--",
        "-C", "save-temps", "-C", "linker=/bin/true"], cwd=crate, env=env)
    # the whole program after link-time optimisation
    best = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("ndh") and f.endswith(".rcgu.bc")
            and "no-opt" not in f]
    if not best:
        raise BuildError("no bitcode in " + deps)
    best.sort(key=os.path.getsize)
    ll = os.path.join(work, "ndh.ll")
    sh([llvm_bin("llvm-dis"), best[-1], "-o", ll])
    return ll, entries


def build_native(work, modules, block=8, margin=None, flags="", subst=()):
    crate, entries = make_crate(work, modules, block, margin, True, subst)
    tgt = os.path.join(work, "target")
    env = dict(ENV)
    env["CARGO_TARGET_DIR"] = tgt
    if flags:
        env["RUSTFLAGS"] = flags
    sh(["cargo", "build", "--offline", "--quiet", "--features", "native", "--bin", "replay"], cwd=crate, env=env)
    return os.path.join(tgt, "debug", "replay")


def repo_digest():
    h = hashlib.sha256()
    for root, dirs, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        dirs.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, REPO).encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()[:16]
