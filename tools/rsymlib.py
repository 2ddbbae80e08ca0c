"""Build and run machinery shared by all checks.

A suite is a directory under suites/ with
  suite.py   CRATES: which crates of /repo are encoded and how (see class Suite)
  lib.rs     the harnesses; `//@ key value` lines directly above `pub fn h_...` describe each of them

Everything generated lives under .build/ (ignored by git) and is regenerated from /repo on every run.
"""
import fcntl, glob, hashlib, importlib.util, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
TRIPLE = "x86_64-unknown-linux-gnu"
NCPU = os.cpu_count() or 8


class CheckError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(
        CARGO_NET_OFFLINE="true",
        RUSTUP_TOOLCHAIN="stable",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        HOME=e.get("HOME", "/root"),
        RUST_BACKTRACE="0",
        CARGO_INCREMENTAL="0",
    )
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    if os.path.isdir("/root/.cargo/bin") and "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def sh(cmd, cwd=None, extra=None, timeout=900, what=None):
    e = env()
    e.update(extra or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    if r.returncode != 0:
        raise CheckError(f"{what or cmd[0]} failed ({r.returncode}):\n" + "\n".join(x for x in r.stdout.splitlines() if not x.startswith('{"'))[-6000:])
    return r.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_engine():
    with Lock("engine"):
        t = os.path.join(BUILD, "engine")
        sh(["cargo", "build", "--release", "--offline", "--target-dir", t], cwd=os.path.join(VERIF, "engine"), what="engine build")
        return os.path.join(t, "release", "rsym")


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = sh(["rustc", "--print", "sysroot"]).strip()
    return _sysroot


def lltool(n):
    return os.path.join(sysroot(), "lib/rustlib", TRIPLE, "bin", n)


def std_bitcode():
    """Bitcode of the precompiled standard library, by crate."""
    out = os.path.join(BUILD, "std")
    with Lock("std"):
        if os.path.exists(os.path.join(out, "ok")):
            return out
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        lib = os.path.join(sysroot(), "lib/rustlib", TRIPLE, "lib")
        for c in ["core", "alloc", "std", "hashbrown", "memchr", "compiler_builtins"]:
            r = glob.glob(f"{lib}/lib{c}-*.rlib")
            if not r:
                continue
            d = os.path.join(out, c)
            os.makedirs(d)
            sh(["ar", "x", r[0]], cwd=d)
            parts = []
            for o in sorted(glob.glob(d + "/*.o")):
                bc = o[:-2] + ".bc"
                subprocess.run([lltool("llvm-objcopy"), f"--dump-section=.llvmbc={bc}", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if os.path.exists(bc) and os.path.getsize(bc) > 0:
                    parts.append(bc)
            if not parts:
                raise CheckError(f"no bitcode in {r[0]}")
            if len(parts) == 1:
                shutil.move(parts[0], f"{out}/{c}.bc")
            else:
                sh([lltool("llvm-link"), *parts, "-o", f"{out}/{c}.bc"])
            shutil.rmtree(d)
        open(os.path.join(out, "ok"), "w").close()
    return out


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    with open(path, "w") as f:
        f.write(text)


def sections(text):
    return re.split(r"(?m)^(?=\[)", text)


def standins(mode):
    """Dependencies that cannot be fetched offline, replaced in every mode (a key with "None" is dropped)."""
    sh = f"{VERIF}/shims"
    enc = ', features = ["sym"]' if mode != "real" else ""
    return {
        "bech32": f'{{ path = "{sh}/bech32-11"' + (', features = ["standin"]' if mode != "real" else "") + " }",
        "bls-signatures-rs": f'{{ package = "witnet-bls-signatures", path = "{sh}/bls_signatures" }}',
        "cbor-codec": f'{{ path = "{sh}/cbor" }}',
        "ethereum-types": f'{{ path = "{sh}/ethereum-types" }}',
        "itertools": '"0.13"',
        "num_enum": f'{{ path = "{sh}/num_enum" }}',
        "ordered-float": '"4.6"',
        "protobuf": f'{{ path = "{sh}/protobuf"{enc} }}',
        "protobuf-convert": f'{{ path = "{sh}/protobuf-convert" }}',
        "rand_distr": "None",
        "serde_cbor": f'{{ path = "{sh}/serde_cbor" }}',
        "serde_json": '"=1.0.150"',
        "strum": f'{{ path = "{sh}/strum" }}',
        "strum_macros": f'{{ path = "{sh}/strum_macros" }}',
        "vrf": f'{{ path = "{sh}/vrf", features = ["' + ("real" if mode == "real" else "standin") + '"] }',
        "ntp": f'{{ path = "{sh}/ntp" }}',
        "bs58": f'{{ path = "{sh}/bs58" }}',
        "directories-next": f'{{ path = "{sh}/directories-next" }}',
        "http": '"1.4"',
        "if_rust_version": f'{{ path = "{sh}/if_rust_version" }}',
        "jsonpath": f'{{ path = "{sh}/jsonpath" }}',
        "minidom": f'{{ path = "{sh}/minidom" }}',
        "reqwest": f'{{ path = "{sh}/reqwest" }}',
        "slicestring": f'{{ path = "{sh}/slicestring" }}',
        "tokio": f'{{ path = "{sh}/tokio" }}',
        "toml": '"0.9"',
        "witnet_net": f'{{ path = "{sh}/witnet_net" }}',
    }


class Suite:
    def __init__(self, name):
        self.name = name
        self.dir = os.path.join(VERIF, "suites", name)
        spec = importlib.util.spec_from_file_location("suite_" + name, os.path.join(self.dir, "suite.py"))
        m = importlib.util.module_from_spec(spec)
        m.__dict__["rsymlib"] = sys.modules[__name__]
        spec.loader.exec_module(m)
        self.crates = getattr(m, "CRATES", [])
        self.deps = getattr(m, "DEPS", "")
        self.generate = getattr(m, "generate", None)
        self.std = getattr(m, "STD", ["std", "alloc", "core"])
        self.native_real = getattr(m, "NATIVE_REAL", True)
        self.trusted = getattr(m, "ASSUMPTIONS", [])
        self.opt = getattr(m, "OPT", 2)
        self.entries = {}
        for f in sorted(glob.glob(self.dir + "/*.rs")):
            self.scan(open(f).read())

    def scan(self, text):
        for m in re.finditer(r"((?:^[ \t]*//@.*\n)+)(?:[ \t]*#\[.*\]\n)*[ \t]*pub (?:extern \"C\" )?fn (h_\w+)\(\)", text, re.M):
            e = {"suite": self.name, "name": m.group(2), "props": [], "cover": [], "bounds": [], "assume": [], "shards": 1, "tier": "quick", "variant": "ovf"}
            for ln in m.group(1).strip().split("\n"):
                ln = ln.strip()[3:].strip()
                k, _, v = ln.partition(" ")
                v = v.strip()
                if k == "prop":
                    e["props"] += v.split()
                elif k == "cover":
                    e["cover"] += [x.strip() for x in v.split(",")]
                elif k in ("bounds", "assume"):
                    e[k].append(v)
                elif k == "shards":
                    e["shards"] = int(v)
                elif k in ("tier", "variant"):
                    e[k] = v
                elif k == "secs":
                    e["secs"] = int(v)
                else:
                    raise CheckError(f"unknown //@ key {k} above {m.group(2)}")
            self.entries[m.group(2)] = e

    # ---- generation ----
    def gen(self, mode, tier, variant):
        """mode: sym | real | kstd (native on real std / native on the stand-ins)"""
        d = os.path.join(BUILD, self.name, f"{mode}-{tier}-{variant}")
        use_kstd = mode in ("sym", "kstd")
        deps = [f'nd = {{ path = "{VERIF}/nd"' + (', features = ["sym"]' if mode == "sym" else "") + " }"]
        if use_kstd:
            deps.append(f'kstd = {{ path = "{VERIF}/shims/kstd"' + (', features = ["serde"]' if any(c.get("standins") for c in self.crates) else "") + " }")
        keep = set()
        st = standins(mode)
        for c in self.crates:
            src = os.path.join(REPO, c["dir"])
            dst = os.path.join(d, "crates", c["dir"])
            man = open(os.path.join(src, "Cargo.toml")).read()
            name = re.search(r'(?m)^name = "(.*)"', man).group(1)
            parts = []
            for s in sections(man):
                if re.match(r"\[(dev-dependencies|\[bench|bench|build-dependencies|profile)", s):
                    continue
                s = re.sub(r"(?m)^workspace\s*=.*\n", "", s)
                if s.startswith("[dependencies]"):
                    if c.get("standins"):
                        s = re.sub(r"(?m)^([\w-]+)(\s*=\s*)(.*)$", lambda m: f"{m[1]} = {st[m[1]]}" if m[1] in st else m[0], s)
                        s = re.sub(r"(?m)^[\w-]+ = None\n", "", s)
                    s = re.sub(r"(?m)^.*\bgit\s*=.*\n", "", s)
                    for dr in c.get("drop_deps", []):
                        s = re.sub(rf"(?m)^{dr}\s*=.*\n", "", s)
                    if use_kstd:
                        for sd in c.get("shim", []):
                            s = re.sub(rf'(?m)^({re.escape(sd)}\s*=\s*)"[^"]*"', rf'\1{{ path = "{VERIF}/shims/{sd}" }}', s)
                            s = re.sub(rf'(?m)^({re.escape(sd)}\s*=\s*\{{.*?)version\s*=\s*"[^"]*"', rf'\1path = "{VERIF}/shims/{sd}"', s)
                    s = re.sub(r'path\s*=\s*"\.\./(\w+)"', lambda m: f'path = "{d}/crates/{m.group(1)}"', s)
                    s = s.rstrip() + "\n"
                    if use_kstd and c.get("kstd", True):
                        s += f'kstd = {{ path = "{VERIF}/shims/kstd" }}\n'
                        s += f'nd = {{ path = "{VERIF}/nd" }}\n'
                    s += "".join(x + "\n" for x in c.get("add_deps", {}).get(mode, c.get("add_deps", {}).get("all", [])))
                    s += "\n"
                if s.startswith("[package]") and c.get("standins"):
                    s = s.rstrip() + "\nbuild = false\n\n"
                if s.startswith("[features]"):
                    s = re.sub(r'"(dep:)?rocksdb"(,\s*)?', "", s)
                parts.append(s)
            write(os.path.join(dst, "Cargo.toml"), "".join(parts))
            for root, _, files in os.walk(os.path.join(src, "src")):
                for f in files:
                    p = os.path.join(root, f)
                    rel = os.path.relpath(p, src)
                    if f.endswith(".rs"):
                        t = open(p).read()
                        if use_kstd and c.get("kstd", True):
                            t = re.sub(r"\bstd::", "kstd::", t)
                        if f == "schema.rs" and "witnet_proto_mod.rs" in t:
                            import protogen

                            t = protogen.generate(open(os.path.join(REPO, "schemas/witnet/witnet.proto")).read())
                        for a, b in c.get("subst", {}).get(mode, c.get("subst", {}).get("all", [])):
                            t = re.sub(a, b, t)
                        write(os.path.join(dst, rel), t)
                        keep.add(os.path.join(dst, rel))
            feats = c.get("features", [])
            deps.append(
                f'{name} = {{ path = "{dst}"' + (f", features = {json.dumps(feats)}" if feats else "") + (", default-features = false" if c.get("no_default") else "") + " }"
            )
        x = self.deps
        if callable(x):
            x = x(mode)
        deps.append(x.replace("$VERIF", VERIF))
        harness = os.path.join(d, "harness")
        hs = os.path.join(harness, "src")
        for f in glob.glob(self.dir + "/*.rs"):
            t = open(f).read()
            if use_kstd:
                t = re.sub(r"\bstd::", "kstd::", t)
            write(os.path.join(hs, os.path.basename(f)), t)
            keep.add(os.path.join(hs, os.path.basename(f)))
        if self.generate:
            for rel, text in self.generate(mode, tier, variant).items():
                write(os.path.join(hs, rel), text)
                keep.add(os.path.join(hs, rel))
        if mode != "sym":
            ents = ", ".join(f'("{n}", harness::{e.get("path", n)} as fn())' for n, e in self.entries.items())
            write(os.path.join(hs, "main.rs"), f"fn main() {{\n    nd::native::run(&[{ents}]);\n}}\n")
            keep.add(os.path.join(hs, "main.rs"))
        for root, _, files in os.walk(d):
            if "/target" in root:
                continue
            for f in files:
                p = os.path.join(root, f)
                if f.endswith(".rs") and p not in keep:
                    os.remove(p)
        ovf = "true" if "ovf" in variant else "false"
        dbg = "true" if "dbg" in variant else "false"
        prof = (
            f'[profile.dev]\npanic = "abort"\nopt-level = {self.opt}\ncodegen-units = 1\ndebug = false\noverflow-checks = {ovf}\ndebug-assertions = {dbg}\nincremental = false\n'
            if mode == "sym"
            else f"[profile.dev]\nopt-level = 0\ndebug = false\noverflow-checks = {ovf}\ndebug-assertions = {dbg}\nincremental = false\n[profile.release]\nopt-level = 3\noverflow-checks = false\ndebug-assertions = false\ndebug = false\nincremental = false\n"
        )
        write(
            os.path.join(harness, "Cargo.toml"),
            f'[package]\nname = "harness"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n[features]\ndefault = ["{mode}", "{tier}"]\nsym = []\nreal = []\nkstd = []\nquick = []\nthorough = []\n'
            + "[dependencies]\n"
            + "\n".join(deps)
            + "\n"
            + prof
            + '[lints.rust]\nunexpected_cfgs = { level = "allow" }\n',
        )
        lock = os.path.join(harness, "Cargo.lock")
        if not os.path.exists(lock) and os.path.exists(os.path.join(REPO, "Cargo.lock")) and (self.crates or self.deps):
            shutil.copyfile(os.path.join(REPO, "Cargo.lock"), lock)
        return d, harness

    # ---- builds ----
    def build_sym(self, tier, variant):
        std = std_bitcode()
        with Lock(f"{self.name}-sym-{tier}-{variant}"):
            d, harness = self.gen("sym", tier, variant)
            tgt = os.path.join(d, "target")
            deps = os.path.join(tgt, TRIPLE, "debug", "deps")
            # twice: while compiling, a crate may be reported before one it depends on (pipelining); when everything
            # is fresh the order is that of the dependencies, which the linking below relies on
            for _ in range(2):
                out = sh(
                    ["cargo", "build", "--offline", "--lib", "--target", TRIPLE, "--target-dir", tgt, "--message-format=json-render-diagnostics"],
                    cwd=harness,
                    extra={"RUSTFLAGS": "-C no-vectorize-loops -C no-vectorize-slp --emit=llvm-bc"},
                    what=f"suite {self.name}: compiling the code under test",
                )
            bcs, top = [], None
            for ln in out.splitlines():
                if not ln.startswith("{"):
                    continue
                j = json.loads(ln)
                if j.get("reason") != "compiler-artifact":
                    continue
                if "proc-macro" in j["target"]["kind"] or "custom-build" in j["target"]["kind"]:
                    continue
                for f in j["filenames"]:
                    if f.endswith(".rlib") or f.endswith(".rmeta"):
                        stem = os.path.basename(f).rsplit(".", 1)[0]
                        stem = stem[3:] if stem.startswith("lib") else stem
                        b = os.path.join(deps, stem + ".bc")
                        if os.path.exists(b) and b not in bcs:
                            bcs.append(b)
                            if j["target"]["name"] == "harness":
                                top = b
            if top is None:
                raise CheckError("no bitcode produced for the harness")
            # dependents before dependencies; --only-needed resolves in order
            rest = [b for b in reversed(bcs) if b != top]
            libs = [os.path.join(std, s + ".bc") for s in self.std]
            allbc = os.path.join(d, "all.bc")
            # llvm-link refuses duplicates of the same strong symbol; --only-needed skips what is not needed
            sh([lltool("llvm-link"), "--only-needed", top, *rest, *libs, "-o", allbc], what="llvm-link")
            ents = ",".join(self.entries)
            o2 = os.path.join(d, "prog.bc")
            sh([lltool("opt"), "-passes=internalize,globaldce", f"-internalize-public-api-list={ents}", allbc, "-o", o2], what="opt")
            ll = os.path.join(d, "prog.ll")
            sh([lltool("llvm-dis"), o2, "-o", ll], what="llvm-dis")
            os.remove(allbc)
            os.remove(o2)
            return ll

    def build_native(self, mode, tier, variant, release):
        with Lock(f"{self.name}-{mode}-{tier}-{variant}"):
            d, harness = self.gen(mode, tier, variant)
            tgt = os.path.join(d, "target")
            sh(["cargo", "build", "--offline", "--target-dir", tgt] + (["--release"] if release else []), cwd=harness, what=f"suite {self.name}: native build")
            return os.path.join(tgt, "release" if release else "debug", "harness")


def suites():
    return [os.path.basename(os.path.dirname(p)) for p in sorted(glob.glob(os.path.join(VERIF, "suites", "*", "suite.py")))]


def run_native(binary, jobs, timeout=120):
    """jobs: [(entry, [values])] -> list of result dicts"""
    inp = "".join(e + " " + " ".join(str(v) for v in vs) + "\n" for e, vs in jobs)
    try:
        r = subprocess.run([binary], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return [{"end": "timeout", "failed": [], "obs": [], "covers": [], "msg": ""}] * len(jobs)
    res = [json.loads(x) for x in r.stdout.splitlines() if x.startswith("{")]
    while len(res) < len(jobs):
        # an abort (stack overflow, double panic) ends the process: run the rest one by one
        if len(jobs) == 1:
            res.append({"end": "abort", "failed": [], "obs": [], "covers": [], "msg": (r.stderr or "")[-300:] + f" rc={r.returncode}"})
        else:
            k = len(res)
            res += run_native(binary, jobs[k : k + 1], timeout)
            if k + 1 < len(jobs):
                res += run_native(binary, jobs[k + 1 :], timeout)
    return res
