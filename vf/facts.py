"""Builds the fact database (resolved MIR, types, constants) from /repo's
current source with the rustc driver in /verif/driver."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"

GROUPS = {
    "base": ["wasm-merge", "wasp-compiler"],
    "core": ["wasm-merge", "wasp-compiler", "wastrumentation", "cli", "wastrumentation-static-analysis",
             "supported-languages/rust", "supported-languages/webassembly", "supported-languages/assemblyscript"],
}
STUBS = ["wasabi_wasm", "asc-compiler-rs", "rust-to-wasm-compiler", "clio"]


class FactError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC"):
            e.pop(k)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = NIGHTLY
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env(), capture_output=True, text=True).stdout.strip()
    return _sysroot


def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\1")
    return h.hexdigest()[:24]


def build_driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    key = sha([src])
    out = os.path.join(BUILD, "factgen-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    e = env()
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    r = subprocess.run(["rustc", "--edition", "2021", "-O", src, "-o", out + ".tmp"], env=e, cwd=BUILD, capture_output=True, text=True)
    if r.returncode != 0:
        raise FactError("driver build failed:\n" + r.stderr[-3000:])
    os.rename(out + ".tmp", out)
    return out


def tree(d):
    out = []
    for base, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ("target", "node_modules", ".git")]
        for f in fs:
            out.append(os.path.join(base, f))
    return out


def group_files(group):
    fs = [os.path.join(REPO, "Cargo.toml")]
    for m in GROUPS[group]:
        fs.append(os.path.join(REPO, m, "Cargo.toml"))
        fs += tree(os.path.join(REPO, m))
    if group == "core":
        for s in STUBS:
            fs += tree(os.path.join(VERIF, "stubs", s))
    return [f for f in fs if os.path.isfile(f)]


def strip_sections(text, names):
    out, skip = [], False
    for line in text.splitlines():
        m = re.match(r"\s*\[+([^\]]+)\]+", line)
        if m:
            skip = any(m.group(1) == n or m.group(1).startswith(n + ".") for n in names)
        if not skip:
            out.append(line)
    return "\n".join(out) + "\n"


def make_ws(group):
    ws = os.path.join(BUILD, "ws-" + group)
    os.makedirs(ws, exist_ok=True)
    root = open(os.path.join(REPO, "Cargo.toml")).read()
    members = GROUPS[group]
    root = re.sub(r"^members\s*=\s*\[[^\]]*\]", lambda _: "members = [" + ", ".join(f'"{m}"' for m in members) + "]", root, count=1, flags=re.M)

    def stubbed(text):
        for s in STUBS:
            text = re.sub(r"^%s\s*=\s*\{[^}\n]*git[^}\n]*\}" % re.escape(s), f'{s} = {{ path = "{VERIF}/stubs/{s}" }}', text, flags=re.M)
            text = re.sub(r'^clio\s*=\s*\{[^}\n]*version[^}\n]*\}', f'clio = {{ path = "{VERIF}/stubs/clio" }}', text, flags=re.M)
        return text
    if group == "core":
        root = stubbed(root)
    write(os.path.join(ws, "Cargo.toml"), root)
    for m in members:
        d = os.path.join(ws, m)
        os.makedirs(d, exist_ok=True)
        t = strip_sections(open(os.path.join(REPO, m, "Cargo.toml")).read(), ["dev-dependencies"])
        if group == "core":
            t = stubbed(t)
        write(os.path.join(d, "Cargo.toml"), t)
        have = set(os.listdir(os.path.join(REPO, m))) - {"Cargo.toml", "Cargo.lock", "target", "tests", "benches", "examples"}
        for x in set(os.listdir(d)) - {"Cargo.toml"} - have:
            os.unlink(os.path.join(d, x))
        for x in have:
            link, want = os.path.join(d, x), os.path.join(REPO, m, x)
            if not (os.path.islink(link) and os.readlink(link) == want):
                if os.path.lexists(link):
                    os.unlink(link)
                os.symlink(want, link)
    lock = os.path.join(VERIF, "lock", group + ".lock")
    if os.path.exists(lock):
        shutil.copyfile(lock, os.path.join(ws, "Cargo.lock"))
    elif group == "base" or group == "core":
        shutil.copyfile("/opt/vp/ws/Cargo.lock", os.path.join(ws, "Cargo.lock"))
    return ws


def write(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def generate(group):
    """-> directory with one JSON file per workspace crate."""
    driver = build_driver()
    key = sha(group_files(group), os.path.basename(driver))
    out = os.path.join(BUILD, "facts", f"{group}-{key}")
    if os.path.exists(os.path.join(out, "DONE")):
        return out
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "DONE")):
            return out
        ws = make_ws(group)
        target = os.path.join(BUILD, "target-" + group)
        # the wrapper's path is part of cargo's fingerprint of workspace
        # members: a name of its own makes cargo compile them again
        os.makedirs(os.path.join(BUILD, "drv"), exist_ok=True)
        wrapper = os.path.join(BUILD, "drv", f"factgen-{key}-{os.getpid()}")
        os.symlink(driver, wrapper)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        e = env()
        e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        e["RUSTC_WORKSPACE_WRAPPER"] = wrapper
        e["VF_OUT"] = tmp
        e["VF_SKIP"] = "wasabi_wasm,asc_compiler,rust_to_wasm_compiler,clio"
        e["CARGO_TARGET_DIR"] = target
        r = subprocess.run(["cargo", "check", "--workspace", "--offline", "--keep-going"], cwd=ws, env=e, capture_output=True, text=True)
        os.unlink(wrapper)
        with open(os.path.join(BUILD, f"cargo-{group}.log"), "w") as f:
            f.write(r.stderr)
        if group == "core":
            e["VF_OUT"] = tmp
            for st in STUBS[:1]:
                subprocess.run([driver, "rustc", "--edition", "2021", "--crate-name", st, "--crate-type", "lib", "--emit", "metadata", "-A", "warnings",
                                os.path.join(VERIF, "stubs", st, "src", "lib.rs"), "--out-dir", os.path.join(BUILD, "drv")], env=e, check=True, capture_output=True)
        if r.returncode != 0:
            errs = re.findall(r"^error.*(?:\n.+)*", r.stderr, flags=re.M)
            with open(os.path.join(tmp, "ERRORS"), "w") as f:
                f.write("\n\n".join(errs)[:20000])
        open(os.path.join(tmp, "DONE"), "w").close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return out


class Crate:
    pass


class Facts:
    def __init__(self, group):
        self.dir = generate(group)
        self.group = group
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.consts = {}
        self.crates = []
        self.errors = None
        if os.path.exists(os.path.join(self.dir, "ERRORS")):
            self.errors = open(os.path.join(self.dir, "ERRORS")).read()
        texts = [open(p).read() for p in sorted(glob.glob(os.path.join(self.dir, "*.json")))]
        alias = {}
        for x in texts:
            # {"aliases":[[name, item], ..],"crate": ..
            alias.update(json.JSONDecoder().raw_decode(x[len('{"aliases":'):])[0])
        alias = {a: b for a, b in alias.items() if a != b}
        if alias:
            rx = re.compile(r"(?<![\w:])(%s)(?!\w)" % "|".join(re.escape(a) for a in sorted(alias, key=len, reverse=True)))
            texts = [rx.sub(lambda m: alias[m.group(1)], x) for x in texts]
        for x in texts:
            j = json.loads(x)
            self.crates.append(j["crate"])
            for f in j["fns"]:
                f["crate"] = j["crate"]
                old = self.fns.get(f["key"])
                if old is None or (f["local"] and not old["local"]) or (old["poly"] and not f["poly"]):
                    self.fns[f["key"]] = f
            for a in j["adts"]:
                self.adts[a["path"]] = a
            for im in j["impls"]:
                im["crate"] = j["crate"]
                self.impls.append(im)
            for c in j["consts"]:
                self.consts[c["path"]] = c
        self.by_path = {}
        for f in self.fns.values():
            self.by_path.setdefault(f["path"], []).append(f)


if __name__ == "__main__":
    for g in sys.argv[1:] or ["base"]:
        d = generate(g)
        print(g, d, os.listdir(d))
