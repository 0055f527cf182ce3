"""Build the symbolic executor and the harness module (LLVM IR of harness + /repo's current code)."""
import glob, os, re, shutil, subprocess, sys, threading, time, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, "work")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


class BuildError(Exception):
    pass


def toml_value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"')
    if isinstance(v, list):
        return "[" + ", ".join(toml_value(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join("%s = %s" % (k, toml_value(x)) for k, x in v.items()) + " }"
    return str(v)


def shim(name, lib, features):
    """A manifest whose library is /repo/src/lib.rs itself. The dependencies are /repo's, with the
    image crate's file format codecs switched off (the library never decodes files), which makes the
    build four times faster."""
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        t = tomllib.load(f)
    d = os.path.join(WORK, name)
    os.makedirs(d, exist_ok=True)
    deps = dict(t["dependencies"])
    im = deps.get("image", "0.24")
    im = dict(im) if isinstance(im, dict) else {"version": im}
    im["default-features"] = False
    deps["image"] = im
    feats = dict(t.get("features", {}))
    if features:
        feats["default"] = list(feats.get("default", [])) + features
    root = t.get("lib", {}).get("path", "src/lib.rs")
    out = "[package]\nname = %s\nversion = %s\nedition = %s\n\n[lib]\nname = %s\npath = %s\ndoctest = false\n\n[dependencies]\n" % (
        toml_value(lib), toml_value(t["package"]["version"]), toml_value(t["package"].get("edition", "2015")), toml_value(lib), toml_value(os.path.join(REPO, root)))
    for k, v in deps.items():
        out += "%s = %s\n" % (k, toml_value(v))
    out += "\n[features]\n"
    for k, v in feats.items():
        out += "%s = %s\n" % (k, toml_value(v))
    p = os.path.join(d, "Cargo.toml")
    if not os.path.exists(p) or open(p).read() != out:
        open(p, "w").write(out)


def run(cmd, cwd, log):
    with open(log, "w") as f:
        r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=f, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), open(log).read()[-4000:]))


def build_symx():
    run(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(WORK, "target-symx")], os.path.join(VERIF, "symx"), os.path.join(WORK, "symx.log"))
    return os.path.join(WORK, "target-symx", "release", "symx")


def prepare():
    os.makedirs(WORK, exist_ok=True)
    shim("shim", "bardecoder", [])
    shim("shim-debug", "bardecoder_debug", ["debug-images"])


def build_module(debug):
    """LLVM IR of everything; debug: with a second copy of the library with debug-images on"""
    name = "harness-dbg" if debug else "harness"
    td = os.path.join(WORK, "target-" + name)
    out = os.path.join(WORK, name + ".ll")
    for f in glob.glob(os.path.join(td, "release", "deps", "*.ll")):
        os.remove(f)
    # a fresh compile of the harness crate, so that the module is always rewritten
    cmd = ["cargo", "rustc", "--lib", "--crate-type", "staticlib", "--release", "--offline", "--target-dir", td]
    if debug:
        cmd += ["--features", "dbg"]
    cmd += ["--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "--cfg", "stamp_%d" % time.time_ns()]
    run(cmd, os.path.join(VERIF, "harness"), os.path.join(WORK, name + ".log"))
    lls = glob.glob(os.path.join(td, "release", "deps", "harness-*.ll"))
    if len(lls) != 1:
        raise BuildError("expected one module, found %r" % lls)
    shutil.move(lls[0], out)
    return out


def build_native(debug):
    td = os.path.join(WORK, "target-native" + ("-dbg" if debug else ""))
    run(["cargo", "build", "--bin", "replay", "--release", "--offline", "--target-dir", td, "--features", "native,dbg" if debug else "native"], os.path.join(VERIF, "harness"), os.path.join(WORK, "native.log"))
    return os.path.join(td, "release", "replay")


def build_all(debug=False):
    prepare()
    res, errs = {}, []

    def go(k, f, *a):
        try:
            res[k] = f(*a)
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=go, args=("symx", build_symx)), threading.Thread(target=go, args=("module", build_module, debug))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res["symx"], res["module"]


if __name__ == "__main__":
    t0 = time.time()
    print(build_all(len(sys.argv) > 1 and sys.argv[1] == "dbg"), "%.1fs" % (time.time() - t0))
