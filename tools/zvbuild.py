"""Builds the instrumented test binary from /repo's current working tree."""
import fcntl, hashlib, json, os, shutil, subprocess, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, ".build")
REPO = "/repo"


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GONOSUMDB="*", GONOSUMCHECK="1")
    e.setdefault("HOME", "/root")
    e.pop("GORACE", None)
    return e


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in (".git", ".build", "node_modules"))
            for f in sorted(fs):
                p = os.path.join(root, f)
                if not os.path.isfile(p):
                    continue
                h.update(os.path.relpath(p, d).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def core_dir():
    r = sh(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/frostbyte73/core"], REPO)
    return r.stdout.strip().split("\n")[-1]


def instr_tool():
    src = os.path.join(HERE, "tools", "instr")
    out = os.path.join(BUILD, "instr-" + tree_hash([src])[:12])
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        r = sh(["go", "build", "-o", out + ".tmp%d" % os.getpid(), "."], src)
        if r.returncode != 0:
            raise SystemExit("cannot build the instrumenter:\n" + r.stdout)
        os.replace(out + ".tmp%d" % os.getpid(), out)
    return out


def build(work):
    t0 = time.time()
    key = tree_hash([REPO, os.path.join(HERE, "harness"), os.path.join(HERE, "tools", "instr")])
    cached = os.path.join(BUILD, "bin", key)
    if os.path.exists(cached + ".json"):
        info = json.load(open(cached + ".json"))
        info["secs"] = time.time() - t0
        return cached, info
    tool = instr_tool()
    core = core_dir()
    modes = []
    errs = []
    for mode in ("instrumented", "plain"):
        ov = os.path.join(work, "ov-" + mode)
        args = [tool, "-repo", REPO, "-out", ov, "-harness", os.path.join(HERE, "harness"), "-core", core]
        if mode == "plain":
            args.append("-plain")
        r = sh(args, REPO)
        if r.returncode != 0:
            errs.append(mode + ": " + r.stdout[-3000:])
            continue
        # a copy of go.mod keeps the build from touching the repository's
        mod = os.path.join(work, "go.mod")
        shutil.copy(os.path.join(REPO, "go.mod"), mod)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(work, "go.sum"))
        exe = os.path.join(work, "zv.test")
        r = sh(["go", "test", "-c", "-race", "-vet=off", "-modfile", mod, "-overlay", os.path.join(ov, "overlay.json"), "-o", exe, "./internal/zverif"], REPO)
        if r.returncode == 0 and os.path.exists(exe):
            info = {"mode": mode, "key": key, "errs": errs, "secs": time.time() - t0}
            try:
                os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
                bins = sorted((os.path.join(BUILD, "bin", f) for f in os.listdir(os.path.join(BUILD, "bin")) if f.endswith(".json")), key=os.path.getmtime)
                for b in bins[:-6]:
                    for p in (b, b[:-5]):
                        if os.path.exists(p):
                            os.unlink(p)
                shutil.copy(exe, cached + ".tmp%d" % os.getpid())
                os.replace(cached + ".tmp%d" % os.getpid(), cached)
                with open(cached + ".json.tmp%d" % os.getpid(), "w") as f:
                    json.dump(info, f)
                os.replace(cached + ".json.tmp%d" % os.getpid(), cached + ".json")
            except OSError:
                pass
            return exe, info
        errs.append(mode + ": " + r.stdout[-4000:])
    raise SystemExit("BUILD FAILED (not a verdict)\n" + "\n".join(errs))
