"""Building from /repo, evidence and verdicts."""
import hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
START = time.time()


class NoVerdict(Exception):
    """The check could not be carried out."""


def cargo_env(**extra):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO_", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del env[k]
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="nightly",
               CARGO_PROFILE_DEV_DEBUG="0", CARGO_INCREMENTAL="0")
    env.update(extra)
    return env


def source_digest():
    """Of everything in /repo that can change what is built."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "node_modules"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith((".rs", ".toml", ".lock", ".1", ".md")) and os.path.isfile(p):
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def build(name, args, cwd, **extra):
    """Runs cargo with its own target directory; returns that directory.

    Cargo goes by time stamps; packages of /repo are built again whenever
    their text differs from what was built last."""
    target = os.path.join(BUILD, name)
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "source.sha256")
    digest = source_digest()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != digest:
        # both of cargo's layouts: .fingerprint/NAME-HASH and build/NAME/HASH/fingerprint
        own = ("gfm", "smd", "smd-core", "smd_core", "vh", "vfs")
        for root, dirs, _ in os.walk(target):
            if os.path.basename(root) == ".fingerprint":
                gone, dirs[:] = [d for d in dirs if d.rsplit("-", 1)[0] in own], []
            elif os.path.basename(root) == "build":
                gone, dirs[:] = [d for d in dirs if d in own or d.rsplit("-", 1)[0] in own], []
            else:
                continue
            for d in gone:
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
    env = cargo_env(CARGO_TARGET_DIR=target, **extra)
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise NoVerdict("the build of %s failed" % name)
    with open(stamp, "w") as f:
        f.write(digest)
    return target


def build_harness():
    t = build("target", ["build", "--release", "--offline", "--quiet"], os.path.join(VERIF, "harness"))
    return os.path.join(t, "release", "vh")


def build_smd():
    t = build("smd", ["build", "--offline", "--quiet", "-p", "smd", "--bins", "--manifest-path", REPO + "/Cargo.toml"], REPO)
    d = os.path.join(t, "debug")
    return {n: os.path.join(d, n) for n in ("smd", "smd-mangen", "smd-completions")}


class Report:
    def __init__(self, prop, level, rule=""):
        self.prop, self.level, self.rule = prop, level, rule
        self.evaluations = 0
        self.nontrivial = set()
        self.nontrivial_count = None
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.findings = []

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def case(self, key, sample=None):
        """A distinct non-trivial case."""
        self.nontrivial.add(key)
        if sample is not None and len(self.samples) < 5:
            self.samples.append(sample)

    def violate(self, why, detail):
        self.violations.append((why, detail))

    def finish(self):
        cov = {"evaluations": self.evaluations,
               "distinct_nontrivial": len(self.nontrivial) if self.nontrivial_count is None else self.nontrivial_count,
               "rule": self.rule, "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - START, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        for f in self.findings:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f))
        if not self.violations:
            print("%s holds on everything explored: %d cases, %d distinct and non-trivial" % (
                self.prop, cov["evaluations"], cov["distinct_nontrivial"]))
            return 0
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        for i, (why, detail) in enumerate(self.violations[:3]):
            path = os.path.join(d, "%s-%d.json" % (self.prop, i + 1))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": SEED, "tier": TIER, "why": why, "detail": detail}, f, indent=1, default=repr)
                f.write("\n")
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + why[:600].replace("\n", "\n  "))
        return 1
