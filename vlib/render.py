"""Properties of the renderer, watched by the harness in /verif/harness."""
import json, os, re, shutil, subprocess, tempfile, concurrent.futures
from . import common
from .common import BUILD, SEED, THOROUGH, VERIF, NoVerdict, Report

ASSUME = ["the harness tokenises HTML and resolves URLs as the WHATWG specifications say",
          "the library is built with overflow checks and debug assertions"]


def harness(prop, rep):
    vh = common.build_harness()
    os.makedirs(os.path.join(BUILD, "out"), exist_ok=True)
    out = os.path.join(BUILD, "out", prop + ".json")
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.run([vh, "run", prop, "--seed", str(SEED), "--tier", "thorough" if THOROUGH else "quick", "--out", out,
                        "--corpus", os.path.join(VERIF, "harness", "corpus.txt")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode not in (0, 1) or not os.path.exists(out):
        raise NoVerdict("the harness ended with status %s: %s" % (p.returncode, p.stdout[-2000:]))
    j = json.load(open(out))
    rep.evaluations += j["evaluations"]
    rep.nontrivial_count = j["distinct_nontrivial"]
    rep.rule = j["rule"]
    rep.samples = j["samples"]
    rep.extra["renderings"] = j["renderings"]
    rep.extra["observed"] = j["observed"]
    rep.assumptions += ASSUME
    for v in j["violations"]:
        v["replay_cmd"] = "%s replay %s %d --seed %d" % (vh, prop, v["case"], SEED)
        rep.violate(v["why"], v)
    if p.returncode == 1 and not j["violations"]:
        raise NoVerdict("violation without a record")
    return vh


def miri(rep, docs):
    """Runs renderings in the interpreter, which reports undefined behaviour
    and data races."""
    target = common.build("miri", ["miri", "run", "--offline", "--quiet", "--", "interpret", "X", "--cases", "0",
                                   "--corpus", os.path.join(VERIF, "harness", "corpus.txt")],
                          os.path.join(VERIF, "harness"), MIRIFLAGS="-Zmiri-disable-isolation")
    env = common.cargo_env(CARGO_TARGET_DIR=target)

    def one(k):
        e = dict(env, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-seed=%d" % (SEED * 100 + k))
        return subprocess.run(["cargo", "miri", "run", "--offline", "--quiet", "--", "interpret", "X", "--cases", str(docs),
                               "--seed", str(SEED * 1000 + k), "--corpus", os.path.join(VERIF, "harness", "corpus.txt")],
                              cwd=os.path.join(VERIF, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    rendered = read = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for k, p in enumerate(ex.map(one, range(8))):
            m = re.search(r"RENDERED (\d+) (\d+)", p.stdout)
            if p.returncode == 0 and m:
                rendered += int(m.group(1))
                read += int(m.group(2))
            elif "Undefined Behavior" in p.stdout or "DIFFERENT" in p.stdout or "panicked" in p.stdout:
                rep.violate("the interpreter reports: " + p.stdout[-1500:], {"output": p.stdout[-6000:], "seed": SEED * 1000 + k})
            elif "unsupported operation" in p.stdout:
                raise NoVerdict("the interpreter does not support an operation: " + p.stdout[-1500:])
            else:
                raise NoVerdict("the interpreter ended with status %s: %s" % (p.returncode, p.stdout[-1500:]))
    rep.extra["miri_renderings"] = rendered
    rep.extra["miri_document_bytes"] = read


def sanitized(rep, prop, kind, cases):
    """The same monitor in a build instrumented by a sanitizer."""
    flag = {"thread": "-Zsanitizer=thread", "address": "-Zsanitizer=address"}[kind]
    target = common.build(kind + "san", ["build", "--release", "--offline", "--quiet", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"],
                          os.path.join(VERIF, "harness"), RUSTFLAGS=flag)
    vh = os.path.join(target, "x86_64-unknown-linux-gnu", "release", "vh")
    out = os.path.join(BUILD, "out", "%s.%s.json" % (prop, kind))
    log = os.path.join(BUILD, "out", "%s.%s.log" % (prop, kind))
    for f in os.listdir(os.path.dirname(log)):
        if f.startswith(os.path.basename(log)):
            os.remove(os.path.join(os.path.dirname(log), f))
    env = dict(os.environ)
    opts = "log_path=%s:exitcode=66:halt_on_error=0" % log
    env["TSAN_OPTIONS" if kind == "thread" else "ASAN_OPTIONS"] = opts
    p = subprocess.run([vh, "run", prop, "--seed", str(SEED + 7), "--cases", str(cases), "--out", out,
                        "--corpus", os.path.join(VERIF, "harness", "corpus.txt")],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    reports = ""
    for f in sorted(os.listdir(os.path.dirname(log))):
        if f.startswith(os.path.basename(log) + "."):
            reports += open(os.path.join(os.path.dirname(log), f), errors="replace").read()
    if "WARNING: ThreadSanitizer: data race" in reports or "ERROR: AddressSanitizer" in reports:
        rep.violate("the %s sanitizer reports: %s" % (kind, reports[:1500]), {"report": reports[:20000]})
        return
    if p.returncode not in (0, 1) or not os.path.exists(out):
        raise NoVerdict("the build with the %s sanitizer ended with status %s: %s %s" % (kind, p.returncode, p.stdout[-1500:], reports[:1500]))
    j = json.load(open(out))
    rep.extra["%s_sanitizer_renderings" % kind] = j["renderings"]
    for v in j["violations"]:
        rep.violate("under the %s sanitizer: %s" % (kind, v["why"]), v)


def processes(rep, vh):
    """Renderings of the same documents in processes that differ."""
    n = 200000 if THOROUGH else 20000
    base = ["digest", "C13", "--seed", str(SEED), "--cases", str(n), "--corpus", os.path.join(VERIF, "harness", "corpus.txt")]
    scratch = tempfile.mkdtemp(dir=BUILD)
    plain = {"PATH": os.environ.get("PATH", ""), "HOME": scratch}
    runs = [
        ("plain", base, plain, VERIF, []),
        ("reverse order", base + ["--reverse", "yes"], plain, VERIF, []),
        ("logging on", base + ["--log", "yes"], dict(plain, RUST_LOG="trace", RUST_BACKTRACE="full"), VERIF, []),
        ("other environment", base, {"LANG": "tr_TR.UTF-8", "LC_ALL": "de_DE.UTF-8", "TZ": "Asia/Tokyo", "HOME": "/nonexistent", "COLUMNS": "20",
                                     "TERM": "dumb", "NO_COLOR": "1", "USER": "nobody", "SMD__PARSE__OUTPUT": "html", "DEBUG": "1", "CI": "1"}, scratch, []),
        ("addresses not randomised", base, plain, "/", ["setarch", "-R"]),
        ("no environment", base, {}, "/", []),
    ]

    def one(r):
        name, args, env, cwd, pre = r
        return subprocess.run(pre + [vh] + args, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

    # what the renderer asks its surroundings for, and other answers to that
    so = os.path.join(scratch, "ambient.so")
    log = os.path.join(scratch, "log")
    p = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "cli", "ambient.c"), "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise NoVerdict("the interposer cannot be built: " + p.stdout[-1000:])
    p = one(("", base, dict(plain, LD_PRELOAD=so, AMBIENT_LOG=log), VERIF, []))
    if p.returncode != 0:
        raise NoVerdict("vh digest failed: " + p.stderr[-500:])
    asked = open(log).read().split("\n") if os.path.exists(log) else []
    names = sorted({l[4:] for l in asked if l.startswith("env ") and not l.startswith("env RUST_") and len(l) > 4})
    rep.extra["asked_of_the_surroundings"] = sorted(l for l in asked if l)[:40]
    if names:
        for v in ["", "0", "1", "true", "false", "off", "html", "x y", "9" * 30]:
            runs.append(("%s=%s" % (",".join(names), v), base, dict(plain, **{n: v for n in names}), VERIF, []))
    for secs in (-3 * 365 * 86400, 40 * 365 * 86400 + 12345, 86400 * 183 + 43200):
        runs.append(("another date", base, dict(plain, LD_PRELOAD=so, AMBIENT_CLOCK=str(secs)), VERIF, []))
    odd = os.path.join(scratch, "odd")
    with open(odd, "w") as f:
        f.write("x = 1\n")
    runs.append(("files which are not there otherwise", base, dict(plain, LD_PRELOAD=so, AMBIENT_FILE=odd), VERIF, []))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, runs))
    shutil.rmtree(scratch)
    first = res[0]
    if first.returncode != 0:
        raise NoVerdict("vh digest failed: " + first.stderr[-500:])
    ok = 0
    for r, p in zip(runs, res):
        if p.returncode != 0 and r[4]:
            continue  # setarch is not allowed here
        if p.returncode != 0:
            raise NoVerdict("vh digest failed: " + p.stderr[-500:])
        ok += 1
        if p.stdout != first.stdout:
            a, b = first.stdout.split("\n"), p.stdout.split("\n")
            i = next(i for i in range(len(a)) if a[i] != b[i])
            doc = subprocess.run([vh, "document", "C13", str(i), "--seed", str(SEED), "--corpus", os.path.join(VERIF, "harness", "corpus.txt")],
                                 stdout=subprocess.PIPE).stdout.decode(errors="replace")
            rep.violate("the rendering of document %d differs in a process with %s" % (i, r[0]), {"document": doc, "process": r[0]})
    rep.extra["processes_compared"] = ok
    rep.extra["documents_compared_across_processes"] = n
    rep.evaluations += n * ok


def findings(rep, prop, vh):
    """Replays the recorded defects: documents whose code is not shown."""
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt"), encoding="utf-8"):
        head = "finding: property=%s " % prop
        if l.startswith(head):
            f = json.loads(l[len(head):])
            p = subprocess.run([vh, "render"], input=f["document"], stdout=subprocess.PIPE, text=True)
            if f["code"] not in p.stdout:
                rep.findings.append("%s: %r" % (f["what"], f["document"]))


def check(prop):
    rep = Report(prop, "exploration")
    vh = harness(prop, rep)
    findings(rep, prop, vh)
    if prop == "C01" and not rep.violations:
        miri(rep, 40 if THOROUGH else 8)
        sanitized(rep, prop, "address", 20000 if THOROUGH else 1500)
    if prop == "C13" and not rep.violations:
        processes(rep, vh)
        sanitized(rep, prop, "thread", 4000 if THOROUGH else 400)
        miri(rep, 40 if THOROUGH else 6)
    return rep
