"""The npm package, watched through a stand-in for the binary."""
import glob, json, os, random, shutil, subprocess, tempfile, concurrent.futures
from . import common
from .common import BUILD, REPO, SEED, THOROUGH, VERIF, NoVerdict, Report

TOOLS = "/opt/veriftools/node/node_modules"
HERE = os.path.join(VERIF, "cli", "npm")
SRC = os.path.join(REPO, "npm", "smd", "src")


def node(args, **kw):
    return subprocess.run(["node", "--no-warnings"] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600, **kw)


def install(scratch):
    """The package as npm would install it, with a stand-in for the binary."""
    lib = os.path.join(scratch, "pkg", "lib")
    files = sorted(glob.glob(os.path.join(SRC, "**", "*.ts"), recursive=True))
    p = subprocess.run([os.path.join(TOOLS, ".bin", "esbuild")] + files + ["--outdir=" + lib, "--outbase=" + SRC, "--format=esm", "--platform=node", "--log-level=error"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise NoVerdict("the package cannot be built: " + p.stdout[-1500:])
    with open(os.path.join(scratch, "pkg", "package.json"), "w") as f:
        f.write('{"type": "module"}\n')
    mods = os.path.join(scratch, "pkg", "node_modules")
    os.makedirs(os.path.join(mods, "execa"))
    with open(os.path.join(mods, "execa", "package.json"), "w") as f:
        f.write('{"name": "execa", "type": "module", "main": "index.js", "exports": "./index.js"}\n')
    with open(os.path.join(mods, "execa", "index.js"), "w") as f:
        # the version at hand has it as its default export
        f.write('import e from "%s/execa/index.js";\nexport const execa = e;\nexport const execaSync = e.sync;\nexport default e;\n' % TOOLS)
    names = list(json.load(open(os.path.join(REPO, "npm", "smd", "package.json")))["optionalDependencies"])
    for n in names:
        b = os.path.join(mods, n, "bin")
        os.makedirs(b)
        with open(os.path.join(mods, n, "package.json"), "w") as f:
            json.dump({"name": n, "version": "1.0.0"}, f)
        shutil.copy(os.path.join(HERE, "record.sh"), os.path.join(b, "smd.exe" if "windows" in n else "smd"))
    return lib, mods, names


def platforms(rep, lib, mods, names):
    """Where the binary is looked for, on every platform."""
    todo = [(p, a) for p in ("linux", "darwin", "win32", "cygwin", "freebsd", "openbsd", "sunos", "aix", "android") for a in ("x64", "arm64", "ia32", "arm", "riscv64", "ppc64", "s390x")]

    def one(t):
        return node(["--import", os.path.join(HERE, "platform.mjs"), os.path.join(HERE, "exepath.mjs"), lib], env=dict(os.environ, SMD_PLATFORM="%s/%s" % t))

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for (plat, arch), p in zip(todo, ex.map(one, todo)):
            try:
                got = json.loads(p.stdout.decode())
            except ValueError:
                raise NoVerdict("the package cannot be loaded: " + p.stderr.decode(errors="replace")[-1500:])
            win = plat in ("win32", "cygwin")
            name = "smd-%s-%s" % ("windows" if win else plat, arch)
            rep.evaluations += 1
            if name in names:
                want = "file://" + os.path.join(mods, name, "bin", "smd.exe" if win else "smd")
                if got.get("url") != want:
                    rep.violate("on %s/%s the binary is looked for in %s instead of %s" % (plat, arch, got, want), {"platform": plat, "arch": arch, "got": got, "want": want})
                rep.count("platforms_with_a_binary")
                rep.case(("platform", plat, arch))
            else:
                if "error" not in got or arch not in got["error"] or ("windows" if win else plat) not in got["error"]:
                    rep.violate("on %s/%s, for which there is no binary, the result is %s" % (plat, arch, got), {"platform": plat, "arch": arch, "got": got})
                rep.count("platforms_without_a_binary")


def entry(rep, lib, scratch):
    """The command."""
    r = random.Random(SEED)
    words = ["parse", "--input", "-i", "a b.md", "", "-", "--", "-v", "-vv", "--help", "-o", "pdf", "*", "$HOME", "a\"b", "é", "日本語", "a\nb", "x" * 3000, "--input=x y", "'", "\\"]
    for i in range(200 if THOROUGH else 40):
        args = [r.choice(words) for _ in range(r.randrange(7))]
        code = r.choice([0, 0, 0, 1, 2, 3, 101, 255])
        sig = r.choice(["", "", "", "", "", "TERM", "KILL", "SEGV"])
        rec = os.path.join(scratch, "entry")
        if os.path.exists(rec):
            os.remove(rec)
        p = node([os.path.join(lib, "cli.js")] + args, cwd=scratch, input=b"",
                 env=dict(os.environ, SMD_RECORD=rec, SMD_EXIT=str(code), SMD_SIGNAL=sig, SMD_SAY="said %d" % i))
        rep.evaluations += 1
        rep.count("commands_run")
        if not os.path.exists(rec):
            rep.violate("the command did not run the binary: " + p.stderr.decode(errors="replace")[-600:], {"args": args})
            continue
        f = open(rec, "rb").read().split(b"\0")
        n = int(f[0])
        got = [x.decode() for x in f[1:n + 1]]
        if got != args:
            rep.violate("the command runs the binary with %r instead of %r" % (got, args), {"args": args, "got": got})
        if (p.returncode == 0) != (code == 0 and not sig):
            rep.violate("the binary ends with %s but the command with status %d" % ("signal " + sig if sig else "status %d" % code, p.returncode), {"args": args})
        if p.stdout != b"said %d" % i:
            rep.violate("the output of the binary is not shown: %r" % p.stdout[:200], {"args": args})
        rep.case(("command", tuple(args), code, sig))


def check():
    rep = Report("C20", "exploration")
    rep.rule = "calls that hand at least one argument to the binary, and platforms that have one"
    rep.assumptions += ["execa behaves as the version installed here, and npm installs the packages named in package.json",
                        "the sources are turned into JavaScript by esbuild one by one, not bundled by tsup"]
    os.makedirs(BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vsmd-", dir=BUILD)
    try:
        scratch = os.path.realpath(scratch)
        os.makedirs(os.path.join(scratch, "dir with space"))
        lib, mods, names = install(scratch)
        platforms(rep, lib, mods, names)
        p = node([os.path.join(HERE, "drive.mjs"), lib, str(SEED), "400000" if THOROUGH else "40000", "3000" if THOROUGH else "250", scratch], cwd=scratch)
        try:
            j = json.loads(p.stdout.decode())
        except ValueError:
            raise NoVerdict("the driver ended with status %s: %s" % (p.returncode, p.stderr.decode(errors="replace")[-1500:]))
        rep.evaluations += j["options"] + j["runs"]
        rep.extra["options_objects"] = j["options"]
        rep.extra["runs_of_the_binary"] = j["runs"]
        rep.samples += j["samples"]
        for v in j["violations"]:
            rep.violate("%s: %s became %s" % (v["what"], json.dumps(v["given"])[:200], json.dumps(v["got"])[:200]), v)
        entry(rep, lib, scratch)
        rep.nontrivial_count = len(rep.nontrivial) + j["distinct"]
    except subprocess.TimeoutExpired as e:
        raise NoVerdict("%s does not end" % e.cmd)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rep
