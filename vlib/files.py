"""Writing and reading of files, watched below the library."""
import json, os, shutil, subprocess, tempfile
from . import common
from .common import BUILD, REPO, SEED, THOROUGH, VERIF, NoVerdict, Report


def build_driver():
    """The driver crate, with the versions of /repo's lock file."""
    d = os.path.join(BUILD, "driver")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(VERIF, "driver")
    shutil.copytree(os.path.join(src, "src"), os.path.join(d, "src"), dirs_exist_ok=True)
    shutil.copy(os.path.join(src, "Cargo.toml"), d)
    shutil.copy(os.path.join(REPO, "Cargo.lock"), d)
    t = common.build("smd", ["build", "--offline", "--quiet"], d)
    return os.path.join(t, "debug", "vfs")


def build_shim():
    so = os.path.join(BUILD, "shim.so")
    p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "driver", "shim.c"), "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise NoVerdict("the interposer cannot be built: " + p.stdout[-1000:])
    return so


def check(prop):
    rep = Report(prop, "exploration", "a case is one write and one read; two are distinct if the system calls they made, the faults "
                 "injected into them, the sizes or the state of the file before differ")
    rep.assumptions = ["the library writes and reads through libc from the calling thread", "the scratch directory is on a healthy disk"]
    vfs = build_driver()
    so = build_shim()
    scratch = tempfile.mkdtemp(dir=BUILD)
    try:
        runs = [(["files", scratch, str(SEED), str(1500000 if THOROUGH else 120000), "8"], {"LD_PRELOAD": so}),
                (["limit", scratch, str(SEED), "20000" if THOROUGH else "2000"], {})]
        n = 0
        for args, env in runs:
            p = subprocess.run([vfs] + args, env=dict({"PATH": os.environ.get("PATH", "")}, **env), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               errors="replace", timeout=5000)
            if p.returncode != 0:
                if p.returncode < 0:
                    rep.violate("the process was ended by signal %d" % -p.returncode, {"args": args, "stderr": p.stderr[-2000:]})
                    continue
                raise NoVerdict("the driver ended with status %s: %s" % (p.returncode, p.stderr[-1500:]))
            j = json.loads(p.stdout)
            rep.evaluations += j["evaluations"]
            n += j["distinct"]
            rep.samples += j["samples"]
            for k, v in j["observed"].items():
                rep.count(k, v)
            for v in j["violations"]:
                v["replay_cmd"] = "%s %s %s" % (" ".join("%s=%s" % e for e in env.items()), vfs, " ".join(args))
                rep.violate(v["why"], v)
        rep.nontrivial_count = n
        if not rep.violations and (rep.extra.get("write_system_calls", 0) == 0 or rep.extra.get("read_system_calls", 0) == 0
                                   or rep.extra.get("failed_calls", 0) == 0):
            raise NoVerdict("the interposer saw no calls")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rep
