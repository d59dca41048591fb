"""Releases: release.sh and the packaging steps of the release workflow, run
in a scratch clone with stand-ins for everything that reaches outside."""
import concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, tarfile, tempfile
from . import common, prog
from .common import REPO, SEED, THOROUGH, VERIF, NoVerdict, Report

HERE = os.path.join(VERIF, "cli", "release")
WORKFLOW = ".github/workflows/release.yaml"


class World:
    def __init__(self):
        self.user = prog.NOBODY if os.getuid() == 0 and prog.can_drop() else None
        self.root = tempfile.mkdtemp(prefix="vsmd-", dir="/tmp")
        os.chmod(self.root, 0o755)
        self.bins = common.build_smd()
        self.bin, self.home = self.root + "/bin", self.root + "/home"
        os.mkdir(self.home)
        os.mkdir(self.bin)
        os.mkdir(self.root + "/real")
        for n, p in self.bins.items():
            shutil.copy(p, self.root + "/real/" + n)
        os.mkdir(self.root + "/gpg")
        shutil.copy(HERE + "/git-cliff", self.bin)
        shutil.copy(HERE + "/gpg", self.root + "/gpg")
        with open(self.home + "/.gitconfig", "w") as f:
            f.write("[user]\n\tname = Scratch\n\temail = scratch@example.org\n[gpg]\n\tprogram = %s/gpg/gpg\n"
                    "[core]\n\tpager = cat\n\tautocrlf = false\n[init]\n\tdefaultBranch = main\n[commit]\n\tgpgsign = false\n[safe]\n\tdirectory = *\n[gc]\n\tauto = 0\n" % self.root)
        # the tree as a clone has it
        self.base = self.root + "/base"
        os.mkdir(self.base)
        p = subprocess.run(["git", "-c", "safe.directory=*", "ls-files", "-z", "--cached", "--others", "--exclude-standard"], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise NoVerdict("git ls-files: " + p.stderr.decode(errors="replace")[-500:])
        for n in p.stdout.decode().split("\0"):
            src, dst = os.path.join(REPO, n), os.path.join(self.base, n)
            if n and os.path.lexists(src) and not os.path.isdir(src):
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copy2(src, dst, follow_symlinks=False)
        self.own(self.base)
        self.own(self.home)
        for a in (["init", "-q"], ["add", "-A"], ["commit", "-q", "-m", "base"]):
            r = self.run(["git"] + a, self.base)
            if r.returncode:
                raise NoVerdict("git %s: %s" % (a[0], r.stderr.decode(errors="replace")[-500:]))
        self.names = list(json.load(open(self.base + "/npm/smd/package.json"))["optionalDependencies"])

    def own(self, d):
        if self.user is not None:
            subprocess.run(["chown", "-R", "-h", "%d:%d" % (self.user, self.user), d], check=True)

    def env(self, **extra):
        e = {"PATH": self.bin + ":/usr/bin:/bin", "HOME": self.home, "GIT_CONFIG_NOSYSTEM": "1", "TERM": "dumb", "LC_ALL": "C.UTF-8"}
        e.update(extra)
        return {k: v for k, v in e.items() if v is not None}

    def run(self, args, cwd, env=None, timeout=120):
        kw = {}
        if self.user is not None:
            kw = dict(user=self.user, group=self.user, extra_groups=[])
        return subprocess.run(args, cwd=cwd, env=env or self.env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, timeout=timeout, **kw)

    def git(self, d, *args):
        p = self.run(["git"] + list(args), d)
        return p.stdout.decode(errors="replace") if p.returncode == 0 else None

    def clone(self, name):
        d = os.path.join(self.root, name)
        os.mkdir(d)
        w = d + "/w"
        subprocess.run(["cp", "-a", self.base, w], check=True)
        os.mkdir(d + "/log")
        self.own(d + "/log")
        return d, w

    def export(self, d, w, rev):
        """What a checkout of a commit holds: path -> bytes."""
        out = os.path.join(d, "x-" + hashlib.sha256(rev.encode()).hexdigest()[:8])
        shutil.rmtree(out, ignore_errors=True)
        os.mkdir(out)
        tar = self.run(["git", "archive", rev], w).stdout
        subprocess.run(["tar", "-x", "-C", out], input=tar, check=True)
        return out

    def close(self):
        subprocess.run(["chmod", "-R", "u+rwX", self.root])
        shutil.rmtree(self.root, ignore_errors=True)


def tree(d):
    out = {}
    for base, dirs, fs in os.walk(d):
        dirs[:] = [x for x in dirs if x != ".git"]
        for f in fs:
            p = os.path.join(base, f)
            out[os.path.relpath(p, d)] = os.readlink(p).encode() if os.path.islink(p) else open(p, "rb").read()
    return out


def metadata(d):
    """What cargo makes of a tree: own packages, the others, or an error."""
    p = subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1", "--quiet"], cwd=d, env=common.cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        return None, p.stderr[-1500:]
    own, others = {}, set()
    for k in json.loads(p.stdout)["packages"]:
        if k["source"] is None:
            own[k["name"]] = k
        else:
            others.add((k["name"], k["version"], k["source"]))
    return (own, others), None


def settings(own, d):
    """Everything about the own packages but their versions."""
    r = {}
    for n, k in own.items():
        k = json.loads(json.dumps(k).replace(d, "@"))
        for x in ("version", "id"):
            k.pop(x, None)
        for dep in k["dependencies"]:
            if dep["name"] in own and dep.get("source") is None:
                dep["req"] = "@"
        r[n] = k
    return r


def version(r):
    v = "%d.%d.%d" % tuple(r.choice((0, 0, 1, 2, 3, 9, 10, 11, 19, 100, 2026)) for _ in range(3))
    if r.random() < 0.4:
        v += "-" + r.choice(("pre", "rc.1", "rc1", "alpha", "alpha.2", "beta.10", "0", "pre.0", "x-y-z", "dev", "dev.3", "preview.2", "v2", "0.v", "20261118"))
    if r.random() < 0.1:
        v += "+" + r.choice(("build", "5", "abc.7", "001"))
    return v


def plain(v):
    return v.split("+")[0]


def succeeded(world, base, d, w, tag, before, calls):
    """What is wrong after a run which reported success."""
    v = tag[1:] if tag.startswith("v") else tag
    out = []
    head = (world.git(w, "rev-parse", "HEAD") or "").strip()
    if (world.git(w, "rev-parse", "HEAD^") or "").strip() != before["head"]:
        out.append("the release is not one commit on top of the one before")
    if (world.git(w, "cat-file", "-t", "refs/tags/" + tag) or "").strip() != "tag":
        return out + ["there is no annotated tag %s" % tag]
    if (world.git(w, "rev-parse", "refs/tags/%s^{commit}" % tag) or "").strip() != head:
        out.append("the tag %s is not the release commit" % tag)
    text = world.git(w, "cat-file", "tag", tag) or ""
    if "BEGIN PGP SIGNATURE" not in text:
        out.append("the tag %s is not signed" % tag)
    if tag in before["tags"]:
        out.append("the tag %s existed before" % tag)
    now = set((world.git(w, "tag") or "").split())
    if now != before["tags"] | {tag}:
        out.append("tags before %s, after %s" % (sorted(before["tags"]), sorted(now)))
    if (world.git(w, "status", "--porcelain") or "").strip():
        out.append("changes are left: " + (world.git(w, "status", "--porcelain") or "")[:300])
    x = world.export(d, w, "refs/tags/" + tag)
    files = tree(x)
    old = before["files"]
    # all commits under the releases they belong to, the new ones under this one
    logs = [c["out"].strip() for c in calls if c["tag"] == tag and not c["fail"] and not c["plain"] and c["commits"] == before["all"]]
    if files.get("CHANGELOG.md", b"").decode(errors="replace").strip() not in logs:
        out.append("the changelog is not the one made for %s: %r" % (tag, files.get("CHANGELOG.md", b"")[:200]))
    # with or without the commit of the release itself
    own_subject = (world.git(w, "log", "-1", "--format=%s") or "").strip()
    body = text.split("-----BEGIN PGP")[0].split("\n\n", 1)[-1]
    for subject in before["new"]:
        if subject not in body:
            out.append("the message of the tag does not have the change %r: %r" % (subject, body[:400]))
    for subject in before["all"]:
        if subject not in before["new"] and re.search(re.escape(subject) + r"(?![\w.+-])", body.replace(own_subject, "")):
            out.append("the message of the tag has the change %r of an earlier release: %r" % (subject, body[:400]))
    if sorted(files) != sorted(old):
        out.append("files added or removed: %s" % sorted(set(files) ^ set(old))[:6])
    may = {"CHANGELOG.md", "Cargo.lock", "npm/smd/package.json"}
    for n in sorted(set(files) & set(old)):
        if files[n] != old[n] and n not in may and not n.endswith("Cargo.toml"):
            out.append("%s was changed" % n)
    m, err = metadata(x)
    if m is None:
        return out + ["the released tree does not resolve: " + err]
    own, others = m
    for n, k in sorted(own.items()):
        if k["version"] != v:
            out.append("the crate %s has the version %s instead of %s" % (n, k["version"], v))
        for dep in k["dependencies"]:
            if dep["name"] in own and dep.get("source") is None and dep["req"] not in ("*",):
                if dep["req"].lstrip("^=") != plain(v):
                    out.append("%s depends on %s %s instead of %s" % (n, dep["name"], dep["req"], v))
    if settings(own, x) != base["settings"]:
        a, b = settings(own, x), base["settings"]
        out.append("other settings were changed: %s" % [(n, key) for n in sorted(set(a) | set(b)) for key in a.get(n, b.get(n))
                                                        if a.get(n, {}).get(key) != b.get(n, {}).get(key)][:5])
    if others != base["others"]:
        out.append("other crates resolve differently: %s" % sorted(others ^ base["others"])[:4])
    try:
        got = json.loads(files["npm/smd/package.json"])
    except ValueError as e:
        return out + ["npm/smd/package.json is no JSON any more: %s" % e]
    want = json.loads(old["npm/smd/package.json"])
    want["version"] = v
    for n in want["optionalDependencies"]:
        want["optionalDependencies"][n] = v
    if got != want:
        out.append("npm/smd/package.json: %s" % [(k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)][:3])
    shutil.rmtree(x, ignore_errors=True)
    return out


FAULTS = ["no argument", "empty argument", "no git-cliff", "git-cliff fails", "git-cliff fails later", "hook", "index lock", "gpg", "tag exists", "elsewhere",
          "read-only npm", "read-only crate"]


def scenario(world, base, k):
    """Some releases after each other, one of which may meet a fault."""
    r = random.Random("%d/%d/release" % (SEED, k))
    d, w = world.clone("r%d" % k)
    out, seen = [], []
    steps = r.choice((1, 1, 2, 3))
    bad = r.randrange(steps) if k % 3 else None
    fault = None
    if bad is not None:
        fault = FAULTS[(k // 3 * 2 + k % 3 - 1) % len(FAULTS)]
        if fault.startswith("read-only") and world.user is None:
            fault = "hook"
    tags = []
    while len(tags) < steps:
        v = version(r)
        tag = ("v" if r.random() < 0.85 else "") + v
        if tag not in tags:
            tags.append(tag)
    for i, tag in enumerate(tags):
        retry = [fault] if bad == i else []
        if retry and fault in ("no git-cliff", "git-cliff fails", "no argument", "empty argument", "index lock") and r.random() < 0.7:
            retry.append(None)
        if not retry:
            retry = [None]
        for k2 in range(r.choice((0, 1, 2, 5)) if i else 1):
            with open(w + "/notes-%d-%d.txt" % (i, k2), "w") as f:
                f.write("notes\n")
            world.own(w + "/notes-%d-%d.txt" % (i, k2))
            world.git(w, "add", "-A")
            world.git(w, "commit", "-q", "-m", "feat: more %d-%d of it" % (i, k2))
        for f in retry:
            env, args, cwd, script, undo = {}, [tag], w, "./release.sh", None
            log = d + "/log/cliff%d%s" % (i, "" if f is None else "f")
            if f == "no argument":
                args = []
            elif f == "empty argument":
                args = [""]
            elif f == "no git-cliff":
                env["PATH"] = "/usr/bin:/bin"
            elif f == "git-cliff fails":
                env["CLIFF_FAIL"] = "0"
            elif f == "git-cliff fails later":
                env["CLIFF_FAIL"] = "1"
            elif f == "hook":
                with open(w + "/.git/hooks/pre-commit", "w") as h:
                    h.write("#!/bin/sh\nexit 1\n")
                os.chmod(w + "/.git/hooks/pre-commit", 0o755)
                undo = lambda: os.remove(w + "/.git/hooks/pre-commit")
            elif f == "index lock":
                open(w + "/.git/index.lock", "w").close()
                undo = lambda: os.remove(w + "/.git/index.lock")
            elif f == "gpg":
                env["GPG_FAIL"] = "sign"
            elif f == "tag exists":
                world.git(w, "tag", tag)
            elif f == "elsewhere":
                cwd, script = w + "/npm", "../release.sh"
            elif f and f.startswith("read-only"):
                p = w + ("/npm/smd" if f.endswith("npm") else r.choice(("/gfm", "/smd-core", "/smd")))
                os.chmod(p, 0o555)
                undo = lambda p=p: os.chmod(p, 0o755)
            before = {"head": (world.git(w, "rev-parse", "HEAD") or "").strip(), "tags": set((world.git(w, "tag") or "").split()),
                      "refs": world.git(w, "show-ref", "--tags") or "", "files": tree(world.export(d, w, "HEAD"))}
            last = (world.git(w, "describe", "--tags", "--abbrev=0") or "").strip()
            before["all"] = (world.git(w, "log", "--format=%s") or "").splitlines()
            before["new"] = (world.git(w, "log", "--format=%s", *([last + "..HEAD"] if last else [])) or "").splitlines()
            disk = tree(w)
            p = world.run(["bash", script] + args, cwd, world.env(CLIFF_LOG=log, **env))
            if undo:
                undo()
            calls = [json.loads(l) for l in open(log)] if os.path.exists(log) else []
            name = "%s%s" % (tag, " (%s)" % f if f else "")
            found = []
            if f in ("no argument", "empty argument"):
                if p.returncode == 0:
                    found.append("without a tag the script reports success")
                if tree(w) != disk or (world.git(w, "rev-parse", "HEAD") or "").strip() != before["head"]:
                    found.append("without a tag something is changed")
            if p.returncode == 0 and not found and f not in ("no argument", "empty argument"):
                found += succeeded(world, base, d, w, tag, before, calls)
            if p.returncode != 0:
                if (world.git(w, "show-ref", "--tags") or "") != before["refs"]:
                    found.append("a failed release made or changed a tag")
                if f is None:
                    found.append("the release fails with status %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-400:]))
            if p.returncode == 0 and f == "tag exists":
                found.append("success although the tag existed")
            seen.append((tag, f or "", p.returncode == 0))
            for x in found:
                out.append(("%s: %s" % (name, x), {"tags": tags, "fault": fault, "step": i, "status": p.returncode, "calls": calls,
                                                   "stdout": p.stdout.decode(errors="replace")[-1500:], "stderr": p.stderr.decode(errors="replace")[-1500:]}))
        if out or (bad == i and retry[-1] is not None):
            break
    shutil.rmtree(d, ignore_errors=True)
    return out, seen


# ---- the packaging steps of the workflow

class Ctx:
    """Contexts of expressions; names do not depend on the case of letters."""

    def __init__(self, **top):
        self.top = top

    def get(self, path):
        v = self.top
        for p in path.split("."):
            if isinstance(v, str):
                return "eA==" if v == "@any" else ""
            v = {str(k).lower(): x for k, x in v.items()}.get(p.lower(), "")
        return "eA==" if v == "@any" else v

    def value(self, e):
        """A boolean expression or a value."""
        e = e.strip()
        if e.startswith("${{"):
            e = e[3:].rsplit("}}", 1)[0]
        toks = re.findall(r"'(?:[^']|'')*'|\|\||&&|==|!=|!|[(),]|[\w.-]+", e)
        pos = [0]

        def peek():
            return toks[pos[0]] if pos[0] < len(toks) else ""

        def take():
            pos[0] += 1
            return toks[pos[0] - 1]

        def atom():
            t = take()
            if t == "(":
                v = either()
                take()
                return v
            if t == "!":
                return not atom()
            if t.startswith("'"):
                return t[1:-1].replace("''", "'")
            if t in ("true", "false"):
                return t == "true"
            if peek() == "(":
                take()
                args = []
                while peek() != ")":
                    args.append(either())
                    if peek() == ",":
                        take()
                take()
                a = [str(x).lower() for x in args]
                return {"contains": lambda: a[1] in a[0], "startswith": lambda: a[0].startswith(a[1]), "endswith": lambda: a[0].endswith(a[1]),
                        "always": lambda: True, "success": lambda: True}.get(t.lower(), lambda: False)()
            return self.get(t)

        def equal():
            v = atom()
            while peek() in ("==", "!="):
                op, b = take(), atom()
                same = str(v).lower() == str(b).lower()
                v = same if op == "==" else not same
            return v

        def both():
            v = equal()
            while peek() == "&&":
                take()
                b = equal()
                v = v and b
            return v

        def either():
            v = both()
            while peek() == "||":
                take()
                b = both()
                v = v or b
            return v

        return either()

    def fill(self, s):
        def one(m):
            v = self.value(m.group(1))
            return {True: "true", False: "false"}.get(v, v) if isinstance(v, bool) else str(v)
        return re.sub(r"\$\{\{(.*?)\}\}", one, s, flags=re.S)


def stand_ins(world):
    b = world.root + "/ci"
    os.mkdir(b)
    for n in ("sudo", "apt-get", "gpg", "yarn", "cargo-deb", "cross", "rustup"):
        shutil.copy(HERE + "/note.sh", b + "/" + n)
    scripts = {"cargo": '#!/bin/bash\nprintf "cargo %%s\\n" "$*" >> "$NOTE_LOG"\n[ "$1" = run ] || exit 0\nwhile [ $# -gt 0 ]; do [ "$1" = --bin ] && exec %s/real/"$2"; shift; done\nexit 1\n' % world.root,
               "npm": '#!/bin/bash\nprintf "npm %s\\n" "$*" >> "$NOTE_LOG"\n[ "$1" = publish ] || exit 0\nn=$(ls "$NPM_OUT" | wc -l)\ncp -a "$PWD" "$NPM_OUT/$n"\n',
               "7z": '#!/bin/bash\n[ "$1" = a ] || exit 1\nshift\nwhile [[ "$1" = -* ]]; do shift; done\nexec tar -czf "$@"\n'}
    for n, s in scripts.items():
        with open(b + "/" + n, "w") as f:
            f.write(s)
    for n in os.listdir(b):
        os.chmod(b + "/" + n, 0o755)
    return b


def job_run(world, ci, name, job, build, tag):
    """Runs the steps of a job which are commands; returns what went wrong,
    and the directories where it ran and published."""
    key = "j-" + re.sub(r"\W+", "-", "%s-%s-%s" % (name, build.get("NAME", ""), tag))
    d, w = world.clone(key)
    target = str(build.get("TARGET", "x86_64-unknown-linux-gnu"))
    rel = "%s/target/%s/release" % (w, target)
    exe = ".exe" if "windows" in target else ""
    for p in {rel, w + "/target/release"}:
        os.makedirs(p)
        for n in world.bins:
            with open(p + "/" + n + exe, "w") as f:
                f.write("%s for %s\n" % (n, target))
    os.mkdir(d + "/npm")
    os.mkdir(d + "/tmp")
    open(d + "/env", "w").close()
    world.own(d)
    env = {}
    ctx = Ctx(matrix={"build": build}, github={"ref": "refs/tags/" + tag, "ref_name": tag, "repository": "o/r"}, env=env, secrets="@any", vars={}, needs={}, steps={}, runner={"os": "Linux"})
    failed = None
    for st in job.get("steps", []):
        cmd = st.get("run")
        if cmd is None or ("if" in st and not ctx.value(str(st["if"]))):
            continue
        with open(d + "/step.sh", "w") as f:
            f.write(ctx.fill(cmd))
        os.chmod(d + "/step.sh", 0o644)
        extra = {k: ctx.fill(str(v)) for k, v in {**(job.get("env") or {}), **(st.get("env") or {})}.items()}
        e = world.env(PATH=ci + ":/usr/bin:/bin", GITHUB_REF="refs/tags/" + tag, GITHUB_REF_NAME=tag, GITHUB_ENV=d + "/env", NOTE_LOG=d + "/log/calls", NPM_OUT=d + "/npm", TMPDIR=d + "/tmp", **{**env, **extra})
        p = world.run(["bash", "--noprofile", "--norc", "-eo", "pipefail", d + "/step.sh"], os.path.join(w, ctx.fill(st.get("working-directory", "."))), e)
        if p.returncode:
            failed = "the step %r fails with status %d: %s" % (st.get("name", cmd[:40]), p.returncode, p.stderr.decode(errors="replace")[-300:])
            break
        for l in open(d + "/env").read().splitlines():
            if "=" in l:
                k, v = l.split("=", 1)
                env[k] = v
    return failed, d, w


def workflow(rep, world):
    import yaml
    try:
        jobs = yaml.safe_load(open(os.path.join(world.base, WORKFLOW)))["jobs"]
    except (OSError, ValueError, KeyError, TypeError, yaml.YAMLError) as e:
        rep.violate("the release workflow cannot be read: %s" % e, {})
        return
    ci = stand_ins(world)
    todo = []
    for tag in ("v1.2.3", "v10.0.21-rc.1"):
        for name, job in jobs.items():
            cmds = " ".join(str(s.get("run", "")) for s in job.get("steps", []))
            if "npm publish" in cmds and "strategy" in job:
                todo += [(tag, name, job, b, "binaries") for b in job["strategy"]["matrix"].get("build", [])]
            elif "cargo-deb " in cmds:
                todo.append((tag, name, job, {}, "deb"))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        results = list(ex.map(lambda t: (t, job_run(world, ci, t[1], t[2], t[3], t[0])), todo))
    published = {}
    for (tag, name, job, b, kind), (failed, d, w) in results:
        v = tag[1:]
        rep.evaluations += 1
        rep.count("workflow_jobs_run")
        where = "%s %s %s" % (name, b.get("NAME", ""), tag)
        if failed:
            rep.violate("%s: %s" % (where, failed), {"build": b, "tag": tag})
            continue
        rep.case("job " + where)
        win = "windows" in str(b.get("TARGET", ""))
        exe = "smd.exe" if win else "smd"
        if kind == "deb":
            import tomllib
            assets = tomllib.load(open(w + "/smd/Cargo.toml", "rb"))["package"]["metadata"]["deb"]["assets"]
            for a in assets:
                src = a[0] if isinstance(a, list) else a["source"]
                if not src.startswith("target/"):
                    rep.count("package_assets")
                    if not os.path.isfile(os.path.join(w, "smd", src)):
                        rep.violate("%s: the package needs %s, which is not there" % (where, src), {"asset": src})
            continue
        # the archive
        ar = [n for n in os.listdir(w) if n.startswith("smd-" + v) and n.endswith((".tar.gz", ".zip"))]
        if ar != ["smd-%s-%s%s" % (v, b["TARGET"], ".zip" if win else ".tar.gz")]:
            rep.violate("%s: the archives are %s" % (where, ar), {"build": b})
        else:
            with tarfile.open(os.path.join(w, ar[0])) as t:
                got = {m.name: t.extractfile(m).read() for m in t.getmembers() if m.isfile()}
            top = "smd-%s/" % v
            want = {top + n: open(os.path.join(w, n), "rb").read() for n in ("LICENSE", "README.md", "CHANGELOG.md")}
            want[top + exe] = ("smd for %s\n" % b["TARGET"]).encode()
            for n, c in want.items():
                if got.get(n) != c:
                    rep.violate("%s: the archive has the wrong %s, or none" % (where, n), {"names": sorted(got)})
            for n in (top + "man/smd.1", top + "completions/smd.bash", top + "completions/smd.fish", top + "completions/_smd"):
                if len(got.get(n, b"")) < 100:
                    rep.violate("%s: the archive has no %s" % (where, n), {"names": sorted(got)})
            rep.count("archives_opened")
            sums = os.path.join(w, ar[0] + ".sha512")
            if os.path.exists(sums) and open(sums).read().split()[0] != hashlib.sha512(open(os.path.join(w, ar[0]), "rb").read()).hexdigest():
                rep.violate("%s: the checksum is wrong" % where, {})
        for n in sorted(os.listdir(d + "/npm")):
            p = os.path.join(d, "npm", n)
            try:
                j = json.load(open(p + "/package.json"))
            except (OSError, ValueError) as e:
                rep.violate("%s: the platform package cannot be read: %s" % (where, e), {})
                continue
            pk = str(j.get("name"))
            rep.count("platform_packages")
            published.setdefault(tag, []).append(pk)
            m = re.fullmatch(r"smd-(\w+)-(\w+)", pk)
            if not m or j.get("version") != v or j.get("os") != [{"windows": "win32"}.get(m.group(1), m.group(1))] or j.get("cpu") != [m.group(2)]:
                rep.violate("%s: the platform package is %s" % (where, {k: j.get(k) for k in ("name", "version", "os", "cpu")}), {"build": b})
                continue
            arch = {"x86_64": "x64", "aarch64": "arm64", "i686": "ia32"}.get(b["TARGET"].split("-")[0])
            plat = "windows" if win else "darwin" if "apple" in b["TARGET"] else "linux"
            if (plat, arch) != m.groups():
                rep.violate("%s: %s has the binary of %s" % (where, pk, b["TARGET"]), {"build": b})
            f = os.path.join(p, "bin", exe)
            if not os.path.exists(f) or open(f).read() != "smd for %s\n" % b["TARGET"]:
                rep.violate("%s: %s does not have its executable as bin/%s" % (where, pk, exe), {"build": b})
    for tag in ("v1.2.3", "v10.0.21-rc.1"):
        got = published.get(tag, [])
        if sorted(got) != sorted(world.names) and not rep.violations:
            rep.violate("the npm package depends on %s, published are %s" % (sorted(world.names), sorted(got)), {"tag": tag})


def check():
    rep = Report("C21", "exploration", "a release with a distinct (tag, fault, outcome), or a distinct packaging job of the workflow.")
    world = World()
    try:
        m, err = metadata(world.export(world.root, world.base, "HEAD"))
        if m is None:
            raise NoVerdict("the tree does not resolve: " + err)
        x = os.path.join(world.root, [n for n in os.listdir(world.root) if n.startswith("x-")][0])
        base = {"settings": settings(m[0], x), "others": m[1]}
        workflow(rep, world)
        n = 1200 if THOROUGH else 120
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for bad, seen in ex.map(lambda k: scenario(world, base, k), range(n)):
                for tag, fault, ok in seen:
                    rep.evaluations += 1
                    rep.count("releases_made" if ok else "releases_refused")
                    if fault:
                        rep.count("fault: " + fault)
                    rep.case((tag, fault, ok), "%s %s: %s" % (tag, fault, "made" if ok else "refused"))
                for why, detail in bad:
                    rep.violate(why, detail)
        rep.assumptions = ["git-cliff, gpg, npm and the cross compilation are stand-ins which record their calls",
                           "actions of the workflow which are not commands are left out; expressions are evaluated as far as the workflow uses them"]
    finally:
        world.close()
    return rep
