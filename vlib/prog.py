"""Runs of the real program in a scratch directory, as an unprivileged user,
with snapshots of everything it could touch."""
import concurrent.futures, hashlib, json, os, random, re, shutil, signal, stat, subprocess, tempfile, threading, time
from . import common, files
from .common import BUILD, SEED, THOROUGH, VERIF, NoVerdict

NOBODY = 65534
ROOT_LEVEL = 0o755


def can_drop():
    """Whether processes can be run as another user."""
    try:
        return subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[]).returncode == 0
    except (OSError, PermissionError, subprocess.SubprocessError):
        return False


class Renderer:
    """The rendering of a text by the library of the same tree."""

    def __init__(self, vfs):
        self.p = subprocess.Popen([vfs, "render"], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.lock = threading.Lock()
        self.memo = {}

    def __call__(self, text: bytes) -> bytes:
        with self.lock:
            k = hashlib.sha256(text).digest()
            if k in self.memo:
                return self.memo[k]
            self.p.stdin.write(b"%d\n" % len(text) + text)
            self.p.stdin.flush()
            head = self.p.stdout.readline()
            if not head.strip():
                raise NoVerdict("the renderer gave no answer; see C01")
            n = int(head)
            out = self.p.stdout.read(n)
            if len(text) < 100000:
                self.memo[k] = out
            return out

    def close(self):
        self.p.stdin.close()
        self.p.wait(10)


class World:
    """Scratch directory with the program in it."""

    def __init__(self, chrome=False):
        self.bins = common.build_smd()
        self.vfs = files.build_driver()
        self.user = NOBODY if os.getuid() == 0 and can_drop() else None
        self.root = tempfile.mkdtemp(prefix="vsmd-", dir="/tmp")
        os.chmod(self.root, ROOT_LEVEL)
        self.bin = os.path.join(self.root, "bin")
        os.mkdir(self.bin)
        for n, p in list(self.bins.items()) + [("vfs", self.vfs)]:
            shutil.copy(p, os.path.join(self.bin, n))
            os.chmod(os.path.join(self.bin, n), 0o755)
        self.smd = os.path.join(self.bin, "smd")
        so = os.path.join(self.bin, "shim.so")
        p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "cli", "shim.c"), "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise NoVerdict("the interposer cannot be built: " + p.stdout[-1000:])
        os.chmod(so, 0o755)
        self.shim = so
        # named so that it is executed like the real one
        self.chrome = os.path.join(self.bin, "chrome")
        with open(self.chrome, "w") as f:
            f.write("#!/usr/bin/python3 -SE\n" + open(os.path.join(VERIF, "cli", "chrome.py")).read())
        os.chmod(self.chrome, 0o755)
        self.count = 0
        self.lock = threading.Lock()
        self.render = Renderer(self.vfs)

    def case(self):
        """A fresh directory of its own, with home/, tmp/ and work/."""
        with self.lock:
            self.count += 1
            d = os.path.join(self.root, "c%d" % self.count)
        for n in (d, d + "/home", d + "/tmp", d + "/work", d + "/log"):
            os.mkdir(n)
        self.own(d)
        return d

    def own(self, d):
        if self.user is None:
            return
        for base, dirs, fs in os.walk(d):
            os.chown(base, self.user, self.user)
            for f in fs + dirs:
                os.chown(os.path.join(base, f), self.user, self.user, follow_symlinks=False)

    def env(self, d, **extra):
        e = {"PATH": "/usr/bin:/bin", "HOME": d + "/home", "TMPDIR": d + "/tmp", "CHROME": self.bin + "/no-such-browser"}
        e.update(extra)
        return {k: v for k, v in e.items() if v is not None}

    def spawn(self, args, d, cwd=None, env=None, exe=None, before=None, stdin=subprocess.DEVNULL, deaf=None):
        def setup():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            if before:
                before()
        kw = {}
        if self.user is not None:
            kw = dict(user=self.user, group=self.user, extra_groups=[])
        # messages may have nowhere to go: a full disk, or a pipe which nobody reads
        err = subprocess.PIPE
        if deaf == "full":
            err = os.open("/dev/full", os.O_WRONLY)
        elif deaf == "broken":
            end, err = os.pipe()
            os.close(end)
        try:
            return subprocess.Popen([exe or self.smd] + args, cwd=cwd or d + "/work", env=env or self.env(d), stdin=stdin,
                                    stdout=subprocess.PIPE, stderr=err, preexec_fn=setup if before else None,
                                    start_new_session=True, **kw)
        finally:
            if err != subprocess.PIPE:
                os.close(err)

    def run(self, args, d, timeout=120, **kw):
        p = self.spawn(args, d, **kw)
        return self.collect(p, timeout)

    def collect(self, p, timeout=120):
        try:
            out, err = p.communicate(timeout=timeout)
            hung = False
        except subprocess.TimeoutExpired:
            hung = True
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
        return Result(p.returncode, out, err or b"", hung, p.pid)

    def remove(self, d):
        shutil.rmtree(d, ignore_errors=True)

    def close(self):
        self.render.close()
        for base, dirs, _ in os.walk(self.root):
            for x in dirs:
                p = os.path.join(base, x)
                if not os.path.islink(p):
                    os.chmod(p, 0o755)
        shutil.rmtree(self.root, ignore_errors=True)


class Result:
    def __init__(self, code, out, err, hung, pid):
        self.code, self.out, self.err, self.hung, self.pid = code, out, err, hung, pid

    def show(self):
        return {"status": self.code, "stdout": self.out[-800:].decode(errors="replace"),
                "stderr": self.err[-1500:].decode(errors="replace"), "hung": self.hung}


def snapshot(d, skip=()):
    """path -> (kind, mode, content or target), of everything below d."""
    out = {}
    root = os.fsencode(d)
    skip = {os.path.join(root, os.fsencode(s)) for s in skip}
    stack = [root]
    while stack:
        base = stack.pop()
        for e in os.scandir(base):
            if e.path in skip:
                continue
            rel = os.path.relpath(e.path, root)
            st = e.stat(follow_symlinks=False)
            mode = stat.S_IMODE(st.st_mode)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ("link", 0, os.readlink(e.path), 0, st.st_ino)
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ("dir", mode, None, 0, st.st_ino)
                stack.append(e.path)
            elif stat.S_ISREG(st.st_mode):
                with open(e.path, "rb") as f:
                    out[rel] = ("file", mode, f.read(), st.st_mtime_ns, st.st_ino)
            else:
                out[rel] = ("other", mode, None, 0, st.st_ino)
    return out


def differences(a, b, ignore=()):
    """What changed from one snapshot to the next, as text."""
    ignore = {os.fsencode(i) for i in ignore}
    out = []
    for p in sorted(set(a) | set(b)):
        if p in ignore:
            continue
        if p not in b:
            out.append("%r is gone" % p.decode(errors="replace"))
        elif p not in a:
            out.append("%r appeared (%s)" % (p.decode(errors="replace"), b[p][0]))
        elif a[p][:3] != b[p][:3]:
            what = "content" if a[p][2] != b[p][2] else "mode" if a[p][1] != b[p][1] else "kind"
            out.append("%r has another %s" % (p.decode(errors="replace"), what))
        elif a[p][3] != b[p][3] or a[p][4] != b[p][4]:
            out.append("%r was written anew" % p.decode(errors="replace"))
    return out


def out_name(name: bytes, ext: bytes) -> bytes:
    """The name of the output for an input of that name."""
    i = name.rfind(b".")
    return (name if i <= 0 else name[:i]) + b"." + ext


ERROR_LINE = re.compile(rb"^(\s|\x1b\[[0-9;]*m)*\[?(ERROR|Error|error)\b", re.M)


def says_error(err: bytes) -> bool:
    """Whether there is an error message; what is merely logged on the way is none."""
    return bool(ERROR_LINE.search(err))


def panicked(err: bytes) -> bool:
    return b"panicked at" in err


WORDS = ["alpha", "beta", "gamma", "delta", "über", "naïve", "日本語", "emoji 😀", "ﬁ", "x", "<b>", "&amp;", "a&b", "\"q\"", "'", "\\*", "1.", "~"]
LINES = ["# {}", "## {} {}", "{} {} {}", "- {}", "* {}\n* {}", "1. {}\n2. {}", "> {}", "> {}\n> {}", "```\n{}\n```", "```rust\n{} {}\n```", "    {}",
         "| {} | {} |\n|---|---|\n| {} | {} |", "[{}](http://example.org/{})", "![{}](a.png)", "**{}** _{}_ ~~{}~~ `{}`", "---", "- [ ] {}\n- [x] {}",
         "<details>\n<summary>{}</summary>\n\n{}\n\n</details>", "{}[^1]\n\n[^1]: {}", "{}  \n{}", "<https://example.org/{}>", "{}\\\n{}"]


def document(r: random.Random) -> bytes:
    """A text of some kind."""
    k = r.randrange(20)
    if k == 0:
        return b""
    if k == 1:
        return r.choice([b"\n", b" ", b"\xef\xbb\xbf# bom\n", b"no newline at the end", b"\r\n", b"a\r\nb\r\n", b"\0", b"a\0b\n", "\u2028".encode(), b"\t"])
    if k == 2:
        n = r.choice([1, 2, 10, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537])
        c = r.choice(["a", "é", "日", "😀", "\n", "a\n", "&"])
        t = (c * (n // len(c.encode()) + 1)).encode()
        while True:
            t = t[:n]
            try:
                t.decode()
                return t
            except UnicodeDecodeError:
                n -= 1
    if k == 3:
        return "".join(chr(r.choice([r.randrange(0x20), r.randrange(0x20, 0x7f), r.randrange(0x80, 0xd800), r.randrange(0xe000, 0x110000)]))
                       for _ in range(r.randrange(1, 200))).encode()
    n = r.choice([1, 2, 3, 5, 8, 13, 40]) if k < 19 else r.randrange(200, 1500)
    parts = []
    for _ in range(n):
        t = r.choice(LINES)
        parts.append(t.format(*[r.choice(WORDS) + str(r.randrange(10)) for _ in range(6)]))
    sep = r.choice(["\n\n", "\n\n", "\n", "\r\n\r\n"])
    t = sep.join(parts)
    if r.random() < .7:
        t += "\n"
    if r.random() < .1:
        t = "\ufeff" + t
    return t.encode()


NAMES = ["doc.md", "a.md", "README", "notes.markdown", "two.dots.md", "with space.md", "ünï.md", "日本.md", "-dash.md", "--output.md", "x.html.md",
         "x.pdf.md", "up.HTML", "quote'\".md", "per%20cent.md", "hash#.md", "q?.md", "tilde~.md", "~.md", "$HOME.md", ".hidden", ".hidden.md", "trail.", "a..md",
         "new\nline.md", "semi;colon.md", "star*.md", "[br].md", "back\\slash.md", "temp.md", "output.md", "tmp.md", "x.htm", "😀.md", " lead.md", "trail .md",
         "a=b.md", "comma,.md", "l" * 120 + ".md", "ends.md ", "config.toml", "smd.md", "C:.md", "t\tab.md", "temp.txt", "...md", "é.txt", "e\u0301.md",
         "a.tar.md", "UP.MD", "notes.md.md", "draft.v1.2.md", "doc.md.txt", "_.md", "README.en.md", "2026-11-18.md"]
DIRS = ["", "sub", "deep/er/est", "with space", "do.ts", "日本", "per%41cent", "hash#q?", "x.md", "~", "-d", "a&b", "raw\udcff\udce9/x"]


def gather(rep, futures):
    """Collects what was found; a job without an answer matters only if the others found nothing."""
    failed = None
    for f in futures:
        try:
            for why, ctx in f.result():
                rep.violate(why, ctx)
        except Exception as e:
            failed = failed or e
    if failed and not rep.violations:
        raise failed


def pool(n=8):
    return concurrent.futures.ThreadPoolExecutor(n)
