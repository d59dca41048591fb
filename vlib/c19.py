"""The command line does what its help says."""
import os, random, re, subprocess, threading, tomllib
from . import pdf, prog
from .common import REPO, SEED, THOROUGH, Report
from .prog import World, document, snapshot, differences, says_error, panicked, out_name

LEVELS = ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"]
LINE = re.compile(r"^\s*(?:\x1b\[[0-9;]*m)*\s*(ERROR|WARN|INFO|DEBUG|TRACE)\b(?:\x1b\[[0-9;]*m)*\s+(?:\x1b\[[0-9;]*m)*([A-Za-z_][\w:]*)", re.M)
COMMANDS = {"parse": ["-i", "--input", "-o", "--output", "-h", "--help", "-V", "--version"], "initialize": ["-h", "--help", "-V", "--version"]}
GLOBAL = ["-h", "--help", "-V", "--version", "-v", "--verbose"]


def version():
    return tomllib.load(open(REPO + "/smd/Cargo.toml", "rb"))["package"]["version"]


# nothing but a tilde at the beginning stands for something else
# variables which would be there for arguments, if the help said so
ARGS = ["INPUT", "OUTPUT", "SMD_INPUT", "SMD_OUTPUT", "SMD__INPUT", "SMD__OUTPUT", "SMD_FORMAT", "SMD_VERBOSE", "VERBOSE", "SMD_DEBUG", "DEBUG", "SMD_LOG", "HELP", "VERSION", "SMD_OUT_DIR", "OUT_DIR", "SMD_CONFIG"]
VARS = {"PART": "other", "X": "doc", "EMPTY": ""}
PLAIN = ["cost-$PART.md", "${X}.md", "$X.md", "a$EMPTY.md", "$UNSET.md", "${", "%X%.md", "`echo doc`.md", "$(echo doc).md", "x*.md", "[a-z].md", "{a,b}.md", "~x.md", "!doc.md", "doc.md~",
         "100%.md", "a+b.md", "a%20b.md", "doc.md ", " doc.md", "\tdoc.md", "doc.md\n", "DOC.md", "'doc.md'", '"doc.md"', "doc.md:1", "doc.md#x", "doc.md?x", "file:doc.md", "@doc.md", "doc.md,a.md",
         "do\\c.md", "doc..md", "\u00a0doc.md", "\u212b.md", "ﬁ.md", "doc&amp;.md", "-"]
MEANT = ["cost-other.md", "doc.md", "a.md", ".md", "xa.md", "a b.md", "\u00c5.md", "fi.md", "doc&.md", "x"]


class Shot:
    """One run and what it changed."""

    def __init__(self, w, r, prepare=None, **env):
        self.w, self.r = w, r
        self.d = w.case()
        self.name = r.choice(["doc.md", "a b.md", "x", "ünï.md", "two.dots.md"] + PLAIN)
        self.text = document(r)
        for n in MEANT if self.name in PLAIN else []:
            self.put("work/" + n, b"wrong")
        self.put("work/" + self.name, self.text)
        self.data = pdf.pdf_bytes(r)
        pf, self.log = pdf.plan(self.d, self.data, load=.3)
        for v in r.sample(ARGS, r.choice([0, 0, 3, 10])):
            self.put("work/ambient.md", b"ambient")
            env.setdefault(v, r.choice(["html", "pdf", "1", "3", self.d + "/work/ambient.md"]) if "PUT" not in v else "html" if "OUT" in v else self.d + "/work/ambient.md")
        self.env = w.env(self.d, CHROME=w.chrome, VCHROME_PLAN=pf, **dict(VARS if self.name in PLAIN else {}, **env))

    def put(self, rel, data):
        p = os.path.join(self.d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)

    def go(self, argv, cwd=None):
        self.w.own(self.d)
        self.argv = argv
        self.before = snapshot(self.d, ["log"])
        self.res = self.w.run(argv, self.d, env=self.env, cwd=cwd)
        self.after = snapshot(self.d, ["log"])
        return self.res

    def changed(self, ignore=()):
        return differences(self.before, self.after, ignore)

    def ctx(self):
        return {"argv": [os.fsdecode(a) if isinstance(a, bytes) else a for a in self.argv], "env": self.env, "result": self.res.show()}

    def close(self):
        self.w.remove(self.d)


def spell_input(r, path):
    return r.choice([["-i", path], ["--input", path], ["--input=" + path], ["-i" + path], ["-i=" + path]])


def spell_output(r, fmt):
    return r.choice([["-o", fmt], ["--output", fmt], ["--output=" + fmt], ["-o" + fmt], ["-o=" + fmt]])


def verbosity(r):
    return r.choice([([], 0), ([], 0), (["-v"], 1), (["--verbose"], 1), (["--debug"], 1), (["-vv"], 2), (["--debug", "-v"], 2), (["-v", "-v"], 2), (["-v", "--verbose"], 2), (["-vvv"], 3), (["--verbose", "--verbose", "-v"], 3)])


def levels(err):
    return [(m.group(1), m.group(2)) for m in LINE.finditer(err.decode(errors="replace"))]


def log_faults(err, n, log):
    """What is wrong with what was logged."""
    seen = levels(err)
    out = []
    if n == 0 and log is None:
        top, only, need = "INFO", None, "INFO"
    elif n == 1:
        top, only, need = "DEBUG", None, "DEBUG"
    elif n > 1:
        top, only, need = "TRACE", None, "DEBUG"
    else:
        m = re.fullmatch(r"(?:([\w:]+)=)?(\w+)", log)
        if not m:
            return []
        only, top = m.group(1), m.group(2).upper()
        if top == "OFF":
            return ["a log filter says off, but this is logged: %r" % err[:300]] if err.strip() else []
        need = None if only else {"INFO": "INFO", "DEBUG": "DEBUG", "TRACE": "DEBUG"}.get(top)
    for l, t in seen:
        if LEVELS.index(l) > LEVELS.index(top):
            out.append("a line of level %s is logged, with flags and filter asking for %s" % (l, top))
            break
        if only and not t.startswith(only):
            out.append("a line of %s is logged, with a filter for %s" % (t, only))
            break
    if need and not any(l == need for l, _ in seen):
        out.append("no line of level %s is logged, with flags and filter asking for %s" % (need, top))
    return out


def convert(w, rep, n, lock):
    """Documented ways to ask for a conversion."""
    r = random.Random(SEED * 1000003 + n)
    log = r.choice([None, None, "off", "error", "warn", "info", "debug", "trace", "smd_core=debug", "smd_core=info", "gfm=warn", "smd=info"])
    s = Shot(w, r, **({} if log is None else {"RUST_LOG": log}))
    out = []
    try:
        fmt = r.choice(["html", "html", "html", "pdf", "default"]) if n % 4 else "html"
        verb, k = verbosity(r)
        tilde = r.random() < .4
        base, cwd = "work", None
        arg = r.choice([s.d + "/work/" + s.name, s.name, "./" + s.name])
        if tilde:
            os.rename(s.d + "/work/" + s.name, s.d + "/home/" + s.name)
            base, arg = "home", "~/" + s.name
            cwd = s.d + "/tmp"
            if r.random() < .3:
                os.makedirs(s.d + "/home/de ep")
                os.rename(s.d + "/home/" + s.name, s.d + "/home/de ep/" + s.name)
                base, arg = "home/de ep", "~/de ep/" + s.name
            if r.random() < .5:
                # something of the same name, were the tilde taken as it is
                s.put("tmp/~/" + s.name, b"wrong")
        elif r.random() < .2:
            # no tilde at the beginning
            s.put("work/~/x.md", s.text)
            s.put("work/a~/x.md", s.text)
            s.put("home/x.md", b"wrong")
            base, arg = r.choice([("work/~", "./~/x.md"), ("work/a~", "a~/x.md"), ("work/~", s.d + "/work/~/x.md")])
            s.name = "x.md"
        opts = [spell_input(r, arg)] + ([] if fmt == "default" else [spell_output(r, fmt)])
        r.shuffle(opts)
        argv = verb + ["parse"] + sum(opts, [])
        ext = b"html" if fmt == "html" else b"pdf"
        rel = os.fsencode(base) + b"/" + out_name(os.fsencode(s.name), ext)
        res = s.go(argv, cwd)
        for _ in range(2):
            if res.code != 0 and b"eadless" in res.err:
                s.w.own(s.d)
                res = s.go(argv, cwd)
        bad = []
        want = w.render(s.text) if fmt == "html" else s.data
        if res.code != 0:
            bad.append("a documented way to convert a file is rejected with status %s" % res.code)
        else:
            if s.after.get(rel, (0, 0, None))[2] != want:
                bad.append("%r does not hold the %s" % (rel.decode(errors="replace"), "rendering" if fmt == "html" else "print of the browser"))
            bad += log_faults(res.err, k, log)
        ch = s.changed([rel])
        if ch:
            bad.append("files changed: " + "; ".join(ch))
        if res.out:
            bad.append("something is written to standard output: %r" % res.out[:100])
        out = [(b, s.ctx()) for b in bad]
        with lock:
            rep.evaluations += 1
            rep.count("log_lines_judged", len(levels(res.err)))
            rep.count("conversions")
            rep.case(repr((argv[:3], opts and [o[0][:3] for o in opts], log, k, tilde, fmt)), "%r with RUST_LOG %s" % (argv, log))
    finally:
        s.close()
    return out


CRATES = ["smd", "smd_core", "gfm", "SMD_CORE", "smd-core", "core", "gf", "smd_core::fs", "gfm::lexer", "smd_core::f", "nothing", "smd::"]


def passes(directives, level, target):
    """Whether a log filter lets a record through: the longest prefix of its target decides."""
    best = None
    for t, l in directives:
        if target.startswith(t) and (best is None or len(t) >= len(best[0])):
            best = t, l
    return best is not None and best[1] != "OFF" and LEVELS.index(level) <= LEVELS.index(best[1])


def records(err):
    out = []
    for line in re.sub(rb"\x1b\[[0-9;]*m", b"", err).decode(errors="replace").split("\n"):
        m = LINE.match(line)
        if m:
            out.append((m.group(1), m.group(2), " ".join(line.split())))
    return out


def filtered(w, rep, n, lock):
    """A log filter keeps the records it asks for, and no other."""
    r = random.Random(SEED * 7000003 + n)
    s = Shot(w, r)
    out = []
    try:
        name = s.name if r.random() < .8 else "missing.md"
        argv = ["parse", "-i", s.d + "/work/" + name, "-o", "html"]
        target = s.d + "/work/" + out_name(os.fsencode(name), b"html").decode()
        if r.random() < .2:
            os.mkdir(target)
        first = snapshot(s.d, ["log"])

        def go(words, log):
            if log is None:
                s.env.pop("RUST_LOG", None)
            else:
                s.env["RUST_LOG"] = log
            res = s.go(words)
            if os.path.isfile(target):
                os.remove(target)
            return res
        whole = go(argv, "trace")
        full = records(whole.err)
        picked = []
        for _ in range(6):
            ds = []
            for _ in range(r.choice([1, 1, 2, 2, 3])):
                t = r.choice(CRATES) if r.random() < .7 else ""
                l = r.choice(LEVELS + ["OFF"])
                if any(x[0] == t for x in ds):
                    continue
                ds.append((t, l))
            shown = [(t + "=" if t else "") + r.choice([l, l.lower(), l.capitalize()]) if not (t and l == "TRACE" and r.random() < .5) else t for t, l in ds]
            picked.append(([], ",".join(shown), ds))
        other = r.choice([None, "off", "trace", "gfm=warn"])
        for k, l in ((0, "INFO"), (1, "DEBUG"), (2, "TRACE"), (3, "TRACE"), (7, "TRACE")):
            picked.append((["-v"] * k, other if k else None, [("", l)]))
        for flags, log, ds in picked:
            res = go(flags + argv, log)
            want = [x[2] for x in full if passes(ds, x[0], x[1])]
            got = [x[2] for x in records(res.err)]
            bad = []
            if res.code != whole.code:
                bad.append("the exit status depends on the log filter: %s and %s" % (whole.code, res.code))
            if got != want:
                lost = [x for x in want if x not in got]
                more = [x for x in got if x not in want]
                bad.append("with flags %r and RUST_LOG %r, %d records are logged instead of the %d of all which the filter asks for; lost: %r; not asked for: %r" % (" ".join(flags), log, len(got), len(want), lost[:2], more[:2]))
            out += [(b, s.ctx()) for b in bad]
            with lock:
                rep.evaluations += 1
                rep.count("filters_compared")
                rep.count("log_lines_judged", len(got))
                rep.case(repr(("filter", flags, log, name)), "RUST_LOG=%s %s" % (log, " ".join(flags)) if n < 2 else None)
            if out:
                break
        d = differences(first, snapshot(s.d, ["log"]))
        if d and not out:
            out.append(("files changed: " + "; ".join(d), s.ctx()))
    finally:
        s.close()
    return out


def info(w, rep, n, lock):
    """Help and version, in every position."""
    r = random.Random(SEED * 7919 + n)
    s = Shot(w, r)
    out = []
    try:
        flag = r.choice(["-h", "--help", "-V", "--version"])
        cmd = r.choice([[], [], ["parse"], ["initialize"]])
        verb, _ = verbosity(r)
        words = [[v] for v in verb] + [cmd] * bool(cmd)
        first = len(verb)
        if cmd == ["parse"]:
            if r.random() < .7:
                words.append(spell_input(r, s.d + "/work/" + s.name))
            if r.random() < .5:
                words.append(spell_output(r, r.choice(["html", "pdf"])))
        i = r.randrange(len(words) + 1)
        words.insert(i, [flag])
        argv = sum(words, [])
        res = s.go(argv)
        bad = []
        if res.code != 0:
            bad.append("%s ends with status %s" % (flag, res.code))
        elif flag in ("-V", "--version"):
            if version() not in res.out.decode(errors="replace").split():
                bad.append("the version %s is not printed: %r" % (version(), res.out[:200]))
            if b"smd" not in res.out:
                bad.append("the name of the program is not printed: %r" % res.out[:200])
        else:
            t = res.out.decode(errors="replace")
            inside = cmd and i > first
            names = COMMANDS[cmd[0]] if inside else GLOBAL + list(COMMANDS)
            if inside and cmd[0] == "parse":
                names = names + ["pdf", "html"]
            for x in names:
                if not re.search(r"(?<![\w-])%s(?![\w-])" % re.escape(x), t):
                    bad.append("the help does not mention %s" % x)
        ch = s.changed()
        if ch:
            bad.append("files changed: " + "; ".join(ch))
        if pdf.events(s.log):
            bad.append("a browser was started")
        out = [(b, s.ctx()) for b in bad]
        with lock:
            rep.evaluations += 1
            rep.count("help_and_version")
            rep.case(repr([a if s.d not in a else "PATH" for a in argv]))
    finally:
        s.close()
    return out


BAD = [[], ["convert"], ["help"], ["Parse"], ["pars"], ["--input", "X"], ["-x"], ["--verbos"], ["--no-such-flag", "parse", "-i", "X", "-o", "html"],
       ["parse"], ["parse", "X"], ["parse", "-i"], ["parse", "-i", "X", "-o"], ["parse", "-i", "X", "-o", "docx"], ["parse", "-i", "X", "-o", "HTML"], ["parse", "-i", "X", "-o", ""],
       ["parse", "-i", "X", "-i", "X", "-o", "html"], ["parse", "-i", "X", "-o", "html", "-o", "html"], ["parse", "-i", "X", "-o", "html", "extra"], ["parse", "-i", "X", "-o", "html", "--what"],
       ["parse", "-o", "html"], ["parse", "-i", "X", "-o", "html,pdf"], ["parse", "-i", "X", "-o", "htm"], ["parse", "-i", "X", "html"], ["initialize", "extra"], ["initialize", "-i", "X"],
       ["initialize", "--force"], ["parse", "initialize"], ["initialize", "parse"], ["parse", "-i", "NON-UTF8", "-o", "html"], ["parse", "-i", "X", "-o", "NON-UTF8"],
       ["-v"], ["-vv"], ["parse", "--input=", "-o", "html"], ["parse", "-i", "X", "--output="], ["parse", "-i", "X", "-q", "-o", "html"], ["--", "parse", "-i", "X"], ["", "parse", "-i", "X"],
       ["pars", "-i", "X", "-o", "html"], ["p", "-i", "X", "-o", "html"], ["init"], ["i"], ["Initialize"], ["initialise"], ["PARSE", "-i", "X", "-o", "html"],
       ["parse", "--inp", "X", "-o", "html"], ["parse", "-i", "X", "--out", "html"], ["--verb", "parse", "-i", "X", "-o", "html"], ["parse", "-I", "X", "-o", "html"], ["parse", "-i", "X", "-O", "html"],
       ["parse", "-i", "X", "-o", "html "], ["parse", "-i", "X", "-o", "h"], ["parse", "-i", "X", "X", "-o", "html"], ["parse", "-i", "X", "-o", "html", "pdf"],
       ["parse", "--", "-i", "X"], ["parse", "-i", "X", "-o", "html", "--", "y"], ["-v=3", "parse", "-i", "X", "-o", "html"], ["--help=1"], ["--verbose=yes", "parse", "-i", "X", "-o", "html"]]


def wrong(w, rep, n, lock):
    """Invalid usage."""
    r = random.Random(SEED * 104729 + n)
    s = Shot(w, r)
    out = []
    try:
        argv = [b"\xff\xfe" if a == "NON-UTF8" else s.d + "/work/" + s.name if a == "X" else a for a in BAD[n % len(BAD)]]
        res = s.go(argv)
        bad = []
        if res.code == 0:
            bad.append("invalid usage is accepted")
        elif res.code < 0 or panicked(res.err):
            bad.append("invalid usage crashes the program")
        elif not res.err.strip():
            bad.append("there is no message")
        if res.out:
            bad.append("something is written to standard output")
        ch = s.changed()
        if ch:
            bad.append("files changed: " + "; ".join(ch))
        if pdf.events(s.log):
            bad.append("a browser was started")
        out = [(b, s.ctx()) for b in bad]
        with lock:
            rep.evaluations += 1
            rep.count("invalid_usage")
            rep.case(repr(BAD[n % len(BAD)]))
    finally:
        s.close()
    return out


def same(w, rep, n, lock):
    """Verbosity changes nothing but the log, and more of it logs more."""
    r = random.Random(SEED * 15485863 + n)
    s = Shot(w, r)
    out = []
    try:
        ok = r.random() < .7
        arg = s.d + "/work/" + (s.name if ok else "missing.md")
        rel = b"work/" + out_name(os.fsencode(s.name), b"html")
        logs, states, codes = [], [], []
        for verb in ([], ["-v"], ["-vv"], ["-vvv"]):
            res = s.go(verb + ["parse", "-i", arg, "-o", "html"])
            logs.append([x for x in levels(res.err)])
            states.append({k: v[:3] for k, v in s.after.items()})
            codes.append(res.code)
            if rel in s.after:
                os.remove(os.path.join(os.fsencode(s.d), rel))
        bad = []
        if any(x != states[0] for x in states):
            bad.append("the verbosity changes the files which are written")
        if len(set(codes)) != 1:
            bad.append("the verbosity changes the exit status: %r" % codes)
        for a, b in zip(logs, logs[1:]):
            for x in set(a):
                if b.count(x) < a.count(x):
                    bad.append("a line of level %s of %s is logged with lower verbosity only" % x)
        out = [(b, s.ctx()) for b in bad]
        with lock:
            rep.evaluations += 4
            rep.count("log_lines_judged", sum(map(len, logs)))
            rep.case(repr(("same", n, ok)))
    finally:
        s.close()
    return out


def generated(w, rep, lock):
    """Man page and completions."""
    out = []
    d = w.case()
    try:
        env = w.env(d, OUT_DIR=d + "/work/o")
        os.makedirs(d + "/work/o")
        w.own(d)
        before = snapshot(d)
        for exe in ("smd-mangen", "smd-completions"):
            res = w.run([], d, exe=os.path.join(w.bin, exe), env=env)
            if res.code != 0:
                out.append(("%s ends with status %s" % (exe, res.code), {"result": res.show()}))
        after = snapshot(d)
        ch = [c for c in differences(before, after) if "work/o" not in c]
        if ch:
            out.append(("files changed: " + "; ".join(ch), {}))
        texts = {os.path.basename(p).decode(): v[2].decode(errors="replace") for p, v in after.items() if v[0] == "file" and p.startswith(b"work/o/")}
        man = texts.get("smd.1", "").replace("\\-", "-").replace("\\fB", " ").replace("\\fR", " ").replace("\\fI", " ")
        has = lambda t, x: re.search(r"(?<![\w-])(?:smd-)?%s(?![\w-])" % re.escape(x), t)
        for x in GLOBAL + list(COMMANDS):
            if not has(man, x):
                out.append(("the man page does not name %s" % x, {"page": man[:3000]}))
        if version() not in man:
            out.append(("the man page does not name the version", {"page": man[:3000]}))
        every = sorted(set(GLOBAL + list(COMMANDS) + sum(COMMANDS.values(), []) + ["pdf", "html"]))
        shells = {"smd.bash": "bash", "_smd": "zsh", "smd.fish": "fish", "_smd.ps1": "powershell", "smd.elv": "elvish"}
        for f, shell in shells.items():
            if f not in texts:
                out.append(("there is no completion for %s" % shell, {"files": sorted(texts)}))
                continue
            t = texts[f]
            for x in every:
                if x in ("pdf", "html") and shell in ("powershell", "elvish"):
                    continue
                if shell == "fish" and x.startswith("-"):
                    want = r"-s\s+%s\b" % re.escape(x[1:]) if len(x) == 2 else r"-l\s+%s\b" % re.escape(x[2:])
                    ok = re.search(want, t)
                else:
                    ok = re.search(r"(?<![\w-])%s(?![\w-])" % re.escape(x), t)
                if not ok:
                    out.append(("the completion for %s does not name %s" % (shell, x), {"script": t[:4000]}))
            with lock:
                rep.evaluations += 1
                rep.case("completion " + shell)
        # what bash offers
        if "smd.bash" in texts:
            ask = [(["smd", ""], ["parse", "initialize"]), (["smd", "-"], GLOBAL), (["smd", "pa"], ["parse"]), (["smd", "parse", "-"], COMMANDS["parse"]),
                   (["smd", "initialize", "-"], COMMANDS["initialize"]), (["smd", "parse", "-o", ""], ["pdf", "html"]), (["smd", "parse", "--output", "h"], ["html"]),
                   (["smd", "-v", "parse", "-"], COMMANDS["parse"])]
            for words, want in ask:
                script = "set +o posix\nsource %s/work/o/smd.bash\nCOMP_WORDS=(%s)\nCOMP_CWORD=%d\n_smd smd %s %s\nprintf '%%s\\n' \"${COMPREPLY[@]}\"\n" % (
                    d, " ".join("'%s'" % x for x in words), len(words) - 1, "'%s'" % words[-1], "'%s'" % words[-2])
                p = subprocess.run(["bash", "--norc", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=w.env(d))
                got = p.stdout.split()
                miss = [x for x in want if x not in got]
                if miss:
                    out.append(("bash does not offer %s after %r" % (", ".join(miss), words), {"offered": got, "stderr": p.stderr[-500:]}))
                with lock:
                    rep.evaluations += 1
                    rep.count("completions_asked_for")
        # what is offered is accepted
        with lock:
            rep.evaluations += 1
            rep.case("man page")
    finally:
        w.remove(d)
    return out


def check():
    rep = Report("C19", "exploration", "a case is a command line with an environment; distinct if words, spelling, order, log filter or format differ")
    rep.assumptions = ["the documentation is the help and the comments in args.rs", "the browser is a stand-in"]
    w = World()
    lock = threading.Lock()
    try:
        k = 12 if THOROUGH else 1
        with prog.pool(12) as ex:
            fs = [ex.submit(convert, w, rep, i, lock) for i in range(900 * k)]
            fs += [ex.submit(info, w, rep, i, lock) for i in range(600 * k)]
            fs += [ex.submit(wrong, w, rep, i, lock) for i in range(len(BAD) * 2 * k)]
            fs += [ex.submit(same, w, rep, i, lock) for i in range(120 * k)]
            fs += [ex.submit(filtered, w, rep, i, lock) for i in range(80 * k)]
            fs += [ex.submit(generated, w, rep, lock)]
            prog.gather(rep, fs)
    finally:
        w.close()
    return rep
