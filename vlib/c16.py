"""A run which fails says so and destroys nothing."""
import errno, os, random, resource, stat, threading
from . import c17, pdf, prog
from .common import SEED, THOROUGH, Report
from .prog import World, document, snapshot, differences, out_name, says_error, panicked

BAD_TEXT = [b"\xff", b"abc\xff", b"\xc3", b"a" * 8191 + b"\xc3", b"# t\n\n" + b"x" * 70000 + b"\x80tail", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf5\x80\x80\x80", "hé".encode("latin-1"),
            "text".encode("utf-16"), b"\xef\xbb\xbf\xfe", b"ok\n" * 3000 + b"\xe2\x82"]
BAD_CONFIG = [b"not toml", b"[parse\non_parse_error = \"abort\"", b"[parse]\non_parse_error = \"explode\"\nkeep_temp_files = false\n",
              b"[parse]\non_parse_error = 5\nkeep_temp_files = false\n", b"[parse]\non_parse_error = \"abort\"\nkeep_temp_files = \"perhaps\"\n",
              b"[parse]\non_parse_error = \"abort\"\nkeep_temp_files = []\n", b"parse = 3\n", b"\xff\xfe", b"[parse]\non_parse_error = \"abort\"\non_parse_error = \"skip\"\n",
              b"[parse]\non_parse_error = \"ABORT!\"\nkeep_temp_files = true\n", b"=", b"[parse]\non_parse_error = [\"abort\"]\nkeep_temp_files = true\n"]
BAD_ENV = [("SMD__PARSE__ON_PARSE_ERROR", "explode"), ("SMD__PARSE__KEEP_TEMP_FILES", "perhaps"), ("SMD__PARSE__ON_PARSE_ERROR", "7")]
VERB = [[], [], [], ["-v"], ["-vv"], ["--verbose"]]


class Setup:
    """A directory with a document and things of the user around it."""

    def __init__(self, w, n, fmt, name=None, text=None):
        self.w, self.fmt = w, fmt
        self.r = r = random.Random(SEED * 1000003 + n)
        self.d = d = w.case()
        self.cwd = d + "/work"
        self.name = name or r.choice([x for x in prog.NAMES if x not in ("up.HTML",) and x[0] not in "-~"])
        self.idir = r.choice([d + "/work", d + "/work/sub", d + "/work/x y"])
        os.makedirs(self.idir, exist_ok=True)
        self.text = document(r) if text is None else text
        self.target = os.path.join(self.idir, self.name)
        self.write(self.target, self.text)
        self.out = os.path.join(os.fsencode(self.idir), out_name(os.fsencode(self.name), fmt.encode()))
        self.prior = r.randrange(3)
        if self.prior and self.out != os.fsencode(self.target):
            self.write(self.out, b"old output" if self.prior == 1 else b"old output " * 20000)
        c17.decoys(r, [self.cwd, self.idir, d + "/tmp", d + "/home"], {self.out, os.fsencode(self.target)})
        self.pdf = pdf.pdf_bytes(r)
        pf, self.log = pdf.plan(d, self.pdf, load=.3)
        self.env = w.env(d, CHROME=w.chrome, VCHROME_PLAN=pf)
        if r.random() < .3:
            self.env["RUST_LOG"] = r.choice(["error", "warn", "info", "debug", "trace", "off", "smd=off", "smd_core=error", "nothing"])
        self.verb = r.choice(VERB)
        # no message is asked for, but the exit status is
        self.quiet = not self.verb and self.env.get("RUST_LOG") in ("off", "smd=off", "smd_core=error", "nothing")
        # where messages go, if nowhere
        self.deaf = r.choice([None] * 8 + ["full", "broken"])
        self.quiet = self.quiet or self.deaf is not None
        self.before = None
        self.relaxed = []     # what may have changed
        self.arg = self.target
        self.slack = False    # the output was being written

    def write(self, p, data):
        with open(p, "wb") as f:
            f.write(data)

    def argv(self):
        return self.verb + ["parse", "-i", self.arg, "-o", self.fmt]

    def plan(self, fault):
        pdf.plan(self.d, self.pdf, load=.3, fault=fault)

    def config(self, data):
        os.makedirs(self.d + "/home/.config/smd")
        self.write(self.d + "/home/.config/smd/config.toml", data)


def scenarios(user):
    """name -> function which breaks something."""
    S = {}

    def scenario(f):
        S[f.__name__] = f
        return f

    @scenario
    def missing(s):
        s.arg = os.path.join(s.idir, "no such file.md")

    @scenario
    def missing_directory(s):
        s.arg = os.path.join(s.idir, "nowhere", "x.md")

    @scenario
    def below_a_file(s):
        s.arg = s.target + "/x.md"

    @scenario
    def directory(s):
        os.mkdir(s.idir + "/folder.md")
        s.arg = s.idir + "/folder.md"

    @scenario
    def the_working_directory(s):
        s.arg = s.r.choice([".", "..", "./", s.idir])

    @scenario
    def dangling_link(s):
        os.symlink("gone.md", s.idir + "/lnk.md")
        s.arg = s.idir + "/lnk.md"

    @scenario
    def link_loop(s):
        os.symlink("l2.md", s.idir + "/l1.md")
        os.symlink("l1.md", s.idir + "/l2.md")
        s.arg = s.idir + "/l1.md"

    @scenario
    def empty_name(s):
        s.arg = ""

    @scenario
    def not_utf8(s):
        s.text = s.r.choice(BAD_TEXT)
        s.write(s.target, s.text)

    @scenario
    def bad_config(s):
        s.config(s.r.choice(BAD_CONFIG))

    @scenario
    def config_is_a_directory(s):
        os.makedirs(s.d + "/home/.config/smd/config.toml")

    @scenario
    def bad_environment(s):
        k, v = s.r.choice(BAD_ENV)
        s.env[k] = v

    @scenario
    def output_is_a_directory(s):
        if os.path.lexists(s.out):
            os.remove(s.out)
        os.mkdir(s.out)
        if s.r.random() < .5:
            s.write(s.out + b"/x", b"x")

    @scenario
    def output_dangling_in_missing_directory(s):
        if os.path.lexists(s.out):
            os.remove(s.out)
        os.symlink(s.d + "/nowhere/x", s.out)

    @scenario
    def output_name_too_long(s):
        s.name = "n" * 252 + ".md"
        s.arg = s.target = os.path.join(s.idir, s.name)
        s.write(s.target, s.text)
        s.out = os.path.join(os.fsencode(s.idir), out_name(os.fsencode(s.name), s.fmt.encode()))

    @scenario
    def output_is_the_input(s):
        s.name = s.r.choice(["page.", "a.b.", "x y."]) + s.fmt
        s.arg = s.target = os.path.join(s.idir, s.name)
        s.write(s.target, s.text)
        s.out = os.fsencode(s.target)
        if s.r.random() < .4:
            os.symlink(s.target, s.d + "/home/l.md")
            s.arg = s.d + "/home/l.md"

    @scenario
    def output_leads_to_the_input(s):
        # beside the document there is a link of the name of the output, to the document
        if os.path.lexists(s.out):
            os.remove(s.out)
        os.symlink(s.target, s.out)

    @scenario
    def output_is_another_name_of_the_input(s):
        if os.path.lexists(s.out):
            os.remove(s.out)
        os.link(s.target, s.out)
        # it could be replaced, too
        s.optional = True

    @scenario
    def no_browser(s):
        if s.fmt == "html":
            return False
        s.env["CHROME"] = s.r.choice([s.d + "/no-browser", "", s.d + "/work"])

    @scenario
    def browser_not_executable(s):
        if s.fmt == "html":
            return False
        s.write(s.d + "/home/browser", b"#!/bin/sh\n")
        s.env["CHROME"] = s.d + "/home/browser"

    @scenario
    def browser_refuses(s):
        if s.fmt == "html":
            return False
        s.plan(("launch", "refuse"))

    @scenario
    def file_size_limit(s):
        s.slack = True
        if s.fmt == "pdf":
            s.pdf = s.r.randbytes(70000)
            s.plan(None)
            n = 66000
        else:
            n = 4096
            s.text = b"word " * 3000
            s.write(s.target, s.text)
        s.limit = (resource.RLIMIT_FSIZE, n)

    if user is not None:
        @scenario
        def unreadable(s):
            os.chmod(s.target, 0)

        @scenario
        def unreadable_config(s):
            s.config(b"")
            os.chmod(s.d + "/home/.config/smd/config.toml", 0)

        @scenario
        def directory_not_searchable(s):
            os.makedirs(s.d + "/closed")
            s.arg = s.target = s.d + "/closed/x.md"
            s.write(s.target, s.text)
            s.mode = (s.d + "/closed", 0)

        @scenario
        def directory_not_writable(s):
            if os.path.lexists(s.out):
                os.remove(s.out)
            if s.idir == s.cwd:
                os.makedirs(s.d + "/else", exist_ok=True)
                s.arg = s.target = s.d + "/else/" + s.name
                s.write(s.target, s.text)
                s.mode = (s.d + "/else", 0o555)
            else:
                s.mode = (s.idir, 0o555)

        @scenario
        def output_not_writable(s):
            s.write(s.out, b"keep this")
            os.chmod(s.out, 0o444)

        @scenario
        def working_directory_not_writable(s):
            if s.fmt == "html":
                return False
            os.makedirs(s.d + "/else", exist_ok=True)
            s.cwd = s.d + "/else"
            s.mode = (s.cwd, 0o555)
            s.optional = True
    return S


def fails_well(w, s, res, before, after):
    """What is wrong with a failing run."""
    bad = []
    ignore = [os.path.relpath(s.out, os.fsencode(s.d))] if s.slack else []
    if res.hung:
        return ["the program does not come to an end"]
    if res.code == 0:
        bad.append("the run could not do what was asked, but reports success")
    elif res.code < 0:
        bad.append("the program was ended by signal %d" % -res.code)
    if res.code != 0 and not s.quiet and not says_error(res.err):
        bad.append("there is no error message")
    if panicked(res.err):
        bad.append("the program panicked")
    if res.out:
        bad.append("something was written to standard output: %r" % res.out[:200])
    ch = differences(before, after, ignore)
    if ch:
        bad.append("files changed: " + "; ".join(ch))
    return bad


def scenario_run(w, rep, n, lock, name, f, fmt):
    s = Setup(w, n, fmt)
    s.limit = s.mode = None
    s.optional = False
    out = []
    try:
        if f(s) is False:
            return []
        hook = None
        if s.limit:
            def hook():
                resource.setrlimit(s.limit[0], (s.limit[1], s.limit[1]))
        w.own(s.d)
        if s.mode:
            os.chmod(*s.mode)
        before = snapshot(s.d, ["log"])
        res = w.run(s.argv(), s.d, cwd=s.cwd, env=s.env, before=hook, timeout=200, deaf=s.deaf)
        after = snapshot(s.d, ["log"])
        if s.optional and res.code == 0:
            with open(s.target, "rb") as f:
                if f.read() != s.text:
                    return [("the input was overwritten (%s to %s)" % (name.replace("_", " "), fmt), {"scenario": name, "argv": s.argv(), "cwd": s.cwd, "env": s.env, "result": res.show()})]
            return []
        for why in fails_well(w, s, res, before, after):
            out.append(("%s (%s to %s)" % (why, name.replace("_", " "), fmt),
                        {"scenario": name, "argv": s.argv(), "cwd": s.cwd, "env": s.env, "result": res.show(), "text": s.text[:800].decode(errors="replace")}))
        with lock:
            rep.evaluations += 1
            rep.count("failing_runs_observed", int(res.code != 0))
            rep.case(repr((name, fmt, s.prior, s.name, s.verb, s.env.get("RUST_LOG"), s.deaf, s.arg[len(s.d):])), "%s: %r" % (name, s.argv()))
    finally:
        if s.mode:
            os.chmod(s.mode[0], 0o755)
        w.remove(s.d)
    return out


def browser_run(w, rep, n, lock, fault):
    s = Setup(w, n, "pdf")
    out = []
    try:
        s.plan(fault)
        w.own(s.d)
        before = snapshot(s.d, ["log"])
        res = w.run(s.argv(), s.d, cwd=s.cwd, env=s.env, timeout=200, deaf=s.deaf)
        after = snapshot(s.d, ["log"])
        for why in fails_well(w, s, res, before, after):
            out.append(("%s (the browser failed at %s: %s)" % (why, fault[0], fault[1]), {"argv": s.argv(), "cwd": s.cwd, "result": res.show()}))
        with lock:
            rep.evaluations += 1
            rep.count("browser_faults", 1)
            rep.case(repr(("browser", fault, s.prior, s.name)))
    finally:
        w.remove(s.d)
    return out


def operations(log):
    ops = []
    for l in open(log, errors="replace") if os.path.exists(log) else []:
        if l.strip() == "fault":
            continue
        p = l.rstrip("\n").split(" ", 2)
        if len(p) == 3 and p[0].isdigit():
            ops.append((p[1], p[2]))
    return ops


def enumerate_ops(w, rep, n, lock, fmt, ex):
    """Lets each operation on files go wrong, one after the other."""
    name = ["doc.md", "with space.md", "a.b.md", "x"][n % 4]

    def setup():
        s = Setup(w, n, fmt, name=name)
        os.makedirs(s.d + "/work/cfg/smd")
        s.write(s.d + "/work/cfg/smd/config.toml", b'[parse]\non_parse_error = "skip"\nkeep_temp_files = false\n')
        s.env.update(XDG_CONFIG_HOME=s.d + "/work/cfg", LD_PRELOAD=w.shim, SHIM_DIR=s.d + "/work", SHIM_LOG=s.d + "/log/ops")
        s.env.pop("RUST_LOG", None)
        s.quiet = False
        w.own(s.d)
        return s

    s = setup()
    w.run(s.argv(), s.d, cwd=s.cwd, env=s.env)
    base = operations(s.d + "/log/ops")
    w.remove(s.d)
    with lock:
        rep.count("operations_enumerated", len(base))
    jobs = []
    for k, (kind, _) in enumerate(base):
        acts = ["%d" % errno.EIO, "kill", "%d" % errno.EACCES]
        if kind in ("write", "create", "mkdir", "rename", "sync", "truncate"):
            acts += ["%d:on" % errno.ENOSPC, "%d" % errno.EDQUOT]
        if kind in ("read", "write"):
            acts += ["short", "%d" % errno.EINTR]
        if kind in ("open", "create"):
            acts += ["%d" % errno.EMFILE]
        jobs += [(k, a) for a in acts]

    def one(job):
        k, act = job
        s = setup()
        try:
            s.env["SHIM_FAULT"] = "%d:%s" % (k, act)
            before = snapshot(s.d, ["log"])
            res = w.run(s.argv(), s.d, cwd=s.cwd, env=s.env, timeout=200)
            tries = 0
            after = snapshot(s.d, ["log"])
            ops = operations(s.d + "/log/ops")
            rel = os.path.relpath(s.out, os.fsencode(s.d))
            shown = os.fsdecode(s.out)
            opened = any(kind in ("create", "rename") and p == shown for kind, p in ops[:k])
            failed_op = ops[k] if k < len(ops) else ("none", "")
            bad = []
            ignore = [rel] if opened or res.code == 0 else []
            ch = differences(before, after, ignore)
            if failed_op[0] == "unlink" or act == "kill" or act.endswith(":on"):
                ch = [c for c in ch if "appeared" not in c]
            if ch:
                bad.append("files changed: " + "; ".join(ch))
            if act != "kill":
                if res.code == 0:
                    want = w.render(s.text) if fmt == "html" else s.pdf
                    if after.get(rel, (0, 0, None))[2] != want:
                        bad.append("success is reported, but the output is wrong")
                    if fmt == "pdf" and any(p != w.render(s.text) for p in pdf.printed(pdf.events(s.log))):
                        bad.append("success is reported, but another page was printed")
                elif res.code < 0:
                    bad.append("the program was ended by signal %d" % -res.code)
                elif not says_error(res.err):
                    bad.append("there is no error message")
                if act in ("short", "%d" % errno.EINTR) and res.code != 0:
                    pass
                if panicked(res.err):
                    bad.append("the program panicked")
                if res.hung:
                    bad.append("the program does not come to an end")
            with lock:
                rep.evaluations += 1
                rep.count("operation_faults", 1)
                rep.count("operation_faults_survived", int(res.code == 0))
                rep.case(repr(("op", fmt, name, k, failed_op[0], act, s.prior)))
            return [("%s (operation %d, %s of %r, made to fail: %s)" % (why, k, failed_op[0], failed_op[1][len(s.d):], act),
                     {"argv": s.argv(), "ops": ops, "fault": s.env["SHIM_FAULT"], "result": res.show()}) for why in bad]
        finally:
            w.remove(s.d)

    return [ex.submit(one, j) for j in jobs]


def init_ops(w, rep, n, lock, ex):
    """The same for the creation of the configuration."""
    def setup():
        d = w.case()
        env = w.env(d, XDG_CONFIG_HOME=d + "/work/deep/cfg", LD_PRELOAD=w.shim, SHIM_DIR=d + "/work", SHIM_LOG=d + "/log/ops")
        if n % 2:
            os.makedirs(d + "/work/deep/cfg")
        with open(d + "/work/mine", "w") as f:
            f.write("mine")
        w.own(d)
        return d, env
    d, env = setup()
    res = w.run(["initialize"], d, env=env)
    base = operations(d + "/log/ops")
    p = b"work/deep/cfg/smd/config.toml"
    good = snapshot(d, ["log"]).get(p, (0, 0, None))[2]
    w.remove(d)
    if res.code != 0 or good is None:
        rep.violate("the configuration cannot be created", {"result": res.show()})
        return []
    with lock:
        rep.count("operations_enumerated", len(base))
    jobs = [(k, a) for k, (kind, _) in enumerate(base) for a in ["%d" % errno.EIO, "%d" % errno.EACCES, "kill", "%d:on" % errno.ENOSPC, "short", "%d" % errno.EINTR]]

    def one(job):
        k, act = job
        d, env = setup()
        try:
            env["SHIM_FAULT"] = "%d:%s" % (k, act)
            before = snapshot(d, ["log"])
            res = w.run(["initialize"], d, env=env)
            after = snapshot(d, ["log"])
            bad = []
            ch = [c for c in differences(before, after, [p]) if "(dir)" not in c]
            if ch:
                bad.append("files changed: " + "; ".join(ch))
            got = after.get(p, (0, 0, None))[2]
            if act != "kill":
                if res.code == 0 and got != good:
                    bad.append("success is reported, but the configuration is %r" % got)
                if res.code < 0:
                    bad.append("the program was ended by signal %d" % -res.code)
                if res.code != 0 and not says_error(res.err):
                    bad.append("there is no error message")
                if res.code > 0 and got is not None and got != good and not act.endswith(":on"):
                    bad.append("the run failed and left %r" % got)
                if panicked(res.err):
                    bad.append("the program panicked")
            with lock:
                rep.evaluations += 1
                rep.count("operation_faults", 1)
                rep.case(repr(("init", n % 2, k, act)))
            return [("%s (initialize, operation %d, %s, made to fail: %s)" % (why, k, base[k][0], act), {"ops": base, "result": res.show()}) for why in bad]
        finally:
            w.remove(d)

    return [ex.submit(one, j) for j in jobs]


def init_scenarios(w, rep, n, lock):
    """Configurations which cannot be created."""
    r = random.Random(SEED * 104729 + n)
    d = w.case()
    env = w.env(d)
    mode = None
    try:
        kinds = ["file", "directory", "link", "dangling", "home is a file", "parent is a file"] + (["read-only directory"] if w.user is not None else [])
        kind = kinds[n % len(kinds)]
        base = d + "/home/.config"
        if r.random() < .5:
            base = env["XDG_CONFIG_HOME"] = d + "/work/xdg"
        p = base + "/smd/config.toml"
        if kind == "home is a file":
            env.pop("XDG_CONFIG_HOME", None)
            with open(d + "/home/f", "w") as f:
                f.write("x")
            env["HOME"] = d + "/home/f"
        elif kind == "parent is a file":
            os.makedirs(base)
            with open(base + "/smd", "w") as f:
                f.write("x")
        else:
            os.makedirs(base + "/smd")
            if kind == "file":
                with open(p, "wb") as f:
                    f.write(r.choice([b"", b"mine", BAD_CONFIG[0], b"[parse]\non_parse_error = \"abort\"\nkeep_temp_files = true\n"]))
            elif kind == "directory":
                os.mkdir(p)
            elif kind == "link":
                with open(d + "/work/dotfiles", "w") as f:
                    f.write("mine")
                os.symlink(d + "/work/dotfiles", p)
            elif kind == "dangling":
                os.symlink(d + "/work/none", p)
            else:
                mode = base + "/smd"
        w.own(d)
        if mode:
            os.chmod(mode, 0o555)
        before = snapshot(d, ["log"])
        argv = r.choice(VERB) + ["initialize"]
        res = w.run(argv, d, env=env)
        after = snapshot(d, ["log"])
        bad = []
        if res.code == 0:
            bad.append("success is reported")
        elif res.code < 0 or panicked(res.err):
            bad.append("the program crashed")
        elif not says_error(res.err):
            bad.append("there is no error message")
        ch = differences(before, after)
        if ch:
            bad.append("files changed: " + "; ".join(ch))
        if res.out:
            bad.append("something was written to standard output")
        with lock:
            rep.evaluations += 1
            rep.count("failing_runs_observed", int(res.code != 0))
            rep.case(repr(("init", kind, base[len(d):], argv)))
        return [("%s (initialize, where there is: %s)" % (why, kind), {"argv": argv, "result": res.show()}) for why in bad]
    finally:
        if mode:
            os.chmod(mode, 0o755)
        w.remove(d)


def check():
    rep = Report("C16", "fault_enumeration", "a case is a run with one cause of failure: a scenario, a step of the browser, or one numbered operation on files made to "
                 "fail; distinct if cause, format, prior output, file name, verbosity or log setting differ")
    rep.assumptions = ["while the output is being written its old content may be gone", "messages are asked for unless logging is switched off",
                       "the browser is a stand-in"]
    w = World()
    lock = threading.Lock()
    try:
        if w.user is None:
            rep.assumptions.append("no other user could be assumed here: causes of failure by permissions were left out")
        with prog.pool(28) as ex:
            fs = []
            n = 0
            for step, kind, slow in sorted(c17.FAULTS, key=lambda f: -f[2]):
                n += 1
                fs.append(ex.submit(browser_run, w, rep, n, lock, (step, kind)))
            for rnd in range(60 if THOROUGH else 6):
                for name, f in scenarios(w.user).items():
                    for fmt in ("html", "pdf"):
                        n += 1
                        fs.append(ex.submit(scenario_run, w, rep, n, lock, name, f, fmt))
            for rnd in range(210 if THOROUGH else 28):
                n += 1
                fs.append(ex.submit(init_scenarios, w, rep, n, lock))
            for rnd in range(8 if THOROUGH else 2):
                fs += enumerate_ops(w, rep, rnd, lock, "html", ex)
                fs += enumerate_ops(w, rep, rnd + 1, lock, "pdf", ex)
                fs += init_ops(w, rep, rnd, lock, ex)
            prog.gather(rep, fs)
    finally:
        w.close()
    return rep
