"""HTML conversion: exactly the rendering, next to the input, nothing else."""
import os, random, threading
from . import prog
from .common import SEED, THOROUGH, Report
from .prog import World, document, snapshot, differences, out_name, says_error

LOGS = [None, "off", "error", "warn", "info", "debug", "trace", "smd=debug", "smd_core::fs=trace,gfm=off", "nonsense=wrong=x", "", "gfm", "Info"]
VERB = [[], [], [], ["-v"], ["-vv"], ["-v", "-v"], ["-vvv"], ["--verbose"], ["--debug"], ["--verbose", "--verbose"]]
CONFIG = '[parse]\non_parse_error = "%s"\nkeep_temp_files = %s\n'


class Case:
    def __init__(self, w, n):
        self.w, self.n = w, n
        self.r = r = random.Random(SEED * 1000003 + n)
        self.d = w.case()
        self.work = self.d + "/work"
        self.trace = []

    def put(self, rel, data, at=None):
        p = os.path.join(self.d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        return p


def one(w, rep, n, lock):
    c = Case(w, n)
    r, d = c.r, c.d
    fails = []
    shape = []
    try:
        name = r.choice(prog.NAMES)
        sub = r.choice(prog.DIRS)
        text = document(r)
        target = c.put(os.path.join("work", sub, name), text)
        tdir = os.path.dirname(target)
        # what is there besides
        for k in range(r.randrange(4)):
            other = r.choice(prog.NAMES + ["temp.html", "output.html", "tmp.html", "index.html", ".smd.html", "x.bak", "doc.html", "style.css", "a.html~"])
            p = os.path.join(tdir, other)
            if other != name and os.fsencode(other) != out_name(os.fsencode(name), b"html") and not os.path.exists(p):
                c.put(os.path.relpath(p, d), b"other %d" % k)
        out = os.path.join(os.fsencode(tdir), out_name(os.fsencode(name), b"html"))
        prior = r.randrange(6)
        old = {1: b"old", 2: b"old " * 50000, 3: w.render(text), 4: w.render(text) + b"tail"}.get(prior)
        if prior == 5:
            # almost what it has to be
            now = w.render(text)
            near = r.randrange(8)
            prior = "near %d" % near
            k = r.randrange(len(now))
            old = [now.rstrip(), now + b"\n", now + b" \n\n", now.replace(b"\n", b"\r\n"), now[:k] + bytes([now[k] ^ 1]) + now[k + 1:],
                   now.swapcase(), b"", now[:k]][near]
        if old is not None:
            with open(out, "wb") as f:
                f.write(old)
            if r.random() < .3:
                os.chmod(out, 0o600)
        # how it is named
        how = r.choice(["absolute", "relative", "relative", "dot", "up", "link", "dirlink", "linklink", "home", "slashes"])
        cwd = r.choice([c.work, tdir, d, d + "/home"])
        if "\udcff" in target:
            # arguments have to be UTF-8; what they lead to need not be
            how = r.choice(["relative", "dot", "link", "linklink", "dirlink"])
            cwd = tdir if how in ("relative", "dot") else cwd
        arg = target
        if how == "relative":
            arg = os.path.relpath(target, cwd)
            if arg.startswith("~"):
                arg = "./" + arg
        elif how == "dot":
            arg = "./" + os.path.relpath(target, cwd)
        elif how == "up":
            arg = os.path.join(cwd, "..", os.path.basename(cwd), os.path.relpath(target, cwd))
        elif how == "slashes":
            arg = target.replace("/work", "//work///.")
        elif how in ("link", "linklink"):
            os.mkdir(d + "/links")
            arg = d + "/links/" + r.choice(["l.md", "other.txt", "l", "l.html", "l.pdf"])
            os.symlink(target if r.random() < .5 else os.path.relpath(target, d + "/links"), arg)
            if how == "linklink":
                os.symlink(arg, d + "/links/second.md")
                arg = d + "/links/second.md"
        elif how == "dirlink":
            os.symlink(tdir, d + "/dirlink")
            arg = os.path.join(d, "dirlink", name)
        elif how == "home" and not sub:
            os.rename(c.work, d + "/home/work")
            arg, target = "~/work/" + name, d + "/home/work/" + name
            tdir = os.path.dirname(target)
            out = os.path.join(os.fsencode(tdir), out_name(os.fsencode(name), b"html"))
            cwd = d + "/tmp"
        env = w.env(d)
        log = r.choice(LOGS)
        if log is not None:
            env["RUST_LOG"] = log
        conf = r.randrange(5)
        cdir = d + "/home/.config"
        if r.random() < .3:
            cdir = env["XDG_CONFIG_HOME"] = d + "/xdg"
        if conf == 0:
            c.put(os.path.relpath(cdir, d) + "/smd/config.toml", (CONFIG % (r.choice(["abort", "skip", "serialize"]), r.choice(["true", "false"]))).encode())
        if conf == 1:
            env["SMD__PARSE__KEEP_TEMP_FILES"] = r.choice(["true", "false"])
            env["SMD__PARSE__ON_PARSE_ERROR"] = r.choice(["abort", "skip", "serialize"])
        if r.random() < .2:
            env.update(r.choice([{"LANG": "C"}, {"LC_ALL": "tr_TR.UTF-8"}, {"NO_COLOR": "1"}, {"TERM": "dumb"}, {"COLUMNS": "5"}, {"RUST_BACKTRACE": "1"},
                                 {"INPUT": "/etc/passwd", "OUTPUT": "pdf"}, {"PWD": "/"}, {"SMD_FOO": "1"}, {"DEBUG": "1"}]))
        verb = r.choice(VERB)
        # a flag alone would swallow a name starting with a dash
        opt_i = r.choice([["-i", arg], ["--input", arg], ["--input=" + arg], ["-i" + arg], ["-i=" + arg]]) if not arg.startswith("-") \
            else r.choice([["--input=" + arg], ["-i" + arg], ["-i=" + arg]])
        opt_o = r.choice([["-o", "html"], ["--output", "html"], ["--output=html"], ["-ohtml"], ["-o=html"]])
        opts = [opt_i, opt_o]
        r.shuffle(opts)
        argv = verb + ["parse"] + opts[0] + opts[1]
        w.own(d)
        shape = [name, sub, how, log, prior, conf, verb, opt_i[0][:3], opt_o[0][:3], len(text) // 1000]
        rounds = r.choice([1, 1, 1, 2, 3])
        # (env_logger itself gives up if it cannot complain about a filter)
        deaf = r.choice([None] * 10 + ["full", "broken"]) if log != "nonsense=wrong=x" else None
        shape.append(deaf)
        for k in range(rounds):
            before = snapshot(d, ["log"])
            res = w.run(argv, d, cwd=cwd, env=env, deaf=deaf)
            after = snapshot(d, ["log"])
            rel = os.path.relpath(out, os.fsencode(d))
            want = w.render(text)
            ctx = {"argv": argv, "cwd": cwd, "run": k, "env": env, "stderr": deaf, "text": text[:2000].decode(errors="replace"), "bytes": len(text), "result": res.show()}
            if res.code != 0:
                fails.append(("a conversion to HTML failed with status %s" % res.code, ctx))
            elif rel not in after:
                fails.append(("exit status 0, but %r does not exist" % rel.decode(errors="replace"), ctx))
            elif after[rel][0] != "file" or after[rel][2] != want:
                ctx["got"] = (after[rel][2] or b"")[:2000].decode(errors="replace")
                ctx["want"] = want[:2000].decode(errors="replace")
                fails.append(("the output (%d bytes) is not the rendering of the input (%d bytes)" % (len(after[rel][2] or b""), len(want)), ctx))
            ch = differences(before, after, [rel])
            if ch:
                fails.append(("other files changed: " + "; ".join(ch), ctx))
            if res.out:
                fails.append(("something was written to standard output: %r" % res.out[:200], ctx))
            with lock:
                rep.evaluations += 1
                rep.count("files_compared", len(after))
                rep.count("output_bytes_compared", len(want))
            if fails:
                break
            if k + 1 < rounds:
                # the user edits the document, at times without a trace in size or time
                st = os.stat(target)
                kind = r.randrange(3)
                if kind == 0 or not text:
                    text = document(r)
                elif kind == 1:
                    text = text.replace(b"a", b"b", 1)
                else:
                    text = text + b"\n\nmore\n"
                with open(target, "wb") as f:
                    f.write(text)
                if r.random() < .5:
                    os.utime(target, ns=(st.st_atime_ns, st.st_mtime_ns))
        with lock:
            rep.case(repr(shape), "%r in %s, %d bytes" % (argv, os.path.relpath(cwd, d), len(text)))
    finally:
        w.remove(d)
    return fails


def together(w, rep, n, lock):
    """Several runs at once in one directory."""
    r = random.Random(SEED * 7919 + n)
    d = w.case()
    fails = []
    try:
        jobs = []
        for k in range(r.randrange(2, 9)):
            text = document(r)
            p = d + "/work/doc%d.md" % k
            with open(p, "wb") as f:
                f.write(text)
            jobs.append((p, text))
        w.own(d)
        before = snapshot(d, ["log"])
        env = w.env(d)
        env.update(LD_PRELOAD=w.shim, SHIM_DIR=d + "/work", SHIM_DELAY=str(r.choice([1, 500, 3000])))
        ps = [w.spawn(["parse", "-i", p, "-o", "html"], d, env=env) for p, _ in jobs]
        rs = [w.collect(p) for p in ps]
        after = snapshot(d, ["log"])
        outs = []
        for (p, text), res in zip(jobs, rs):
            o = os.fsencode(os.path.relpath(p[:-2] + "html", d))
            outs.append(o)
            ctx = {"argv": ["parse", "-i", p, "-o", "html"], "runs at once": len(jobs), "result": res.show()}
            if res.code != 0 or res.out:
                fails.append(("one of several conversions at once failed with status %s" % res.code, ctx))
            elif after.get(o, (0, 0, None))[2] != w.render(text):
                fails.append(("the output of one of several conversions at once is not the rendering of its input", ctx))
        ch = differences(before, after, outs)
        if ch:
            fails.append(("other files changed: " + "; ".join(ch), {"runs at once": len(jobs)}))
        with lock:
            rep.evaluations += len(jobs)
            rep.count("runs_at_the_same_time", len(jobs))
            rep.case("together %d %d" % (n, len(jobs)))
    finally:
        w.remove(d)
    return fails


def check():
    rep = Report("C15", "exploration", "a case is a directory, a way of naming the input, an environment and one to three runs; distinct if file name, "
                 "directory, naming, verbosity, log setting, prior output, configuration or option spelling differ")
    rep.assumptions = ["the rendering expected is that of the library built from the same tree",
                       "output files which are links to other files are not covered"]
    w = World()
    lock = threading.Lock()
    try:
        with prog.pool() as ex:
            for fails in ex.map(lambda n: one(w, rep, n, lock), range(30000 if THOROUGH else 2500)):
                for why, ctx in fails:
                    rep.violate(why, ctx)
            for fails in ex.map(lambda n: together(w, rep, n, lock), range(1500 if THOROUGH else 100)):
                for why, ctx in fails:
                    rep.violate(why, ctx)
    finally:
        w.close()
    return rep
