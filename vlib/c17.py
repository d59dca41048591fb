"""PDF conversion: this document is printed, and nothing is left behind."""
import os, random, threading, time
from . import pdf, prog
from .common import SEED, THOROUGH, Report
from .prog import World, document, snapshot, differences, out_name, says_error

# where the browser may fail; those which cost a timeout of the client are marked
FAULTS = [("launch", "refuse", 0), ("handshake", "error", 0), ("handshake", "die", 0),
          ("Target.setDiscoverTargets", "error", 0), ("Target.setDiscoverTargets", "die", 0), ("Target.setDiscoverTargets", "silent", 1),
          ("Target.createTarget", "error", 0), ("Target.createTarget", "die", 0), ("Target.createTarget", "silent", 1),
          ("Target.attachToTarget", "error", 1), ("Target.attachToTarget", "die", 1), ("Target.attachToTarget", "silent", 1),
          ("Page.enable", "error", 1), ("Page.enable", "close", 1),
          ("Page.setLifecycleEventsEnabled", "error", 1),
          ("Page.navigate", "error", 0), ("Page.navigate", "errorText", 0), ("Page.navigate", "empty", 0), ("Page.navigate", "die", 0),
          ("Page.navigate", "close", 0), ("Page.navigate", "silent", 1),
          ("load", "silent", 1), ("load", "die", 1), ("load", "close", 1),
          ("Page.printToPDF", "error", 0), ("Page.printToPDF", "base64", 0), ("Page.printToPDF", "die", 0), ("Page.printToPDF", "close", 0),
          ("Page.printToPDF", "silent", 1)]
CRASHES = ["launch", "handshake", "Target.setDiscoverTargets", "Target.createTarget", "Target.attachToTarget", "Page.enable",
           "Page.setLifecycleEventsEnabled", "Page.navigate", "load", "Page.printToPDF"]
CWDS = ["plain", "with space", "per%20cent", "per%cent", "hash#tag", "quest?ion", "ünï", "日本", "a&b=c;d", "quote'\"", "back\\slash", "[br]{ac}", "plus+", "x.html",
        "new\nline", "tab\tulator", "semi;colon", "~tilde", "at@colon:", "😀", "<lt>", "pipe|^`", " lead", "trail ", "-dash", "%23", "%2F", "raw\udcff\udce9"]
CONFIG = '[parse]\non_parse_error = "%s"\nkeep_temp_files = false\n'


def decoys(r, dirs, taken):
    """Files of the user, some with names that suggest themselves."""
    for k in range(r.randrange(4)):
        d = r.choice(dirs)
        p = os.path.join(d, r.choice(["temp.html", "tmp.html", "output.html", "index.html", "smd.html", ".smd.html", "a.html", "doc.html", "temp.pdf", "output.pdf",
                                      ".smd-1-0.html", "temp", "x.css"]))
        if os.fsencode(p) not in taken and not os.path.exists(p):
            with open(p, "wb") as f:
                f.write(b"mine %d" % k)


def one(w, rep, n, lock, fault=None, collide=0, shim=None):
    """One conversion. Returns the failures and what the browser saw."""
    r = random.Random(SEED * 1000003 + n)
    d = w.case()
    fails = []
    try:
        cwd = os.path.join(d, "work", r.choice(CWDS)) if r.random() < .7 else d + "/work"
        os.makedirs(cwd, exist_ok=True)
        where = r.choice(["here", "here", "sub", "else"])
        name = r.choice(prog.NAMES)
        idir = {"here": cwd, "sub": cwd + "/sub dir", "else": d + "/else"}[where]
        os.makedirs(idir, exist_ok=True)
        target = os.path.join(idir, name)
        text = document(r)
        with open(target, "wb") as f:
            f.write(text)
        out = os.path.join(os.fsencode(idir), out_name(os.fsencode(name), b"pdf"))
        data = pdf.pdf_bytes(r)
        prior = r.randrange(5)
        if prior:
            near = [data, data[:-1], data + b"\n", data[:len(data) // 2] + bytes([data[len(data) // 2] ^ 1]) + data[len(data) // 2 + 1:] if data else b"", data[::-1]]
            with open(out, "wb") as f:
                f.write(b"old" if prior == 1 else b"%PDF old" * 30000 if prior == 2 else r.choice(near))
        # a HTML conversion of the same document is kept
        if r.random() < .3 and not os.path.exists(os.path.join(os.fsencode(idir), out_name(os.fsencode(name), b"html"))):
            with open(os.path.join(os.fsencode(idir), out_name(os.fsencode(name), b"html")), "wb") as f:
                f.write(b"<p>by the user</p>")
        decoys(r, [cwd, idir, d + "/tmp", d + "/home"], {out})
        arg = r.choice([target, os.path.relpath(target, cwd)])
        if "\udcff" in arg:
            # arguments have to be UTF-8
            arg = os.path.relpath(target, cwd)
        if arg[0] in "-~":
            arg = "./" + arg
        argv = r.choice([[], [], ["-v"], ["-vv"]]) + ["parse", "-i", arg] + r.choice([[], ["-o", "pdf"], ["--output=pdf"]])
        pf, log = pdf.plan(d, data, delay=r.choice([0, 0, .01]), load=r.choice([.3, .3, .4, .8]), fault=fault, tabs=r.choice([0, 0, 1, 2]), late=r.choice([0, 0, 1, 2]))
        env = w.env(d, CHROME=w.chrome, VCHROME_PLAN=pf)
        # the browser's own configuration directories
        if r.random() < .3:
            env["RUST_LOG"] = r.choice(["off", "error", "info", "smd=trace"])
        if r.random() < .2:
            os.makedirs(d + "/home/.config/smd")
            with open(d + "/home/.config/smd/config.toml", "w") as f:
                f.write(CONFIG % r.choice(["abort", "skip", "serialize"]))
        w.own(d)
        names = []

        def attempt(before_hook=None, extra=()):
            if os.path.exists(log):
                os.remove(log)
            a = snapshot(d, ["log"])
            res = w.run(argv, d, cwd=cwd, env=env, before=before_hook, timeout=200)
            return a, res, snapshot(d, ["log"]), pdf.events(log)

        rel = os.path.relpath(out, os.fsencode(d))
        want = w.render(text)

        def judge(a, res, b, ev, note=""):
            ctx = {"argv": argv, "cwd": cwd, "fault": fault, "text": text[:1500].decode(errors="replace"), "result": res.show(), "note": note,
                   "browser": [{k: v for k, v in e.items() if k not in ("args", "page")} for e in ev]}
            bad = []
            ignore = []
            pages = pdf.printed(ev)
            if res.code == 0:
                ignore = [rel]
                if fault and fault[1] not in ("kill", "term"):
                    bad.append("the browser failed (%s: %s), but the program reports success" % fault)
                elif not pages:
                    bad.append("success is reported, but nothing was printed")
                elif any(p != want for p in pages):
                    bad.append("the page printed is not the rendering of the document: %r instead of %r" % (
                        None if pages[-1] is None else pages[-1][:200], want[:200]))
                elif b.get(rel, (0, 0, None))[2] != data:
                    bad.append("the output is not what the browser returned (%d bytes instead of %d)" % (len(b.get(rel, (0, 0, b""))[2] or b""), len(data)))
            elif fault is None:
                bad.append("a conversion to PDF failed with status %s" % res.code)
            elif fault[1] != "kill":
                if not says_error(res.err) and env.get("RUST_LOG") != "off":
                    bad.append("no error message")
            ch = differences(a, b, ignore)
            mine = pdf.page_path(ev)
            if fault and fault[1] == "kill":
                # a process which is killed cannot clean up; files of the user stay what they were
                ch = [c for c in ch if "appeared" not in c]
            if ch:
                bad.append("files changed: " + "; ".join(ch))
            elif mine and (not fault or fault[1] != "kill") and os.path.relpath(mine, os.fsencode(d)) not in a and os.path.lexists(mine):
                bad.append("the temporary page %r is left behind" % mine)
            if res.hung:
                bad.append("the program does not come to an end")
            return [(why, ctx) for why in bad]

        a, res, b, ev = attempt()
        tries = 0
        while fault is None and res.code != 0 and b"eadless" in res.err and tries < 2:
            # the client gives up after a time; here this may be due to the load of the machine
            tries += 1
            a, res, b, ev = attempt()
        fails += judge(a, res, b, ev)
        pid, page = res.pid, pdf.page_path(ev)
        with lock:
            rep.evaluations += 1
            rep.count("browser_calls_observed", sum(e["ev"] == "call" for e in ev))
            rep.count("pages_loaded", sum(e["ev"] == "load" for e in ev))
            rep.count("pages_printed", sum(e["ev"] == "print" for e in ev))
            if fault:
                hit = any(e["ev"] == "fault" for e in ev)
                rep.count("faults_injected", 1 if hit else 0)
            rep.case(repr((cwd[len(d):], where, name, prior, fault, len(text) // 1000, len(data))),
                     "%r in %r, browser fault %s" % (argv, os.path.relpath(cwd, d), fault))
        # somebody else's file has the very name the next run would choose
        taken = []
        while collide and not fails and page:
            collide -= 1
            taken.append((page, pid))
            kind = r.choice(["file", "file", "empty", "dir", "link", "dangling", "readonly"])
            victim = d + "/home/victim"
            with open(victim, "wb") as f:
                f.write(b"victim")
            made = {}

            def hook():
                for p, old in taken:
                    q = p.replace(b"%d" % old, b"%d" % os.getpid())
                    if os.path.lexists(q):
                        continue
                    if kind in ("file", "empty", "readonly"):
                        with open(q, "wb") as f:
                            f.write(b"" if kind == "empty" else b"the user's own file")
                        if kind == "readonly":
                            os.chmod(q, 0o444)
                    elif kind == "dir":
                        os.mkdir(q)
                    else:
                        os.symlink(os.fsencode(victim if kind == "link" else d + "/home/nothing"), q)
            w.own(d)
            a, res, b, ev = attempt(hook)
            # what the hook made belongs to the state before
            for p, old in taken:
                q = p.replace(b"%d" % old, b"%d" % res.pid)
                qr = os.path.relpath(q, os.fsencode(d))
                if qr not in a:
                    want_entry = {"file": ("file", b"the user's own file"), "readonly": ("file", b"the user's own file"), "empty": ("file", b""),
                                  "dir": ("dir", None), "link": ("link", os.fsencode(victim)), "dangling": ("link", os.fsencode(d + "/home/nothing"))}[kind]
                    if qr not in b:
                        fails.append(("the user's own %s %r is gone" % (kind, qr), {"argv": argv, "cwd": cwd, "result": res.show()}))
                    elif (b[qr][0], b[qr][2]) != want_entry:
                        fails.append(("the user's own %s %r is not what it was" % (kind, qr), {"argv": argv, "cwd": cwd, "result": res.show()}))
                    else:
                        a[qr] = b[qr]
            if res.code != 0 and kind:
                # refusing is allowed, destroying is not
                ch = differences(a, b)
                if ch:
                    fails.append(("files changed: " + "; ".join(ch), {"argv": argv, "cwd": cwd, "result": res.show()}))
            else:
                fails += judge(a, res, b, ev, "a %s with the name of the temporary file existed" % kind)
            with lock:
                rep.evaluations += 1
                rep.count("name_collisions", 1)
            for p, old in taken:
                q = p.replace(b"%d" % old, b"%d" % res.pid)
                if os.path.isdir(q) and not os.path.islink(q):
                    os.rmdir(q)
                elif os.path.lexists(q):
                    os.remove(q)
            pid, page = res.pid, pdf.page_path(ev)
    finally:
        w.remove(d)
    return fails


def together(w, rep, n, lock):
    """Several conversions at once in one directory, in processes or threads."""
    r = random.Random(SEED * 7919 + n)
    d = w.case()
    fails = []
    try:
        k = r.randrange(2, 9)
        docs = [(b"# document %d of %d\n\n" % (i, k)) * r.choice([1, 1, 500]) + document(r) for i in range(k)]
        if r.random() < .5:
            # threads in one process
            pages = [w.render(t) for t in docs]
            fn = [d + "/else%d.page" % i for i in range(k)]
            for f, p in zip(fn, pages):
                with open(f, "wb") as h:
                    h.write(p)
            pf, log = pdf.plan(d, b"", echo=True, delay=r.choice([0, .01]), load=r.choice([.3, .5]))
            w.own(d)
            before = snapshot(d, ["log"])
            res = w.run(["convert"] + fn, d, exe=os.path.join(w.bin, "vfs"), env=w.env(d, CHROME=w.chrome, VCHROME_PLAN=pf), timeout=200)
            after = snapshot(d, ["log"])
            made = []
            for i, (f, p) in enumerate(zip(fn, pages)):
                o = os.fsencode(os.path.relpath(f + ".result", d))
                made.append(o)
                got = after.get(o, (0, 0, None))[2]
                ctx = {"threads": k, "result": res.show(), "error": repr(after.get(os.fsencode(os.path.relpath(f + ".error", d))))[:500]}
                if got is None:
                    fails.append(("one of several conversions at once in a process failed", ctx))
                elif got != b"%PDF " + p:
                    fails.append(("one of several conversions at once in a process printed %r instead of %r" % (got[:200], p[:200]), ctx))
            ch = differences(before, after, made)
            if ch:
                fails.append(("files changed: " + "; ".join(ch), {"threads": k, "result": res.show()}))
            with lock:
                rep.evaluations += k
                rep.count("conversions_at_once_in_threads", k)
                rep.case("threads %d %d" % (n, k))
            return fails
        jobs = []
        for i, t in enumerate(docs):
            p = d + "/work/doc%d.md" % i
            with open(p, "wb") as f:
                f.write(t)
            data = b"%%PDF %d " % i + r.randbytes(50)
            pf, log = pdf.plan(d, data, tag=str(i), delay=r.choice([0, .01, .03]), load=r.choice([.3, .4, .8]))
            jobs.append((p, t, data, pf, log))
        w.own(d)
        before = snapshot(d, ["log"])
        ps = []
        for p, t, data, pf, log in jobs:
            env = w.env(d, CHROME=w.chrome, VCHROME_PLAN=pf, LD_PRELOAD=w.shim, SHIM_DIR=d + "/work", SHIM_DELAY=str(r.choice([1, 2000, 20000])))
            ps.append(w.spawn(["parse", "-i", p], d, env=env))
            if r.random() < .3:
                time.sleep(r.random() * .5)
        rs = [w.collect(p, 200) for p in ps]
        after = snapshot(d, ["log"])
        made = []
        for (p, t, data, pf, log), res in zip(jobs, rs):
            o = os.fsencode(os.path.relpath(p[:-2] + "pdf", d))
            made.append(o)
            pages = pdf.printed(pdf.events(log))
            ctx = {"argv": ["parse", "-i", p], "runs at once": k, "result": res.show()}
            if res.code != 0:
                fails.append(("one of several conversions at once failed", ctx))
            elif not pages or any(x != w.render(t) for x in pages):
                fails.append(("one of several conversions at once printed %r, not its own document" % (pages and pages[-1] and pages[-1][:200]), ctx))
            elif after.get(o, (0, 0, None))[2] != data:
                fails.append(("the output of one of several conversions at once is not what its browser returned", ctx))
        ch = differences(before, after, made)
        if ch:
            fails.append(("files changed: " + "; ".join(ch), {"runs at once": k}))
        with lock:
            rep.evaluations += k
            rep.count("conversions_at_once_in_processes", k)
            rep.case("processes %d %d" % (n, k))
    finally:
        w.remove(d)
    return fails


def together_again(w, rep, n, lock):
    """The client gives up after a time; a group in which that happened is run again."""
    for _ in range(3):
        fails = together(w, rep, n, lock)
        if not any(" failed" in why for why, _ in fails):
            break
    return fails


def check():
    rep = Report("C17", "fault_enumeration", "a case is one conversion, or several at once; distinct if working directory, place and name of the input, prior output, "
                 "size of the document, or the step and kind of failure of the browser differ")
    rep.assumptions = ["the browser is a stand-in which speaks the protocol of the real one and reads the page when the real one would",
                       "the temporary page of a process that is killed may remain"]
    w = World()
    lock = threading.Lock()
    try:
        jobs = []
        n = 0
        rounds = 6 if THOROUGH else 1
        for _ in range(rounds):
            for step, kind, slow in sorted(FAULTS, key=lambda f: -f[2]):
                for _ in range(1 if slow else 3):
                    n += 1
                    jobs.append(lambda n=n, f=(step, kind): one(w, rep, n, lock, fault=f))
            for step in CRASHES:
                n += 1
                jobs.append(lambda n=n, f=(step, "kill"): one(w, rep, n, lock, fault=f))
        if THOROUGH:
            for step in ("handshake",):
                n += 1
                jobs.insert(0, lambda n=n, f=(step, "silent"): one(w, rep, n, lock, fault=f))
        for _ in range(3000 if THOROUGH else 250):
            n += 1
            jobs.append(lambda n=n: one(w, rep, n, lock))
        for _ in range(300 if THOROUGH else 40):
            n += 1
            jobs.append(lambda n=n: one(w, rep, n, lock, collide=3))
        for _ in range(300 if THOROUGH else 24):
            n += 1
            jobs.append(lambda n=n: together_again(w, rep, n, lock))
        with prog.pool(24) as ex:
            for fails in ex.map(lambda j: j(), jobs):
                for why, ctx in fails:
                    rep.violate(why, ctx)
    finally:
        w.close()
    return rep
