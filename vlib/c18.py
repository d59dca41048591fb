"""Configuration: created once, never overwritten, validated, overridable."""
import os, random, subprocess, threading, tomllib
from . import c16, prog
from .common import SEED, THOROUGH, NoVerdict, Report
from .prog import World, snapshot, differences, says_error, panicked

ACTIONS = ["abort", "skip", "serialize"]
DEFAULT = {"on_parse_error": "serialize", "keep_temp_files": False}
NAT = {"true": True, "on": True, "yes": True, "1": True, "false": False, "off": False, "no": False, "0": False}
ANY = object()


class Reader:
    """The configuration functions of the library, in a process of their own."""

    def __init__(self, w, d):
        kw = dict(user=w.user, group=w.user, extra_groups=[]) if w.user is not None else {}
        self.p = subprocess.Popen([os.path.join(w.bin, "vfs"), "config"], cwd=d + "/work", env=w.env(d), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, **kw)

    def ask(self, op, text=None, env=()):
        words = [op]
        if text is not None:
            words.append("-" + text.hex())
        words += ["%s=%s" % (k.encode().hex(), v.encode().hex()) for k, v in env]
        self.p.stdin.write(" ".join(words) + "\n")
        self.p.stdin.flush()
        a = self.p.stdout.readline().rstrip("\n")
        if not a:
            raise NoVerdict("the configuration reader gave no answer")
        kind, _, rest = a.partition(" ")
        body = bytes.fromhex(rest).decode()
        return kind, tomllib.loads(body) if kind == "ok" and body else body

    def close(self):
        self.p.stdin.close()
        self.p.wait(10)


def meaning_of_action(v):
    """The settings a value may lead to; None stands for rejection."""
    if isinstance(v, str):
        if v in ACTIONS:
            return {v}
        return {None, v.lower()} if v.lower() in ACTIONS else {None}
    if isinstance(v, dict):
        return {None} | {k for k in v if k in ACTIONS}
    return {None}


def meaning_of_flag(v):
    if isinstance(v, bool):
        return {v}
    if isinstance(v, (int, float)):
        return {None, bool(v)}
    if isinstance(v, str):
        return {None, NAT[v.lower()]} if v.lower() in NAT else {None}
    return {None}


def expected(text, env):
    """What a text and an environment may lead to: for each setting a set of values, or None for "must be rejected"."""
    mark = text.startswith(b"\xef\xbb\xbf")
    try:
        t = tomllib.loads(text.decode("utf-8-sig"))
    except (tomllib.TOMLDecodeError, UnicodeDecodeError, RecursionError):
        return None
    parse = t.get("parse")
    if not isinstance(parse, dict):
        if parse is not None and not env:
            return None
        parse = {}
        loose = True
    else:
        loose = False
    out = {}
    for key, meaning in (("on_parse_error", meaning_of_action), ("keep_temp_files", meaning_of_flag)):
        if key in parse:
            m = meaning(parse[key])
        else:
            m = {None, DEFAULT[key]}
        if key in env:
            v = env[key]
            if key == "on_parse_error":
                e = meaning_of_action(v)
            else:
                e = {NAT[v]} if v in ("true", "false") else ({None, NAT[v.lower()]} if v.lower() in NAT else {None})
            # what is overridden need not be looked at, but may be
            m = e | ({None} if None in m else set())
        if loose or mark:
            m = m | {None}
        out[key] = m
    return out


def judge(kind, val, exp):
    if kind == "panic":
        return "the configuration reader panicked"
    if exp is None:
        return None if kind == "err" else "a text which is no configuration was accepted as %r" % (val,)
    if kind == "err":
        return None if any(None in m for m in exp.values()) else "a valid configuration was rejected: %s" % val
    got = val.get("parse", {})
    for k, m in exp.items():
        if got.get(k) not in m or got.get(k) is None:
            return "%s is %r, but the text and the environment say %r" % (k, got.get(k), sorted(map(str, m)))
    return None


def value(r, v):
    """A way of writing a value."""
    if isinstance(v, bool):
        return "true" if v else "false"
    k = r.randrange(5)
    if k == 0:
        return "'%s'" % v
    if k == 1:
        return '"""%s"""' % v
    if k == 2:
        return "'''\n%s'''" % v
    if k == 3 and v:
        return '"\\u%04X%s"' % (ord(v[0]), v[1:])
    return '"%s"' % v


def action(r):
    return r.choice(ACTIONS) if r.random() < .8 else r.choice(["", "Abort", "ABORT", "explode", "abort ", "skip\\n", "serialise", "null", "true", "5"])


def flag(r):
    return r.random() < .5


def text(r):
    """A configuration, mostly valid, in one of the many ways of writing it."""
    a, f = action(r), flag(r)
    av = value(r, a) if r.random() < .95 else r.choice(["5", "true", "[]", "{}", "1.5", "[\"abort\"]", "{abort = 1}", "1979-05-27"])
    fv = value(r, f) if r.random() < .9 else r.choice(["5", "0", "1", '"true"', '"no"', '"maybe"', "[]", "{}", "[true]", "0.0", '"TRUE"', "1979-05-27"])
    items = [("on_parse_error", av), ("keep_temp_files", fv)]
    if r.random() < .05:
        items.pop(r.randrange(2))
    if r.random() < .03 and items:
        items.append(r.choice(items))
    if r.random() < .3:
        items.append((r.choice(["other", "colour", "x"]), r.choice(["1", '"v"', "true", "[1, 2]", "{a = 1}"])))
    r.shuffle(items)
    eq = r.choice([" = ", "=", "\t=  "])
    nl = r.choice(["\n", "\n", "\n", "\r\n"])
    q = r.choice(["%s", "%s", "%s", '"%s"', "'%s'"])
    com = r.choice(["", "", " # comment", " # [parse]"])
    style = r.randrange(4)
    head = r.choice(["", "", "# keep_temp_files = true" + nl, nl + nl, "title = 'x'" + nl, "\ufeff" if r.random() < .1 else ""])
    tail = r.choice(["", "", nl + "[parser]" + nl + "keep_temp_files = true" + nl, nl + "[other.parse]" + nl + "on_parse_error = 'x'" + nl, nl + "[[list]]" + nl + "a = 1" + nl])
    if style == 0 or len({k for k, _ in items}) != len(items):
        t = r.choice(["[parse]", "[ parse ]", '["parse"]', "['parse']"]) + com + nl + "".join((q % k) + eq + v + com + nl for k, v in items)
    elif style == 1:
        t = "".join("parse." + (q % k) + eq + v + com + nl for k, v in items)
    elif style == 2:
        t = "parse" + eq + "{ " + ", ".join((q % k) + eq + v for k, v in items) + " }" + com + nl
    else:
        t = "[parse]" + nl + "".join("  " + (q % k) + eq + v + com + nl for k, v in items)
    t = head + t + tail
    if r.random() < .15:
        # a slip of the pen
        b = list(t)
        for _ in range(r.randrange(1, 3)):
            i = r.randrange(len(b)) if b else 0
            k = r.randrange(3)
            if k == 0 and b:
                del b[i]
            elif k == 1:
                b.insert(i, r.choice("\"'=[]{}.,#\n ax1"))
            elif b:
                b[i] = r.choice("\"'=[]{}.,#\n ax1")
        t = "".join(b)
    return t.encode()


def environment(r):
    """Variables which override, by setting, and all that are set."""
    over, env = {}, []
    if r.random() < .4:
        over["on_parse_error"] = r.choice(ACTIONS) if r.random() < .85 else r.choice(["explode", "", "5", "true"])
    if r.random() < .4:
        over["keep_temp_files"] = r.choice(["true", "false"]) if r.random() < .8 else r.choice(["1", "0", "yes", "off", "perhaps", "2x", "TRUE"])
    for k, v in over.items():
        env.append(("SMD__PARSE__" + k.upper(), v))
    for k, v in [("SMD_PARSE_KEEP_TEMP_FILES", "true"), ("SMD__OTHER", "x"), ("SMD__PARSE__OTHER", "y"), ("PARSE__KEEP_TEMP_FILES", "true"), ("XSMD__PARSE__ON_PARSE_ERROR", "abort"),
                 ("SMD_LOG", "1"), ("KEEP_TEMP_FILES", "true"), ("SMD", "1")]:
        if r.random() < .05:
            env.append((k, v))
    r.shuffle(env)
    return over, env


def texts(w, rep, n, lock, count):
    """Texts and environments against the model."""
    r = random.Random(SEED * 31337 + n)
    d = w.case()
    out = []
    try:
        os.makedirs(d + "/home/.config/smd")
        w.own(d)
        rd = Reader(w, d)
        for i in range(count):
            t = text(r) if r.random() < .97 else b""
            over, env = environment(r)
            exp = expected(t, over)
            kind, val = rd.ask("parse", t, env)
            why = judge(kind, val, exp)
            how = "parse"
            if not why and i % 5 == 0:
                # the same through the file, or a link to it
                link = r.random() < .2
                with open(d + ("/home/dot files" if link else "/home/.config/smd/config.toml"), "wb") as f:
                    f.write(t)
                if link:
                    if os.path.lexists(d + "/home/.config/smd/config.toml"):
                        os.remove(d + "/home/.config/smd/config.toml")
                    os.symlink(r.choice([d + "/home", "../.."]) + "/dot files", d + "/home/.config/smd/config.toml")
                how = "load"
                kind, val = rd.ask("load", None, env)
                why = judge(kind, val, exp)
                if not why and open(d + "/home/.config/smd/config.toml", "rb").read() != t:
                    why = "the configuration file was changed by reading it"
                if i % 15 == 0:
                    os.remove(d + "/home/.config/smd/config.toml")
                    kind, val = rd.ask("load", None, env)
                    e2 = expected(b'[parse]\non_parse_error="serialize"\nkeep_temp_files=false\n', over)
                    why = why or judge(kind, val, e2)
                    if not why and os.listdir(d + "/home/.config/smd"):
                        why = "reading the configuration created a file"
                    how = "load without a file"
                    if not why:
                        # nor can there be one
                        odd = r.choice([d + "/home/none", d + "/home/a file", d + "/home/a file/below", d + "/home/hanging"])
                        if not os.path.exists(d + "/home/a file"):
                            open(d + "/home/a file", "wb").close()
                            os.symlink("nowhere", d + "/home/hanging")
                        kind, val = rd.ask("load", None, env + [("XDG_CONFIG_HOME", odd)])
                        why = judge(kind, val, e2)
                        how = "load without a directory, " + odd
            if not why and i % 40 == 7:
                # a configuration which is there, but cannot be read
                f = d + "/home/.config/smd/config.toml"
                if os.path.exists(f):
                    os.remove(f)
                how = r.choice(["a directory", "not UTF-8", "a loop"] + (["not readable", "in a closed directory"] if w.user is not None else []))
                if how == "a directory":
                    os.mkdir(f)
                elif how == "a loop":
                    os.symlink("config.toml", f)
                else:
                    with open(f, "wb") as fh:
                        fh.write(t + b"\n# \xff\n" if how == "not UTF-8" else t)
                    if how == "not readable":
                        os.chmod(f, 0)
                    if how == "in a closed directory":
                        os.chmod(os.path.dirname(f), 0)
                kind, val = rd.ask("load", None, env)
                os.chmod(os.path.dirname(f), 0o755)
                if kind != "err":
                    why = "a configuration which cannot be read leads to %s %r" % (kind, val)
                if os.path.isdir(f):
                    os.rmdir(f)
                else:
                    os.remove(f)
                with lock:
                    rep.count("unreadable_configurations")
            if why:
                out.append(("%s (%s)" % (why, how), {"text": t.decode(errors="replace"), "environment": env, "answer": [kind, val]}))
            with lock:
                rep.evaluations += 1
                rep.count("accepted" if kind == "ok" else "rejected")
                rep.count("with_overrides", int(bool(over)))
                rep.case(hash((t, tuple(env))), None if i > 2 else t.decode(errors="replace"))
        rd.close()
    finally:
        w.remove(d)
    return out


def history(w, rep, n, lock):
    """Commands and edits by the user, in some order, against a model of the file."""
    r = random.Random(SEED * 27644437 + n)
    d = w.case()
    out = []
    try:
        doc = b"# t\n\ntext\n"
        with open(d + "/work/doc.md", "wb") as f:
            f.write(doc)
        env = w.env(d)
        base = {"home": d + "/home/.config", "xdg": d + "/work/x/d g", "deep": d + "/work/a/b/c/d"}
        w.own(d)
        model = {}
        place = r.choice(list(base))
        steps = []
        for k in range(r.randrange(2, 9)):
            if r.random() < .2:
                place = r.choice(list(base))
            e = dict(env)
            if place != "home":
                e["XDG_CONFIG_HOME"] = base[place]
            p = base[place] + "/smd/config.toml"
            what = r.choice(["init", "init", "init", "edit", "remove", "convert", "convert", "relative"])
            steps.append((what, place))
            ctx = {"steps": list(steps)}
            if what == "edit":
                os.makedirs(os.path.dirname(p), exist_ok=True)
                t = text(r) if r.random() < .8 else b""
                with open(p, "wb") as f:
                    f.write(t)
                w.own(d)
                model[place] = t
                continue
            if what == "remove":
                if os.path.exists(p):
                    os.remove(p)
                model.pop(place, None)
                continue
            if what == "relative":
                # such a setting is not allowed and the one of the home directory is used
                e["XDG_CONFIG_HOME"] = r.choice(["rel/ative", ""])
                place, p = "home", base["home"] + "/smd/config.toml"
                what = "init"
            before = snapshot(d, ["log"])
            if what == "init":
                argv = r.choice([[], ["-v"], ["-vv"]]) + ["initialize"]
                if r.random() < .3:
                    # the settings of this run are not the ones to be written
                    e.update(r.sample([("SMD__PARSE__ON_PARSE_ERROR", r.choice(ACTIONS)), ("SMD__PARSE__KEEP_TEMP_FILES", "true")], r.randrange(1, 3)))
                res = w.run(argv, d, env=e)
                after = snapshot(d, ["log"])
                rel = os.fsencode(os.path.relpath(p, d))
                ctx["result"] = res.show()
                if place in model:
                    if res.code == 0 or not says_error(res.err):
                        out.append(("a configuration exists, but creating one ends with status %s" % res.code, ctx))
                    ch = differences(before, after)
                    if ch:
                        out.append(("files changed: " + "; ".join(ch), ctx))
                else:
                    ch = [c for c in differences(before, after, [rel]) if "(dir)" not in c]
                    got = after.get(rel, (0, 0, None))[2]
                    if res.code != 0 or got is None:
                        out.append(("the configuration was not created (status %s)" % res.code, ctx))
                    elif ch:
                        out.append(("files changed: " + "; ".join(ch), ctx))
                    else:
                        try:
                            val = tomllib.loads(got.decode())
                        except (ValueError, tomllib.TOMLDecodeError) as x:
                            val = str(x)
                        if val != {"parse": DEFAULT}:
                            out.append(("the new configuration says %r, not the defaults" % (val,), ctx))
                        model[place] = got
                        rd = Reader(w, d)
                        kind, val = rd.ask("load", None, [("XDG_CONFIG_HOME", e.get("XDG_CONFIG_HOME", ""))])
                        rd.close()
                        if kind != "ok" or val != {"parse": DEFAULT}:
                            out.append(("the new configuration is read back as %s %r" % (kind, val), ctx))
                if res.out:
                    out.append(("something was written to standard output", ctx))
            else:
                over, extra = environment(r)
                e.update(extra)
                exp = expected(model[place], over) if place in model else expected(b'[parse]\non_parse_error="serialize"\nkeep_temp_files=false\n', over)
                res = w.run(["parse", "-i", d + "/work/doc.md", "-o", "html"], d, env=e)
                after = snapshot(d, ["log"])
                ctx.update(result=res.show(), configuration=model.get(place, b"").decode(errors="replace"), environment=extra)
                must_reject = exp is None or any(m == {None} for m in exp.values())
                must_accept = exp is not None and not any(None in m for m in exp.values())
                if must_reject and res.code == 0:
                    out.append(("an invalid configuration was accepted", ctx))
                if must_accept and res.code != 0:
                    out.append(("a valid configuration was rejected", ctx))
                if panicked(res.err):
                    out.append(("the program panicked", ctx))
                ch = differences(before, after, ["work/doc.html"])
                if ch:
                    out.append(("files changed: " + "; ".join(ch), ctx))
                if res.code == 0 and after.get(b"work/doc.html", (0, 0, None))[2] != w.render(doc):
                    out.append(("the settings changed the rendering", ctx))
            with lock:
                rep.evaluations += 1
                rep.count("commands_in_histories")
            if out:
                break
        with lock:
            rep.count("histories")
            rep.case(repr((n, steps)))
    finally:
        w.remove(d)
    return out


def race(w, rep, n, lock):
    """Several creations at once, and at times the user's own."""
    r = random.Random(SEED * 65537 + n)
    d = w.case()
    out = []
    try:
        env = w.env(d, XDG_CONFIG_HOME=d + "/work/cfg", LD_PRELOAD=w.shim, SHIM_DIR=d + "/work")
        user = r.random() < .5
        p = d + "/work/cfg/smd/config.toml"
        if user or r.random() < .5:
            os.makedirs(os.path.dirname(p))
        w.own(d)
        k = r.randrange(2, 7)
        ps = []
        mine = False
        turn = r.randrange(k + 1) if user else -1
        for i in range(k + 1):
            if i < k:
                env["SHIM_DELAY"] = str(r.choice([1, 300, 3000, 20000]))
                ps.append(w.spawn(["initialize"], d, env=env))
            if i != turn:
                continue
            try:
                fd = os.open(p, os.O_CREAT | os.O_EXCL | os.O_WRONLY, 0o666)
                os.write(fd, b"# mine\n")
                os.close(fd)
                mine = True
            except FileExistsError:
                pass
        rs = [w.collect(x) for x in ps]
        won = sum(x.code == 0 for x in rs)
        got = open(p, "rb").read() if os.path.exists(p) else None
        ctx = {"runs": k, "user first": mine, "statuses": [x.code for x in rs], "file": repr(got), "errors": [x.err.decode(errors="replace")[-300:] for x in rs]}
        if mine and (won or got != b"# mine\n"):
            out.append(("the user's configuration was overwritten, or creating another one reported success", ctx))
        if not mine and won != 1:
            out.append(("%d of %d runs at once report to have created the configuration" % (won, k), ctx))
        if any(x.code != 0 and not says_error(x.err) for x in rs):
            out.append(("a run which failed gives no message", ctx))
        if not mine and not out:
            try:
                ok = tomllib.loads(got.decode()) == {"parse": DEFAULT}
            except (ValueError, AttributeError, tomllib.TOMLDecodeError):
                ok = False
            if not ok:
                out.append(("the configuration created by runs at once is not the default", ctx))
        ch = [f for f in os.listdir(os.path.dirname(p)) if f != "config.toml"] if os.path.isdir(os.path.dirname(p)) else []
        if ch:
            out.append(("files are left behind: %r" % ch, ctx))
        with lock:
            rep.evaluations += 1
            rep.count("creations_at_once", k)
            rep.count("races_won_by_the_user", int(mine))
            rep.case(repr(("race", n, k, mine)))
    finally:
        w.remove(d)
    return out


def check():
    rep = Report("C18", "exploration", "a case is a configuration text with an environment, a history of commands and edits, or a race; distinct if text, environment, "
                 "steps or number of runs differ")
    rep.assumptions = ["Python's tomllib says what a text means", "settings missing from a file may be rejected or take their defaults"]
    w = World()
    lock = threading.Lock()
    try:
        with prog.pool(8) as ex:
            fs = [ex.submit(texts, w, rep, i, lock, 40000 if THOROUGH else 4000) for i in range(8)]
            fs += [ex.submit(history, w, rep, i, lock) for i in range(6000 if THOROUGH else 500)]
            fs += [ex.submit(race, w, rep, i, lock) for i in range(3000 if THOROUGH else 250)]
            # creations which cannot succeed, and those in which one operation fails
            fs += [ex.submit(c16.init_scenarios, w, rep, i, lock) for i in range(210 if THOROUGH else 28)]
            for i in range(8 if THOROUGH else 2):
                fs += c16.init_ops(w, rep, i, lock, ex)
            prog.gather(rep, fs)
    finally:
        w.close()
    return rep
