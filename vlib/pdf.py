"""Runs with a stand-in browser."""
import base64, json, os, random
from . import prog


def plan(d, pdf, tag="", **k):
    """Writes the plan of a stand-in browser; returns the path of the plan and of its log."""
    log = os.path.join(d, "log", "chrome%s.log" % tag)
    pf = os.path.join(d, "log", "pdf%s" % tag)
    with open(pf, "wb") as f:
        f.write(pdf)
    p = os.path.join(d, "log", "plan%s.json" % tag)
    with open(p, "w") as f:
        json.dump(dict(k, log=log, pdf=pf), f)
    return p, log


def events(log):
    if not os.path.exists(log):
        return []
    out = []
    for l in open(log):
        try:
            out.append(json.loads(l))
        except ValueError:
            pass
    return out


def printed(ev):
    """The pages shown when printing was asked for."""
    return [None if e["page"] is None else base64.b64decode(e["page"]) for e in ev if e["ev"] == "print"]


def page_path(ev):
    """The path of the page which was loaded, as bytes."""
    for e in ev:
        if e["ev"] == "load" and e["path"]:
            return bytes.fromhex(e["path"])
    return None


def pdf_bytes(r: random.Random) -> bytes:
    if r.random() < .4:
        # like a real one, with whatever in front of it and behind it
        objects = b"".join(b"%d 0 obj\n<< /Length %d >>\nstream\n%s\nendstream\nendobj\n" % (i, i, r.randbytes(r.randrange(200))) for i in range(1, r.randrange(2, 9)))
        end = b"xref\n0 1\ntrailer\n<< /Size 1 >>\nstartxref\n%d\n%%%%EOF" % len(objects)
        return r.choice([b"", b"", b"\xef\xbb\xbf", b"\n", b"junk\n"]) + b"%PDF-1.7\n%\xe2\xe3\xcf\xd3\n" + objects + end \
            + r.choice([b"", b"\n", b"\r\n", b"\r", b"\n\n", b" ", b"\0" * r.randrange(600), b"\n" + objects + end + b"\n", r.randbytes(9)])
    k = r.randrange(8)
    n = [0, 1, 2, 3, 1000, 8192, 70000, 1500000][k]
    return b"%PDF-1.4\n"[:n] + r.randbytes(max(0, n - 9))
