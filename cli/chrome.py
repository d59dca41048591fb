"""A stand-in for Chrome: speaks the DevTools protocol as far as it is needed
to load a page and print it, keeps a log, and fails where its plan says.

VCHROME_PLAN names a JSON file:
  log     file which gets a line of JSON per event
  pdf     file with the bytes to be returned by Page.printToPDF
  echo    return the page itself as the PDF
  delay   seconds before each answer
  load    seconds between the answer to Page.navigate and the page being read
  fault   [method, kind]
  tabs    number of tabs which are open from the start
  late    number of tabs which open while the page is loaded
Like the real one it reads the page after answering the navigation, and tells
that the network is idle once it has been read."""
import base64, hashlib, json, os, select, signal, socket, struct, sys, time

plan = json.load(open(os.environ["VCHROME_PLAN"]))
log = os.open(plan["log"], os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o666)
fault = tuple(plan.get("fault") or ("", ""))
delay, load = plan.get("delay", 0), plan.get("load", 0)


def note(ev, **k):
    k.update(ev=ev, t=time.monotonic_ns(), pid=os.getpid())
    os.write(log, (json.dumps(k) + "\n").encode())


def unlucky(step):
    """Faults which are not an answer of their own."""
    if fault[0] != step:
        return False
    kind = fault[1]
    if kind in ("die", "kill", "close", "silent", "term"):
        note("fault", step=step, kind=kind)
    if kind == "die":
        os._exit(1)
    if kind in ("kill", "term"):
        os.kill(os.getppid(), signal.SIGKILL if kind == "kill" else signal.SIGTERM)
        time.sleep(0.2)
        os._exit(0)
    if kind == "close":
        conn.close()
        time.sleep(60)
        os._exit(0)
    return kind == "silent"


note("start", args=sys.argv[1:], cwd=os.getcwd())
if fault == ("launch", "refuse"):
    note("fault", step="launch", kind="refuse")
    sys.stderr.write("[0101/000000.000000:ERROR:zygote_host_impl_linux.cc(100)] Running as root without --no-sandbox is not supported. "
                     "See https://crbug.com/638180.\n")
    sys.exit(1)
unlucky("launch")
srv = socket.socket()
srv.bind(("127.0.0.1", 0))
srv.listen(4)
time.sleep(delay)
sys.stderr.write("\nDevTools listening on ws://127.0.0.1:%d/devtools/browser/9b1f4c4e-0000-4000-8000-000000000001\n" % srv.getsockname()[1])
sys.stderr.flush()
srv.settimeout(90)
try:
    conn, _ = srv.accept()
except OSError:
    sys.exit(1)
head = b""
while b"\r\n\r\n" not in head:
    d = conn.recv(65536)
    if not d:
        sys.exit(1)
    head += d
if unlucky("handshake"):
    time.sleep(90)
    sys.exit(1)
if fault == ("handshake", "error"):
    note("fault", step="handshake", kind="error")
    conn.sendall(b"HTTP/1.1 403 Forbidden\r\nContent-Length: 0\r\n\r\n")
    conn.close()
    time.sleep(30)
    sys.exit(1)
key = [l.split(b":", 1)[1].strip() for l in head.split(b"\r\n") if l.lower().startswith(b"sec-websocket-key:")][0]
acc = base64.b64encode(hashlib.sha1(key + b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11").digest())
conn.sendall(b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + acc + b"\r\n\r\n")


def frame(op, data):
    n = len(data)
    h = bytes([0x80 | op])
    h += bytes([n]) if n < 126 else (b"\x7e" + struct.pack(">H", n) if n < 65536 else b"\x7f" + struct.pack(">Q", n))
    conn.sendall(h + data)


def send(o):
    frame(1, json.dumps(o).encode())


buf = head.split(b"\r\n\r\n", 1)[1]


def message():
    """One complete message out of the buffer, if there is one."""
    global buf
    if len(buf) < 2:
        return None
    n, i = buf[1] & 0x7f, 2
    if n == 126:
        if len(buf) < 4:
            return None
        n, i = struct.unpack(">H", buf[2:4])[0], 4
    elif n == 127:
        if len(buf) < 10:
            return None
        n, i = struct.unpack(">Q", buf[2:10])[0], 10
    mask = b"\0\0\0\0"
    if buf[1] & 0x80:
        mask, i = buf[i:i + 4], i + 4
    if len(buf) < i + n:
        return None
    data = bytes(b ^ mask[k & 3] for k, b in enumerate(buf[i:i + n]))
    op = buf[0] & 15
    buf = buf[i + n:]
    return op, data


class Tab:
    """A tab; what it shows and what it is about to show."""

    def __init__(self, n):
        self.id, self.session = "T%d" % n, "S%d-%d" % (os.getpid(), n)
        self.page = self.pending = None
        self.due = 0

    def info(self):
        return {"targetId": self.id, "type": "page", "title": "about:blank", "url": "about:blank", "attached": False,
                "canAccessOpener": False, "browserContextId": "B1"}

    def send(self, inner):
        send({"method": "Target.receivedMessageFromTarget",
              "params": {"sessionId": self.session, "message": json.dumps(inner), "targetId": self.id}})

    def lifecycle(self, name):
        self.send({"method": "Page.lifecycleEvent",
                   "params": {"frameId": self.id, "loaderId": "L" + self.id, "name": name, "timestamp": time.monotonic()}})

    def finish_load(self):
        url = self.pending
        path, data = read_page(url)
        self.page = data
        note("load", url=url, path=None if path is None else os.fsdecode(path).encode("utf-8", "surrogateescape").hex(),
             page=None if data is None else base64.b64encode(data).decode(),
             beside=sorted(os.fsencode(x).hex() for x in os.listdir(os.path.dirname(path))) if path and os.path.isdir(os.path.dirname(path)) else [])
        self.pending = None
        if fault == ("load", "silent"):
            note("fault", step="load", kind="silent")
            return
        unlucky("load")
        for name in ("commit", "DOMContentLoaded", "load", "networkAlmostIdle", "networkIdle"):
            self.lifecycle(name)


tabs = [Tab(-n) for n in range(plan.get("tabs", 0))]
created = 0


def unquote(s):
    out, b, i = bytearray(), s.encode(), 0
    while i < len(b):
        h = b[i + 1:i + 3]
        if b[i] == 37 and len(h) == 2 and all(c in b"0123456789abcdefABCDEF" for c in h):
            out.append(int(h, 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def read_page(url):
    """What a browser finds at a file URL."""
    u = url.strip().split("#")[0].split("?")[0].replace("\t", "").replace("\n", "").replace("\r", "").replace("\\", "/")
    if not u.lower().startswith("file://"):
        return None, None
    rest = u[7:]
    host, slash, path = rest.partition("/")
    if host not in ("", "localhost"):
        return None, None
    path = unquote("/" + path)
    try:
        with open(path, "rb") as f:
            return path, f.read()
    except OSError:
        return path, None


def answer(tab, method, params):
    """Result or error of a call, and what is to be done afterwards."""
    global created
    me = tab.id if tab else "T0"
    if fault[0] == method and fault[1] in ("error", "empty", "errorText", "base64"):
        note("fault", step=method, kind=fault[1])
        if fault[1] == "error":
            return {"error": {"code": -32000, "message": "it went wrong"}}, None
        if fault[1] == "empty":
            return {"result": {}}, None
        if fault[1] == "base64":
            return {"result": {"data": "@@@@not base64@@@@"}}, None
        return {"result": {"frameId": me, "loaderId": "L" + me, "errorText": "net::ERR_FILE_NOT_FOUND"}}, None
    if method == "Target.setDiscoverTargets":
        for t in tabs:
            send({"method": "Target.targetCreated", "params": {"targetInfo": t.info()}})
        return {"result": {}}, None
    if method == "Target.createTarget":
        created += 1
        t = Tab(created)
        tabs.append(t)
        send({"method": "Target.targetCreated", "params": {"targetInfo": t.info()}})
        return {"result": {"targetId": t.id}}, None
    if method == "Target.attachToTarget":
        return {"result": {"sessionId": [t for t in tabs if t.id == params["targetId"]][0].session}}, None
    if method == "Target.getTargets":
        return {"result": {"targetInfos": [t.info() for t in tabs]}}, None
    if method in ("Target.closeTarget", "Page.close"):
        gone = params.get("targetId", me)
        tabs[:] = [t for t in tabs if t.id != gone]

        def later():
            send({"method": "Target.targetDestroyed", "params": {"targetId": gone}})
        return {"result": {"success": True} if method == "Target.closeTarget" else {}}, later
    if method == "Page.navigate":
        def later():
            tab.page = None
            tab.lifecycle("init")
            tab.pending, tab.due = params["url"], time.monotonic() + load
            for n in range(plan.get("late", 0)):
                t = Tab(900 + n)
                tabs.append(t)
                send({"method": "Target.targetCreated", "params": {"targetInfo": t.info()}})
        return {"result": {"frameId": me, "loaderId": "L" + me}}, later
    if method == "Page.printToPDF":
        note("print", page=None if tab.page is None or tab.pending else base64.b64encode(tab.page).decode(), options=params, tab=me)
        if plan.get("echo"):
            return {"result": {"data": base64.b64encode(b"%PDF " + (tab.page or b"nothing")).decode()}}, None
        with open(plan["pdf"], "rb") as f:
            return {"result": {"data": base64.b64encode(f.read()).decode()}}, None
    return {"result": {}}, None


end = time.monotonic() + 120
while time.monotonic() < end:
    m = message()
    if m is None:
        now = time.monotonic()
        loading = [t for t in tabs if t.pending]
        wait = max(0, min(t.due for t in loading) - now) if loading else 1
        if select.select([conn], [], [], wait)[0]:
            d = conn.recv(1 << 20)
            if not d:
                break
            buf += d
        else:
            for t in loading:
                if time.monotonic() >= t.due:
                    t.finish_load()
        continue
    op, data = m
    if op == 8:
        break
    if op == 9:
        frame(10, data)
        continue
    if op != 1:
        continue
    call = json.loads(data)
    method, params = call["method"], call.get("params") or {}
    if method == "Target.sendMessageToTarget":
        send({"id": call["id"], "result": {}})
        inner = json.loads(params["message"])
        note("call", method=inner["method"])
        time.sleep(delay)
        if unlucky(inner["method"]):
            continue
        tab = ([t for t in tabs if t.session == params.get("sessionId")] or [None])[0]
        if tab is None:
            continue
        res, later = answer(tab, inner["method"], inner.get("params") or {})
        tab.send(dict(res, id=inner["id"]))
        if later:
            later()
        continue
    note("call", method=method)
    time.sleep(delay)
    if unlucky(method):
        continue
    res, later = answer(None, method, params)
    send(dict(res, id=call["id"]))
    if later:
        later()
note("end")
