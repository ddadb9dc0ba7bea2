"""C08: serve hands out a folder over HTTP, and nothing else (spec/Serve.tla)."""
import errno, hashlib, html.parser, os, re, shutil, signal, socket, subprocess, threading, time, urllib.parse
from vt.core import Check, scratch_env
from vt.e2e import pmap
from vt.tlc import tla

ROOT = ["d"]
OUT = ["d", "d2", "s"]
TYPES = {"html": "text/html", "txt": "text/plain", "json": "application/json", "png": "image/png", "css": "text/css"}


def node(p, k, c=0, to=()):
    return dict(p=list(p), k=k, c=c, to=list(to))


# the served folder, a folder whose name begins alike, and files beside them
W0 = [node(["d"], "dir"), node(["d2"], "dir"), node(["d2", "s"], "file", 901), node(["s"], "file", 902),
      node(["d2", "i"], "file", 903)]
DEF = dict(a="a", b="b.txt", i="index.html")


class Links(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.out, self.cur, self.tags = [], None, []

    def handle_starttag(self, tag, attrs):
        self.tags.append(tag)
        if tag == "a":
            self.cur = [dict(attrs).get("href", ""), ""]

    def handle_endtag(self, tag):
        if tag == "a" and self.cur:
            self.out.append(self.cur)
            self.cur = None

    def handle_data(self, d):
        if self.cur:
            self.cur[1] += d


class Server:
    lock = threading.Lock()
    port = None

    def __init__(self, chk, r):
        self.chk, self.r = chk, r
        cfg = r["cfg"]
        with Server.lock:
            chk.nserv = getattr(chk, "nserv", 0) + 1
            self.dir = "%s/serve%d" % (os.path.realpath(chk.work), chk.nserv)
        self.env = scratch_env(self.dir)
        self.top = self.dir + "/work/top"
        os.makedirs(self.top)
        self.names = cfg.get("names", DEF)
        self.back = {v: k for k, v in self.names.items()}
        self.rng = chk.mkrng(cfg.get("seed", 0))
        self.files = {}
        self.sib = {"d": "web", "d2": "web2", "s": "s.txt"}
        self.p = None

    # ---- the disk
    def name(self, n, first=False):
        return self.sib[n] if n in OUT and (first or n == "s") else self.names.get(n, n)

    def path(self, p):
        return os.path.join(self.top, *[os.fsencode(self.name(n, i == 0)).decode("utf8", "surrogateescape") for i, n in enumerate(p)])

    def body(self, c):
        if c not in self.files:
            k = c % 5
            b = b"contents %05d\n" % c
            if k == 1:
                b += bytes(range(256)) * (1 + c % 300)
            if k == 2:
                b += b"<a href=\"x\">Served by doge-shell</a>" * 3
            if k == 3:
                b = hashlib.sha256(b).digest() * 9000
            self.files[c] = b
        return self.files[c]

    def lay(self, w):
        for n in sorted(w, key=lambda n: len(n["p"])):
            self.make(n)

    def make(self, n):
        p = self.path(n["p"])
        if not os.path.isdir(os.path.dirname(p)) or os.path.realpath(os.path.dirname(p)) != os.path.dirname(p):
            return
        if n["k"] == "file":
            if os.path.lexists(p) and (os.path.islink(p) or not os.path.isfile(p)):
                return
            b = self.body(n["c"])
            if os.path.exists(p) and self.rng.random() < 0.5:
                os.unlink(p)
            with open(p, "wb") as f:
                f.write(b)
            # the time of the last change says nothing
            if self.rng.random() < 0.5:
                os.utime(p, (1000000000, 1000000000))
        elif os.path.lexists(p):
            return
        elif n["k"] == "dir":
            os.mkdir(p)
        elif n["k"] == "fifo":
            os.mkfifo(p)
        else:
            t = self.path(n["to"])
            os.symlink(t if self.rng.random() < 0.5 else os.path.relpath(t, os.path.dirname(p)), p)

    def delete(self, path):
        p = self.path(path)
        if os.path.realpath(os.path.dirname(p)) != os.path.dirname(p):
            return
        try:
            os.rmdir(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        except OSError:
            pass

    def shape(self):
        out = []
        for d, dn, fn in os.walk(self.top):
            for n in dn + fn:
                p = os.path.join(d, n)
                st = os.lstat(p)
                out.append((p, st.st_mode, st.st_size, st.st_mtime_ns))
        return sorted(out)

    # ---- the server
    def args(self):
        cfg = self.r["cfg"]
        d = self.top + "/web"
        if cfg.get("vialink"):
            os.symlink(d, self.dir + "/work/lnk")
            d = self.dir + "/work/lnk"
        if cfg.get("rel"):
            d = os.path.relpath(d, self.dir + "/work")
        return "serve %s%s-p %d %s" % ("" if cfg["index"] else "--no-index ", "--cors " if cfg["cors"] else "", self.portno, d)

    def start(self):
        for _ in range(6):
            with Server.lock:
                if Server.port is None:
                    Server.port = 20000 + os.getpid() % 8000
                while True:
                    Server.port = Server.port + 1 if Server.port < 30000 else 20000
                    s = socket.socket()
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                    try:
                        s.bind(("127.0.0.1", Server.port))
                        break
                    except OSError:
                        pass
                    finally:
                        s.close()
                self.portno = Server.port
            self.line = self.args()
            self.p = subprocess.Popen([self.chk.bin["dsh"], "-c", self.line], cwd=self.dir + "/work", env=self.env,
                                      stdin=subprocess.DEVNULL, stdout=open(self.dir + "/out", "wb"),
                                      stderr=open(self.dir + "/err", "wb"), start_new_session=True)
            t = time.time()
            while time.time() - t < 20 and self.p.poll() is None:
                try:
                    socket.create_connection(("127.0.0.1", self.portno), 5).close()
                    if self.p.poll() is None:
                        return True
                except OSError:
                    time.sleep(0.005)
            self.kill()
            try:
                os.unlink(self.dir + "/work/lnk")
            except OSError:
                pass
        return False

    def kill(self):
        if self.p and self.p.poll() is None:
            os.killpg(self.p.pid, 9)
            self.p.wait()

    def ask(self, method, target):
        """one request, byte for byte"""
        s = socket.create_connection(("127.0.0.1", self.portno), 20)
        try:
            s.settimeout(20)
            s.sendall(method.encode() + b" " + target + b" HTTP/1.1\r\nHost: 127.0.0.1\r\nConnection: close\r\nContent-Length: 0\r\n\r\n")
            data = b""
            while True:
                x = s.recv(65536)
                if not x:
                    break
                data += x
        finally:
            s.close()
        head, _, body = data.partition(b"\r\n\r\n")
        lines = head.decode("latin1").split("\r\n")
        h = {}
        for l in lines[1:]:
            k, _, v = l.partition(":")
            h[k.lower()] = v.strip()
        m = re.match(r"HTTP/1\.1 (\d+)", lines[0])
        if not m:
            raise OSError("no answer")
        if h.get("transfer-encoding") == "chunked" and method != "HEAD":
            out = b""
            while body:
                n, _, body = body.partition(b"\r\n")
                k = int(n, 16)
                if k == 0:
                    break
                out += body[:k]
                body = body[k + 2:]
            else:
                raise OSError("cut short")
            body = out
        elif "content-length" in h and method != "HEAD" and len(body) != int(h["content-length"]):
            raise OSError("cut short")
        return int(m.group(1)), h, body

    def target(self, u, slash):
        """the segments as a request target: escapes may be used for any character"""
        up = 0
        out = b""
        for i, n in enumerate(u):
            if n == "..":
                raw = b".."
            elif n == ".":
                raw = b"."
            else:
                raw = os.fsencode(self.name(n, i > 0 and all(x == ".." for x in u[:i])))
            mode = self.rng.choice(["plain", "plain", "all", "some", "lower"])
            seg = b""
            for c in raw:
                safe = chr(c) in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"
                if safe and (mode in ("plain", "lower") or (mode == "some" and self.rng.random() < 0.5)):
                    seg += bytes([c])
                elif chr(c) in "!$&'()*+,;=:@" and mode == "some":
                    seg += bytes([c])
                else:
                    seg += (b"%%%02x" if mode == "lower" else b"%%%02X") % c
            out += b"/" + seg
        return (out or b"/") + (b"/" if slash and u else b"")

    def listing(self, body, u, t):
        p = Links()
        p.feed(body.decode("utf8", "surrogateescape"))
        out = []
        extra = set(p.tags) - {"html", "head", "title", "style", "body", "h1", "ul", "li", "a", "hr", "p", "em"}
        if extra:
            return [dict(n="markup of a name: %s" % sorted(extra), dir=False)]
        base = urllib.parse.unquote_to_bytes(t.decode())
        for href, text in p.out:
            text = text.split(" ", 1)[1] if " " in text else text
            if text == "../":
                continue
            full = urllib.parse.urljoin("http://h" + t.decode(), href)
            q = urllib.parse.urlsplit(full)
            dest = urllib.parse.unquote_to_bytes(q.path)
            isdir = text.endswith("/")
            nm = dest.rstrip(b"/").rsplit(b"/", 1)[-1]
            n = self.back.get(os.fsdecode(nm))
            want = base.rstrip(b"/") + b"/" + nm
            if n is None or q.netloc != "h" or q.query or q.fragment:
                out.append(dict(n="wrong link " + href, dir=isdir))
            elif ".." not in u and "." not in u and dest.rstrip(b"/") != want:
                out.append(dict(n="wrong place " + href, dir=isdir))
            elif text != nm.decode("utf8", "replace") + ("/" if isdir else ""):
                out.append(dict(n="wrong text " + text, dir=isdir))
            else:
                out.append(dict(n=n, dir=isdir))
        return out

    NO = dict(st="no", c=0, type="", list=[], cors=False)

    def answer(self, a):
        if a["op"] == "other":
            t = self.target(a["u"], a["slash"])
            before = self.shape()
            st, h, b = self.ask(a["m"], t)
            if self.shape() != before:
                return dict(self.NO, st="changed the disk")
            return dict(self.NO, st="no" if 400 <= st < 500 else "status %d" % st)
        t = self.target(a["u"], a["slash"])
        if a.get("enc2f") and a["u"] and a["u"][0] == "..":
            t = b"/" + t[1:].replace(b"/", b"%2F")
        st, h, body = self.ask("GET" if a["op"] == "get" else "HEAD", t)
        for c, b in self.files.items():
            if c > 900 and len(b) > 8 and b in body:
                return dict(self.NO, st="outside", c=c)
        if st in (403, 404):
            return dict(self.NO)
        if st != 200:
            return dict(self.NO, st="status %d" % st)
        typ = h.get("content-type", "").split(";")[0]
        o = dict(st="file", c=0, type=typ, list=[], cors=h.get("access-control-allow-origin") == "*")
        if a["op"] == "head":
            full = self.answer(dict(a, op="get", seed=0))
            return dict(full, c=0, list=[]) if not body and full["type"] == self.short(typ) and full["cors"] == o["cors"] \
                else dict(self.NO, st="head differs")
        for c, b in self.files.items():
            if b == body:
                return dict(o, c=c, type=self.short(typ))
        return dict(o, st="list", type=self.short(typ), list=self.listing(body, a["u"], t))

    def short(self, typ):
        return {v: k for k, v in TYPES.items()}.get(typ, {"application/octet-stream": "none"}.get(typ, typ))

    def run(self):
        out = []
        r = self.r
        first = r["acts"][0]
        self.lay(first["w"] if first["op"] == "begin" else W0)
        if not self.start():
            return [dict(died="serve doesn't start: " + open(self.dir + "/err").read()[-300:])]
        try:
            for a in r["acts"]:
                op = a["op"]
                if op == "begin":
                    o = dict(self.NO)
                elif op in ("get", "head", "other"):
                    o = self.answer(a)
                elif op == "elsewhere":
                    try:
                        socket.create_connection(("127.0.0.2", self.portno), 5).close()
                        o = dict(self.NO, st="answers on another address")
                    except OSError as e:
                        o = dict(self.NO) if e.errno == errno.ECONNREFUSED else dict(self.NO, st=str(e))
                elif op == "again":
                    x = subprocess.run([self.chk.bin["dsh"], "-c", self.line], cwd=self.dir + "/work", env=self.env,
                                       stdin=subprocess.DEVNULL, capture_output=True, timeout=30)
                    o = dict(self.NO) if x.returncode == 1 and str(self.portno).encode() in x.stderr \
                        else dict(self.NO, st="second server: status %d" % x.returncode)
                elif op == "stop":
                    self.p.send_signal(signal.SIGINT if a["c"] else signal.SIGTERM)
                    try:
                        rc = self.p.wait(20)
                        o = dict(self.NO, st="stopped" if rc == 0 else "stopped with %d" % rc)
                    except subprocess.TimeoutExpired:
                        o = dict(self.NO, st="doesn't stop")
                else:
                    if op == "put":
                        self.make(dict(a, k="file"))
                    elif op == "make":
                        self.make(a)
                    else:
                        self.delete(a["p"])
                    o = dict(self.NO)
                out.append(o)
        except (OSError, subprocess.TimeoutExpired, ValueError) as e:
            out.append(dict(died="%s: %s" % (type(e).__name__, e), rc=self.p.poll()))
        finally:
            self.kill()
            shutil.rmtree(self.dir, ignore_errors=True)
        return out


class Prop(Check):
    pid = "C08"
    spec = "Serve"
    walk_len = 60
    assumptions = ["the file system lets the server read everything; links and files don't change within one request"]

    def mkrng(self, seed):
        import random
        return random.Random("%s/%s" % (self.seed, seed))

    NAMES = ["a", "b", "i", "s"]
    TYPE = dict(a="none", b="txt", i="html", s="txt")

    def consts(self, acts, cfgs, mx=7):
        return dict(Acts=acts, Inits="{{%s}}" % ", ".join(tla(n) for n in W0), Cfgs=cfgs, Root=tla(ROOT), Index='"i"', Max0=str(mx))

    def cfgs(self, *l):
        return "{%s}" % ", ".join(tla(dict(index=i, cors=c, names=self.NAMES, type=self.TYPE)) for i, c in l)

    def configs(self):
        segs = [[], ["a"], ["b"], ["i"], ["a", "i"], ["a", "b"], ["b", "i"], ["b", "b"], ["i", "a"], [".."], ["..", "s"],
                ["..", "d2", "s"], ["..", "d", "b"], ["a", "..", "b"], ["b", "..", "s"], ["a", "s"], ["..", "..", "a"]]
        U = "{%s}" % ", ".join(tla(s) for s in segs)
        P = "{%s}" % ", ".join(tla(["d"] + s) for s in (["a"], ["b"], ["i"], ["a", "i"], ["a", "b"]))
        to = "{%s}" % ", ".join(map(tla, (["d2"], ["s"], ["d", "a"], ["d", "i"], ["d"], ["none"])))
        acts = ("[op : {\"get\"}, u : %s, slash : BOOLEAN] \\cup [op : {\"put\"}, p : %s, c : {1}] \\cup "
                "[op : {\"make\"}, p : %s, k : {\"dir\"}, to : {<<>>}] \\cup [op : {\"make\"}, p : %s, k : {\"link\"}, to : %s] \\cup "
                "[op : {\"del\"}, p : %s]" % (U, P, P, P, to, P))
        acts = "{a \\in %s : a.op \\in {\"get\", \"del\"} \\/ Cardinality(core[1]) < %d}" % (acts, 7 if self.quick else 8)
        return [dict(consts=self.consts(acts, self.cfgs((True, False), (False, True)), 7 if self.quick else 8),
                     invariants=["Contained", "Reachable", "Complete"], properties=["ReadOnly"],
                     constraint="Few", max_steps=14000 if self.quick else 100000)]

    def run_cfg(self, init):
        return dict(index=init[1]["index"], cors=init[1]["cors"])

    def execute(self, runs):
        return pmap(lambda r: Server(self, r).run(), runs, 8)

    # ---- random histories
    POOL = ["a b", "a%20b", "é", "漢字.txt", "<b>.html", "x&amp;y", "q\"uo'te", "#1", "a?b=1", "100%", "%41", ".hidden", "..q0", "...",
            "plain", "z.json", "Z.json", "p.png", "st.css", "a+b", "web3", "we", "~", "C:x", "semi;x", "back\\slash", "x.TXT", "s.html",
            "file name with spaces.txt", "\x01", "tab\tx", "%2e%2e", "a=b@c", "b\udcff", "javascript:alert(1)", "-rf", "🐕", "*", "new\nline.txt"]

    def random_histories(self):
        rng = self.rng
        out = []
        for k in range(260 if self.quick else 2500):
            conc = sorted(set(rng.sample(self.POOL, 6)) | {"index.html", "s.txt"}, key=os.fsencode)
            names, n = {}, 0
            for c in conc:
                if c == "index.html":
                    names["i"] = c
                elif c == "s.txt":
                    names["s"] = c
                else:
                    names["n%d" % n] = c
                    n += 1
            inner = [x for x in names if x != "s"]
            typ = {}
            for x, c in names.items():
                e = c.rsplit(".", 1)[-1].lower() if "." in c.lstrip(".") else ""
                typ[x] = e if e in TYPES else "none"
            cfg = dict(index=rng.random() < 0.7, cors=rng.random() < 0.5, names=names, seed=rng.random(),
                       vialink=rng.random() < 0.3, rel=rng.random() < 0.3)
            w = list(W0)
            dirs = [["d"]]
            paths = {tuple(x["p"]): x for x in w}
            cid = [0]

            def fresh():
                cid[0] += 1
                return cid[0]

            def target():
                return list(rng.choice([["d2"], ["s"], ["d2", "s"], ["d2", "i"], ["nowhere"], ["d"]] + list(map(list, paths)) * 2))

            def new(p):
                x = rng.random()
                if x < 0.45:
                    return node(p, "file", fresh())
                if x < 0.7 and len(p) < 4:
                    return node(p, "dir")
                if x < 0.96:
                    return node(p, "link", 0, target())
                return node(p, "fifo")
            for _ in range(rng.randint(3, 11)):
                p = rng.choice(dirs) + [rng.choice(inner + ["i"])]
                if tuple(p) in paths:
                    continue
                x = new(p)
                w.append(x)
                paths[tuple(p)] = x
                if x["k"] == "dir":
                    dirs.append(p)
            acts = [dict(op="begin", w=list(w), cfg=dict(index=cfg["index"], cors=cfg["cors"],
                                                                      names=list(names), type=typ))]

            def url():
                x = rng.random()
                here = [list(p)[1:] for p in paths if p[0] == "d"]
                if x < 0.5:
                    u = rng.choice(here)
                elif x < 0.7:
                    u = rng.choice(here) + [rng.choice(inner)]
                elif x < 0.85:
                    u = list(rng.choice(here))
                    u.insert(rng.randint(0, len(u)), rng.choice(["..", "."]))
                    # a name of the layer above must not be taken for one of the folder
                    if u[0] == "..":
                        u = [".."] + rng.choice([["d2", "s"], ["d2", "i"], ["s"], ["d"], ["d2"], ["d", rng.choice(inner)], ["..", ".."]])
                    else:
                        for i in range(len(u)):
                            if u[i] == "..":
                                u = u[:i + 1] + ([rng.choice(inner)] if i and rng.random() < 0.7 else [])
                                break
                else:
                    u = rng.choice([["..", "s"], ["..", "d2", "s"], ["..", "..", "nowhere"], ["..", "d2"], [".."], [rng.choice(inner), "..", "..", "s"],
                                    ["..", "d", "i"], [rng.choice(inner), "..", rng.choice(inner)]])
                return u
            for _ in range(rng.randint(10, 22)):
                x = rng.random()
                if x < 0.72:
                    u = url()
                    a = dict(op="get", u=u, slash=rng.random() < 0.35)
                    if u and u[0] == ".." and u[-1] == "s" and rng.random() < 0.5:
                        a["enc2f"] = True
                    acts.append(a)
                elif x < 0.77:
                    acts.append(dict(op="head", u=url(), slash=rng.random() < 0.3))
                elif x < 0.8:
                    acts.append(dict(op="other", u=url(), slash=False, m=rng.choice(["POST", "PUT", "DELETE", "PATCH"])))
                elif x < 0.82:
                    acts.append(dict(op=rng.choice(["elsewhere", "again"])))
                elif x < 0.87 and any(p[0] == "d" and n["k"] == "file" for p, n in paths.items()):
                    p = list(rng.choice([p for p, n in paths.items() if p[0] == "d" and n["k"] == "file"]))
                    get = dict(op="get", u=p[1:], slash=False)
                    acts += [get, dict(op="put", p=p, c=fresh()), get]
                else:
                    p = rng.choice(dirs) + [rng.choice(inner)]
                    if rng.random() < 0.25:
                        acts.append(dict(op="del", p=p))
                    else:
                        n = new(p)
                        if n["k"] == "file":
                            acts.append(dict(op="put", p=p, c=n["c"]))
                        else:
                            acts.append(dict(op="make", p=p, k=n["k"], to=n["to"]))
                        paths[tuple(p)] = n
                        if n["k"] == "dir" and p not in dirs:
                            dirs.append(p)
            acts.append(dict(op="stop", c=rng.random() < 0.5))
            out.append(dict(cfg=cfg, acts=acts))
        return out

    def trace_consts(self):
        return self.consts("{}", self.cfgs((True, False)))
