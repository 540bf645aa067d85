"""Recording histories of real ElgasClient objects (trace format: spec/TraceClient.tla)."""
from . import links, record, wire
from .calls import project_object
from .record import call, val
from .session import Cfg, Req, assign, moment, project_pdu


none = lambda x: {"k": "none"} if x is None else {"k": "other", "cls": type(x).__name__}


class Script:
    """A transport that obeys a script: what each send and recv does."""

    def __init__(self):
        self.up = False
        self.reads, self.writes_fail = [], False
        self.connect_fails = self.disconnect_fails = False

    def connect(self):
        from elgas import exceptions

        if self.up:
            raise RuntimeError("connected already")
        if self.connect_fails:
            raise exceptions.CommunicationError("connect")
        self.up = True

    def disconnect(self):
        from elgas import exceptions

        up, self.up = self.up, False
        if up and self.disconnect_fails:
            raise exceptions.CommunicationError("disconnect")

    def send(self, data):
        from elgas import exceptions

        if not self.up:
            raise RuntimeError("not connected")
        if self.writes_fail:
            raise exceptions.CommunicationError("send")

    def recv(self):
        from elgas import exceptions

        if not self.up:
            raise RuntimeError("not connected")
        if not self.reads:
            raise exceptions.CommunicationError("nothing comes")
        x = self.reads.pop(0)
        if x is None:
            raise exceptions.CommunicationError("recv")
        return x


class Proxy:
    """Writes down how the client uses its transport."""

    def __init__(self, h, c, inner):
        self.__dict__.update(h=h, c=c, inner=inner, uses=[], link=None, endpoint=None)

    def __getattr__(self, name):
        return getattr(self.inner, name)

    def __setattr__(self, name, value):
        if name in self.__dict__:
            self.__dict__[name] = value
        else:
            setattr(self.inner, name, value)

    def settings(self):
        return {k: v for k, v in vars(self.inner).items() if k in ("host", "port", "timeout", "baud_rate")}

    def _do(self, fn, project):
        self.h.count()
        try:
            r = fn()
        except record.Hang:
            raise
        except Exception as e:
            return record.err(e), None, e
        return project(r), r, None

    def connect(self):
        out, r, e = self._do(self.inner.connect, lambda r: {"k": "ok"})
        self.uses.append(out)
        if e:
            raise e
        return r

    def disconnect(self):
        out, r, e = self._do(self.inner.disconnect, lambda r: {"k": "ok"})
        self.uses.append(out)
        if e:
            raise e
        return r

    def send(self, data):
        out, r, e = self._do(lambda: self.inner.send(data), lambda r: {"k": "ok"})
        self.h.ev.append({"op": "w", "c": self.c, "d": list(data), "out": out})
        if e:
            raise e
        return r

    def recv(self):
        out, r, e = self._do(self.inner.recv, lambda r: {"k": "bytes", "d": list(r)})
        self.h.ev.append({"op": "r", "c": self.c, "out": out})
        if e:
            raise e
        return r


class ClientHistory:
    """One recorded history over any number of clients."""

    LIMIT = 3000

    def __init__(self, rnd, note=""):
        from elgas import application, client, connection, constants, transport

        self.app, self.mod, self.constants, self.transport = application, client, constants, transport
        self.connection = connection
        self.rnd, self.note, self.ev, self.dead = rnd, note, [], False
        self.world = links.World(rnd)
        self.clients, self.cfgs, self.proxies, self.pws, self.used = [], [], [], [], 0
        self.kept = []
        record.begun(self)

    def count(self):
        self.used += 1
        if self.used > self.LIMIT:
            raise record.Hang()

    def _run(self, fn, project=lambda r: {"k": "ok"}):
        self.world.calls = self.used = 0
        links.WORLD = self.world
        try:
            return call(fn, project)
        finally:
            links.WORLD = None

    def _add(self, e):
        self.ev.append(e)
        if e["out"]["k"] in ("hang", "exit", "skip"):
            self.dead = True
        return e["out"]

    def new(self, cfg=None, pw="abcdef", pw_id=801, link="script", timeout=10, port=None):
        """link: script, tcp or serial; port: the number of another client, whose endpoint is used too."""
        cfg = cfg or Cfg()
        n = len(self.clients) + 1
        port = port or n
        if link == "script":
            inner = Script()
        elif link == "tcp":
            inner = self.transport.BlockingTcpTransport(host="192.0.2.9", port=1000 + port, timeout=timeout)
        else:
            inner = self.transport.SerialTransport(port=f"/dev/ttyS{port}", baud_rate=9600, timeout=timeout)
        p = Proxy(self, n, inner)
        p.endpoint, before = p.settings(), p.settings()
        box = []

        def make():
            kw = {}
            if cfg.key is not None:
                kw["encryption_key"] = cfg.key
            if cfg.kid is not None:
                kw["encryption_key_id"] = cfg.key_id()
            if (cfg.d1, cfg.d2, cfg.s1, cfg.s2) != (0, 0, 0, 0):  # a connection with addresses of its own
                kw["elgas_connection"] = self.connection.ElgasConnection(
                    password=pw, password_id=pw_id, destination_address_1=cfg.d1, destination_address_2=cfg.d2,
                    source_address_1=cfg.s1, source_address_2=cfg.s2, **kw,
                )
            box.append(self.mod.ElgasClient(transport=p, password=pw, password_id=pw_id, **kw))

        out = self._run(make)
        self.clients.append(box[0] if box else None)
        self.cfgs.append(cfg)
        self.proxies.append(p)
        self.pws.append(pw)
        touched = len(p.uses) + sum(before[k] != v for k, v in p.settings().items())
        self._add({"op": "new", "c": n, "cfg": cfg.json(), "pw": val(pw), "pid": val(pw_id), "n": touched, "out": out})
        if out["k"] != "ok":
            self.dead = True
        return n

    def change(self, cfg=None, pw=None, c=1):
        """Other addresses for the connection of a client, another password."""
        if self.dead:
            return {"k": "dead"}
        client = self.clients[c - 1]
        if cfg:
            old = self.cfgs[c - 1]
            self.cfgs[c - 1] = Cfg(cfg.d1, cfg.d2, cfg.s1, cfg.s2, old.key, old.kid)
        if pw is not None:
            self.pws[c - 1] = pw

        def run():
            if cfg:
                assign(client.elgas_connection, cfg)
            if pw is not None:
                client.password = pw

        return self._add({"op": "set", "c": c, "cfg": self.cfgs[c - 1].json(), "pw": val(self.pws[c - 1]), "out": call(run)})

    def _life(self, op, c, **faults):
        if self.dead:
            return {"k": "dead"}
        p = self.proxies[c - 1]
        p.uses, self.world.opens = [], []
        out = self._run(getattr(self.clients[c - 1], op))
        t = p.endpoint.get("timeout")
        want = [record.val(p.endpoint.get("host", p.endpoint.get("port"))),
                record.val(p.endpoint["port"] if "host" in p.endpoint else p.endpoint.get("baud_rate")),
                record.val(-1 if t is None else t)]
        strange = sum([o["host"], o["port"], o["timeout"]] != want for o in self.world.opened()) if p.endpoint else 0
        last = p.uses[-1] if p.uses else {"k": "ok"}
        return self._add({"op": op, "c": c, "n": len(p.uses), "strange": strange, "tr": last, "out": out})

    def connect(self, ok=True, c=1):
        p = self.proxies[c - 1]
        if isinstance(p.inner, Script):
            p.inner.connect_fails = not ok
            p.inner.reads = []
        else:
            n = len(self.world.links)
            self.world.fail_open = None if ok else self.rnd.choice(links.ERRORS["tcp"])
        out = self._life("connect", c)
        if not isinstance(p.inner, Script):
            self.world.fail_open = None
            if len(self.world.links) > n:
                p.link = self.world.links[-1]
        return out

    def disconnect(self, ok=True, c=1):
        p = self.proxies[c - 1]
        if isinstance(p.inner, Script):
            p.inner.disconnect_fails = not ok
        elif not ok and p.link:
            self.world.fail_close = ("close", self.rnd.choice(links.ERRORS[p.link.kind]))
        out = self._life("disconnect", c)
        self.world.fail_close = None
        p.link = None
        return out

    def script(self, c, reads, fail_send=False):
        """What the link does during the next call: chunks of bytes (None: it fails)."""
        p = self.proxies[c - 1]
        if isinstance(p.inner, Script):
            p.inner.reads = list(p.inner.reads) + list(reads)
            p.inner.writes_fail = fail_send
            return
        self.world.fail_write = self.rnd.choice(links.ERRORS["tcp"]) if fail_send else None
        if p.link is None:
            return
        for x in reads:
            if x is None:
                p.link.fin = self.rnd.choice(["eof", "err"])
                break
            gap = 7 * self.rnd.choice([0, 1, 20, 300])
            p.link.feed([(gap if i == 0 else 0, b) for i, b in enumerate(x)], "")

    def call(self, r: Req, reads=(), fail_send=False, c=1):
        """One call of the client; r.pw is not used (the client has its own)."""
        if self.dead:
            return {"k": "dead"}
        self.script(c, reads, fail_send)
        client = self.clients[c - 1]
        self.ev.append({"op": "call", "c": c, "call": r.json(), "out": {"k": "ok"}})
        tm = moment(r.tm) if isinstance(r.tm, tuple) else r.tm
        arch = r.a
        if isinstance(arch, int) and not isinstance(arch, bool):
            try:
                arch = record.named("Archive", arch)
            except (ValueError, KeyError):
                pass
        fn, project = {
            "values": (lambda: client.read_instantaneous_values(), project_pdu),
            "time": (lambda: client.read_time(), lambda x: {"k": "time", "tm": val(x)["d"] if val(x)["t"] == "tm" else []}),
            "write": (lambda: client.write_time(tm), none),
            "params": (lambda: client.read_parameters() if r.json()["x"] == val(0) and self.rnd.random() < 0.5 else client.read_parameters(r.x),
                       lambda x: {"k": "objs", "o": [project_object(o) for o in x]}),
            "byid": (lambda: client.read_archive(archive=arch, amount=r.y, oldest_record_id=r.x), project_pdu),
            "bytime": (lambda: client.read_archive_by_time(archive=arch, amount=r.x, oldest_timestamp=tm), project_pdu),
        }[r.k]

        return self._call(c, fn, project)

    def _call(self, c, fn, project):
        def keep(x):
            o = project(x)
            if o["k"] in ("pdu", "objs"):
                self.kept.append((x, project, o))
            return o

        out = self._run(fn, keep)
        p = self.proxies[c - 1]
        self.world.fail_write = None
        if isinstance(p.inner, Script):
            p.inner.writes_fail = False
        return self._add({"op": "end", "c": c, "out": out})

    def ask(self, r: Req, reads=(), fail_send=False, c=1):
        """The first half of an exchange."""
        if self.dead:
            return {"k": "dead"}
        self.script(c, reads, fail_send)
        self.ev.append({"op": "ask", "c": c, "call": r.json(), "out": {"k": "ok"}})
        return self._call(c, lambda: self.clients[c - 1].send(r.build(self.app)), none)

    def wait(self, reads=(), c=1):
        """The second half."""
        if self.dead:
            return {"k": "dead"}
        self.script(c, reads)
        self.ev.append({"op": "await", "c": c, "out": {"k": "ok"}})
        return self._call(c, lambda: self.clients[c - 1].next_event(), project_pdu)

    def json(self):
        if self.kept and not self.dead:
            changed = [o for x, project, o in self.kept if call(lambda: x, project) != o]
            self.ev.append({"op": "later", "c": 1, "out": {"k": "ok"}, "changed": changed})
        self.kept = []
        return record.finished(self, "TraceClient", {"note": self.note, "ev": self.ev})


def page(cfg, rnd, number, amount, end, data):
    """A parameter page as the device sends it."""
    from . import device as dv

    body = number.to_bytes(2, "little") + amount.to_bytes(2, "little") + bytes([end]) + data
    return dv.answer(rnd, cfg, wire.SVC["params"], body)
