"""Recording histories of real ElgasConnection objects (trace format: spec/TraceSession.tla)."""
import datetime

import attr

from . import record, wire
from .record import call, val

NOW = (2024, 2, 29, 12, 34, 56)


def dt(t):
    return datetime.datetime(*t)


class Summer(datetime.tzinfo):
    """A zone that observes daylight saving, always."""

    def utcoffset(self, t):
        return datetime.timedelta(hours=2)

    def dst(self, t):
        return datetime.timedelta(hours=1)

    def tzname(self, t):
        return "CEST"


ZONES = [None, None, None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=5, minutes=30)), Summer(),
         datetime.timezone(datetime.timedelta(hours=-8))]


class T(tuple):
    """Calendar fields with a zone."""

    zone = None


def same_instant(rnd, t):
    """Calendar fields of the instant t, in different zones."""
    try:
        at = moment(t).replace(microsecond=0)
        at = at if at.tzinfo else at.replace(tzinfo=datetime.timezone.utc)
        out = []
        for _ in range(rnd.randrange(2, 4)):
            z = datetime.timezone(datetime.timedelta(minutes=rnd.choice([0, 60, 120, -480, 330, rnd.randrange(-1439, 1440)])))
            x = T(at.astimezone(z).timetuple()[:6])
            x.zone = rnd.choice([z, Summer()]) if z.utcoffset(None) == datetime.timedelta(hours=2) else z
            if 2000 <= x[0] <= 2099:
                out.append(x)
        return out
    except (ValueError, OverflowError):
        return []


def moment(t):
    """A datetime with these calendar fields; what else it has depends on them only."""
    n = sum(t)
    if getattr(t, "zone", None):
        return datetime.datetime(*t, tzinfo=t.zone)
    return datetime.datetime(
        *t, microsecond=[0, 0, 1, 500000, 999999][n % 5] if n % 2 else 0, tzinfo=ZONES[n % 10 % 7], fold=int(n % 11 == 3)
    )


WATCH = False  # whether it is looked at what became of the request objects


def looks(event):
    """The fields of a request object."""
    if not WATCH or not attr.has(type(event)):
        return {}
    return {a.name: (type(v).__name__, repr(v)) for a in attr.fields(type(event)) for v in [getattr(event, a.name, None)]}


def become(old, new):
    """The object old with the values of new; new itself, if old does not let itself be changed."""
    try:
        for a in attr.fields(type(new)):
            setattr(old, a.name, getattr(new, a.name))
    except (AttributeError, TypeError):
        return new
    return old


class Req:
    """An abstract request, independent of the implementation's classes."""

    def __init__(self, k, pw="abcdef", a=1, x=0, y=0, tm=NOW):
        self.k, self.pw, self.a, self.x, self.y, self.tm = k, pw, a, x, y, tm
        self._built = None

    def build(self, app):
        tm = moment(self.tm) if isinstance(self.tm, tuple) else self.tm
        if self.k == "values":
            return app.ReadInstantaneousValuesRequest(password=self.pw)
        if self.k == "time":
            return app.ReadTimeRequest()
        if self.k == "write":
            return app.WriteTimeRequest(password=self.pw, device_time=tm)
        if self.k == "params":
            return app.ReadDeviceParametersRequest(
                password=self.pw, object_count=self.x, buffer_length=self.y
            )
        arch = self.a
        if isinstance(arch, int) and arch in range(0, 11, 1 if record.NAMES else 2):
            arch = record.named("Archive", arch)
        if self.k == "byid":
            return app.ReadArchiveRequest(
                password=self.pw, archive=arch, oldest_record_id=self.x, amount=self.y
            )
        if self.k == "bytime":
            return app.ReadArchiveByTimeRequest(
                password=self.pw, archive=arch, amount=self.x, oldest_timestamp=tm
            )
        # things that are not requests
        if self.k == "response-pdu":
            return app.WriteTimeResponse()
        if self.k == "object":
            return object()
        raise KeyError(self.k)

    def event(self, app):
        """The same request is the same object each time it is sent."""
        now = (app, self.k, repr((self.pw, self.a, self.x, self.y, self.tm)))
        if self._built is None or self._built[0] != now:
            self._built = (now, self.build(app))
        return self._built[1]

    def turn_into(self, other, app):
        """The object of this request is given the values of the other."""
        mine, new = self.event(app), other.build(app)
        turned = become(mine, new)
        self._built = None
        other._built = ((app, other.k, repr((other.pw, other.a, other.x, other.y, other.tm))), turned)

    def json(self):
        return {
            "k": self.k,
            "pw": val(self.pw),
            "a": val(self.a),
            "x": val(self.x),
            "y": val(self.y),
            "tm": {"t": "tm", "d": list(self.tm)} if isinstance(self.tm, tuple) else val(self.tm),
        }


RESPONSE_FIELDS = {
    "values": (
        "current_time is_dst supports_dst data data_access status summary_status parameter_crc"
    ).split(),
    "time": "time data_access_result is_dst device_supports_dst extra_data".split(),
    "params": "object_number object_amount is_end data".split(),
    "byid": "archive oldest_record_id data".split(),
    "bytime": "archive oldest_record_id data".split(),
    "write": [],
}


def response_kind(pdu):
    from elgas import application as app

    for kind, cls in (
        ("values", app.ReadInstantaneousValuesResponse),
        ("time", app.ReadTimeResponse),
        ("write", app.WriteTimeResponse),
        ("params", app.ReadDeviceParametersResponse),
        ("byid", app.ReadArchiveResponse),
        ("bytime", app.ReadArchiveByTimeResponse),
    ):
        if type(pdu) is cls:
            return kind
    return None


def project_pdu(pdu):
    """Fields of a response object."""
    from elgas import state

    if pdu is state.NEED_DATA:
        return {"k": "need"}
    kind = response_kind(pdu)
    if kind is None:
        return {"k": "other", "cls": type(pdu).__name__}
    f = []
    for n in RESPONSE_FIELDS[kind]:
        v = val(getattr(pdu, n)) if hasattr(pdu, n) else {"t": "x", "d": []}
        f.append({"n": n, **v})
    return {"k": "pdu", "svc": wire.SVC[kind], "f": f}


class Cfg:
    def __init__(self, d1=0, d2=0, s1=0, s2=0, key=None, kid=None):
        self.d1, self.d2, self.s1, self.s2, self.key, self.kid = d1, d2, s1, s2, key, kid

    def key_id(self):
        """As it is given to the library."""
        return record.named("EncryptionKeyId", self.kid) if record.NAMES and self.kid in range(1, 8) else self.kid

    @property
    def cipher(self):
        return (self.key, self.kid) if self.key else None

    def json(self):
        return {
            "d1": val(self.d1),
            "d2": val(self.d2),
            "s1": val(self.s1),
            "s2": val(self.s2),
            "key": list(self.key) if self.key else [],
            "kid": self.kid or 0,
        }


def assign(conn, cfg):
    conn.destination_address_1, conn.destination_address_2 = cfg.d1, cfg.d2
    conn.source_address_1, conn.source_address_2 = cfg.s1, cfg.s2


def spoil(x, depth=0):
    """Its owner does with an object what he likes."""
    if depth > 6:
        return
    if isinstance(x, bytearray):
        x[:] = b"\x5a" * (len(x) + 1)
    elif isinstance(x, list):
        for y in x:
            spoil(y, depth + 1)
        x.append(None)
        del x[0]
    elif isinstance(x, dict):
        for y in list(x.values()):
            spoil(y, depth + 1)
        x.clear()
    elif attr.has(type(x)):
        for a in attr.fields(type(x)):
            spoil(getattr(x, a.name, None), depth + 1)
            try:
                setattr(x, a.name, "spoiled")
            except (AttributeError, TypeError, ValueError):
                pass


class History:
    """One recorded history over any number of connections."""

    def __init__(self, note=""):
        from elgas import application, connection

        self.app, self.connection = application, connection
        self.ev, self.conns, self.cfgs, self.note, self.dead = [], [], [], note, False
        self.kept = []  # what was delivered: it must stay what it was
        record.begun(self)

    def _add(self, e):
        self.ev.append(e)
        if e["out"]["k"] in ("hang", "exit", "skip"):
            self.dead = True
        return e["out"]

    def new(self, cfg=None, password="abcdef", password_id=801):
        cfg = cfg or Cfg()
        box = []

        def make():
            box.append(
                self.connection.ElgasConnection(
                    source_address_1=cfg.s1,
                    source_address_2=cfg.s2,
                    destination_address_1=cfg.d1,
                    destination_address_2=cfg.d2,
                    password=password,
                    password_id=password_id,
                    encryption_key=cfg.key,
                    encryption_key_id=cfg.key_id(),
                )
            )

        out = call(make)
        self.conns.append(box[0] if box else None)
        self.cfgs.append(cfg)
        self._add({"op": "new", "c": len(self.conns), "cfg": cfg.json(), "pw": val(password), "pid": val(password_id), "out": out})
        if out["k"] != "ok":
            self.dead = True
        return len(self.conns)

    def readdress(self, d1, d2, s1, s2, c=1):
        """The connection gets other addresses."""
        if self.dead:
            return {"k": "dead"}
        conn, cfg = self.conns[c - 1], self.cfgs[c - 1]
        cfg = self.cfgs[c - 1] = Cfg(d1, d2, s1, s2, cfg.key, cfg.kid)
        return self._add({"op": "set", "c": c, "cfg": cfg.json(), "out": call(lambda: assign(conn, cfg))})

    def send(self, req, c=1):
        if self.dead:
            return {"k": "dead"}
        conn = self.conns[c - 1]
        try:
            event = req.event(self.app)
        except Exception as e:  # an argument refused by the request class itself
            return self._add({"op": "send", "c": c, "req": req.json(), "touched": [], "out": record.err(e)})
        before = looks(event)
        out = call(
            lambda: conn.send(event),
            lambda r: {"k": "bytes", "d": list(r)}
            if isinstance(r, (bytes, bytearray))
            else {"k": "other", "cls": type(r).__name__},
        )
        after = looks(event)
        touched = [n for n in before if after.get(n) != before[n]]
        return self._add({"op": "send", "c": c, "req": req.json(), "touched": touched, "out": out})

    def recv(self, data, c=1):
        if self.dead:
            return {"k": "dead"}
        conn = self.conns[c - 1]
        given = bytes(data)
        if len(self.ev) % 3 == 1:  # from a buffer that is used again for other things
            given = bytearray(data)
        e = {"op": "recv", "c": c, "d": list(data), "out": call(lambda: conn.receive_data(given))}
        if isinstance(given, bytearray):
            given[:] = b"\xa5" * (len(given) + 1)
        return self._add(e)

    def next(self, c=1):
        if self.dead:
            return {"k": "dead"}
        conn = self.conns[c - 1]

        def project(pdu):
            out = project_pdu(pdu)
            if out["k"] == "pdu":
                self.kept.append((pdu, out))
            return out

        return self._add({"op": "next", "c": c, "out": call(conn.next_event, project)})

    def spoil(self):
        """What was delivered so far is changed by its owner."""
        for pdu, _ in self.kept:
            spoil(pdu)
        self.kept = []

    def drain(self, c=1, limit=50):
        """Ask for events until more data is needed."""
        outs = []
        for _ in range(limit):
            o = self.next(c)
            outs.append(o)
            if o["k"] in ("need", "hang", "exit", "dead", "skip"):
                break
        return outs

    def json(self):
        """The delivered objects are looked at once more: those that have changed are written down."""
        if self.kept and not self.dead:
            changed = [out for pdu, out in self.kept if call(lambda: pdu, project_pdu) != out]
            self.ev.append({"op": "later", "c": 1, "out": {"k": "ok"}, "changed": changed})
        self.kept = []
        return record.finished(self, "TraceSession", {"note": self.note, "ev": self.ev})
