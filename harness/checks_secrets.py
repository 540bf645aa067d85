"""Check that passwords and keys stay out of representations and logs (C21)."""
import contextlib
import io
import logging
import traceback

from . import clients, device as dv, links, record, records, wire
from .checks import PROBE, check
from .checks_client import LINKS, emitted, one_call, rand_client_cfg
from .session import Cfg, Req


class Capture:
    """Everything the library logs or prints, as rendered in three ways."""

    def __init__(self, quiet=False):
        self.quiet = quiet  # only level info and above
        self.lines = []

    def __enter__(self):
        import structlog

        kv, js = structlog.processors.KeyValueRenderer(), structlog.processors.JSONRenderer()
        console = structlog.dev.ConsoleRenderer(colors=False)

        def render(logger, method, event):
            for r in (kv, js, console):
                try:
                    self.lines.append(str(r(logger, method, dict(event))))
                except Exception:
                    self.lines.append("cannot be rendered")
            raise structlog.DropEvent

        self.structlog, self.old = structlog, structlog.get_config()
        structlog.configure(
            processors=[structlog.processors.format_exc_info, render],
            wrapper_class=structlog.make_filtering_bound_logger(logging.INFO if self.quiet else logging.DEBUG),
            cache_logger_on_first_use=False,
        )
        me = self

        class Handler(logging.Handler):
            def emit(self, rec):
                me.lines.append(rec.getMessage())

        self.handler = Handler(logging.INFO if self.quiet else 0)
        logging.getLogger().addHandler(self.handler)
        self.level = logging.getLogger().level
        logging.getLogger().setLevel(1)
        self.out = io.StringIO()
        self.stack = contextlib.ExitStack()
        self.stack.enter_context(contextlib.redirect_stdout(self.out))
        self.stack.enter_context(contextlib.redirect_stderr(self.out))
        return self

    def __exit__(self, *a):
        self.stack.close()
        logging.getLogger().removeHandler(self.handler)
        logging.getLogger().setLevel(self.level)
        self.structlog.configure(**self.old)
        self.lines += self.out.getvalue().splitlines()


class Spy:
    """The requests the client builds."""

    def __init__(self):
        self.seen = []

    def __enter__(self):
        from elgas import connection

        self.cls, self.orig = connection.ElgasConnection, connection.ElgasConnection.send
        seen, orig = self.seen, self.orig

        def send(conn, event):
            seen.append(event)
            return orig(conn, event)

        self.cls.send = send
        return self

    def __exit__(self, *a):
        self.cls.send = self.orig


def texts(lines, op, what):
    out, seen = [], set()
    for x in lines:
        if x not in seen:
            seen.add(x)
            out.append({"op": op, "what": what, "text": [ord(ch) for ch in x]})
    return out


def secret_history(rnd, link, cfg, pw, act):
    """Let `act` use a client, and write down everything it shows."""
    ev = []
    record.SEEN = []
    with Capture(quiet=cfg.cipher is None) as cap, Spy() as spy:
        h = clients.ClientHistory(rnd)
        h.new(cfg, pw=pw, link=link)
        if not h.dead:
            act(h)
        client = h.clients[0]
        shown = []
        if client is not None:
            conn = client.elgas_connection
            for what, o in [("client", client), ("connection", conn), ("cipher", conn.cipher_context)] + [
                ("request", r) for r in spy.seen
            ] + [("list", [client, spy.seen]), ("dict", {"client": client}), ("state", conn.elgas_state)]:
                # the requests a client without a key frames are on the wire in clear anyway
                for how in (repr, str, "{}".format):
                    try:
                        shown.append((what, how(o)))
                    except Exception as e:
                        shown.append((what, "cannot be shown: " + type(e).__name__))
    seen, record.SEEN = record.SEEN, None
    for e in seen:
        if isinstance(e, UnicodeError):
            continue  # holds what could not be encoded: no password of any device
        for x in (str(e), repr(e), "".join(traceback.format_exception(e))):
            shown.append(("exception", x))
    for what, x in sorted(set(shown)):
        ev += texts([x], "repr", what)
    ev += texts(cap.lines, "log", "")
    return {"note": link, "pw": [ord(x) for x in pw], "key": list(cfg.key or b""), "ev": ev}


def password(rnd):
    """Six characters that do not turn up by chance."""
    k = rnd.randrange(4)
    if k == 0:
        return "".join(chr(rnd.choice([13, 27, 141, 14, 15, 92, 39, 34, 233, 0, 255])) for _ in range(4)) + "#q"
    if k == 1:
        return "".join(rnd.choice("QXZJKW#%&!?") for _ in range(6))
    return "".join(chr(rnd.randrange(1, 256)) for _ in range(5)) + "Q"


@check
def C21(c):
    c.model("MCSecrets")
    L = records.layouts()
    hs = []
    for i in range(c.n(90, 1500)):
        rnd = dv.rng(c.seed, "C21", i)
        cfg = rand_client_cfg(rnd, i % 5 != 4)
        if cfg.cipher:
            cfg.key = bytes(rnd.randrange(256) for _ in range(16))
            if i % 3 == 0:
                cfg.key = bytes(rnd.randrange(33, 127) for _ in range(16))

        def act(h):
            if rnd.random() < 0.95:
                h.connect(rnd.random() < 0.9)
            kinds = dv.KINDS[:]
            rnd.shuffle(kinds)
            for kind in kinds[: rnd.randrange(1, 4)]:
                one_call(h, rnd, cfg, {t: L[t] for t in (31, 45)}, kind=kind)
                if rnd.random() < 0.2:
                    h.disconnect(rnd.random() < 0.7)
                    h.connect(rnd.random() < 0.9)

        hs.append(secret_history(rnd, LINKS[i % 3], cfg, password(rnd), act))
    # every call, answered and refused in every way
    for kind in dv.KINDS:
        for how in ("good", "error", "silence", "foreign", "corrupt", "sendfail", "pending", "unencodable"):
            rnd = dv.rng(c.seed, "C21", kind, how)
            cfg = Cfg(0, 0, 0, 0, bytes(rnd.randrange(256) for _ in range(16)), rnd.randrange(1, 8))

            def act(h):
                h.connect()
                r = dv.rand_req(rnd, kind)
                if kind == "params":
                    r.x = 5
                if how == "unencodable":
                    r = dv.bad_req(rnd, kind) if kind not in ("time", "values") else r
                reads = [{
                    "error": dv.error(rnd, cfg), "foreign": dv.foreign(rnd, cfg, kind), "silence": None,
                    "corrupt": dv.damage(rnd, dv.good(rnd, cfg, kind)),
                }.get(how) or wire.response(wire.SVC[kind], PROBE[kind], cfg.cipher)]
                if how == "silence":
                    reads = []
                h.call(r, reads, how == "sendfail")
                if how == "pending":
                    h.call(Req("values"), [])
                    h.call(r, [])
                    h.call(r, [])

            hs.append(secret_history(rnd, "script", cfg, password(rnd), act))
    c.validate("TraceSecrets", hs, what="representations and log lines of clients")
