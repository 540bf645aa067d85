"""Recording single calls of the library's codecs (trace format: spec/TraceCalls.tla)."""
import enum
import json

import attr

from . import record, wire
from .record import call, val
from .session import Req, become, moment, project_pdu, spoil

REQUEST_CLASSES = {
    wire.REQ: "Request",
    wire.ENCREQ: "EncryptedRequest",
    wire.RESP: "Response",
    wire.ENCRESP: "EncryptedResponse",
}


def bytes_out(r):
    if isinstance(r, (bytes, bytearray)):
        return {"k": "bytes", "d": list(r)}
    return {"k": "other", "cls": type(r).__name__}


def hist(*events, note=""):
    return {"note": note, "ev": list(events)}


def twice(fn):
    """Doing it again gives the same; what is recorded is the result that differs, if one does."""
    a = fn()
    b = fn()
    return a if b == a else b


def esc(d):
    from elgas import utils

    return {"op": "esc", "d": list(d), "out": call(lambda: utils.escape_characters(d), bytes_out)}


def unesc(d):
    from elgas import utils

    return {"op": "unesc", "d": list(d), "out": call(lambda: utils.return_characters(d), bytes_out)}


def _red(fn):
    """The library's function for it, None if there is none by this name."""
    from elgas import utils

    names = {"lrc": "calculate_lrc", "sum": "calculate_checksum", "drc": "calculate_drc", "crc": "calculate_crc"}
    return getattr(utils, names[fn], None)


def redtab(fn, d):
    """The values of d + b for every byte b."""
    f = _red(fn)
    return {
        "op": "redtab",
        "fn": fn,
        "d": list(d),
        "out": call(lambda: [int(f(bytearray(d) + bytes([b]))) for b in range(256)], lambda r: {"k": "nums", "n": r}),
    }


def red(fn, d):
    f = _red(fn)
    return {
        "op": "red",
        "fn": fn,
        "d": list(d),
        "out": call(lambda: f(bytearray(d)), lambda r: {"k": "num", "n": int(r)}),
    }


def named_number(x):
    return sum(d << (8 * i) for i, d in enumerate(val(x)["d"]))


def frame_out(f):
    kinds = {v: k for k, v in REQUEST_CLASSES.items()}
    n = lambda x: record.digits(int(x)) if int(x) >= 0 else [-1]
    return {
        "k": "frame",
        "type": kinds.get(type(f).__name__, 0),
        "svc": named_number(f.service),
        "d1": n(f.destination_address_1),
        "d2": n(f.destination_address_2),
        "s1": n(f.source_address_1),
        "s2": n(f.source_address_2),
        "d": list(f.data),
    }


def resp(d):
    from elgas import frames

    return {"op": "resp", "d": list(d), "out": call(lambda: frames.ResponseFactory.from_bytes(bytes(d)), frame_out)}


def dec(ftype, d):
    from elgas import frames

    cls = getattr(frames, REQUEST_CLASSES[ftype])
    return {"op": "dec", "type": ftype, "d": list(d), "out": call(lambda: cls.from_bytes(bytes(d)), frame_out)}


def recode(ftype, d):
    """A decoded frame that has been encoded since."""
    from elgas import frames

    def run():
        f = getattr(frames, REQUEST_CLASSES[ftype]).from_bytes(bytes(d))
        f.to_bytes()
        return f

    return {"op": "dec", "type": ftype, "d": list(d), "out": call(run, frame_out)}


def enc(ftype, svc, d1, d2, s1, s2, data):
    from elgas import frames

    cls = getattr(frames, REQUEST_CLASSES[ftype])

    def make():
        return cls(
            service=record.named("ServiceNumber", svc),
            destination_address_1=d1,
            destination_address_2=d2,
            source_address_1=s1,
            source_address_2=s2,
            data=bytes(data),
        )

    return {
        "op": "enc",
        "type": ftype,
        "svc": svc,
        "d1": val(d1),
        "d2": val(d2),
        "s1": val(s1),
        "s2": val(s2),
        "data": list(data),
        "out": call(lambda: twice(make().to_bytes), bytes_out),
    }


def enc_again(ftype, before, svc, d1, d2, s1, s2, data):
    """As enc, with a frame object that had other values before (svc, d1, d2, s1, s2, data) and was encoded."""
    from elgas import frames

    cls = getattr(frames, REQUEST_CLASSES[ftype])

    def make(svc, d1, d2, s1, s2, data):
        return cls(service=record.named("ServiceNumber", svc), destination_address_1=d1, destination_address_2=d2,
                   source_address_1=s1, source_address_2=s2, data=bytes(data))

    def run():
        f = make(*before)
        f.to_bytes()
        return become(f, make(svc, d1, d2, s1, s2, data)).to_bytes()

    return {
        "op": "enc", "type": ftype, "svc": svc, "d1": val(d1), "d2": val(d2), "s1": val(s1), "s2": val(s2),
        "data": list(data), "out": call(run, bytes_out),
    }


def todt(d):
    from elgas import utils

    return {
        "op": "todt",
        "d": list(d),
        "out": call(
            lambda: utils.bytes_to_datetime(bytes(d)),
            lambda r: {"k": "time", "tm": val(r[0])["d"], "dst": int(r[1]), "sup": int(r[2])},
        ),
    }


def fromdt(t):
    from elgas import utils

    return {
        "op": "fromdt",
        "tm": list(t),
        "out": call(lambda: utils.datetime_to_bytes(moment(t)), bytes_out),
    }


def seal(key, kid, data):
    from elgas import security

    def run():
        c = security.CipherContext(kid, key)
        return twice(lambda: c.encrypt(data))

    return {
        "op": "seal",
        "key": list(key),
        "kid": kid,
        "data": list(data),
        "out": call(run, bytes_out),
    }


def open_(key, kid, d):
    from elgas import security

    def run():
        c = security.CipherContext(kid, key)
        return twice(lambda: c.decrypt(bytes(d)))

    return {
        "op": "open",
        "key": list(key),
        "kid": kid,
        "d": list(d),
        "out": call(run, bytes_out),
    }


def req(r: Req):
    from elgas import application

    return {"op": "req", "req": r.json(), "out": call(lambda: twice(r.event(application).to_bytes), bytes_out)}


def req_again(before: Req, r: Req):
    """The payload of a request object that had other values before and was encoded."""
    from elgas import application

    def run():
        x = before.build(application)
        x.to_bytes()
        return become(x, r.build(application)).to_bytes()

    return {"op": "req", "req": r.json(), "out": call(run, bytes_out)}


def then_spoil(project):
    """After it has been looked at, the result is changed by its owner."""

    def look(r):
        o = project(r)
        spoil(r)
        return o

    return look


def pdu(kind, d, spoilt=False):
    from elgas import application as app

    cls = {
        "values": app.ReadInstantaneousValuesResponse,
        "time": app.ReadTimeResponse,
        "write": app.WriteTimeResponse,
        "params": app.ReadDeviceParametersResponse,
        "byid": app.ReadArchiveResponse,
        "bytime": app.ReadArchiveByTimeResponse,
    }[kind]
    return {
        "op": "pdu",
        "svc": wire.SVC[kind],
        "d": list(d),
        "out": call(lambda: cls.from_bytes(bytes(d)), then_spoil(project_pdu) if spoilt else project_pdu),
    }


def fields_of(obj, prefix=""):
    out = []
    for a in attr.fields(type(obj)):
        v = getattr(obj, a.name)
        if attr.has(type(v)):
            out += fields_of(v, prefix + a.name + ".")
        else:
            out.append({"n": prefix + a.name, **val(v)})
    return out


def project_object(o):
    return {"cls": type(o).__name__, "f": fields_of(o) if attr.has(type(o)) else []}


def params(d, how=None, spoilt=False):
    """how: a parser to use again, or "data" to give it the stream when it is made."""
    from elgas import parser

    def run():
        if how == "data":
            return parser.ScadaParameterParser(data=bytes(d)).parse()
        return (how or parser.ScadaParameterParser()).parse(bytes(d))

    project = lambda r: {"k": "objs", "o": [project_object(o) for o in r]}

    return {
        "op": "params",
        "d": list(d),
        "out": call(run, then_spoil(project) if spoilt else project),
    }


def params_again(streams, spoilt=False):
    """One parser for all these streams."""
    from elgas import parser

    p = parser.ScadaParameterParser()
    return [params(d, p, spoilt) for d in streams]


def call_message(d, spoilt=False):
    from elgas import application

    project = lambda r: {"k": "fields", "f": fields_of(r)}
    return {
        "op": "call",
        "d": list(d),
        "out": call(
            lambda: application.CallRequest.from_bytes(bytes(d)),
            then_spoil(project) if spoilt else project,
        ),
    }


def call_response(d1, d2, s1, s2):
    """The acknowledgement of a call message, as it leaves."""
    from elgas import application, frames

    def run():
        return frames.Response(
            service=record.named("ServiceNumber", 0x87),
            destination_address_1=d1,
            destination_address_2=d2,
            source_address_1=s1,
            source_address_2=s2,
            data=application.CallResponse().to_bytes(),
        ).to_bytes()

    return {
        "op": "callresp", "d1": val(d1), "d2": val(d2), "s1": val(s1), "s2": val(s2), "out": call(run, bytes_out),
    }


def enumerations(name):
    """Every enumeration of this name; the first is the usual one."""
    from elgas import application, constants, security
    from elgas.parameters import enumerations

    out = []
    for mod in (constants, security, enumerations, application):
        e = getattr(mod, name, None)
        if isinstance(e, enum.EnumMeta) and e not in out:
            out.append(e)
    if not out:
        raise AttributeError(name)
    return out


def enumeration(name):
    return enumerations(name)[0]


def names(t, n):
    """The number known by a name, in every enumeration that may have it."""
    one = lambda k: lambda: enumerations(t)[k][n]
    return [{"op": "name", "t": t, "n": n, "out": call(one(k), lambda r: {"k": "value", "v": val(r)})}
            for k in range(len(enumerations(t)))]


def export(type_number, body):
    """Decode, dump, through JSON, load; alone and inside both kinds of documents."""

    def run():
        from elgas import integration
        from elgas.parameters.factory import ParameterFactory, ParameterSchemaFactory

        t = record.named("ParameterObjectType", type_number)
        obj = ParameterFactory.from_bytes(t, bytearray(body))
        schema = ParameterSchemaFactory.by_parameter_id(t)
        plain = json.loads(json.dumps(schema().dump(obj)))
        back = schema().load(plain)
        doc = integration.ConfigurationObjectSchema().dump(
            integration.ConfigurationObject(parameter_type=int(t), data=schema().dump(obj))
        )
        doc = integration.ConfigurationObjectSchema().load(json.loads(json.dumps(doc)))
        docs = integration.UtilitarianConfigurationSchema().dump(
            integration.UtilitarianConfiguration(
                objects=[
                    integration.UtilitarianConfigurationObject(
                        parameter_type=int(t), data=schema().dump(obj), series_name=s
                    )
                    for s in (None, "A series")
                ]
            )
        )
        docs = integration.UtilitarianConfigurationSchema().load(json.loads(json.dumps(docs)))
        loaded = [back]
        ok = len(docs["objects"]) == 2 and [o["series_name"] for o in docs["objects"]] == [None, "A series"]
        for o in [doc] + docs["objects"]:
            s = ParameterSchemaFactory.by_parameter_id(record.named("ParameterObjectType", o["parameter_type"]))
            loaded.append(s().load(o["data"]))
        # one schema object, over and over, and several objects at once
        one = schema()
        loaded += [one.loads(one.dumps(obj)), one.load(plain), one.load(one.dump(back))]
        loaded += one.load(json.loads(json.dumps(one.dump([obj, back], many=True))), many=True)
        ok = ok and len(loaded) == 9
        same = ok and all(type(x) is type(obj) and x == obj for x in loaded)
        # the document to report: the first that differs, if any
        shown = next((x for x in loaded[1:] if not (type(x) is type(obj) and x == obj)), loaded[1])
        return obj, back, shown, same

    def out(r):
        obj, back, doc, same = r
        return {
            "k": "export",
            "obj": project_object(obj),
            "back": project_object(back),
            "doc": project_object(doc),
            "equal": int(same),
        }

    return {"op": "export", "type": type_number, "body": list(body), "out": call(run, out)}
