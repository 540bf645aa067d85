#!/usr/bin/env python3
"""Writes MANIFEST.json and checks it names every property of properties.jsonl once."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SESSION = "TLA+ Session/TraceSession: TLC model checking + trace validation of the real ElgasConnection"
CALLS = "TLA+ functional spec + TLC trace validation of recorded calls of the real code"
COMMON = (
    " Trusts TLC, the recorder in harness/ (it only records arguments, results, bytes and exceptions) and the "
    "transcription of the ELGAS2 layout into spec/."
)

CLAIMS = {
    "C01": ("TLA+ Escape.tla: TLC model + trace validation of escape/unescape", "All strings over the reserved alphabet up to a bounded length are checked in the model (round trip, uniqueness) and the same strings, plus random ones, through the real functions and whole sessions, each result judged by TLC."),
    "C02": ("TLA+ Frame.tla: TLC model of damage detection + trace validation of the real decoders", "Every single-byte change / cut / extension of small frames in the model; on the code a large enumerated and random damage set, including damage that only one of the redundancy codes sees."),
    "C03": ("TLA+ Frame.tla + trace validation of encode/decode", "Layouts of all frame kinds, services, address and length classes; judged byte by byte by TLC."),
    "C04": ("TLA+ Pdu.tla/Session.tla + trace validation of sent bytes", "Every wire byte of requests over enumerated and random arguments is compared with the specified layout; values out of range must be refused."),
    "C05": ("TLA+ Pdu.tla + trace validation of decoded responses", "Decoded fields of random and boundary payloads compared with the specified decoding by TLC."),
    "C06": (SESSION, "Complete transition graph of a small-alphabet session model performed on the real connection (quick: a seeded sample), plus random long histories."),
    "C07": (SESSION, "Model invariant SplitInvariant; every split position / poll pattern class of the generated responses."),
    "C08": (SESSION, "Model invariants NoWedge/PollConsumes; long histories of noise, damage and foreign telegrams."),
    "C09": (SESSION, "All 256 error octets, plain and encrypted, in every request state, followed by further exchanges."),
    "C10": ("TLA+ Aes/Cipher.tla: TLC model + trace validation of envelopes", "AES-128 in TLA+; each encrypted request is opened by the specification and compared with the plain request."),
    "C11": ("TLA+ Aes/Cipher.tla: TLC model + trace validation", "Damaged envelopes of every class offered to cipher and connection; acceptance is decided by the specification's own decryption."),
    "C12": (SESSION, "Unencodable requests at any point of generated histories; the state after is made visible by further exchanges."),
    "C13": ("TLA+ Transport.tla: TLC behaviours replayed into the real transports + trace validation", "Every life-cycle behaviour of the transport model up to depth 3 (thorough: 4) is performed on the real transports over a simulated operating system with injected faults; recorded histories are judged by TLC; plus real loopback TCP and a pty."),
    "C14": ("TLA+ Transport.tla: TLC behaviours replayed into the real transports + trace validation", "Byte-exact reads and virtual-time deadlines: model behaviours and random streams, gaps, closes and faults; recorded histories are judged by TLC; plus real loopback TCP and a pty."),
    "C15": ("TLA+ Client.tla: TLC transition graph replayed into the real client + trace validation", "Every transition of the client model (plain and encrypted) performed on the real ElgasClient over simulated links, plus random histories with noise, fragmentation and failures, judged by TLC."),
    "C16": ("TLA+ Client.tla/MCPaging.tla: TLC behaviours replayed into the real client + trace validation", "All page layouts of the paging model (sizes, cuts inside objects, end flags, failures) and random devices; requests and results judged by TLC."),
    "C21": ("TLA+ Secrets.tla + TLC evaluation of recorded representations and logs", "Representations of clients, connections, requests, and all log output of generated exchanges, searched by TLC for every rendering of the secret."),
    "C23": ("TLA+ MCIsolation.tla: TLC interleavings replayed into the real code + trace validation", "All interleavings up to depth 3 (thorough: 4) of two connections, and random interleavings of several connections and clients; each one's history must be accepted by the specification of one alone."),
    "C17": ("TLA+ Layouts.tla + trace validation of the parser", "All 36 types, mixes, truncations and illegal lengths; objects compared field by field by TLC."),
    "C18": ("TLA+ Layouts.tla + trace validation of the parser", "Per type: random, all-zero, all-one, single-byte and single-bit records, every too-short length; compared field by field by TLC."),
    "C19": ("TLA+ Layouts.tla + trace validation of dump/load", "Per type: dump, JSON, load; class and fields compared with the specification's decoding by TLC."),
    "C20": ("TLA+ Calendar.tla: TLC model + trace validation", "Model: bijection over all days of the range; code: each field value, all month ends, flags, random and invalid strings (thorough: every day)."),
    "C22": ("TLA+ Call.tla + trace validation", "Field-wise variation, boundary values, every truncation; compared by TLC."),
}

CLAIMS["C24"] = ("TLA+ Settings.tla/MCSettings.tla: TLC-enumerated settings given to the real constructors + trace validation", "All combinations of up to two (thorough: three) settings at or beyond their boundaries, every password id around the range and random settings; acceptance and the frames then sent are judged by TLC.")

CLAIMS["C25"] = ("TLA+ Names.tla/MCNames.tla + trace validation with everything named instead of numbered", "Every entry of every table, through requests, responses, frames, envelopes, call messages and exports; each judged by the specification of the bytes.")

NOT_YET = {
}


def main():
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        ids = [json.loads(x)["id"] for x in f if x.strip()]
    checks, na = [], []
    for i in ids:
        if i in CLAIMS:
            technique, note = CLAIMS[i]
            checks.append({
                "property": i,
                "quick_cmd": f"/opt/venv/bin/python run.py check {i}",
                "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python run.py check {i}",
                "evidence_file": f"evidence/{i}.json",
                "technique": technique,
                "level": "model_checking",
                "level_note": note + COMMON,
            })
        else:
            na.append({"property": i, "reason": NOT_YET.get(i, "The check for this property is still being built.")})
    doc = {"version": 1, "setup_cmd": "/opt/venv/bin/python run.py setup", "checks": checks, "not_applicable": na}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not")


main()
