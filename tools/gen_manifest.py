"""Writes MANIFEST.json from the list of checks (run from /verif)."""
import json
import os

T = {
    "P01": ("online delivery monitor over both links of a real session (independent wire decoder as oracle)",
            "random and mutated sessions: send limits, cuts and poll points drawn per call, every event compared with the message that was queued"),
    "P02": ("online wire-format monitor: independent fragment/message/CLIXML decoder over every payload",
            "every payload of random sessions, all limits from 22 up drawn around the sizes at hand"),
    "P03": ("fault injection with an online delivery monitor", "faults of the classes named in the property, and content mutated at byte and element level, at drawn positions between interleaved fragments of valid messages; object ids are assumed distinct, length fields intact"),
    "P04": ("runtime oracle: independent escape/unescape model and XML parser over generated strings",
            "exhaustive over all single BMP code units and short strings over a critical alphabet, random beyond"),
    "P05": ("runtime oracle: independent encoder/decoder of every primitive", "range ends and digit patterns enumerated, random beyond"),
    "P06": ("runtime oracle: independent CLIXML decoder and graph comparison", "random object graphs with sharing"),
    "P07": ("differential replay: fingerprints before and after, same value serialized in different histories", "random histories; class-level state fingerprinted before and after"),
    "P08": ("online handshake monitor over both pools and the wire", "random configurations"),
    "P09": ("reference state machine run next to the real pools, compared after every step", "all short operation sequences enumerated, longer histories random"),
    "P10": ("reference state machine run next to the real pipelines, compared after every step", "all short operation sequences enumerated, longer histories random"),
    "P11": ("differential twin execution: the same history with the refused calls left out", "random histories; bytes, events and public state of both worlds compared"),
    "P12": ("conservation monitor for requests and answers (trace specification)", "random histories plus enumerated short ones"),
    "P13": ("conservation monitor for host calls and responses (trace specification)", "random histories plus enumerated short ones"),
    "P14": ("end-to-end value monitor for every host method, raw and through requestor/responder", "random parameters for every method; wire form decoded independently"),
    "P15": ("end-to-end value monitor for pipeline definitions, wire form decoded independently", "random definitions for every protocol version"),
    "P16": ("end-to-end record monitor, field by field", "random records of every kind"),
    "P17": ("taint monitor over the transmitted bytes and independent decryption", "random texts, key exchanges at drawn points; RSA/AES primitives of the cryptography package trusted"),
    "P18": ("isolation monitor: interleaved sessions, each against its own reference model", "random interleavings of up to four sessions"),
    "P19": ("end-to-end monitor of CLIXML shell output, independent parser", "random writes and retrieval points"),
    "P20": ("runtime oracle: exact integer/nanosecond arithmetic", "range ends enumerated pairwise, random beyond"),
    "P21": ("reference property-bag model run next to the real objects", "random histories"),
    "P22": ("reference session model across disconnect, reconnect and connect", "random histories; see known_findings.json for one recorded finding"),
    "P23": ("differential twin execution: one execution described and logged at every step, the other left alone; taint search of all descriptions and log lines", "random values, messages and histories; cyclic and empty objects enumerated"),
    "P24": ("memory monitor: objects reachable from pools and library counted between repeated closed rounds, weak references to everything dropped", "random rounds repeated 11 times with fresh content, single acts enumerated; growth below 6 objects and 4 KB in 7 rounds is not seen"),
    "P25": ("differential monitor: a network that rewrites every message in an equivalent form, sessions against their reference models, values and documents against what was written", "the sessions of eleven other checks with every message rewritten; combinations of 19 freedoms drawn at random"),
    "P26": ("differential execution: each operation on the library's value and on Python's own, in step", "random values, arguments and histories; every method of every type at least once"),
}
checks, na = [], []
for pid, (tech, note) in T.items():
    if not os.path.exists("psrpmon/checks/%s.py" % pid.lower()):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    checks.append({"property": pid, "quick_cmd": "./run.sh %s quick" % pid,
                   "thorough_cmd": "./run.sh %s thorough" % pid, "evidence_file": "evidence/%s.json" % pid,
                   "technique": "runtime monitoring: " + tech, "level": "exploration",
                   "level_note": note + ". Executions observed, not all executions; the oracle is written "
                   "independently of the code under test."})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: all observation points are public. Replay a violation with "
           "./run.sh <property> replay <file>."}, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not built")
