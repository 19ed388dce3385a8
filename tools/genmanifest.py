#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MON = "runtime monitoring: "
T = {
 "C01": ("decode-back oracle: an independent strict MQTT 5 decoder judges every byte the encoders and the client write, over generated packet values", None),
 "C02": ("wire and state monitor: no byte written and model state unchanged around refused calls with unrepresentable values", None),
 "C03": ("field-by-field oracle over packets from an independent encoder, fed in every fragmentation; reader position monitored", None),
 "C04": ("hostile byte streams (truncation, structure-aware mutation, raw bytes) with crash, spin, event and interpretation monitors; independent structural validator as oracle", None),
 "C05": ("round-trip and count oracle over boundary-complete values with hostile readers and writers", None),
 "C06": ("virtual time: deadline x byte-gap grid with a consumption, event and acknowledgement monitor", None),
 "C07": ("reference matcher as oracle, exhaustive over a small alphabet and generated beyond", None),
 "C08": ("reference queue model of every channel compared with the events observed, over generated histories and racing bindings", None),
 "C09": ("channel life-cycle monitor over generated histories and closings injected at every step of packet processing", None),
 "C10": ("every server answer and a fault at every I/O call of the handshake; API, wire and event monitor", None),
 "C11": ("online trace checker of incoming QoS handshakes over random broker histories with lost connections", None),
 "C12": ("online trace checker of outgoing QoS handshakes over random broker reactions", None),
 "C13": ("online quota accounting at the simulated broker; quiescence proof of stuck waiters", None),
 "C14": ("online Receive Maximum accounting at the simulated broker", None),
 "C15": ("monitored storage compared with the set of unfinished exchanges at each write and step; fault injected at each call", None),
 "C16": ("linearizability checking (porcupine) of recorded concurrent histories, with the race detector", None),
 "C17": ("online uniqueness checker of packet identifiers under hostile generators", None),
 "C18": ("per-call model of SUBACK/UNSUBACK handling over reordered, misdirected and malformed acknowledgements", None),
 "C19": ("wire, state and event monitor around disconnections, with operations stopped at each I/O call while the disconnection runs", None),
 "C20": ("virtual time: keep-alive deadline model compared with each Poll, wire monitor of KeepAlive", None),
 "C21": ("stuck-state proof from stop-the-world goroutine snapshots over pairwise interleavings, injected faults and storms", None),
 "C22": ("Go race detector over pairwise interleavings at every callback and stress, runtime map checks", None),
 "C23": ("online parser of the byte stream of concurrent callers over split writes; per-caller order checker", None),
 "C24": ("reference model of option setters compared with the encoded byte, all short call sequences and generated longer ones", None),
 "C25": ("reference cursor model compared call by call over generated call sequences", None),
 "C26": ("deadline in force recorded at each written packet; cancellation at every waiting point with a wire monitor", None),
}
NOTE = ("Violations reported are real executions of the code in /repo; absence of one covers the executions made (fixed numbers of generated and "
        "enumerated cases, counted in the evidence). Trusts the harness's own MQTT 5 codec, reference models, simulated connection and storage, and the Go toolchain.")
EXTRA = {
 "C22": " The race detector judges only the interleavings executed; reports whose innermost frame is not the library's are ignored.",
 "C06": " Time is testing/synctest's virtual clock, so no verdict depends on the machine's speed.",
 "C20": " Time is testing/synctest's virtual clock, so no verdict depends on the machine's speed.",
 "C21": " Being stuck is proved, not timed: nothing is runnable, Poll is idle and an operation is outstanding.",
 "C15": " One recorded finding: see known_findings.json.",
 "C11": " Two recorded findings: see known_findings.json.",
 "C16": " Histories whose check would take porcupine too long are not counted as held.",
}
LEVEL = {"C06": "fault_enumeration", "C10": "fault_enumeration", "C15": "fault_enumeration", "C19": "fault_enumeration", "C21": "fault_enumeration"}
checks = []
for pid in sorted(T):
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
                   "technique": MON + T[pid][0], "level": LEVEL.get(pid, "exploration"), "level_note": NOTE + EXTRA.get(pid, "")})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything is observed at the public API, a harness-owned net.Conn and a harness-owned storage.Storage."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

FIXED = """
C05 16304ae a primitive read from a reader that returns short reads kept stale or missing bytes
C05 3375bb7 a variable byte integer of five or more bytes was accepted and consumed further input
C02 535de7d strings longer than 65535 bytes were written with a truncated length
C05 64cf5b2 the count of a string property left out its identifier byte
C24 9f146e5 No Local depended on call order for shared subscriptions, and short filters made setters panic
C25 e41ac61 Write to a PUBLISH payload ignored the cursor and its own result
C01 1e81dc5 CONNECT and will property lengths were wrong for several properties
C01 1d7d306 CONNECT wrote wrong property identifiers
C01 d56e4c9 DISCONNECT left out properties it had counted, and the reverse
C01 1790d74 AUTH was written without reason code and property length
C03 10fbce6 CONNACK reported more bytes than it read
C03 6b3107f a PUBLISH payload arriving in pieces was cut off
C03 4f27c2f the payload format indicator of PUBLISH was not decoded
C03 af83959 DISCONNECT and AUTH without reason code failed to decode
C04 3c4d99f packets with unknown properties were accepted
C04 38bad4f properties reaching beyond the property length were accepted
C04 09607a5 acknowledgements and publishes ending before their mandatory fields were accepted
C07 ccad574 topic filters ending in wildcards or with empty levels matched wrongly
C19 52e83c4 Disconnect refused when connected and wrote when not
C22 70b3696 connection state was read and written without synchronisation, and locks were taken in two orders
C04 476ff7a packets inconsistent with their Remaining Length were delivered and the connection stayed open
C06 9e87ade a Poll deadline inside a packet lost bytes, or the acknowledgement
C14 a885e9c an absent Receive Maximum counted as zero
C20 1dce32f a keep alive of zero timed out every Poll
C08 3097c10 a PUBLISH matching several filters was signalled repeatedly, and closing a channel twice panicked
C18 efd5d37 SUBACK and UNSUBACK completed and bound whatever call came first
C26 ce1bec4 Subscribe and Unsubscribe never returned when their context ended or the connection was lost
C17 6d87a5a packet identifiers could be zero or in use
C13 4307b7a send quota leaked on failures and was exceeded by concurrent Publish calls
C26 57a6953 a call whose context was already done still wrote its packet
C15 db12816 storage entries were dropped by unrelated acknowledgements, and lost when writing failed
C11 552c186 a repeated QoS 2 PUBLISH was signalled again, and receive quota was miscounted
C02 ba34ab7 a QoS or retain handling above 2 was written, changing neighbouring bits
""".strip().splitlines()
fixed = []
for l in FIXED:
    p, c, what = l.split(" ", 2)
    fixed.append("fixed: property=%s %s %s" % (p, c, what))
findings = [
 {"property": "C11", "sig": "repeat signalled after a reconnect when an outgoing message occupied the identifier in the storage",
  "what": "incoming QoS 2 PUBLISH 1 received while an unfinished outgoing message 1 is in the storage: after the connection is lost and resumed with the same "
          "storage, its repeat is signalled a second time (storage.Storage has one entry per identifier, so no record could be kept)"},
 {"property": "C11", "sig": "new message suppressed by the record of a session discarded two connections before",
  "what": "a QoS 2 PUBLISH is received and the connection lost before its PUBREL; the server reports a new session at the next connection, during which the "
          "identifier is not used; when that session is resumed over a third connection, a new message with the identifier is taken for a repeat of the first and "
          "not signalled (storage.Storage cannot list its entries, so the records of the discarded session cannot be removed)"},
 {"property": "C15", "sig": "no record of an incoming QoS 2 message while an outgoing message occupies its identifier",
  "what": "incoming QoS 2 PUBLISH 1 acknowledged while an unfinished outgoing message 1 is in the storage: no record of it is stored "
          "(storage.Storage has one entry per identifier)"},
]
json.dump({"findings": findings, "fixed": fixed}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
