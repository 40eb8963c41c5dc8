#!/usr/bin/env python3
"writes known_findings.json: the repaired defects (fix: commits in /repo) and OPEN, those recorded only.  Run by hand, never by a check"
import json, os, subprocess, sys
FIX = {  # subject -> property
 "keep alive timeouts": "C25", "a receive maximum or maximum": "C20", "a subscription identifier of 0": "C17",
 "MQTT 3.1.1 publications ignored": "C17", "an error in an MQTT 3.1.1 packet": "C24", "MQTT 3.1.1 outbound": "C11",
 "MQTT 3.1.1 UNSUBSCRIBE": "C19", "MQTT 3.1.1 subscriptions to": "C19", "problem information": "C20", "the cmd/disconnectWithRC": "C19",
 "invalid topic filters": "C08", "an error in a packet": "C24", "wills and expired": "C14", "outbound publications": "C11",
 "subscribers shared": "C17", "reinitialize left": "C23", "shared subscriptions to $": "C18", "topic filters with +": "C07",
 "CONNACK can have": "C04", "comparing MQTT 5": "C01", "the Retain argument": "C02", "an AUTH packet": "C01", "CONNACK (5.0)": "C04",
 "reserved bits": "C04", "a UNSUBSCRIBE": "C04", "an UNSUBSCRIBE": "C04", "SUBACK and UNSUBACK": "C04", "PUBACK, PUBREC": "C01",
 "binary data which": "C04", "a property which": "C04", "properties of 128": "C01", "MQTT 5 allows": "C01", "a malformed MQTT 5": "C04",
 "a CONNECT ending": "C02", "the user name and": "C02", "MQTT 3.1.1 packets with": "C02", "the length prefix": "C02", "a remaining length": "C03",
}
try:
    from findings_more import FIX2, OPEN
    FIX.update(FIX2)
except ImportError:
    OPEN = []
out = []
for l in reversed(subprocess.check_output(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--format=%h %s"], text=True).splitlines()):
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    s = s[5:]
    p = [v for k, v in FIX.items() if s.startswith(k)]
    if len(p) != 1:
        sys.exit("no property for: " + s)
    out.append({"property": p[0], "status": "fixed", "commit": h, "what": "fixed: property=%s %s %s" % (p[0], h, s)})
json.dump({"findings": OPEN + out}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json"), "w"), indent=1)
print(len(out), "fixed", len(OPEN), "open")
