#!/usr/bin/env python3
"""Writes spec/sjis_table.json: every two-byte character of Windows code page 932 (from Python's
own codec, independent of the implementation): [[lead, [[trail, code point, letter?], ...]], ...]."""
import json, os, unicodedata
rows = {}
for lead in list(range(0x81, 0xA0)) + list(range(0xE0, 0xFD)):
    for trail in range(0x40, 0xFD):
        try:
            s = bytes([lead, trail]).decode("cp932")
        except UnicodeDecodeError:
            continue
        if len(s) == 1 and not 0xE000 <= ord(s) < 0xF900:      # no private use
            rows.setdefault(lead, []).append([trail, ord(s), unicodedata.category(s)[0] == "L"])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "sjis_table.json")
with open(path, "w") as f:
    f.write("[" + ",\n".join(json.dumps([k, v], separators=(",", ":")) for k, v in sorted(rows.items())) + "]\n")
