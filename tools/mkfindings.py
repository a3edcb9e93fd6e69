#!/usr/bin/env python3
"""Writes known_findings.json (run by hand; no check writes it)."""
import json, os
FIXED = [
 ("C12","F1","deb7272","NaN was not converted to null: --convert-nan-to-null aborted half way through writing the JSON file"),
 ("C07","F2","9cf60f7","unread bytes behind a base camp module were dropped"),
 ("C07","F3","32abf5b","work entries kept as raw bytes (unknown work or transform type) could not be written"),
 ("C11","F4","883d687","a truncated string or guid was read as a shorter one instead of being refused"),
 ("C01","F5","be633ca","arrays of Guid could be read but not written"),
 ("C18","F6","ed18795","--to-json on a .json file (or --from-json on a .sav file) ran both conversions"),
 ("C18","F6b","1f35389","a file that is neither .sav nor .json was not converted, yet the command exited with success"),
 ("C18","F7","232d4d3","the default SAV path lost '.json' anywhere in the path; --from-json overwrote its own input"),
 ("C20","F8","a738525","a document with map objects or base camp modules could not be dumped to JSON after it had been written"),
 ("C16","F9a","392eb2c","packed vector components were truncated instead of rounded (0.29 at scale 100 became 0.28)"),
 ("C16","F9b","ff7e5db","packed vectors with NaN or null components could not be written"),
 ("C13","F10","d69ef21","with recordclass installed, a UUID and its equal string hashed differently"),
 ("C01","F11","3b5409d","a name the output stream cannot encode (a lone surrogate) aborted the conversion while printing a warning"),
 ("C03","F12","99537a4","a number too large for a 32-bit float was stored as infinity"),
 ("C24","F14","9ff2a74","a packed vector whose last bytes are missing was read as a different vector"),
 ("C23","F15","def3e0a","a caller's decoder was applied inside the raw data of characters and eggs, but its encoder was not, so the document could not be written"),
 ("C07","F13","0e94a5c","a guild whose player count is 0x80000000 or more was read as a guild without players and rewritten with count 0"),
 ("C03","F16","5faea3c","a property named None was written although this name ends the list of properties, so all properties behind it were lost"),
]
KNOWN = [
 ("C12","K1","FloatProperty holding the NaN 0xffc00000 or 0x7fc00001 (any NaN other than 0x7fc00000, and likewise doubles): written back as 0x7fc00000; JSON has a single NaN token, so its sign and payload are lost"),
 ("C01","K2","two properties of the same name in one property list (static array elements, tag ArrayIndex != 0): the later one replaces the earlier in the JSON object and the earlier is lost on write"),
]
out = [{"property": p, "id": i, "status": "known", "what": w} for p, i, w in KNOWN]
out += [{"property": p, "id": i, "status": "fixed", "commit": c, "what": f"fixed: property={p} {c} {w}"} for p, i, c, w in FIXED]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w") as f:
    json.dump({"findings": out}, f, indent=1); f.write("\n")
