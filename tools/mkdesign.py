"""Fill the tables of DESIGN.md: python -m tools.mkdesign (template DESIGN.in.md -> DESIGN.md)."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.chdir(V)
mani = {c["property"]: c for c in json.load(open("MANIFEST.json"))["checks"]}
rows = []
for n in range(1, 60):
    pid = f"C{n:02d}"
    if pid not in mani:
        continue
    c = importlib.import_module(f"vf.checks.c{n:02d}").CHECK
    st = "; ".join(f"{s.name} {s.quick}: {s.about}" for s in c.stages)
    t = ""
    try:
        e = json.load(open(f"evidence/{pid}.json"))
        t = f"{e.get('wall_seconds', e.get('seconds', '?'))}"
    except Exception:
        pass
    rows.append(f"| {pid} | {st} | {mani[pid]['level_note']} | {sum(s.quick for s in c.stages)} |")
fi = []
for f in json.load(open("known_findings.json"))["findings"]:
    fi.append(f"* {f['id']} ({f['property']}, {f['status']}) {f['what']}" if f["status"] == "known" else f"* {f['id']}: {f['what']}")
missed = json.load(open("tools/missed.json"))
se = ["| bug | caught by | what it breaks | needs | |", "|---|---|---|---|---|"]
for m in sorted(glob.glob("seeded/*/meta.json")):
    i = m.split("/")[1]
    d = json.load(open(m))
    se.append(f"| {i} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {missed.get(i, '')} |")
s = open("tools/DESIGN.in.md").read()
s = s.replace("@@STAGES@@", "\n".join(rows)).replace("@@FINDINGS@@", "\n".join(fi)).replace("@@SEEDED@@", "\n".join(se))
s = s.replace("quick cases (s)", "quick cases")
open("DESIGN.md", "w").write(s)
