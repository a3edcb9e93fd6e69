"""Runs a list of conversions in one process and writes the results to a file: python -m vf.batch IN OUT [--no-recordclass]"""
import json
import os
import sys


class _Block:
    def find_spec(self, name, path=None, target=None):
        if name == "recordclass" or name.startswith("recordclass."):
            raise ModuleNotFoundError("No module named 'recordclass'")
        return None


def main():
    if "--no-recordclass" in sys.argv:
        sys.meta_path.insert(0, _Block())
    from vf import tool as T

    with open(sys.argv[1]) as f:
        jobs = json.load(f)
    out = []
    for j in jobs:
        try:
            if j["op"] == "read":
                custom = None if j["custom"] is None else {k: T.CUSTOM[k] for k in j["custom"] if k in T.CUSTOM}
                g = T.read(bytes.fromhex(j["raw"]), custom, j["nan"])
                text = T.to_text(g, j["nan"], j["indent"])
                r = ["ok", text, g.write(T.CUSTOM).hex()]
            elif j["op"] == "write":
                r = ["ok", T.GvasFile.load(json.loads(j["doc"])).write(T.CUSTOM).hex()]
            elif j["op"] == "command":
                r = command(T, j)
        except Exception as e:
            r = ["error"]
        out.append(r)
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)


def command(T, j):
    p = sys.argv[2] + "." + j["name"]
    with open(p, "wb") as f:
        f.write(bytes.fromhex(j["data"]))
    o = sys.argv[2] + ".out"
    if os.path.exists(o):
        os.remove(o)
    old = sys.argv
    sys.argv = ["convert", p, "-o", o] + j["args"]
    try:
        T.convert.main()
        code = 0
    except SystemExit as e:
        code = 0 if e.code is None else 1
    except Exception:
        code = 1
    finally:
        sys.argv = old
        os.remove(p)
    if os.path.exists(o):
        with open(o, "rb") as f:
            b = f.read()
        os.remove(o)
        return ["ok", code, b.hex()]
    return ["error", code]


if __name__ == "__main__":
    main()
