"""stdin: JSON list of base64 file contents -> what gyp's own reader makes of each (value nodes with ASCII-escaped text)."""
import base64, json, os, sys, tempfile


def esc(s):
    return s.encode("unicode_escape").decode().replace('"', "\\x22")


def node(x):
    if x is None:
        return {"t": "n", "s": "", "k": [], "l": []}
    if isinstance(x, bool):
        return {"t": "b", "s": "true" if x else "false", "k": [], "l": []}
    if isinstance(x, (int, float)):
        return {"t": "i", "s": str(x), "k": [], "l": []}
    if isinstance(x, str):
        return {"t": "s", "s": esc(x), "k": [], "l": []}
    if isinstance(x, list):
        return {"t": "l", "s": "", "k": [], "l": [node(v) for v in x]}
    return {"t": "d", "s": "", "k": [esc(k) for k in x], "l": [node(v) for v in x.values()]}


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.environ["VERIF_REPO"], "gyp", "pylib"))
    import gyp.input
    out = []
    with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_TMP")) as d:
        for n, b in enumerate(json.load(sys.stdin)):
            p = os.path.join(d, f"{n}.gypi")
            with open(p, "wb") as f:
                f.write(base64.b64decode(b))
            try:
                out.append(node(gyp.input.LoadOneBuildFile(p, {}, {}, None, True, False)))
            except BaseException as e:                                      # whatever the reader says
                out.append({"t": "unreadable", "s": esc(f"{type(e).__name__} {e}")[:300], "k": [], "l": []})
            os.unlink(p)
    json.dump(out, sys.stdout)
