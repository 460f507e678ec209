"""Describes Python sources and compiled files (one JSON request per line): what the interpreter would make of them."""
import sys, json, base64, marshal, types, hashlib
import importlib.util


def key(c):
    if isinstance(c, types.CodeType):
        return ("code", c.co_code, tuple(key(x) for x in c.co_consts), c.co_names, c.co_varnames, c.co_freevars, c.co_cellvars, c.co_name, c.co_firstlineno,
                c.co_argcount, c.co_flags, c.co_filename, tuple(c.co_lines()))
    if isinstance(c, frozenset):
        return ("set", tuple(sorted(repr(key(x)) for x in c)))
    if isinstance(c, tuple):
        return ("tuple", tuple(key(x) for x in c))
    return (type(c).__name__, repr(c))


def digest(c):
    return hashlib.sha256(repr(key(c)).encode("utf-8", "surrogatepass")).hexdigest()[:16]


def source(src, name, opts):
    r = {"hash": importlib.util.source_hash(src).hex(), "ok": True, "code": "", "codes": []}
    try:
        r["codes"] = [{"o": o, "code": digest(compile(src, name, "exec", dont_inherit=True, optimize=o))} for o in opts]
        r["code"] = r["codes"][0]["code"]
    except Exception:
        r["ok"] = False
    return r


def compiled(b):
    r = {"ok": False, "magic": b[:4] == importlib.util.MAGIC_NUMBER, "flags": -1, "hash": "", "s": 0, "size": "", "file": "", "code": ""}
    if len(b) < 16:
        return r
    r["flags"] = int.from_bytes(b[4:8], "little")
    if r["flags"] & 1:
        r["hash"] = b[8:16].hex()
    else:
        r["s"], r["size"] = min(int.from_bytes(b[8:12], "little"), 2**31 - 1), str(int.from_bytes(b[12:16], "little"))
    try:
        c = marshal.loads(b[16:])
        r["file"], r["code"], r["ok"] = c.co_filename, digest(c), True
    except Exception:
        pass
    return r


for line in sys.stdin:
    q = json.loads(line)
    b = base64.b64decode(q["b"])
    print(json.dumps(source(b, q["name"], q["opts"]) if q["k"] == "src" else compiled(b)), flush=True)
