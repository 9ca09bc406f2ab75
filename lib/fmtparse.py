"""Runs the preprocessor's format parser (from the tree given) on formats in source form: one hex string per line on stdin."""
import json
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
from FunctionGenerator import splitAndParseTypesInFmtString

SIMPLE = {"n": 10, "t": 9, "\\": 92, '"': 34, "'": 39}


def unescape(s):
    """the bytes a C++ compiler makes of the inside of a string literal; None if an escape is cut"""
    out, i = [], 0
    while i < len(s):
        if s[i] != "\\":
            out += list(s[i].encode("utf8", "surrogateescape"))
            i += 1
            continue
        if i + 1 >= len(s):
            return None
        c = s[i + 1]
        if c in SIMPLE:
            out.append(SIMPLE[c])
            i += 2
        elif c in "01234567":
            j = i + 1
            while j < len(s) and j < i + 4 and s[j] in "01234567":
                j += 1
            out.append(int(s[i + 1:j], 8))
            i = j
        else:
            return None
    return out


for line in sys.stdin:
    src = bytes.fromhex(line.strip()).decode("utf8", "surrogateescape")
    try:
        r = splitAndParseTypesInFmtString(src)
    except ValueError as e:
        print(json.dumps(dict(error=str(e))))
        continue
    fs = []
    for f in r:
        b = unescape(f.substring)
        fs.append(dict(b=b if b is not None else [0], type=f.type or "NONE", w=-1 if f.width is None else -2 if f.width == "*" else f.width,
                       p=-1 if f.precision is None else -2 if f.precision == "*" else f.precision))
    print(json.dumps(dict(fragments=fs)))
