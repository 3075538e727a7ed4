"""JSON values with exact numbers, and their encoding for the specification.

Values are None, bool, str, list, dict and Num (a number with its notation).
"""
import json
import re

NUM = re.compile(r'^(-?)(0|[1-9][0-9]*)(?:\.([0-9]+))?(?:[eE]([+-]?[0-9]+))?$')


class Num:
    __slots__ = ("lex",)

    def __init__(self, lex):
        self.lex = str(lex)
        assert NUM.match(self.lex), self.lex

    def enc(self):
        s, i, f, e = NUM.match(self.lex).groups()
        f = f or ""
        d = i + f
        ex = int(e or 0) - len(f)
        st = d.rstrip("0")
        ex += len(d) - len(st)
        st = st.lstrip("0")
        if not st:
            return ["n", 0, [], 0]
        return ["n", -1 if s else 1, [int(c) for c in st], ex]

    def __eq__(self, o):
        return isinstance(o, Num) and self.enc() == o.enc()

    def __hash__(self):
        return hash(str(self.enc()))

    def __repr__(self):
        return self.lex


def parse(text):
    def hook(s):
        return Num(s)
    return json.loads(text, parse_int=hook, parse_float=hook)


def dumps(v, rng=None, ascii_=False):
    """JSON text; with rng the members come in random order"""
    out = []

    def w(v):
        if v is None:
            out.append("null")
        elif v is True:
            out.append("true")
        elif v is False:
            out.append("false")
        elif isinstance(v, Num):
            out.append(v.lex)
        elif isinstance(v, int):
            out.append(str(v))
        elif isinstance(v, str):
            out.append(json.dumps(v, ensure_ascii=ascii_))
        elif isinstance(v, list):
            out.append("[")
            for i, x in enumerate(v):
                if i:
                    out.append(",")
                w(x)
            out.append("]")
        elif isinstance(v, dict):
            ks = list(v)
            if rng:
                rng.shuffle(ks)
            out.append("{")
            for i, k in enumerate(ks):
                if i:
                    out.append(",")
                out.append(json.dumps(k, ensure_ascii=ascii_))
                out.append(":")
                w(v[k])
            out.append("}")
        else:
            raise TypeError(type(v))
    w(v)
    return "".join(out)


def enc(v):
    """the tagged form of module JSON"""
    if v is None:
        return ["z"]
    if v is True or v is False:
        return ["b", v]
    if isinstance(v, Num):
        return v.enc()
    if isinstance(v, int):
        return Num(v).enc()
    if isinstance(v, str):
        return ["s", v]
    if isinstance(v, list):
        return ["a", [enc(x) for x in v]]
    if isinstance(v, dict):
        return ["o", {k: enc(x) for k, x in v.items()}]
    raise TypeError(type(v))


def dec(t):
    """inverse of enc"""
    k = t[0]
    if k == "z":
        return None
    if k in "bs":
        return t[1]
    if k == "n":
        if t[1] == 0:
            return Num("0")
        d = "".join(map(str, t[2]))
        return Num(("-" if t[1] < 0 else "") + d + ("e%d" % t[3] if t[3] else ""))
    if k == "a":
        return [dec(x) for x in t[1]]
    return {n: dec(x) for n, x in t[1].items()} if t[1] else {}


def strings(v, acc):
    if isinstance(v, str):
        acc.add(v)
    elif isinstance(v, list):
        for x in v:
            strings(x, acc)
    elif isinstance(v, dict):
        for k, x in v.items():
            acc.add(k)
            strings(x, acc)
    return acc


def nobj(v):
    """a rough size"""
    if isinstance(v, list):
        return 1 + sum(map(nobj, v))
    if isinstance(v, dict):
        return 1 + sum(map(nobj, v.values()))
    return 1
