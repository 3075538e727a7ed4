"""Random schemas and instances.

A Gen draws schemas of one draft from a weighted choice of keywords and instances that
are aimed at a schema: they satisfy it, or miss it narrowly, far more often than random
values would.
"""
import random
import rx
from jsonv import Num, dumps

NAMES = ["a", "b", "c", "d", "foo", "bar", "x1", "a", "b", "c", ""]
ODD_NAMES = ["", " ", "a b", "a/b", "a~b", "~1", "%25", "a%b", "0", "1", "é", "e\u0301", "😀", "type", "properties", "items",
             "definitions", "required", "__proto__", "A", "a.b", "a\"b", "a\\b", "\u0000", "\u2028", "null", "true",
             "patternProperties", "enum", "const", "default", "not", "x" * 40, "日本", "tab\t", "(root)", "length", "$ref", "id", "$id", "$schema", "$ref"]

TYPES = ["null", "boolean", "integer", "number", "string", "array", "object"]
COMBI = ["allOf", "anyOf", "oneOf", "not"]

GROUPS = {
    "type": ["type"],
    "num": ["minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf"],
    "str": ["minLength", "maxLength", "pattern"],
    "eq": ["enum", "const"],
    "uniq": ["uniqueItems"],
    "arr": ["items", "itemsList", "additionalItems", "contains", "minItems", "maxItems"],
    "obj": ["properties", "patternProperties", "additionalProperties", "propertyNames", "required",
            "minProperties", "maxProperties", "dependencies"],
    "comb": COMBI,
    "cond": ["if"],
    "format": ["format"],
    "bool": ["bool"],
}


class Gen:
    def __init__(self, rng, dr=99, weights=None, odd=.15, big=.05, maxkw=4, maxlim=None, exact15=False):
        self.r = rng
        self.dr = dr
        self.w = weights or {"type": 1, "num": 2, "str": 2, "eq": 2, "uniq": .5, "arr": 3, "obj": 4, "comb": 3,
                             "cond": 1, "bool": .4}
        self.odd = odd
        self.big = big
        self.maxkw = maxkw
        self.exact15 = exact15
        self.re = {}           # pattern -> AST
        self.formats = ["date", "ipv4", "uuid", "nosuchformat"]

    # ------------------------------------------------------------- scalars
    def chance(self, p):
        return self.r.random() < p

    def name(self):
        if self.chance(self.odd):
            return self.r.choice(ODD_NAMES)
        return self.r.choice(NAMES)

    def intnum(self):
        r = self.r
        p = r.random()
        if p < .6:
            return r.randint(-5, 12)
        if p < .75:
            return r.choice([0, 1, 10, 100, 1000, -1, -10, 255, 256, 65536])
        if p < .9:
            return r.choice([2**31, 2**53, 2**63, 2**64, 10**16]) * r.choice([1, 1, -1]) + r.choice([-1, 0, 1, 2])
        return r.randint(-10**r.randint(5, 40), 10**r.randint(5, 40))

    def num(self):
        """a number in some notation"""
        r = self.r
        p = r.random()
        if p < .45:
            return Num(self.intnum()) if not self.exact15 else Num(r.randint(-20, 20))
        if p < .75:
            return Num(r.choice(["0.5", "1.5", "-0.5", "0.1", "0.2", "0.3", "2.5", "0.25", "0.01", "3.14", "-1.25", "1.1", "2.2", "3.3",
                                 "0.7", "1e1", "1E2", "1e-1", "5e-1", "12e-1", "-0", "0.0", "-0.0", "0e5", "1.0", "2.0", "-3.0", "1.50",
                                 "100e-2", "0.1e1", "1e+2", "20e-1"]))
        if p < .85 or self.exact15:
            return self.renote(Num(self.intnum() if not self.exact15 else r.randint(-999, 9999)))
        if p < .93:
            # many digits after the point
            return Num(("-" if r.random() < .3 else "") + str(r.randint(0, 20)) + "." + "".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 3, 17, 20, 40]))))
        if p < .97:
            return Num(str(r.randint(1, 99)) + "e" + str(r.choice([-400, -324, -308, -100, -30, -20, 20, 22, 25, 30, 100, 300, 305, 307, 308, 309, 400, r.randint(-350, 350)])))
        return Num("".join([r.choice("123456789")] + [r.choice("0123456789") for _ in range(r.choice([17, 20, 30, 60, 120]))]))

    def renote(self, n):
        """another notation of the same value"""
        s, d, e = n.enc()[1:]
        r = self.r
        if s == 0:
            return Num(r.choice(["0", "0.0", "-0", "0e0", "0E+7", "0.000", "-0.0e-3"]))
        ds = "".join(map(str, d))
        sg = "-" if s < 0 else ""
        if abs(e) > 60:
            return Num(sg + ds + "e" + str(e))
        p = r.random()
        if p < .4:
            if e >= 0:
                t = ds + "0" * e
            elif -e < len(ds):
                t = ds[:e] + "." + ds[e:]
            else:
                t = "0." + "0" * (-e - len(ds)) + ds
            if p < .2:
                t = t + "." + "0" * r.randint(1, 3) if "." not in t else t + "0" * r.randint(1, 3)
            return Num(sg + t)
        if p < .7:
            k = r.randint(0, 3)
            return Num(sg + ds + "0" * k + r.choice(["e", "E"]) + str(e - k))
        # scientific
        k = len(ds) - 1
        x = e + k
        return Num(sg + ds[0] + ("." + ds[1:] if k else "") + r.choice(["e", "E"]) + (("+" if r.random() < .4 else "") if x >= 0 else "") + str(x))

    def near(self, n):
        """n, or a number next to it in some scale"""
        r = self.r
        if self.chance(.35):
            return self.renote(n)
        s, d, e = n.enc()[1:]
        if abs(e) > 400:
            return self.num()
        v = s * int("".join(map(str, d)) or 0)
        sc = r.choice([0, 0, 0, 1, 1, 2, 17, 25]) if not self.exact15 else r.choice([0, 0, 1, 2])
        k = e - sc if r.random() < .5 else min(e, 0) - sc
        w = v * 10**(e - k) + r.choice([-1, 1])
        return self.renote(Num("%de%d" % (w, k)))

    CH = list("abcxyz019 _-.~/\"\\") + ["é", "ß", "ø", "€", "日", "本", "😀", "👍", "\u0301", "\u0000", "\u001f", "\n", "\t", "\u2028", "\ufffd", "\uffff", "\U0010ffff"]

    # characters with a special role somewhere: joiners, marks, spaces, escapes, ends of blocks
    WIDE = ["\u200d", "\u200b", "\ufeff", "\u00ad", "\ufe0f", "\u00a0", "\u200f", "\u0085", "\u007f", "\u0080", "\u00ff", "\u0100", "\u07ff", "\u0800",
            "\ud7ff", "\ue000", "\ufffe", "\U00010000", "\U0001f1e9", "\U0001f3fd", "\u0130", "\u0131", "\u017f", "\u212a", "\u03c2", "\u0345", "\u1e9e", "\u2029", "\u3000",
            "\b", "\f", "\r", "\v", "\u0001", "\u001b", "\u20dd", "\U000e0001", "%", "+", "$", "^", "#", "?", "*", "|", "{", "}", "(", ")", "[", "]", "'", "`", "<", ">", "&", "A", "Z", "@", ":", ";", ","]

    def ch(self):
        r = self.r
        p = r.random()
        if p < .85:
            return r.choice(self.CH)
        if p < .95:
            return r.choice(self.WIDE)
        c = r.choice([r.randint(1, 0xff), r.randint(0x100, 0xd7ff), r.randint(0xe000, 0xffff), r.randint(0x10000, 0x10ffff)])
        return chr(c)

    def string(self, n=None):
        r = self.r
        if n is None:
            p = r.random()
            if p < .15:
                return r.choice(["", "a", "b", "abc", "foo", "bar"])
            if p < .2:
                return r.choice(ODD_NAMES)
            n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8])
            if self.chance(self.big):
                n = r.choice([16, 31, 32, 33, 64, 100, 127, 128, 255, 256, 257, 300])
        if r.random() < .4:
            return "".join(r.choice("abcxyz01") for _ in range(n))
        return "".join(self.ch() for _ in range(n))

    def pattern(self):
        r = self.r
        if self.re and self.chance(.2):
            return r.choice(list(self.re))
        if self.chance(.12):
            a = r.choice([["cat", []], ["bol"], ["eol"], ["cat", [["bol"], ["eol"]]], ["rep", 0, -1, ["any"]],
                          ["cat", [["bol"], ["chr", 97]]], ["cat", [["chr", 97], ["eol"]]], ["chr", 97]])
        else:
            a = rx.top(r)
        p = rx.render(a, r)
        if len(p) > 200:
            return self.pattern()
        self.re[p] = a
        return p

    # ------------------------------------------------------------- values
    def value(self, depth=2):
        r = self.r
        p = r.random()
        if depth <= 0:
            p *= .6
        if p < .1:
            return None
        if p < .2:
            return r.random() < .5
        if p < .4:
            return self.num()
        if p < .6:
            return self.string()
        if p < .8:
            return [self.value(depth - 1) for _ in range(self.count())]
        return {self.name(): self.value(depth - 1) for _ in range(self.count())}

    def count(self):
        r = self.r
        if self.chance(self.big):
            return r.choice([7, 8, 9, 10, 11, 12, 16, 17, 20, 33])
        return r.choice([0, 0, 1, 1, 2, 2, 3, 4, 5])

    # ------------------------------------------------------------- schemas
    def pick_keywords(self):
        r = self.r
        gs = [g for g in self.w if self.w[g] > 0 and g != "bool"]
        n = r.choice([1, 1, 1, 2, 2, 3, self.maxkw])
        ks = []
        for _ in range(n):
            g = r.choices(gs, [self.w[g] for g in gs])[0]
            k = r.choice(GROUPS[g])
            if k in ("const", "contains", "propertyNames") and self.dr < 6:
                continue
            if k == "if" and self.dr < 7:
                continue
            ks.append(k)
        # keywords of one object interact: complete groups sometimes
        if "arr" in self.w and self.w["arr"] and self.chance(.15):
            ks += ["itemsList", "additionalItems"]
        if "obj" in self.w and self.w["obj"] and self.chance(.2):
            ks += r.sample(["properties", "patternProperties", "additionalProperties"], r.choice([2, 3]))
        return ks

    def schema(self, depth=3):
        r = self.r
        if self.dr >= 6 and self.chance(self.w.get("bool", 0) * .15):
            return r.random() < .65
        x = self.reference(depth)
        if x is not None:
            return x
        if depth <= 0:
            return self.leaf()
        s = {}
        for k in self.pick_keywords():
            self.keyword(s, k, depth)
        return s

    def reference(self, depth):
        return None

    def leaf(self):
        r = self.r
        p = r.random()
        s = {}
        if p < .15:
            return {}
        gs = [g for g in ("type", "num", "str", "eq") if self.w.get(g)] or ["type"]
        k = r.choice(GROUPS[r.choice(gs)])
        if k == "const" and self.dr < 6:
            k = "enum"
        self.keyword(s, k, 0)
        return s

    inplace = True
    DESCEND = {"items", "itemsList", "additionalItems", "additionalProperties", "contains", "propertyNames", "properties", "patternProperties"}

    def keyword(self, s, k, depth):
        old = self.inplace
        if k in self.DESCEND:
            self.inplace = False
        self.keyword1(s, k, depth)
        self.inplace = old

    def keyword1(self, s, k, depth):
        r = self.r
        sub = lambda: self.schema(depth - 1 if r.random() < .7 else min(depth - 1, 0))
        if k == "type":
            s["type"] = r.choice(TYPES) if r.random() < .6 else r.sample(TYPES, r.choice([1, 2, 2, 3, 4]))
        elif k in ("minimum", "maximum"):
            s[k] = self.num()
        elif k in ("exclusiveMinimum", "exclusiveMaximum"):
            lim = "minimum" if k == "exclusiveMinimum" else "maximum"
            if self.dr == 4 or (self.dr == 99 and r.random() < .4):
                s.setdefault(lim, self.num())
                s[k] = r.random() < .7
            else:
                s[k] = self.num()
                if lim in s and r.random() < .5:
                    s[lim] = self.near(s[k])
        elif k == "multipleOf":
            n = self.num()
            n = Num(n.lex.lstrip("-"))
            if n.enc()[1] == 0:
                n = Num(r.choice(["1", "2", "0.1", "0.01", "3", "1e-3", "0.3"]))
            if abs(n.enc()[3]) > 30:
                n = Num("0.1")
            s[k] = n
        elif k in ("minLength", "maxLength"):
            n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8])
            if self.chance(self.big):
                n = r.choice([16, 31, 32, 33, 64, 100, 127, 128, 255, 256, 257])
            o = "maxLength" if k == "minLength" else "minLength"
            if o in s:
                m = int(s[o].lex) if s[o].lex.isdigit() else None
                if m is None:
                    return
                n = max(n, m) if k == "maxLength" else min(n, m)
            s[k] = Num(n)
        elif k in ("minItems", "maxItems"):
            s[k] = Num(self.count())
        elif k in ("minProperties", "maxProperties"):
            n = self.count()
            o = "maxProperties" if k == "minProperties" else "minProperties"
            if o in s:
                m = int(s[o].lex)
                n = max(n, m) if k == "maxProperties" else min(n, m)
            s[k] = Num(n)
        elif k == "pattern":
            s[k] = self.pattern()
        elif k == "format":
            s[k] = r.choice(self.formats)
        elif k == "enum":
            vs = []
            n = r.choice([1, 1, 2, 3, 4])
            if self.chance(self.big):
                n = r.choice([8, 12, 17, 20])
            while len(vs) < n:
                v = self.mutate(r.choice(vs)) if vs and r.random() < .3 else self.value(2)
                if not any(same(v, w) for w in vs):
                    vs.append(v)
                elif r.random() < .2:
                    break
            s[k] = vs
        elif k == "const":
            s[k] = self.value(2)
        elif k == "uniqueItems":
            s[k] = r.random() < .9
        elif k == "items":
            s["items"] = sub()
        elif k == "itemsList":
            s["items"] = [sub() for _ in range(r.choice([1, 1, 2, 2, 3, 4]) if not self.chance(self.big) else r.choice([7, 11, 13]))]
        elif k in ("additionalItems", "additionalProperties"):
            s[k] = (r.random() < .3) if r.random() < .5 else self.objschema(sub)
        elif k in ("contains", "not"):
            s[k] = sub()
        elif k == "propertyNames":
            s[k] = sub() if r.random() < .3 else r.choice([{"pattern": self.pattern()}, {"maxLength": Num(r.randint(0, 3))}, {"enum": sorted({self.name() for _ in range(4)})}, {"minLength": Num(1)}])
        elif k == "properties":
            s[k] = {self.name(): sub() for _ in range(r.choice([1, 1, 2, 2, 3, 5]) if not self.chance(self.big) else 12)}
        elif k == "patternProperties":
            s[k] = {self.namepattern(): sub() for _ in range(r.choice([1, 1, 2, 3]))}
        elif k == "required":
            s[k] = sorted({self.name() for _ in range(r.choice([1, 1, 2, 3]))}, key=lambda _: r.random())
        elif k == "dependencies":
            s[k] = {self.name(): (sorted({self.name() for _ in range(r.choice([1, 1, 2]))}) if r.random() < .5 else sub())
                    for _ in range(r.choice([1, 1, 2]))}
        elif k in ("allOf", "anyOf", "oneOf"):
            n = r.choice([1, 2, 2, 2, 3, 4])
            if self.chance(self.big):
                n = r.choice([6, 7, 8, 9, 10])
            l = [sub() for _ in range(n)]
            if r.random() < .2 and len(l) > 1:
                l[r.randrange(len(l))] = r.choice(l)     # equal alternatives
            s[k] = l
        elif k == "if":
            s["if"] = sub()
            p = r.random()
            if p < .75:
                s["then"] = sub()
            if p > .3:
                s["else"] = sub()

    def objschema(self, sub):
        for _ in range(5):
            v = sub()
            if isinstance(v, dict):
                return v
        return {}

    def namepattern(self):
        r = self.r
        if r.random() < .6:
            a = r.choice([["cat", [["bol"], ["chr", 97]]], ["chr", 98], ["cat", [["bol"], ["rep", 0, -1, ["set", False, [[97, 99]]]], ["eol"]]],
                          ["chr", 111], ["set", False, [[48, 57]]], ["cat", []], ["cat", [["bol"], ["eol"]]], ["cat", [["any"], ["any"]]],
                          ["cat", [["chr", 97], ["eol"]]], ["alt", [["chr", 97], ["chr", 99]]], ["set", False, [[128, 0x10FFFF]]]])
            p = rx.render(a)
            self.re[p] = a
            return p
        return self.pattern()

    # ------------------------------------------------------------- aimed instances
    def instances(self, S, n):
        """n instances aimed at S; later ones are often small variations of earlier ones"""
        out = []
        for _ in range(n):
            if out and self.chance(.35):
                out.append(self.mutate(self.r.choice(out)))
            elif self.chance(.1):
                out.append(self.value(3))
            else:
                out.append(self.aim(S, 6))
        return out

    def aim(self, S, depth, hint=None):
        r = self.r
        if depth <= 0 or not isinstance(S, dict):
            return self.value(1)
        if self.chance(.04):
            return self.value(2)
        if "$ref" in S:
            t = getattr(S, "target", None)
            t = t() if t else None
            if t is None:
                return self.value(1)
            return self.aim(t, depth - 1)
        if "const" in S and self.chance(.8):
            return self.mutate(S["const"]) if self.chance(.4) else self.vary(S["const"])
        if S.get("enum") and self.chance(.8):
            v = r.choice(S["enum"])
            return self.mutate(v) if self.chance(.4) else self.vary(v)
        cand = []
        for k in S:
            if k in ("properties", "patternProperties", "additionalProperties", "required", "propertyNames", "minProperties", "maxProperties", "dependencies"):
                cand += ["object"] * 2
            elif k in ("items", "additionalItems", "contains", "minItems", "maxItems", "uniqueItems"):
                cand += ["array"] * 2
            elif k in ("minLength", "maxLength", "pattern", "format"):
                cand += ["string"] * 2
            elif k in ("minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf"):
                cand += ["number"] * 2
            elif k in ("allOf", "anyOf", "oneOf") and S[k]:
                cand += [("sub", x) for x in S[k]]
            elif k in ("not", "if", "then", "else"):
                cand += [("sub", S[k])]
        t = S.get("type")
        if isinstance(t, list):
            t = r.choice(t) if t else None
        if t is not None and (not cand or self.chance(.6)):
            cand = [t]
        if not cand:
            return self.value(2)
        c = r.choice(cand)
        if isinstance(c, tuple):
            v = self.aim(c[1], depth - 1)
            # merge with what this schema itself asks for
            if isinstance(v, dict) and self.chance(.6):
                w = self.obj(S, depth)
                w.update(v)
                return w
            return v
        if c == "null":
            return None
        if c == "boolean":
            return r.random() < .5
        if c in ("integer", "number"):
            return self.number_for(S, c)
        if c == "string":
            return self.string_for(S)
        if c == "array":
            return self.arr(S, depth)
        return self.obj(S, depth)

    def number_for(self, S, t):
        r = self.r
        ls = [S[k] for k in ("minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum") if isinstance(S.get(k), Num)]
        m = S.get("multipleOf")
        if isinstance(m, Num) and self.chance(.7):
            s, d, e = m.enc()[1:]
            v = int("".join(map(str, d)) or 0)
            k = r.choice([0, 1, 2, 3, 7, -1, -2, 10, 100, 12345, 10**9 + 7, 10**20 + 1])
            if ls and self.chance(.6):
                b = r.choice(ls)
                bs, bd, be = b.enc()[1:]
                if be >= e and be - e < 200 and v:
                    k = bs * int("".join(map(str, bd)) or 0) * 10**(be - e) // v + r.choice([-1, 0, 0, 1])
            n = Num("%de%d" % (v * k, e))
            return self.renote(n) if self.chance(.7) else self.near(n)
        if ls:
            return self.near(r.choice(ls))
        if t == "integer" and self.chance(.7):
            return self.renote(Num(self.intnum()) if not self.exact15 else self.num())
        return self.num()

    def string_for(self, S):
        r = self.r
        if isinstance(S.get("pattern"), str) and S["pattern"] in self.re and self.chance(.7):
            s = rx.sample(self.re[S["pattern"]], r)
            if self.chance(.3):
                s = self.string(r.choice([1, 1, 2])) + s
            if self.chance(.3):
                s = s + r.choice(["\n", self.string(1)])
            if self.chance(.3) and s:
                i = r.randrange(len(s))
                s = s[:i] + r.choice(["", self.ch()]) + s[i + 1:]
            return s[:400]
        ls = [int(S[k].lex) for k in ("minLength", "maxLength") if isinstance(S.get(k), Num) and S[k].lex.isdigit() and int(S[k].lex) < 2000]
        if ls and self.chance(.8):
            return self.string(max(0, r.choice(ls) + r.choice([-1, 0, 0, 1])))
        return self.string()

    def arr(self, S, depth):
        r = self.r
        it = S.get("items")
        n = self.count()
        ls = [int(S[k].lex) for k in ("minItems", "maxItems") if isinstance(S.get(k), Num) and S[k].lex.isdigit() and int(S[k].lex) < 200]
        if isinstance(it, list):
            ls.append(len(it))
        if ls and self.chance(.7):
            n = max(0, r.choice(ls) + r.choice([-1, 0, 0, 1, 2]))
        out = []
        for i in range(n):
            if isinstance(it, list):
                s = it[i] if i < len(it) else S.get("additionalItems")
            else:
                s = it
            if S.get("contains") is not None and self.chance(.2 if it is not None else .4):
                s = S["contains"]
            if "uniqueItems" in S and out and self.chance(.3):
                w = r.choice(out)
                out.append(self.vary(w) if self.chance(.6) else self.mutate(w))
            elif s is None or isinstance(s, bool):
                out.append(self.value(depth - 1 if depth < 3 else 2))
            else:
                out.append(self.aim(s, depth - 1))
        return out

    def obj(self, S, depth):
        r = self.r
        o = {}
        props = S.get("properties") if isinstance(S.get("properties"), dict) else {}
        pats = S.get("patternProperties") if isinstance(S.get("patternProperties"), dict) else {}
        names = [n for n in props if self.chance(.7)]
        names += [n for n in S.get("required", []) if isinstance(n, str) and self.chance(.8)]
        for p in pats:
            if p in self.re and self.chance(.6):
                s = rx.sample(self.re[p], r)[:60]
                names += [s if self.chance(.6) else r.choice(["", "x", "a", "_"]) + s + r.choice(["", "b", "0"])]
        for n, d in (S.get("dependencies") or {}).items() if isinstance(S.get("dependencies"), dict) else []:
            if self.chance(.6):
                names.append(n)
                if isinstance(d, list):
                    names += [x for x in d if isinstance(x, str) and self.chance(.7)]
                elif self.chance(.7):
                    v = self.aim(d, depth - 1)
                    if isinstance(v, dict):
                        o.update(v)
        if self.chance(.5):
            names += [self.name() for _ in range(r.choice([1, 1, 2, 3]))]
        if isinstance(S.get("propertyNames"), dict) and self.chance(.5):
            v = self.aim(S["propertyNames"], 1)
            if isinstance(v, str):
                names.append(v)
        ls = [int(S[k].lex) for k in ("minProperties", "maxProperties") if isinstance(S.get(k), Num) and S[k].lex.isdigit() and int(S[k].lex) < 200]
        if ls and self.chance(.6):
            n = max(0, r.choice(ls) + r.choice([-1, 0, 0, 1]))
            while len(set(names)) < n:
                names.append("k%d" % len(names))
            names = names[:n] if self.chance(.8) else names
        for n in names:
            ss = [props[n]] if n in props else []
            for p in pats:
                ss.append(pats[p])
            if isinstance(S.get("additionalProperties"), dict):
                ss.append(S["additionalProperties"])
            ss = [s for s in ss if isinstance(s, dict)]
            if self.chance(.06):
                o[n] = None
            elif ss and self.chance(.85):
                o[n] = self.aim(ss[0] if self.chance(.6) else r.choice(ss), depth - 1)
            else:
                o[n] = self.value(1)
        return o

    def vary(self, v):
        """an equal value, written differently"""
        if isinstance(v, Num):
            return self.renote(v)
        if isinstance(v, list):
            return [self.vary(x) for x in v]
        if isinstance(v, dict):
            ks = list(v)
            self.r.shuffle(ks)
            return {k: self.vary(v[k]) for k in ks}
        return v

    def mutate(self, v):
        """a slightly different value"""
        r = self.r
        if self.chance(.1):
            return self.value(1)
        if isinstance(v, bool):
            return r.choice([not v, Num(1 if v else 0), "true" if v else "false"])
        if v is None:
            return r.choice([False, Num(0), "", "null", [], {}, [None]])
        if isinstance(v, Num):
            return self.near(v) if self.chance(.9) else v.lex
        if isinstance(v, str):
            if not v or self.chance(.3):
                return v + self.ch()
            i = r.randrange(len(v))
            p = r.random()
            if p < .4:
                return v[:i] + v[i + 1:]
            if p < .8:
                return v[:i] + self.ch() + v[i + 1:]
            return v[::-1]
        if isinstance(v, list):
            l = list(v)
            p = r.random()
            if not l or p < .25:
                l.insert(r.randint(0, len(l)), self.value(1))
            elif p < .45:
                l.pop(r.randrange(len(l)))
            elif p < .6:
                l.append(self.vary(r.choice(l)))
            elif p < .7:
                r.shuffle(l)
            else:
                i = r.randrange(len(l))
                l[i] = self.mutate(l[i])
            return l
        o = dict(v)
        p = r.random()
        ks = list(o)
        if not ks or p < .25:
            o[self.name()] = self.value(1)
        elif p < .45:
            del o[r.choice(ks)]
        elif p < .55:
            k = r.choice(ks)
            o[self.name()] = o.pop(k)
        else:
            k = r.choice(ks)
            o[k] = self.mutate(o[k])
        return o


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b
