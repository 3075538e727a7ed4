"""Random regular expressions with a rendering in Go's syntax"""

ASCII_SPECIAL = set(r'\.+*?()|[]{}^$')


def chr_(c, rng=None):
    s = chr(c)
    if rng is not None and rng.random() < .05:
        return "\\x{%X}" % c
    if s in ASCII_SPECIAL:
        return "\\" + s
    return s


def setchr(c):
    s = chr(c)
    if s in r'\]^-[':
        return "\\" + s
    return s


def render(r, rng=None):
    k = r[0]
    if k == "chr":
        return chr_(r[1], rng)
    if k == "any":
        return "."
    if k == "set":
        if r[2] == [[48, 57]] and (rng is None or rng.random() < .5):
            return "\\D" if r[1] else "\\d"
        if r[2] == [[48, 57], [65, 90], [95, 95], [97, 122]] and (rng is None or rng.random() < .7):
            return "\\W" if r[1] else "\\w"
        return "[" + ("^" if r[1] else "") + "".join(
            setchr(a) if a == b else setchr(a) + "-" + setchr(b) for a, b in r[2]) + "]"
    if k == "cat":
        return "".join(("(" + render(x, rng) + ")") if x[0] == "alt" else render(x, rng) for x in r[1])
    if k == "alt":
        return "|".join(render(x, rng) for x in r[1])
    if k == "rep":
        a = r[3]
        s = render(a, rng)
        if a[0] in ("cat", "alt", "rep", "bol", "eol", "wb", "nwb"):
            s = "(?:" + s + ")" if rng is None or rng.random() < .5 else "(" + s + ")"
        lo, hi = r[1], r[2]
        if (lo, hi) == (0, -1):
            q = "*"
        elif (lo, hi) == (1, -1):
            q = "+"
        elif (lo, hi) == (0, 1):
            q = "?"
        elif hi == -1:
            q = "{%d,}" % lo
        elif lo == hi:
            q = "{%d}" % lo
        else:
            q = "{%d,%d}" % (lo, hi)
        if rng is not None and rng.random() < .15:
            q += "?"
        return s + q
    return {"bol": "^", "eol": "$", "wb": "\\b", "nwb": "\\B"}[k]


WORD = [[48, 57], [65, 90], [95, 95], [97, 122]]
SETS = [[[48, 57]], [[97, 122]], [[97, 99]], [[65, 90], [97, 122]], WORD, [[97, 97], [120, 122]],
        [[228, 246]], [[45, 46]], [[0x1F600, 0x1F64F]]]
CHARS = [ord(c) for c in "aaaabbbcxyz0129_- ./~$é€"] + [0x1F600]


def gen(rng, depth=3):
    p = rng.random()
    if depth <= 0 or p < .35:
        q = rng.random()
        if q < .6:
            return ["chr", rng.choice(CHARS)]
        if q < .7:
            return ["any"]
        return ["set", rng.random() < .25, rng.choice(SETS)]
    if p < .65:
        return ["cat", [gen(rng, depth - 1) for _ in range(rng.choice([1, 2, 2, 3, 4]))]]
    if p < .75:
        return ["alt", [gen(rng, depth - 1) for _ in range(rng.choice([2, 2, 3]))]]
    if p < .95:
        lo, hi = rng.choice([(0, -1), (1, -1), (0, 1), (2, 2), (1, 3), (2, -1), (0, 2), (3, 5)])
        return ["rep", lo, hi, gen(rng, depth - 2 if depth > 1 else 0)]
    return [rng.choice(["bol", "eol", "wb", "nwb"])]


def top(rng, depth=3):
    r = gen(rng, depth)
    p = rng.random()
    pre, post = [], []
    if p < .45:
        pre = [["bol"]]
    if .25 < p < .6:
        post = [["eol"]]
    if pre or post:
        if r[0] == "cat":
            return ["cat", pre + r[1] + post]
        return ["cat", pre + [r] + post]
    return r


def sample(r, rng, limit=12):
    """a string that the expression probably matches"""
    k = r[0]
    if k == "chr":
        return chr(r[1])
    if k == "any":
        return chr(rng.choice(CHARS))
    if k == "set":
        if r[1]:
            for _ in range(20):
                c = rng.choice(CHARS)
                if not any(a <= c <= b for a, b in r[2]):
                    return chr(c)
            return "!"
        a, b = rng.choice(r[2])
        c = rng.randint(a, b)
        return chr(c) if not 0xD800 <= c <= 0xDFFF else chr(a)
    if k == "cat":
        return "".join(sample(x, rng, limit) for x in r[1])
    if k == "alt":
        return sample(rng.choice(r[1]), rng, limit)
    if k == "rep":
        hi = r[2] if r[2] >= 0 else r[1] + rng.choice([0, 1, 1, 2, 3, 8])
        n = rng.randint(r[1], hi)
        return "".join(sample(r[3], rng, limit // 2) for _ in range(n))
    return ""


BAD = ["(", "[a", "a)", "*a", "a{2,1}", "\\", "[z-a]", "(?<n>", "a**", "(?=a)", "\\1", "x{1001}", "(?!b)", "\\8", "[[:foo:]]"]
