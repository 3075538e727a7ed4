"""Checks about the languages of the built-in formats"""
import json
import os
import re
import tempfile
import shutil
import run
import rx
from driver import conform
from props import prop, amount
from session import Session

# ------------------------------------------------------------------ C18

UUID = "01234567-89ab-cdef-0123-456789ABCDEF"

# vocabulary and number of tokens per format: every combination is explored
VOCAB = {
    "date": (["2023", "2024", "1900", "2000", "0000", "-", "01", "02", "04", "12", "13", "00", "28", "29", "30", "31", "32", "1", " ", "T"], 5),
    "time": (["00", "23", "24", "59", "60", ":", ".", "5", "Z", "+", "-"], 6),
    "date-time": (["2024-02-29", "2023-02-29", "23:59:59", "24:00:00", "12:30:00", "T", " ", ".123", ".", "Z", "+01:00", "-23:59", "+24:61", "+0100", "1"], 5),
    "ipv4": (["0", "9", "25", "255", "256", "01", ".", ":", "1.2.3", "a", "-", " "], 5),
    "ipv6": (["::", ":", "0", "ffff", "G", "12345", "1.2.3.4", "1:2:3", "256.1.1.1", "%1", "."], 5),
    "hostname": (["a", "-", ".", "_", "1", "a" * 62, "a" * 63 + ".", "é", "b-", "Z"], 5),
    "email": (["a", "@", ".", "b-c", "\"", " ", "+1", "é", "<", ">", ","], 5),
    "idn-email": (["a", "@", ".", "b-c", "\"", "é", "用户"], 5),
    "uri": (["http", ":", "//", "/", "a.b", "?", "#", "%41", "%", "%4", "\\", " ", "é", "80", "@", "\n"], 4),
    "uri-reference": (["http", ":", "//", "/", "a.b", "?", "#", "%41", "%g1", "\\", "1", "80", "@", "\x00"], 4),
    "iri": (["http", ":", "//", "/", "a.b", "é", "?", "#", "%", "\\"], 4),
    "iri-reference": (["http", ":", "//", "/", "é", "?", "#", "%", "\\"], 4),
    "uri-template": (["{", "}", "{a}", "{?q,r*}", "{#f:3}", "{&x}", "http://a/", "/", "?", "#", "%", "\\", "b"], 4),
    "uuid": (["01234567", "89ab", "CDEF", "0123456789aB", "-", "g", "0123", "{", "}", "urn:uuid:", UUID], 3),
    "json-pointer": (["/", "a", "~", "~0", "~1", "~2", "0", "%", "#", "\n", "é"], 4),
    "relative-json-pointer": (["0", "1", "00", "12", "/", "a", "~", "~0", "#", "-", "+", " "], 4),
    "regex": (["a"], 1),
}
LINE = re.compile(r'^<<"L", "([^"]+)", <<([0-9, ]*)>>, "(.)">>', re.M)


def explored(out, extra):
    """the membership of all strings of the vocabularies, by TLC: {format: [(string, y|n|u)]}"""
    os.makedirs(run.WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix="vocab", dir=run.WORK)
    try:
        voc = {f: dict(tok=[[ord(c) for c in t] for t in ts], n=n + extra) for f, (ts, n) in VOCAB.items() if f != "regex"}
        # keep the exploration bounded
        for f, v in voc.items():
            lim = 60000 if not extra else 600000
            while sum(len(v["tok"]) ** k for k in range(v["n"] + 1)) > lim:
                v["n"] -= 1
        path = os.path.join(d, "vocab.json")
        with open(path, "w") as f:
            json.dump(voc, f)
        rc, o = run.tlc("MCFormats.tla", "MCFormats.cfg", dict(VOCAB=path), timeout=2400)
        m = run.STATS.findall(o)
        if rc != 0 or not m:
            raise run.ToolError("TLC failed on MCFormats:\n" + re.sub(LINE, "", o)[-3000:])
        out.model_states += int(m[-1][1])
        got = {}
        for f, ts, l in LINE.findall(o):
            toks = VOCAB[f][0]
            got.setdefault(f, {})["".join(toks[int(t) - 1] for t in ts.split(", ") if t)] = l
        for f, v in voc.items():
            n = len({"".join(x) for x in [""]}) and len(got.get(f, {}))
            if not n:
                raise run.ToolError("no strings of format " + f)
        return got
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay_languages(out, exe, got):
    """TLC's strings in the real code"""
    ss, want = [], []
    for f, m in got.items():
        strs = sorted(m)
        for i in range(0, len(strs), 2000):
            s = Session(None, [])
            s.judge = "none"
            s.op(dict(op="fbulk", name=f, strs=strs[i:i + 2000]), dict(op="skip"))
            ss.append(s)
            want.append((f, strs[i:i + 2000]))
    for k, s in enumerate(ss):
        s.id = k + 1
    obs, _ = run.execute(exe, ss)
    opened = 0
    for s, (f, strs) in zip(ss, want):
        o = obs[s.id]
        bits = o[0].get("bits", "") if not isinstance(o, tuple) else ""
        if len(bits) != len(strs):
            out.violation("format %s: no answer (%s)" % (f, str(o)[:300]), dict(format=f, observed=str(o)[:2000]))
            return
        for x, b in zip(strs, bits):
            w = got[f][x]
            if w == "u":
                opened += 1
            if b == w or (w == "u" and b in "yn"):
                continue
            out.violation("format %s: %r is %s the language, the checker says %s" % (f, x, "in" if w == "y" else "not in", b),
                          dict(format=f, string=x, expected=w, observed=b, note="y/n: member or not, d: registry and schema disagree, e: error"))
            if len(out.violations) >= 3:
                return
    out.count(strings_from_the_model=sum(len(m) for m in got.values()), of_which_open=opened)


def two(rng, lo, hi):
    p = rng.random()
    if p < .3:
        return "%02d" % rng.choice([lo, hi])
    if p < .38:
        return "%02d" % rng.choice([max(0, lo - 1), hi + 1])
    return "%02d" % rng.randint(lo, hi)


def g_date(r):
    if r.random() < .04:
        return r.choice(["0000-01-01", "0001-01-01", "0000-12-31", "0001-12-31", "9999-12-31", "1970-01-01", "1969-12-31", "0000-02-29", "2038-01-19", "1752-09-14"])
    y = r.choice([0, 1, 4, 100, 400, 1582, 1600, 1700, 1800, 1900, 1904, 1999, 2000, 2001, 2004, 2023, 2024, 2100, 2400, 9999, r.randint(0, 9999)])
    m = r.randint(1, 12) if r.random() < .9 else r.choice([0, 13, 99])
    d = r.choice([1, 28, 29, 30, 31, r.randint(1, 31), 0, 32])
    return "%04d-%02d-%02d" % (y, m, d)


def g_clock(r):
    s = two(r, 0, 23) + ":" + two(r, 0, 59) + ":" + two(r, 0, 59)
    if r.random() < .3:
        s += "." + "".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 3, 6, 9, 10, 20])))
    return s


def g_zone(r):
    return "Z" if r.random() < .4 else r.choice("+-") + two(r, 0, 23) + ":" + two(r, 0, 59)


def g_time(r):
    return g_clock(r) + (g_zone(r) if r.random() < .6 else "")


def g_datetime(r):
    p = r.random()
    if p < .7:
        return g_date(r) + "T" + g_clock(r) + g_zone(r)
    return g_date(r) if p < .8 else g_time(r)


def g_ipv4(r):
    return ".".join(str(r.choice([0, 1, 9, 10, 99, 100, 199, 200, 249, 250, 255, r.randint(0, 300), r.choice(["00", "01", "256", "1000"])])) for _ in range(4 if r.random() < .95 else r.choice([3, 5])))


def g_ipv6(r):
    def h():
        return "".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.choice([1, 2, 3, 4, 4]) if r.random() < .97 else 5))
    p = r.random()
    if p < .25:     # addresses of the special blocks: unspecified, loopback, mapped, embedded, link-local, multicast, documentation
        pre = r.choice(["::", "::ffff:", "::FFFF:", "0:0:0:0:0:ffff:", "0000:0000:0000:0000:0000:ffff:", "::ffff:0:", "64:ff9b::", "2002:", "fe80::", "ff02::", "2001:db8::", "::0:", "fc00::", "::1:"])
        return pre + r.choice(["", "0", "1", h(), h() + ":" + h(), "102:304", "7f00:1", "0:0", g_ipv4(r), "ffff:ffff", h() + "::"])
    n = r.choice([8, 8, 7, 6, r.randint(0, 9)])
    gs = [r.choice(["0", "ffff", "0000", "1"]) if r.random() < .2 else h() for _ in range(n)]
    if r.random() < .3 and gs:
        gs[-1] = g_ipv4(r)
    if r.random() < .6:
        i = r.randint(0, len(gs))
        gs[i:i + r.choice([0, 1, 2, 3])] = ["::"]
    t = ":".join(gs)
    return t.replace(":::" + ":", "::").replace(":::", "::")


def g_label(r):
    n = r.choice([1, 2, 3, 5, 10, 62, 63, 64]) if r.random() < .5 else r.randint(1, 12)
    t = "".join(r.choice("abcxyzABCXYZ0123456789-" if 0 < i < n - 1 else "abzAZ09") for i in range(n))
    return t


def g_host(r):
    if r.random() < .05:
        # labels of one kind of character around the limit
        c = r.choice(["0123456789", "9", "a", "Z", "aB3", "a-a"])
        n = r.choice([62, 63, 64, 65, 100])
        return ".".join([(c * n)[:n].rstrip("-")] + r.choice([[], ["a"], ["1"], ["example", "com"]]))
    if r.random() < .1:
        n = r.choice([250, 251, 252, 253, 256, 257, 300])
        t = ".".join(["a" * r.choice([61, 62, 63])] * 6)[:n]
        if t.endswith("."):
            t = t[:-1] + "a"
        return t
    return ".".join(g_label(r) for _ in range(r.choice([1, 2, 2, 3, 4, 8])))


def g_uuid(r):
    return "-".join("".join(r.choice("0123456789abcdefABCDEF") for _ in range(n)) for n in (8, 4, 4, 4, 12))


def g_ptr(r):
    return "".join("/" + "".join(r.choice(["a", "b", "~0", "~1", "0", "é", "%25", " ", "\"", "\\", "#", "\U0001F600", "", "{", ".", "-"]) for _ in range(r.choice([0, 1, 2, 4]))) for _ in range(r.choice([0, 1, 2, 3, 6])))


def g_relptr(r):
    return r.choice(["0", "1", "10", "123456789012345678901234567890", str(r.randint(0, 200)), "9", "01"]) + ("#" if r.random() < .3 else g_ptr(r))


ATEXT = "abcXYZ019!#$%&'*+-/=?^_`{|}~"


def g_email(r, intl=False):
    al = ATEXT + ("éüñ用户例" * 2 if intl else "")

    def atom():
        return "".join(r.choice(al) for _ in range(r.choice([1, 2, 5, 12])))
    loc = ".".join(atom() for _ in range(r.choice([1, 1, 2, 3])))
    if r.random() < .1:
        loc = '"' + "".join(r.choice("abc.@,!()<>;") for _ in range(r.randint(1, 5))) + '"'
    return loc + "@" + ".".join(atom() for _ in range(r.choice([1, 2, 3])))


def g_pchars(r, intl, colon=True, n=None):
    return "".join(r.choice(["a", "Z", "0", "9", "-", ".", "_", "~", "!", "$", "&", "'", "(", ")", "*", "+", ",", ";", "=", "@", "%20", "%C3%A9", "%ff"] + ([":"] if colon else []) + (["é", "用", "ü"] * 2 if intl else [])) for _ in range(r.choice([1, 1, 2, 3, 6]) if n is None else n))


def g_uri(r, rel=False, intl=False):
    t = ""
    sch = not (rel and r.random() < .6)
    if sch:
        t = r.choice(["http", "https", "ftp", "urn", "mailto", "x", "X-y.z+1", "file", "data", "tel", "a1"]) + ":"
    p = r.random()
    segs = "".join("/" + (g_pchars(r, intl) if r.random() < .8 else "") for _ in range(r.choice([0, 1, 2, 3])))
    if p < .55:
        user = ("u" + g_pchars(r, intl and r.random() < .2, False, 0) + r.choice(["", ":", ":pw"]) + "@") if r.random() < .15 else ""
        t += "//" + user + r.choice(["example.com", "a", "1.2.3.4", "a-b.c_d~e", "A.B", "xn--a"]) + r.choice(["", "", "", ":80", ":", ":65535"]) + segs
    elif p < .7:
        t += "/" + (g_pchars(r, intl) + segs if r.random() < .8 else "")
    elif p < .9:
        t += g_pchars(r, intl and not sch, sch) + segs
    elif sch:
        t += g_pchars(r, False)
    for c in "?#":
        if r.random() < .3:
            t += c + "".join(r.choice(["/", "?", "", ""]) + g_pchars(r, intl, True, r.choice([0, 1, 2])) for _ in range(2))
    return t


def g_template(r):
    def expr():
        return "{" + r.choice(["", "", "+", "#", ".", "/", ";", "?", "&"]) + ",".join(
            "".join(r.choice("abcXYZ_09") for _ in range(r.choice([1, 2, 4]))) + r.choice(["", "", "*", ":3", ":1000", ".b"]) for _ in range(r.choice([1, 1, 2, 3]))) + "}"
    t = g_uri(r, True) if r.random() < .7 else ""
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        i = r.randint(0, len(t))
        t = t[:i] + expr() + t[i:]
    return t


GEN = {"date": g_date, "time": g_time, "date-time": g_datetime, "ipv4": g_ipv4, "ipv6": g_ipv6, "hostname": g_host, "uuid": g_uuid,
       "json-pointer": g_ptr, "relative-json-pointer": g_relptr, "email": g_email, "idn-email": lambda r: g_email(r, True),
       "uri": g_uri, "uri-reference": lambda r: g_uri(r, True), "iri": lambda r: g_uri(r, False, True), "iri-reference": lambda r: g_uri(r, True, True), "uri-template": g_template}
EDIT = {"date": "0123456789-/T ", "time": "0123456789:.Z+-z ", "date-time": "0123456789:.Z+-T ", "ipv4": "0123456789.:/ a", "ipv6": "0123456789abcdefG:.%[] ", "hostname": "aZ09-._ é*", "uuid": "0aFg-{} ",
        "json-pointer": "/~01a#", "relative-json-pointer": "0189/~#-+a", "email": "a.@b ,", "idn-email": "a.@é", "uri": "ah:/?#%0@[]\\ \n\t", "uri-reference": "ah:/?#%0@\\\x01", "iri": "ah:/?#%0é\\",
        "iri-reference": "ah:/?#%0é\\", "uri-template": "{}a/,?#%\\:"}
# text of other kinds
STRAY = ["", " ", "\n", "\x00", "null", "1", "é", "２０２４-01-01", "١٢:٠٠:٠٠", "1.2.3.4\n", "\n::1", "a\n", "/a\n", "0\n", UUID + "\n", "2020-01-01\n", " 2020-01-01", "\ufeff1.2.3.4", "a@b\n", "http://a/\n",
         "0x7f.1.1.1", "127.1", "2130706433", "1.2.3.04", "::ffff:1.2.3.4", "fe80::1%eth0", "[::1]", "1::2::3", ":::", "::1:", ":1::", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1::3:4:5:6:7:8", "2024-W01-1", "20240101", "2024-1-1", "+2024-01-01", "12024-01-01",
         "12:00", "12:00:00+1", "12:00:00+0100", "12:00:00 Z", "12:00:00ZZ", "T12:00:00", "2024-01-01T12:00:00", "2024-01-01 12:00:00Z", "2024-01-01T12:00Z", "2024-01-01T12:00:00.Z", "2024-01-01T", "example..com", ".example.com", "-a.com", "a-.com", "a_b.com",
         "{" + UUID + "}", UUID.replace("-", ""), "urn:uuid:" + UUID, "a", "a/b", "#", "#/a", "//", "~", "/~", "/~2", "-1", "1/", "1#/", "1##", "0#a", "@", "a@", "@b", "a@b@c", "a..b@c", ".a@b", "a.@b", "a@b.", "http", ":", "1http://a", "://a", "http://a b", "\\\\WINDOWS\\file", "http://a:b/", "%zz", "/%", "{a", "a}", "{{a}}", "{a}{", "}{"]


def mutate(r, t, al):
    t = list(t)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        p = r.random()
        i = r.randint(0, len(t))
        if p < .35:
            t.insert(i, r.choice(al))
        elif p < .65 and t:
            t[min(i, len(t) - 1)] = r.choice(al)
        elif p < .9 and t:
            del t[min(i, len(t) - 1)]
        elif t:
            j = r.randint(0, len(t))
            t[i:i] = t[min(i, j):max(i, j)]
    return "".join(t)


def language_session(r):
    s = Session(r, [])
    f = r.choice(sorted(GEN) + ["regex"])
    strs = []
    if f == "regex":
        for _ in range(20):
            p = r.random()
            if p < .6:
                a = rx.top(r)
                t = rx.render(a, r)
                s.re[t] = a
            elif p < .8:
                t = r.choice(rx.BAD)
                s.re[t] = ["bad"]
            else:
                t = rx.render(rx.top(r), r) + r.choice(["(", ")", "[", "(?<x", "\\"])
                if t[:-1].endswith("\\") or "\\x{" in t:
                    t = ")"
                s.re[t] = ["bad"] if not (t.endswith("\\")) or len(t) else ["bad"]
            strs.append(t)
        strs.append("")
    else:
        for _ in range(20):
            t = GEN[f](r)
            p = r.random()
            if p < .45:
                t = mutate(r, t, EDIT[f])
            elif p < .5:
                t = r.choice(STRAY)
            elif p < .53:
                t = GEN[r.choice(sorted(GEN))](r)
            strs.append(t)
    s.flang(f, strs)
    # other values are accepted, and alike by schemas compiled in any way
    g = __import__("gen").Gen(r, 7)
    for _ in range(3):
        v = g.value(1)
        while isinstance(v, str):
            v = g.value(1)
        s.op(dict(op="fis", name=f, src=s.src(v)), dict(op="fis", name=f, v=s.enc(v)))
    s.re.setdefault("", ["cat", []])
    return s


def edits(f, t):
    """all strings at distance one"""
    al = EDIT[f]
    out = {t}
    for i in range(len(t) + 1):
        for c in al:
            out.add(t[:i] + c + t[i:])
            if i < len(t):
                out.add(t[:i] + c + t[i + 1:])
        if i < len(t):
            out.add(t[:i] + t[i + 1:])
    return sorted(out)


EXACT = {"date": ["2024-02-29"], "time": ["23:59:59.5Z", "00:00:00+01:30"], "date-time": ["2024-02-29T23:59:59.5-01:30"], "ipv4": ["192.0.255.1", "10.20.30.249"], "ipv6": ["1::ffff:1.2.3.4", "1:2:3:4:5:6:7:8", "::1"],
         "hostname": ["a-b.c1"], "uuid": [UUID], "json-pointer": ["/a~0b//~1"], "relative-json-pointer": ["10#", "1/a~1b"], "email": ["a.b@c.d"], "idn-email": ["é.b@c.é"],
         "uri": ["http://u@a.b:80/c%41?d#e"], "uri-reference": ["//a:80/c%41?d#e", "a/b"], "iri": ["http://a/é?ü#ö"], "iri-reference": ["/é"], "uri-template": ["http://a/{b,c*}{?q}"]}


def edit_sessions(rng):
    ss = []
    for f in sorted(EXACT):
        for t in EXACT[f]:
            es = edits(f, t)
            for i in range(0, len(es), 60):
                s = Session(rng, [])
                s.flang(f, es[i:i + 60])
                s.re[""] = ["cat", []]
                ss.append(s)
        s = Session(rng, [])
        s.flang(f, STRAY)
        s.re[""] = ["cat", []]
        ss.append(s)
    return ss


@prop
def c18(out, rng):
    exe = run.build()
    replay_languages(out, exe, explored(out, 0 if out.tier == "quick" else 1))
    if out.violations:
        return
    conform(out, edit_sessions(rng), exe)
    n = amount(out, 1500, 40000)
    while n > 0 and not out.violations:
        conform(out, [language_session(rng) for _ in range(min(n, 4000))], exe)
        n -= 4000
