"""Components of URI references for module Uri"""
import re

RFC = re.compile(r'^(?:([A-Za-z][A-Za-z0-9+.-]*):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?$', re.S)


def unpct(s):
    out = bytearray()
    b = s.encode("utf-8")
    i = 0
    while i < len(b):
        if b[i] == 37 and re.match(rb'^[0-9A-Fa-f]{2}$', b[i + 1:i + 3]):
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return out.decode("utf-8", "replace")


def bad(s):
    """strings that are not URI references (only clear-cut cases are ever generated)"""
    if any(ord(c) < 32 or ord(c) == 127 for c in s):
        return True
    if re.search(r'%(?![0-9A-Fa-f]{2})', s):
        return True
    # a colon in the first segment that does not follow a scheme
    first = re.split(r'[/?#]', s, maxsplit=1)[0]
    if ":" in first and not re.match(r'^[A-Za-z][A-Za-z0-9+.-]*:', first):
        return True
    return False


NOURI = dict(bad=True, sch="", au="", abs=False, segs=[], q="", f=["none"])


def parse(s):
    if bad(s):
        return NOURI
    sch, au, path, q, f = RFC.match(s).groups()
    fr = ["none"]
    if f:
        f = unpct(f)
        if f.startswith("/"):
            fr = ["ptr", [t.replace("~1", "/").replace("~0", "~") for t in f[1:].split("/")]]
        else:
            fr = ["name", f]
    segs = path.split("/")
    isabs = path.startswith("/")
    if isabs:
        segs = segs[1:]
    elif path == "":
        segs = []
    return dict(bad=False, sch=(sch or "").lower(), au=au or "", abs=isabs, segs=segs, q=q or "", f=fr)


def base_of(s):
    u = parse(s)
    return dict(sch=u["sch"], au=u["au"], abs=u["abs"], segs=u["segs"], q=u["q"])
