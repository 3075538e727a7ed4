"""The vocabularies of the exhaustive explorations"""
import itertools

from jsonv import Num, dumps
from mc import Group

N = Num


def chr_(c):
    return ["chr", ord(c)]


def cat(*xs):
    return ["cat", [chr_(x) if isinstance(x, str) else x for x in xs]]


BOL, EOL, DOT = ["bol"], ["eol"], ["any"]
STAR = lambda r: ["rep", 0, -1, r]
RE = {"^a": cat(BOL, "a"), "^a$": cat(BOL, "a", EOL), "b": cat("b"), "a": cat("a"), "b$": cat("b", EOL), "^[ab]*$": cat(BOL, STAR(["set", False, [[97, 98]]]), EOL),
      "": ["cat", []], "a.b": cat("a", DOT, "b"), "a|b": ["alt", [cat("a"), cat("b")]], "^": cat(BOL)}
BOOL = ["self", "not", "notnot", "all1", "any1", "one1", "ref", "deepref", "allOf", "anyOf", "oneOf", "one3", "then", "else", "thenelse", "any-all", "not-any"]


def scalar(drafts):
    """numbers in all notations, against all limits and types"""
    lims = ["-1", "0", "1", "1.5", "2", "10"]
    atoms = [{k: N(v)} for k in ("minimum", "maximum") for v in lims]
    atoms += [{"type": t} for t in ("integer", "number", "string", "null", ["integer", "string"], ["boolean", "null"], ["number", "array", "object"])]
    atoms += [{"multipleOf": N(v)} for v in ("1", "0.5", "3", "0.1", "1e-3")]
    atoms += [{"exclusiveMinimum": N("1")}, {"exclusiveMaximum": N("1.5")}, {"exclusiveMinimum": True}, {"exclusiveMaximum": True}, {"exclusiveMaximum": False}]
    insts = ["0", "-0", "0.0", "0e5", "1", "1.0", "1.00", "1e0", "10e-1", "0.1e1", "1E+0", "1.5", "15e-1", "1.50", "2", "2.0", "20e-1", "-1", "-1.0", "-10e-1", "1.5000000000000000000001",
             "0.9999999999999999999999", "1e-30", "1e30", "10", "1e1", "1.0e1", "0.3", "3e-1", "0.7", "0.001", "9007199254740993", "-1e-30", "3", "100000000000000000000000000000000000000001",
             "1e305", "1.5e306", "1e308", "1e309", "-1e400", "1e-308", "5e-324", "1e-400", "2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "18446744073709551616", "1.0e19",
             "null", "true", '"1"', '""', "[]", "[1]", "{}"]
    return Group("numbers", drafts, ["self", "not", "both"], atoms, insts)


def limits(drafts):
    """all ways to limit a number from both sides at once, in every draft"""
    atoms = []
    for lo, hi, xl, xh, m in itertools.product([None, "0"], [None, "2"], [None, True, False, "0", "-1"], [None, True, False, "2", "3"], [None, "2"]):
        o = {}
        for k, v in (("minimum", lo), ("maximum", hi), ("exclusiveMinimum", xl), ("exclusiveMaximum", xh), ("multipleOf", m)):
            if v is not None:
                o[k] = N(v) if isinstance(v, str) else v
        if o:
            atoms.append(o)
    return Group("limits", drafts, ["self"], atoms, ["-2", "-1", "-0.5", "0", "0.5", "1", "2", "2.5", "3", "4"])


def strings(drafts):
    atoms = [{"minLength": N(n)} for n in range(5)] + [{"maxLength": N(n)} for n in range(5)] + [{"pattern": p} for p in RE] + [{"type": "string"}, {"format": "ipv4"}, {"enum": ["a", "é"]}]
    words = ["".join(w) for n in range(4) for w in itertools.product("ab\u00e9", repeat=n)] + ["\U0001F600", "a\U0001F600b", "ab\n", "\nab", "e\u0301", "aaaaa", "\u2028", "a\nb"]
    return Group("strings", drafts, ["self", "not", "both"], atoms, [dumps(w) for w in words] + ["null", "3", "[\"a\"]", "{\"a\":1}", "true"], RE)


VALUES = ["null", "true", "false", "0", "-0", "0.0", "1", "1.0", "10", "1e1", "0.1", "1e-1", '"1"', '""', '"a"', '"\\u0061"', '"A"', '"null"', '"<"', '"\\\\u003c"', '"é"', '"e\\u0301"', "[]", "[null]", "[[]]", "[0]", "[0.0]",
          '["0"]', "[1,2]", "[2,1]", "[1,2,2]", "[[1],2]", "[[1,2]]", "{}", '{"a":1}', '{"a":1.0}', '{"a":"1"}', '{"A":1}', '{"b":1}', '{"a":1,"b":2}', '{"b":2,"a":1}', '{"a":2,"b":1}', '{"a":{"b":1}}',
          '{"a":{"b":1.0}}', '{"a":null}', '{"a":[]}', '{"a":{}}', '{"":1}', "9007199254740993", "9007199254740992", "9007199254740993.0", "1e400", "10e399", "1e-400", "123456789012345678901234567890",
          "123456789012345678901234567891", "0.1000000000000000000001", '{"a":1,"b":[{"c":0.0}]}', '{"b":[{"c":0}],"a":1.0}']


def equality(drafts):
    import jsonv
    vs = [jsonv.parse(t) for t in VALUES]
    atoms = [{"const": v} for v in vs] + [{"enum": [v]} for v in vs] + [{"enum": [None, v, "zzz"]} for v in vs if v is not None and v != "zzz"]
    insts = VALUES
    return Group("equality", drafts, ["self"], atoms, insts)


def pairs():
    """uniqueItems on all pairs of values"""
    ts = ["[%s,%s]" % p for p in itertools.product(VALUES, repeat=2)] + ["[%s,5,[7],%s]" % p for p in itertools.product(VALUES[::2], repeat=2)]
    return Group("pairs", [7], ["self", "items"], [{"uniqueItems": True}, {"uniqueItems": False}], ts + ["[[1,1],[2]]", "[[1,2],[1,2]]"], laws=False)


def arrays(drafts, big):
    elem = [{"type": "integer"}, {"minimum": N(2)}, {"enum": ["a", N(1)]}, {}, {"not": {}}]
    kws = [{"items": {"type": "integer"}}, {"items": [{"type": "integer"}]}, {"items": [{}, {"type": "string"}]}, {"additionalItems": False}, {"additionalItems": {"type": "string"}}, {"minItems": N(1)}, {"minItems": N(2)},
           {"maxItems": N(1)}, {"maxItems": N(2)}, {"uniqueItems": True}, {"contains": {"minimum": N(2)}}, {"contains": {}}]
    if big:
        elem += [True, False, {"type": "array"}, {"const": N(1)}]
        kws += [{"items": {"minimum": N(2)}}, {"items": [{"type": "string"}, {"type": "integer"}, {"minimum": N(2)}]}, {"additionalItems": {"enum": [N(1), "a"]}}, {"maxItems": N(0)}, {"contains": {"type": "string"}}, {"additionalItems": True}]
    base = ["1", "2", '"a"', "null"] + (["[]", "false"] if big else [])
    insts = ["[%s]" % ",".join(p) for n in range(4) for p in itertools.product(base, repeat=n)] + ["[1,1.0]", "[2,2,2,2]", "[1,false]", "[1,2,0]", '["a",1,""]', "[2,{}]", "[1,2,[]]", "[{}]", "[false]", '[""]', '["a","a","a",2]', "null", "1", '"a"', "{}", '{"0":1}', "true"]
    return Group("arrays", drafts, ["self", "not", "items", "contains", "tuple", "tuple+", "contains+", "both"], elem + kws, insts)


def objects(drafts, big):
    val = [{"type": "integer"}, {"enum": ["x", N(1), None]}, {}, {"not": {}}]
    kws = [{"properties": {"a": {"type": "integer"}}}, {"properties": {"b": {"not": {}}}}, {"patternProperties": {"^a": {"type": "string"}}}, {"patternProperties": {"b": {"type": "integer"}, "^a": {}}}, {"additionalProperties": False},
           {"additionalProperties": {"type": "integer"}}, {"required": ["a"]}, {"required": ["b", "ab"]}, {"minProperties": N(1)}, {"minProperties": N(2)}, {"maxProperties": N(1)}, {"maxProperties": N(2)}, {"dependencies": {"a": ["b"]}},
           {"dependencies": {"a": {"required": ["ab"]}}}, {"dependencies": {"b": ["a", "ab"], "ab": {"maxProperties": N(1)}}}, {"propertyNames": {"pattern": "^a"}}, {"propertyNames": {"maxLength": N(1)}}, {"type": "object"}]
    if big:
        val += [True, False, {"type": "string"}]
        kws += [{"propertyNames": False}, {"additionalProperties": True}, {"patternProperties": {"": {"type": "integer"}}}, {"properties": {"a": {}, "ab": {"type": "string"}}}, {"minProperties": N(3)}, {"dependencies": {"ab": []}}]
    names = ["a", "b", "ab"]
    insts = []
    for p in itertools.product([None, "1", '"x"', "null"], repeat=3):
        insts.append("{%s}" % ",".join('"%s":%s' % (n, v) for n, v in zip(names, p) if v))
    insts += ['{"":1}', '{"c":1}', "null", "1", '"a"', "[]", '["a"]', "true"]
    return Group("objects", drafts, ["self", "properties", "patternProperties", "additionalProperties", "propertyNames", "dependency", "props", "props+", "pattern+", "props-pattern", "deps", "both"], val + kws, insts, RE)


def combinators(drafts, big):
    atoms = [{"type": "integer"}, {"minimum": N(2)}, {"maxLength": N(1)}, {"not": {"type": "string"}}, {"enum": [N(1), "ab", None]}, {}, {"required": ["a"]}, {"items": {"type": "integer"}}, {"anyOf": [{"type": "string"}, {"minimum": N(1)}]}]
    atoms += [True, False]
    if big:
        atoms += [{"allOf": [{"type": "number"}, {"maximum": N(1)}]}, {"oneOf": [{"type": "integer"}, {"minimum": N(2)}]}, {"if": {"type": "string"}, "then": {"minLength": N(2)}}, {"if": True, "else": False}, {"not": True}, {"type": ["null", "array"]},
                  {"properties": {"a": False}}, {"const": N(1)}]
    insts = ["null", "true", "0", "1", "1.5", "2", '""', '"a"', '"ab"', "[]", "[1]", '["a"]', "{}", '{"a":1}']
    return Group("combinators", drafts, BOOL + ["both"], atoms, insts)


def alternatives(drafts, big):
    """schemas that fail in several ways, at several depths, as alternatives of each other"""
    atoms = [{"type": "object"}, {"type": "string"}, {"required": ["a", "b"]}, {"properties": {"a": {"type": "integer", "minimum": N(2)}}}, {"properties": {"a": {"type": "object"}, "b": {"enum": [N(1)]}}},
             {"properties": {"a": {"properties": {"a": {"type": "integer"}}}}}, {"items": {"type": "integer"}}, {"additionalProperties": False}, {"type": "object", "properties": {"a": {"type": "integer"}}, "required": ["b"]},
             {"type": "object", "properties": {"a": {"type": "integer"}}, "additionalProperties": False}, {"maxLength": N(0)}, {"type": "array", "minItems": N(2)}, {"enum": ["a", "b"]}, {}]
    if big:
        atoms += [{"anyOf": [{"type": "integer"}, {"required": ["c"]}]}, {"oneOf": [{"required": ["c"]}, {"required": ["c"], "type": "object"}]}, {"allOf": [{"type": "string"}, {"minLength": N(3)}]}, {"items": [{"type": "object"}, {"minimum": N(2)}]},
                  {"not": {"type": "object"}}, {"const": N(1)}, {"contains": {"type": "integer"}}, {"propertyNames": {"maxLength": N(0)}}, False]
    insts = ["null", "1", '"a"', '"abc"', "[]", "[1]", '["a",{}]', "{}", '{"a":1}', '{"a":"x"}', '{"b":1}', '{"a":1,"b":2}', '{"a":"x","b":2}', '{"a":{"a":"x"}}', '{"a":{"a":1},"b":1}', '{"a":[],"b":2,"c":3}', '{"c":1}']
    forms = ["anyOf", "oneOf", "any3", "one3", "anyone", "deepany"] + (["contains", "contains+", "any-all", "one1", "any1", "dependency", "then", "else", "items", "properties"] if big else ["contains"])
    return Group("alternatives", drafts, forms, atoms, insts, laws=True)


def drafts_(big):
    """all that the drafts do not agree on"""
    atoms = [{"const": N(1)}, {"contains": {"type": "integer"}}, {"propertyNames": {"maxLength": N(1)}}, {"if": {"type": "integer"}, "then": {"minimum": N(2)}}, {"if": {"type": "integer"}, "else": {"type": "array"}}, {"then": False}, {"else": False},
             {"minimum": N(1), "exclusiveMinimum": True}, {"minimum": N(1), "exclusiveMinimum": False}, {"exclusiveMinimum": N(1)}, {"maximum": N(1), "exclusiveMaximum": True}, {"exclusiveMaximum": N(1)}, {"exclusiveMaximum": False},
             {"minimum": N(0), "exclusiveMinimum": N(1)}, {"maximum": N(2), "exclusiveMaximum": N(2)}, True, False, {"not": False}, {"items": True}, {"items": [True, False]}, {"properties": {"a": False}}, {"additionalProperties": False},
             {"additionalItems": False, "items": [{}]}, {"dependencies": {"a": True}}, {"dependencies": {"a": False}}, {"contains": N(1)}, {"const": {"$ref": "#/none"}}, {"propertyNames": N(1)}, {"if": N(1)}, {"then": "x"}, {"else": None},
             {"contains": True}, {"propertyNames": False}, {"if": True, "then": False}, {"type": "integer"}, {"id": N(1)}, {"$id": N(1)}, {"$id": "#x"}, {"id": "#x"}, {"patternProperties": {"a": True}}, {"definitions": {"q": True}}, {"definitions": {"q": N(1)}}]
    insts = ["null", "0", "1", "1.0", "1.5", "2", '"a"', '"ab"', "[]", "[1]", '["a"]', "[1,2]", "{}", '{"a":1}', '{"ab":1}']
    return Group("drafts", [4, 6, 7, 99], ["self", "not", "ref", "items", "properties"] + (["allOf", "anyOf", "both", "then", "tuple", "props+"] if big else []), atoms, insts, RE)


OPERANDS = ["null", "true", "false", "0", "1", "-1", "2.0", "1.5", "-0.5", "1e400", '""', '"a"', '"integer"', '"("', "[]", "[null]", "[1]", '["a"]', '["a","a"]', '["a","b","a"]', '["integer"]', '["integer","integer"]', '["null","x"]',
            "[{}]", "[{},{}]", "[true]", "[{},1]", '[1,1.0]', '[{"type":"x"}]', "[[]]", "{}", '{"type":"x"}', '{"type":"integer"}', '{"a":1}', '{"a":null}', '{"a":{}}', '{"a":true}', '{"a":[]}', '{"a":["b"]}', '{"a":["b","b"]}', '{"a":["b",1]}',
            '{"a":[{}]}', '{"a":"x"}', '{"(":{}}', '{"minLength":-1}', '{"a":{"minLength":-1}}', '[{"minLength":-1}]', '{"a":{"a":1}}', '{"a":{"type":["a"]}}']
WFKW = ["type", "enum", "required", "multipleOf", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties", "pattern", "patternProperties", "format",
        "uniqueItems", "additionalItems", "additionalProperties", "items", "properties", "definitions", "dependencies", "allOf", "anyOf", "oneOf", "contains", "propertyNames", "not", "if", "then", "else", "const", "title", "description",
        "unknown", "default", "examples", "Type", "$comment"]


def wellformed(big):
    import jsonv
    re_ = {"(": ["bad"]}
    import rx
    for t in ("", "a", "integer", "b", "x", "type", "minLength"):
        re_[t] = cat(*t)
    atoms = [{k: jsonv.parse(o)} for k in WFKW for o in OPERANDS]
    forms = ["self", "items", "properties", "ref", "any1", "not"]
    if big:
        forms += ["contains", "patternProperties", "additionalProperties", "propertyNames", "dependency", "all1", "one1", "deepref"]
    g = [Group("operands", [4, 6, 7, 99], forms, atoms, ["null"], dict(RE, **re_), laws=False)]
    lim = [{k: N(v)} for k in ("minLength", "maxLength", "minProperties", "maxProperties", "minItems", "maxItems", "minimum", "maximum") for v in ("0", "1", "2", "1.0", "1e400")]
    lim += [{k: v} for k in ("exclusiveMinimum", "exclusiveMaximum") for v in (True, False, N("1"))]
    g.append(Group("limits", [4, 6, 7, 99], ["both"], lim, ["null", "1", '"a"'], RE, laws=True))
    # one element or member among good ones
    bad = [None, True, N(1), "x", "", {}, [], {"type": "x"}, ["b"], ["b", "b"]]
    el = []
    for t in ("null", "boolean", "integer", "number", "string", "array", "object"):
        for b in bad[:7] + ["string", "number"]:
            el += [{"type": [t, b]}, {"type": [b, t]}]
    for b in bad[:7] + ["a", "c"]:
        el += [{"required": x} for x in ([b, "a", "b"], ["a", b, "b"], ["a", "b", b])]
        el += [{"enum": x} for x in ([b, "a", None], [None, "a", b], ["a", b, N("1.0"), [], {}])]
        el += [{"dependencies": {"p": x}} for x in ([b, "a", "b"], ["a", "b", b])]
    for b in bad:
        el += [{k: x} for k in ("allOf", "anyOf", "oneOf", "items") for x in ([b, {}, {"type": "string"}], [{}, b, {}], [{"type": "string"}, {"$ref": "#"}, b] if k == "items" else [{"type": "string"}, b])]
        el += [{k: x} for k in ("properties", "patternProperties", "definitions", "dependencies") for x in ({"a": b, "b": {}}, {"a": {}, "b": b, "x": {"type": "string"}})]
        el += [{"items": [{}], "additionalItems": b}, {"items": {}, "additionalItems": b}, {"properties": {"a": {}}, "additionalProperties": b}]
    g.append(Group("elements", [4, 6, 7, 99], ["self", "items"], el, ["null"], dict(RE, **re_), laws=False))
    return g
