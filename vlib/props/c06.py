from vlib import gen, model
from vlib.filters import name_ok, split_name as split
from vlib.lib import AttrRep, Invalid, PatchPath, build_schema, rep_of

RULE = (
    "attribute names assembled from parts or mutated, and lookups of every name of generated and "
    "built-in schemas in several spellings; counted by shape of the name and kind of outcome"
)
ASSUMPTIONS = []
SEGMENTS = ["urn", "ietf", "2.0", "core-x", "User", "a_b", "x.y-z", "and"]
ATTRS = ["userName", "a", "x_1", "or", "Not", "é1", "$ref", "1a", "_"]
JUNK = ["", " ", ":", ".", "..", "::", "$", "$re", "a b", "a-b", "a\n", "[", "]", '"', "é é", "a:b", "a/b", "$refs", "x$ref"]


def random_parts(rng):
    schema = ":".join(rng.choice(SEGMENTS) for _ in range(rng.choice([0, 0, 1, 2, 5])))
    attr = gen.recase_text(rng, rng.choice(ATTRS))
    sub = gen.recase_text(rng, rng.choice(ATTRS)) if rng.random() < 0.5 else ""
    return schema, attr, sub


def join(parts):
    schema, attr, sub = parts
    return (schema + ":" if schema else "") + attr + ("." + sub if sub else "")


def split_as_written(ctx, kind, text):
    expected = split(text)
    result = ctx.call("parse", AttrRep.parse, text)
    if expected is None:
        ctx.expect(result is Invalid, "text that is not an attribute name was accepted",
                   text=text, result=result)
        ctx.seen("rejected")
    else:
        ctx.expect(result is not Invalid, "attribute name was rejected", text=text)
        ctx.same(rep_of(result), expected, "attribute name was split wrongly", text=text)
        ctx.same(result.attr_with_schema, expected[0] + ":" + expected[1] if expected[0] else expected[1],
                 "attr_with_schema is wrong", text=text)
        ctx.same(result.extension, False, "parsed name claims to come from an extension", text=text)
        ctx.seen("accepted")
    ctx.sig("parse", kind, expected is None, bool(expected and expected[0]), bool(expected and expected[2]), len(text))


def parse(ctx, index):
    rng = ctx.rng
    parts = random_parts(rng)
    text = join(parts)
    kind = "valid"
    if rng.random() < 0.6:
        kind = rng.choice(["insert", "delete", "junk", "append", "double"])
        at = rng.randint(0, len(text))
        if kind == "insert":
            text = text[:at] + rng.choice(JUNK) + text[at:]
        elif kind == "delete":
            text = text[:at] + text[at + 1 :]
        elif kind == "junk":
            text = rng.choice(JUNK)
        elif kind == "append":
            text = rng.choice([text + rng.choice(JUNK), rng.choice(JUNK) + text])
        else:
            text = text + "." + join(random_parts(rng))
    ctx.sample(text)
    split_as_written(ctx, kind, text)
    alike = gen.twin(rng, text)
    if alike != text:
        split_as_written(ctx, "twin", alike)
        split_as_written(ctx, kind, text)
        ctx.seen("twins")
    construct(ctx, rng)


def construct(ctx, rng):
    """Names built from parts obey the same rules."""
    parts = list(random_parts(rng))
    if rng.random() < 0.5:
        parts[rng.randrange(3)] = rng.choice(JUNK)
    schema, attr, sub = parts
    if ":" in sub or ":" in attr:
        return  # only the text form settles where a URN ends
    extension = rng.random() < 0.3
    valid = (
        name_ok(attr)
        and (not sub or name_ok(sub))
        and (not schema or split(f"{schema}:a") == (schema, "a", ""))
        and (schema or not extension)
    )
    try:
        rep = AttrRep(schema=schema, attr=attr, sub_attr=sub, extension=extension)
    except ValueError:
        ctx.expect(not valid, "valid name can not be constructed", parts=parts, extension=extension)
    else:
        ctx.expect(valid, "invalid name can be constructed", parts=parts, extension=extension)
        ctx.same(rep_of(rep), tuple(parts), "constructed name has other parts")
        ctx.same(rep.extension, extension, "constructed name has other extension flag")


def variant(rng, parts):
    out = list(parts)
    for i in range(3):
        r = rng.random()
        if r < 0.5:
            out[i] = gen.recase_text(rng, out[i])
        elif r < 0.7:
            out[i] = random_parts(rng)[i]
        elif r < 0.8 and i != 1:
            out[i] = ""
    return tuple(out)


def equality(ctx, index):
    rng = ctx.rng
    a = random_parts(rng)
    b = variant(rng, a)
    left = ctx.call("parse", AttrRep.parse, join(a))
    right = ctx.call("parse", AttrRep.parse, join(b))
    expected = model.rep_equal(a, b)
    for x, y in [(left, right), (right, left)]:
        ctx.same(ctx.call("eq", lambda: x == y), expected, "names compare wrongly", a=a, b=b)
        ctx.same(ctx.call("ne", lambda: x != y), not expected, "names compare wrongly (!=)", a=a, b=b)
        top = a[1].lower() == b[1].lower() and (
            not a[0] or not b[0] or a[0].lower() == b[0].lower()
        )
        ctx.same(x.top_level_equals(y), top, "top-level comparison is wrong", a=a, b=b)
    ctx.same(left == join(a), False, "a name equals plain text")
    ctx.same([left] == [AttrRep.parse(join(a))], True, "a name does not equal itself", a=a)
    ctx.seen("equal" if expected else "different")
    ctx.sig("eq", expected, bool(a[0]), bool(b[0]), bool(a[2]), bool(b[2]), a[1].lower() == b[1].lower())


def same_attr(ctx, attr, urn, spec, top, sub, how):
    ctx.expect(attr is not None, "defined attribute is not found", how=how, name=(urn, top["name"]))
    expected = (urn or spec["schema"], top["name"], sub["name"] if sub else "")
    ctx.same(rep_of(attr.rep), expected, "another attribute was found", how=how)
    ctx.same(attr.rep.extension, urn is not None, "wrong namespace of the attribute", how=how)
    definition = sub or top
    ctx.same(attr.multi_valued, definition.get("multi", False), "another attribute was found", how=how)
    ctx.same(attr.required, definition.get("required", False), "another attribute was found", how=how)


def near_urn(rng, urn):
    text = gen.near(rng, urn)
    return text if split(text + ":a") == (text, "a", "") else "urn:other"


def lookup(ctx, index):
    rng = ctx.rng
    spec = gen.some_spec(rng)
    schema = build_schema(spec)
    attrs = model.all_attrs(spec)
    first = {}
    for urn, top in attrs:
        first.setdefault(top["name"].lower(), (urn, top))
    for urn, top in attrs:
        for sub in [None] + list(top.get("sub", [])):
            if rng.random() < 0.5:
                continue
            schema_urn = urn or spec["schema"]
            tail = gen.recase_text(rng, top["name"]) + (
                "." + gen.recase_text(rng, sub["name"]) if sub else ""
            )
            qualified = gen.recase_text(rng, schema_urn) + ":" + tail
            rep = ctx.call("parse", AttrRep.parse, qualified)
            same_attr(ctx, ctx.call("get", schema.attrs.get, rep), urn, spec, top, sub, qualified)
            # unqualified names find the first definition that has the whole name
            candidates = [
                (u, t, s)
                for u, t in attrs
                if t["name"].lower() == top["name"].lower()
                for s in ([None] if sub is None else t.get("sub", []))
                if s is None or s["name"].lower() == sub["name"].lower()
            ]
            found = ctx.call("get", schema.attrs.get, ctx.call("parse", AttrRep.parse, tail))
            same_attr(ctx, found, *_args(spec, candidates[0]), tail)
            if len(candidates) > 1:
                ctx.seen("shared_name")
            # attribute access
            if "__" not in top["name"] and not (sub and "__" in sub["name"]):
                key = tail.replace(".", "__")
                same_attr(ctx, ctx.call("getattr", getattr, schema.attrs, key), *_args(spec, candidates[0]), key)
            # patch path
            path, issues = ctx.call("path", PatchPath.parse, qualified)
            ctx.expect(path is not Invalid, "path of a defined attribute is rejected", path=qualified)
            same_attr(ctx, ctx.call("get_by_path", schema.attrs.get_by_path, path), urn, spec, top, sub, qualified)
            path, issues = ctx.call("path", PatchPath.parse, tail)
            same_attr(ctx, ctx.call("get_by_path", schema.attrs.get_by_path, path), *_args(spec, candidates[0]), tail)
            # another URN
            other = rng.choice(["urn:no:such", near_urn(rng, schema_urn), schema_urn + "x", "x" + schema_urn, schema_urn + ":x",
                                *[e["schema"] for e in spec.get("extensions", [])], spec["schema"]])
            known = [
                (u, t) for u, t in attrs
                if (u or spec["schema"]).lower() == other.lower() and t["name"].lower() == top["name"].lower()
                and (sub is None or any(s["name"].lower() == sub["name"].lower() for s in t.get("sub", [])))
            ]
            if not known:
                for text in [other + ":" + tail]:
                    rep = ctx.call("parse", AttrRep.parse, text)
                    ctx.expect(ctx.call("get", schema.attrs.get, rep) is None,
                               "attribute found under a URN that does not define it", name=text)
                    path, issues = ctx.call("path", PatchPath.parse, text)
                    ctx.expect(ctx.call("get_by_path", schema.attrs.get_by_path, path) is None,
                               "path target found under a URN that does not define it", name=text)
                    ctx.seen("foreign_urn")
            ctx.seen("found")
        filtered(ctx, rng, schema, spec, urn, top)
    unknown(ctx, rng, schema, spec, attrs)
    ctx.sig("lookup", spec.get("builtin"), len(attrs), len(spec.get("extensions", [])))


def _args(spec, candidate):
    urn, top, sub = candidate
    return urn, spec, top, sub


def filtered(ctx, rng, schema, spec, urn, top):
    if top["type"] != "complex":
        return
    sub = rng.choice(top["sub"])
    head = gen.recase_text(rng, urn or spec["schema"]) + ":" + gen.recase_text(rng, top["name"])
    target = rng.choice(top["sub"])
    text = f"{head}[{gen.recase_text(rng, sub['name'])} pr]"
    path, _ = ctx.call("path", PatchPath.parse, text)
    same_attr(ctx, ctx.call("get_by_path", schema.attrs.get_by_path, path), urn, spec, top, None, text)
    text += "." + gen.recase_text(rng, target["name"])
    path, _ = ctx.call("path", PatchPath.parse, text)
    same_attr(ctx, ctx.call("get_by_path", schema.attrs.get_by_path, path), urn, spec, top, target, text)
    text = f"{head}[{sub['name']} pr].zzNope"
    path, _ = ctx.call("path", PatchPath.parse, text)
    ctx.expect(ctx.call("get_by_path", schema.attrs.get_by_path, path) is None,
               "unknown sub-attribute of a path is found", path=text)
    ctx.seen("filtered_path")


def unknown(ctx, rng, schema, spec, attrs):
    tops = {t["name"].lower() for _, t in attrs}
    name = rng.choice(["zzz", "user", "i", "alph", "alphaa", "metaa", "_"] + [gen.near(rng, n) for n in sorted(tops)])
    if name.lower() not in tops and name_ok(name) and "__" not in name:
        for text in [name, spec["schema"] + ":" + name, name + ".value", f'{name}[value eq "x"]']:
            path, _ = ctx.call("path", PatchPath.parse, text)
            ctx.expect(ctx.call("get_by_path", schema.attrs.get_by_path, path) is None,
                       "undefined attribute is found", name=text)
            if "[" not in text:
                rep = ctx.call("parse", AttrRep.parse, text)
                ctx.expect(ctx.call("get", schema.attrs.get, rep) is None,
                           "undefined attribute is found", name=text)
        try:
            getattr(schema.attrs, name)
        except AttributeError:
            pass
        else:
            ctx.expect(False, "undefined attribute is found by attribute access", name=name)
    _, top = rng.choice(attrs)
    if not any(s["name"].lower() == "zzz" for s in top.get("sub", [])):
        rep = ctx.call("parse", AttrRep.parse, top["name"] + ".zzz")
        ctx.expect(ctx.call("get", schema.attrs.get, rep) is None, "undefined sub-attribute is found",
                   name=top["name"] + ".zzz")
    ctx.seen("unknown")


STREAMS = {
    "parse": (parse, 40000, 400000),
    "equality": (equality, 30000, 300000),
    "lookup": (lookup, 2500, 40000),
}
FLOORS = {"accepted": 5000, "rejected": 5000, "equal": 2000, "different": 2000, "found": 3000, "foreign_urn": 500, "shared_name": 200}
