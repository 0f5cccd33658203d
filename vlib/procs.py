"""Custom value processors of attributes: what each does, as data, for both the model and the real code.

A processor is {"tag", "kind", "place"}; places are "value" (parsers and dumpers of an attribute), "raw" (those of
a complex attribute, before its sub-attributes) and "whole" (complex parsers and dumpers, after them).
"""
from vlib.lib import INVALID

CODE = 11  # of the issues that processors report
MODEL = None  # what the processors should be given: a list while watched
REAL = None  # what they were given


def normal(value):
    """Text of a value, in which letter case and order of keys do not matter."""
    if isinstance(value, dict):
        found = {}
        for k, v in value.items():
            found[str(k).lower()] = normal(v)
        return "{" + ",".join(f"{k}:{v}" for k, v in sorted(found.items())) + "}"
    if isinstance(value, (list, tuple)):
        return "[" + ",".join(normal(v) for v in value) + "]"
    return f"{type(value).__name__}:{value!r}"


def mark(tag, value):
    if isinstance(value, list):
        return [mark(tag, v) for v in value]
    return f"{tag}<{value!r}>"[:200]


def items(value, change):
    return [change(v) for v in value] if isinstance(value, list) else change(value)


def apply(processor, value):
    """(new value, is an issue reported, may later ones go on)"""
    kind, tag = processor["kind"], processor["tag"]
    if kind == "invalid":
        return INVALID, True, False
    if kind == "issue":
        return value, True, True
    if kind == "none":
        return None, False, True
    if kind == "mark":
        return mark(tag, value), False, True
    if kind == "drop":
        name = processor["sub"].lower()
        return items(value, lambda v: {k: x for k, x in v.items() if k.lower() != name}), False, True
    if kind == "fewer":
        return value[1:], False, True
    if kind == "stamp":
        return items(value, lambda v: {**v, processor["sub"]: mark(tag, v.get(processor["sub"]))}), False, True
    return value, False, True


def run(chain, value):
    """The model: (value, issues, stopped)"""
    issues, stopped = set(), False
    for processor in chain:
        if MODEL is not None:
            MODEL.append((processor["tag"], normal(value)))
        value, reported, proceeds = apply(processor, value)
        if reported:
            issues.add(((), CODE))
        if not proceeds:
            stopped = True
            break
    return value, issues, stopped


def chain(rng, tag, place, attr):
    """Some processors of one place; only the last one may empty the value."""
    n = rng.choice([0, 0, 1, 1, 2, 3])
    multi = attr.get("multi")
    if place == "value":
        kinds = ["keep", "mark", "mark"] if attr["name"].lower() not in ("primary", "id", "schemas", "meta") else ["keep"]
        last = ["none"]
    elif place == "raw":
        kinds, last = ["keep", "drop"] + (["fewer"] if multi else []), []
    else:
        kinds, last = ["keep", "stamp"], []
    found = []
    for i in range(n):
        pool = list(kinds)
        if i == n - 1 and rng.random() < 0.3:
            pool = last + ["invalid", "invalid"] + (["issue"] if place != "raw" else [])
        elif rng.random() < 0.08:
            pool = ["invalid"] + (["issue"] if place != "raw" else [])
        processor = {"tag": f"{tag}.{i}", "kind": rng.choice(pool), "place": place}
        if processor["kind"] in ("drop", "stamp"):
            names = [s["name"] for s in attr["sub"] if s["name"] != "primary" or processor["kind"] == "drop"]
            if not names:
                processor["kind"] = "keep"
            else:
                processor["sub"] = rng.choice(names)
        found.append(processor)
    return found


def equip(rng, attr, path=""):
    """The attribute, with processors."""
    path = f"{path}{attr['name']}"
    attr = dict(attr)
    place = "raw" if attr["type"] == "complex" else "value"
    if rng.random() < 0.7:
        attr["proc"] = {m: chain(rng, f"{m}:{path}", place, attr) for m in ("parse", "dump")}
    if attr["type"] == "complex":
        attr["sub"] = [equip(rng, s, path + ".") for s in attr["sub"]]
        if rng.random() < 0.7:
            attr["whole"] = {m: chain(rng, f"{m}:{path}*", "whole", attr) for m in ("parse", "dump")}
    return attr


def equip_spec(rng, spec):
    spec = dict(spec, attrs=[equip(rng, a) for a in spec["attrs"]])
    spec["extensions"] = [dict(e, attrs=[equip(rng, a, f"{e['schema']}:") for a in e["attrs"]])
                          for e in spec.get("extensions", [])]
    return spec
