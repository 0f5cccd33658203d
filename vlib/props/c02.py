from vlib import filters, gen
from vlib.core import Skip
from vlib.lib import Filter, Invalid, ast_of, issue_list

RULE = (
    "filters rendered from random expression trees with random spacing, operator case, quoting and "
    "redundant brackets; counted by shape of the tree"
)
ASSUMPTIONS = [
    "attributes named and/or/not, nested quotes without surrounding spaces and number forms outside "
    "of JSON are not generated",
    "nesting stays far below the interpreter's recursion limit",
]


def shape(t, depth=3):
    if t[0] in ("and", "or"):
        return (t[0], len(t[1]), tuple(shape(x, depth - 1) for x in t[1]) if depth else ())
    if t[0] == "not":
        return ("not", shape(t[1], depth - 1) if depth else ())
    if t[0] == "complex":
        return ("complex", bool(t[1][0]), shape(t[2], depth - 1) if depth else ())
    return (t[0], bool(t[1][0]), type(filters.untyped(t[2])).__name__ if len(t) > 2 else "")


def size(t):
    if t[0] in ("and", "or"):
        return sum(size(x) for x in t[1])
    if t[0] == "not":
        return size(t[1])
    if t[0] == "complex":
        return size(t[2])
    return 1


def check(ctx, t, text):
    filter_, issues = ctx.call("Filter.parse", Filter.parse, text)
    ctx.same(issue_list(issues), [], "well-formed filter is reported", text=text)
    ctx.expect(filter_ is not Invalid, "well-formed filter gives no filter", text=text)
    ctx.same(ast_of(filter_.operator), t, "filter means something else", text=text)
    exported = ctx.call("to_dict", filter_.to_dict)
    ctx.expect(same_export(exported, filters.as_dict(t)), "exported filter means something else",
               text=text, exported=exported)
    ctx.seen("operands", size(t))
    return filter_


def same_export(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_export(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_export(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def write(rng, t, wild=True):
    try:
        writer = filters.Writer(rng, wild)
        text = writer.write(t)
    except filters.Unspecified:
        raise Skip()
    if wild and rng.random() < 0.2:
        text = writer.space(0) + text + writer.space(0)
    return text


def parse(ctx, index):
    rng = ctx.rng
    t = filters.tree(rng, rng.choice([0, 0, 1, 1, 2, 2, 3]))
    text = write(rng, t, wild=rng.random() < 0.85)
    ctx.sample(text)
    first = check(ctx, t, text)
    # the same filter, written in another way, is the same filter
    second = check(ctx, t, write(rng, t))
    ctx.same(ctx.call("eq", lambda: first == second), True, "equal filters differ", text=text)
    # one that looks alike is read for itself
    other = gen.twin(rng, text)
    try:
        meant = filters.read(other)
    except filters.Unspecified:
        meant = None
    if meant is not None and other != text:
        check(ctx, meant, other)
        check(ctx, t, text)
        ctx.seen("twins")
    ctx.sig(shape(t))


def long_chain(ctx, index):
    """Many operands; repeated strings and repeated sub-expressions in one text."""
    rng = ctx.rng
    strings = rng.sample(filters.STRINGS, 3)
    names = [filters.some_rep(rng, sub=0)[:2] + ("",) for _ in range(2)]

    def operand():
        rep = rng.choice(names)
        r = rng.random()
        if r < 0.5:
            return (rng.choice(["eq", "co", "sw"]), rep, rng.choice(strings))
        if r < 0.7:
            inner = ("or", tuple(("eq", ("", "value", ""), rng.choice(strings)) for _ in range(2)))
            return ("complex", rep, inner)
        if r < 0.85:
            return (rng.choice(["and", "or"]), tuple(
                ("eq", rep, rng.choice(strings)) for _ in range(rng.randint(2, 3))
            ))
        return ("not", (rng.choice(["eq", "ew"]), rep, rng.choice(strings)))

    pool = [operand() for _ in range(4)]
    operands = tuple(
        rng.choice(pool) if rng.random() < 0.6 else operand() for _ in range(rng.randint(5, 25))
    )
    t = (rng.choice(["and", "or"]), operands)
    check(ctx, t, write(rng, t))
    ctx.seen("long")
    ctx.sig("long", t[0], len(operands), tuple(sorted({x[0] for x in operands})))


def deep(ctx, index):
    rng = ctx.rng
    t = filters.leaf(rng, filters.some_rep(rng, sub=0))
    for _ in range(rng.randint(5, 25)):
        r = rng.random()
        other = filters.tree(rng, 0)
        if r < 0.3:
            t = ("not", t)
        else:
            kind = rng.choice(["and", "or"])
            t = (kind, (t, other) if r < 0.6 else (other, t) if r < 0.85 else (other, t, other))
    check(ctx, t, write(rng, t))
    ctx.seen("deep")
    ctx.sig("deep", size(t), t[0])


STREAMS = {
    "parse": (parse, 10000, 150000),
    "long": (long_chain, 1600, 20000),
    "deep": (deep, 1200, 15000),
}
FLOORS = {"operands": 40000, "long": 1000, "deep": 800, "twins": 3000}
