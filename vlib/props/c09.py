from datetime import datetime

from vlib import gen, model
from vlib.lib import INVALID, Attribute, Invalid, TYPES, build_attr, issue_set, plain, same_data

RULE = (
    "values of every JSON kind, valid and near-valid literals of every SCIM type, given to every "
    "type and to single and multi-valued attributes of that type; counted by type, direction, "
    "value kind and verdict"
)
ASSUMPTIONS = ["not-a-number and infinities are not JSON and not tried on decimals"]

NEAR = {
    "binary": ["", "YQ==", "YWI=", "YWJj", "YQ", "YQ=", "YR==", "YWJ=", "YWJjZA==", "YWJjZA", "====",
               "Y Q==", "YQ==\n", "é===", "_-8=", "+/8=", "YW=j", "YQ==YQ==", "\u0661\u0661\u0661\u0661"],
    "extref": gen.URLS + gen.NOT_URLS + ["http://[bad", "HTTPS://EXAMPLE.COM", "urn:a:b", "a://b"],
    "datetime": ["2020-01-01T10:00:00Z", "2020-01-01T10:00:00+02:00", "2020-01-01T10:00:00.123456Z",
                 "2020-01-01T10:00:00.5", "2020-13-01T10:00:00Z", "2020-02-30T00:00:00", "2020-01-01T25:00:00Z",
                 "yesterday", "", "10:00", "2020-01-01T10:00:00Zjunk", "01/02/2020", "2011-05-13T04:42:34Z",
                 "2020-01-01 10:00:00", "2020-01-01"],
    "string": ["", " ", "é", "x" * 300, "\u0000", "true", "1"],
    "integer": [0, 1, -1, 2**64, 10**400, 1.0, -3.0, 1e20, 0.5, -0.1, True, False, "1", 1.0000000001,
                float("inf"), float("-inf"), float("nan")],
    "decimal": [0, 1, -1, 2**64, 10**400, -(10**400), 1.0, 0.5, True, False, "1.5", 1e308],
    "boolean": [True, False, 0, 1, "true", "false", "", None, 1.0],
}


def kind(value):
    return type(value).__name__


def some_url(rng):
    return (
        rng.choice(["https", "http", "ftp", "a", "x+y-z.1", "HTTP", "", "", "1a", "h_p", "http:", "urn:x"])
        + rng.choice(["://", "://", "://", "//", ":/", ":", "/", "", ":///", ";//", "::/"])
        + rng.choice(["example.com", "h", "h:80", "u@h", "u:p@h.x:1", "127.0.0.1", ":1", "@", "", "", "."])
        + rng.choice(["", "/", "/x", "/x/y?q=1#f", "?q", "#f", "//x", "/x:y@z"])
    )


def some_value(rng, type_, mode):
    if type_ == "extref" and rng.random() < 0.4:
        return some_url(rng)
    if type_ in ("extref", "binary", "datetime") and rng.random() < 0.25:
        value = gen.valid_scalar(rng, {"type": type_}, "parse")
        return gen.near(rng, value)
    r = rng.random()
    if r < 0.35:
        return gen.valid_scalar(rng, {"type": type_}, mode)
    if r < 0.65:
        return rng.choice(NEAR.get(type_, NEAR["string"]))
    if r < 0.75:
        return gen.date_time(rng)
    if r < 0.85:
        return rng.choice(NEAR[rng.choice(sorted(NEAR))])
    return gen.json_value(rng, 2)


def usable(type_, value):
    if type_ == "extref" and isinstance(value, str) and any(c.isspace() or c < " " or c > "~" for c in value):
        return False  # whether such text is a URL is not settled
    if type_ == "decimal" and isinstance(value, float) and (value != value or abs(value) == float("inf")):
        return False
    return True


def library_view(value):
    """Complex JSON values reach attributes as containers; types only see scalars and containers."""
    return value


def single(ctx, index):
    rng = ctx.rng
    type_ = rng.choice(sorted(set(gen.SIMPLE_TYPES)))
    mode = rng.choice(["parse", "dump"])
    value = some_value(rng, type_, mode)
    if not usable(type_, value):
        return
    ctx.sample((type_, mode, value))
    cls = TYPES[type_]
    result, issues = ctx.call(f"{mode}", getattr(cls, mode), value)
    fits, expected, code = model.check_type(type_, value, mode)
    found = issue_set(issues)
    if fits:
        ctx.same(found, set(), "fitting value is reported", type=type_, mode=mode, value=value)
        ctx.expect(same_data(plain(result), expected), "value was changed", type=type_, mode=mode,
                   value=value, result=result, expected=expected)
        ctx.seen("fits")
        back = "dump" if mode == "parse" else "parse"
        again, issues = ctx.call(back, getattr(cls, back), result)
        ctx.same(issue_set(issues), set(), "value does not survive a round trip", type=type_, value=value)
        final, issues = ctx.call(mode, getattr(cls, mode), again)
        ctx.same(issue_set(issues), set(), "value does not survive a round trip", type=type_, value=value)
        ctx.expect(same_data(plain(final), plain(result)), "round trip changes the value", type=type_,
                   value=value, first=result, second=final)
    else:
        ctx.expect(result is Invalid, "unfit value is not replaced by the invalid marker", type=type_,
                   mode=mode, value=value, result=result)
        ctx.same(found, {((), code)}, "unfit value is reported wrongly", type=type_, mode=mode, value=value)
        ctx.seen("unfit")
    ctx.sig("single", type_, mode, kind(value), fits, str(value)[:12])


def attribute(ctx, index):
    """Single and multi-valued attributes: each item judged alone, at its own position."""
    rng = ctx.rng
    type_ = rng.choice(sorted(set(gen.SIMPLE_TYPES)))
    mode = rng.choice(["parse", "dump"])
    multi = rng.random() < 0.7
    spec = {"name": "x", "type": type_, "multi": multi}
    attr = build_attr(spec)
    r = rng.random()
    if multi and r < 0.8:
        value = [some_value(rng, type_, mode) for _ in range(gen.few(rng, 0, 5, 20))]
        if rng.random() < 0.5:
            value = [gen.valid_scalar(rng, spec, mode) for _ in range(gen.few(rng, 1, 6, 20))]
            if rng.random() < 0.6:
                value[rng.randrange(len(value))] = some_value(rng, type_, mode)
    elif r < 0.9:
        value = some_value(rng, type_, mode)
    else:
        value = rng.choice([None, [], [None], (), {}, "", 0, {"value": 1}])
    items = value if isinstance(value, list) else [value]
    if not all(usable(type_, v) for v in items) or isinstance(value, tuple):
        return
    given = list(value) if isinstance(value, list) else value
    result, issues = ctx.call(mode, getattr(attr, mode), value)
    expected, expected_issues = model.process_attr(spec, value, mode)
    ctx.same(issue_set(issues), expected_issues, "items are reported wrongly", type=type_, mode=mode,
             multi=multi, value=value)
    ctx.expect(same_data(plain(result), plain(expected)), "value was changed", type=type_, mode=mode,
               multi=multi, value=value, result=plain(result), expected=expected)
    ctx.expect(typed_equal(value, given), "given value was modified", value=value, before=given)
    ctx.seen("multi" if multi else "not_multi")
    if expected is INVALID or expected_issues:
        ctx.seen("attr_rejected")
    elif value is None:
        ctx.seen("null")
    ctx.sig("attr", type_, mode, multi, tuple(sorted(expected_issues)), len(items))


def typed_equal(a, b):
    return same_data(a, b)


STREAMS = {"single": (single, 60000, 800000), "attribute": (attribute, 40000, 500000)}
FLOORS = {"fits": 10000, "unfit": 10000, "multi": 10000, "attr_rejected": 3000, "null": 100}
