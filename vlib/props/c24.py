from vlib import drive
from vlib.lib import Invalid, Missing, SCIMDataContainer, issue_set, plain

RULE = (
    "calls of every request parser, response dumper, schema and text parser over shared schemas, from well-formed to "
    "hostile arguments; counted by entry point, hostility and set of reported issues"
)
ASSUMPTIONS = [
    "bodies of reads, of create responses without content and of 204 responses are not validated and come out as none "
    "or as given",
]
# issues that flag a value without voiding it
NOTES = {9, 11, 16, 17, 19, 27, 28, 29}
PLAIN = (str, int, float, bool, type(None))


def walk(value, path=()):
    """All positions in a value, containers looked into."""
    yield path, value
    if isinstance(value, SCIMDataContainer):
        value = value.to_dict()
    if isinstance(value, dict):
        for k, v in value.items():
            yield from walk(v, path + (str(k),))
    elif isinstance(value, (list, tuple)):
        for i, v in enumerate(value):
            yield from walk(v, path + (str(i),))


def markers(value, marks):
    return [path for path, v in walk(value) if any(v is m for m in marks)]


def serialisable(value):
    """Positions that are not plain data."""
    bad = []
    for path, v in walk(value):
        if isinstance(v, dict):
            bad += [path + (k,) for k in v if type(k) is not str]
        elif not isinstance(v, list) and type(v) not in PLAIN:
            bad.append(path)
    return bad


def judge(ctx, target, kwargs, result, issues, level):
    found = issue_set(issues)
    reported = issues.has_issues()
    ctx.expect(reported == bool(found), "report contradicts itself", call=target.label, issues=found)
    witness = dict(call=target.label, arguments=kwargs, issues=found)
    ctx.sig(target.label, level, tuple(sorted({(loc[:1], code) for loc, code in found}, key=str))[:6])
    if target.kind == "text":
        ctx.expect((result is Invalid) == reported, "text is parsed exactly when nothing is reported", **witness)
        ctx.seen("text_refused" if reported else "text_parsed")
        return
    if target.kind in ("data", "message"):
        if result is Invalid:
            ctx.expect(any(loc == () for loc, _ in found), "data is refused without an issue", **witness)
            ctx.seen("data_refused")
            return
        bad = markers(result, [Invalid])
        if not reported:
            ctx.expect(not bad, "invalid value gets through without an issue", at=bad, **witness)
            if target.kind == "data":
                ctx.expect(not markers(result, [Missing]), "missing marker gets through", **witness)
            ctx.seen(target.kind + "_clean")
        # every rejected value is marked, and every marked value was reported
        out = plain(result)
        for loc, code in found:
            if code in NOTES or code == 15 or target.kind == "message":
                continue
            ctx.expect(any(loc[: len(p)] == p for p in bad), "rejected value is kept", location=loc, out=out, **witness)
            ctx.seen("rejected_values")
        for path in bad:
            ctx.expect(any(loc[: len(path)] == path for loc, _ in found), "value is voided without an issue", at=path,
                       out=out, **witness)
        return
    body = result.body
    in_body = any(loc[:1] == ("body",) for loc, _ in found)
    if in_body and target.label not in ("GET request",):
        ctx.expect(body is None, "body is delivered together with an issue", body=plain(body), **witness)
        ctx.seen(target.kind + "_held_back")
    passive = target.label in ("GET request", "list request", "schemas request", "types request")
    if target.kind == "response" and reported:
        ctx.expect(body is None, "response is released together with an issue", body=plain(body), **witness)
    if target.kind == "request" and reported and not passive:
        ctx.expect(body is None, "body is delivered together with an issue", body=plain(body), **witness)
        ctx.seen("request_held_back_otherwise", 0 if in_body else 1)
    given = kwargs.get("body")
    empty = (
        passive
        or target.label == "DELETE response"
        or (target.label == "POST response" and not given)
        or (target.label == "PATCH response" and kwargs["status_code"] == 204)
    )
    if not reported and not empty:
        ctx.expect(body is not None, "body is not delivered though nothing is reported", **witness)
        ctx.seen(target.kind + "_delivered")
        ctx.seen("delivered:" + target.label)
    if body is not None and not passive:
        ctx.expect(not markers(body, [Invalid]), "invalid marker is delivered", body=plain(body), **witness)
        if target.kind == "response":
            out = body.to_dict() if isinstance(body, SCIMDataContainer) else body
            ctx.expect(isinstance(out, dict), "body is not an object", **witness)
            bad = serialisable(out)
            ctx.expect(not bad, "body does not export to plain data", at=bad, **witness)
    if target.kind == "request" and isinstance(result.query_string, dict) and not reported:
        ctx.expect(not markers(result.query_string, [Invalid]), "invalid marker is delivered", **witness)


def calls(ctx, index):
    rng = ctx.rng
    specs, schemas, targets = drive.world(rng)
    for _ in range(30):
        target = rng.choice(targets)
        level = rng.choice([0, 0, 1, 1, 2])
        kwargs = target.make(rng, level)
        try:
            result, issues = target.call(**kwargs)
        except Exception:  # that it raises is judged by C01
            ctx.seen("raised")
            continue
        ctx.seen("call:" + target.label)
        ctx.sample((target.label, kwargs))
        judge(ctx, target, kwargs, result, issues, level)


STREAMS = {"calls": (calls, 1000, 15000)}
FLOORS = {"text_refused": 200, "text_parsed": 200, "data_refused": 100, "data_clean": 500, "rejected_values": 500,
          "request_held_back": 500, "request_delivered": 500, "response_held_back": 500, "response_delivered": 500,
          "delivered:bulk request": 50, "delivered:bulk response": 20, "delivered:list response": 30,
          "delivered:PATCH request": 50, "delivered:PUT request": 50, "delivered:POST request": 50,
          "delivered:POST response": 50, "delivered:error response": 20, "delivered:search request": 30}
