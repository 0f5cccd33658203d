"""What a validator does not interpret is handed on as it was given."""
import copy

from vlib import drive
from vlib.lib import AttributePresenceChecker, Filter, Sorter, issue_set, plain

RULE = (
    "calls of every request parser and response dumper with well-formed to hostile headers, query strings and bodies; "
    "counted by entry point, kind of headers, kind of query string and whether something was reported"
)
ASSUMPTIONS = [
    "empty headers may come back as no headers or as an empty set",
    "a name that the library itself adds to the query string (presence_checker, sorter) is the library's",
]
SINGLE = ("GET request", "PUT request", "POST request", "PATCH request")


def alike(a, b):
    """Equality that tells 1 from True and 1.0 and sees NaN as itself."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return a == b or a != a and b != b


def judge_query(ctx, label, given, got, found, witness):
    refused = any(loc[:2] in (("query_string", "attributes"), ("query_string", "excludeAttributes")) for loc, _ in found)
    if label in ("schemas request", "types request"):
        ctx.expect(got is None, "parameters of a discovery request are taken over", got=got, **witness)
        return
    if not isinstance(given, dict) or label not in SINGLE + ("list request",):
        ctx.expect(alike(given, got), "query string is changed", got=got, **witness)
        ctx.seen("query_untouched")
        return
    ctx.expect(isinstance(got, dict), "query string is lost", got=got, **witness)
    mine = {"presence_checker"}
    if label == "list request":
        mine |= {"filter", "sorter", "count", "startIndex"}
    for name in given:
        if name not in mine:
            ctx.expect(name in got and alike(given[name], got[name]), "parameter is changed", name=name, got=got, **witness)
            ctx.seen("parameters_kept")
    extra = set(got) - set(given) - {"presence_checker"}
    if label == "list request":
        extra -= {"filter", "sorter"}
    ctx.expect(not extra, "parameters are invented", extra=extra, **witness)
    if refused:
        ctx.expect(alike(given.get("presence_checker"), got.get("presence_checker")), "refused selection is delivered",
                   got=got, **witness)
    else:
        checker = got.get("presence_checker")
        wanted = any(given.get(k) for k in ("attributes", "excludeAttributes"))
        ctx.expect(isinstance(checker, AttributePresenceChecker) if wanted else checker is None,
                   "selection is not delivered", got=got, **witness)
        ctx.seen("selections" if wanted else "no_selection")
    if label == "list request":
        for name, source, kind in (("filter", "filter", Filter), ("sorter", "sortBy", Sorter)):
            if any(loc[:2] == ("query_string", source) for loc, _ in found):
                continue
            value = got.get(name)
            ctx.expect(value is None if given.get(source) is None else isinstance(value, kind), "parameter is not read",
                       name=name, got=got, **witness)
        for name in ("count", "startIndex"):
            if given.get(name) is None or any(loc[:2] == ("query_string", name) for loc, _ in found):
                ctx.expect((name in given) == (name in got) and alike(given.get(name), got.get(name)),
                           "parameter is changed", name=name, got=got, **witness)
            else:
                ctx.expect(type(got.get(name)) is int, "parameter is not read", name=name, got=got, **witness)
                ctx.seen("integers_read")


def judge(ctx, target, given, result, issues):
    found = issue_set(issues)
    witness = dict(call=target.label, arguments=given, issues=found)
    headers = given.get("headers")
    if headers or result.headers:
        ctx.expect(alike(headers, result.headers), "headers are changed", got=result.headers, **witness)
        ctx.seen("headers_kept")
        ctx.seen("headers_kept_" + ("refused" if found else "accepted"))
    else:
        ctx.expect(result.headers in (None, {}, headers), "headers are invented", got=result.headers, **witness)
    if target.kind == "response":
        return
    judge_query(ctx, target.label, given.get("query_string"), result.query_string, found, witness)
    if target.label in ("GET request", "list request"):
        ctx.expect(alike(plain(given.get("body")), plain(result.body)), "body of a read request is changed", **witness)
        ctx.seen("read_bodies")


def calls(ctx, index):
    rng = ctx.rng
    specs, schemas, targets = drive.world(rng)
    targets = [t for t in targets if t.kind in ("request", "response")]
    for _ in range(40):
        target = rng.choice(targets)
        level = rng.choice([0, 0, 1, 1, 2])
        kwargs = target.make(rng, level)
        if rng.random() < 0.3:
            kwargs["headers"] = rng.choice([
                {"Location": "https://example.com/Users/1", "ETag": 'W/"1"', "X-Trace": rng.choice(["1", 1, None, ""])},
                {"location": "x", "LOCATION": "y"}, {"": "", "a": []}, {"Content-Type": "application/scim+json"}])
        query = kwargs.get("query_string")
        if isinstance(query, dict) and rng.random() < 0.5:
            kwargs["query_string"] = {**query, rng.choice(["x", "Attributes", "COUNT", "sort_by", "", "filter ", "é"]):
                                      rng.choice(["", "1", 0, None, False, ["a"], {"b": 1}])}
        given = copy.deepcopy(kwargs)
        try:
            result, issues = target.call(**kwargs)
        except Exception:  # that it raises is judged by C01
            ctx.seen("raised")
            continue
        ctx.seen("call:" + target.label)
        ctx.sample((target.label, given))
        judge(ctx, target, given, result, issues)
        ctx.sig(target.label, level, type(given.get("headers")).__name__, bool(given.get("headers")),
                tuple(sorted(map(str, given["query_string"]))) if isinstance(given.get("query_string"), dict) else
                type(given.get("query_string")).__name__, issues.has_issues())


STREAMS = {"calls": (calls, 700, 12000)}
FLOORS = {"headers_kept_refused": 1000, "headers_kept_accepted": 500, "parameters_kept": 1000, "selections": 200,
          "no_selection": 200, "integers_read": 100, "read_bodies": 200, "query_untouched": 1000,
          **{"call:" + label: 50 for label in (
              *SINGLE, "GET response", "PUT response", "POST response", "PATCH response", "list request", "list response",
              "search request", "search response", "bulk request", "bulk response", "error response", "DELETE response",
              "schemas request", "schemas response", "types request", "types response")}}
