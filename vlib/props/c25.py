import copy
from collections import Counter

from vlib import bulk, filters, gen, model, procs, single
from vlib.core import Skip, Violation
from vlib.lib import (
    SCIMDataContainer,
    build_attr,
    build_schema,
    issue_set,
    list_response,
    make_config,
    plain,
    rv,
    same_data,
)
from vlib.props import c15, c16, c17, c19, c20
from vlib.props.c10 import duplicated

RULE = (
    "attributes of every type and shape with recording processors of every kind (keeping, replacing, emptying, refusing, "
    "reporting), alone, in schemas and extensions, and through every request and response; the log of what each processor was "
    "given is compared with the log the values call for; counted by entry point, kinds of processors that ran, and issues"
)
ASSUMPTIONS = [
    "only the last processor of a chain turns the value into null",
    "a processor that reports an issue that does not block leaves the value to the next one",
    "processors of a complex attribute return what it can hold: an object, or a list of them",
    "the order in which different attributes are processed is free",
]


class Watch:
    """Records what processors are given, by the model and by the real code."""

    def __enter__(self):
        procs.MODEL, procs.REAL = [], []
        return self

    def __exit__(self, *_):
        self.model, self.real = procs.MODEL, procs.REAL
        procs.MODEL = procs.REAL = None


def compare(ctx, watch, kinds, what, **witness):
    expected, found = Counter(watch.model), Counter(watch.real)
    if expected != found:
        twice = {k for k, n in found.items() if n > expected[k]}
        raise Violation("processors ran differently", what=what, lost=str(sorted((expected - found))[:6]),
                        odd=str(sorted(twice)[:6]), **{k: str(v)[:1500] for k, v in witness.items()})
    ctx.events["oracle_decisions"] += 1
    ctx.seen("processor_runs", len(watch.real))
    for tag, _ in watch.real:
        ctx.seen(f"ran_{kinds[tag]['place']}_{kinds[tag]['kind']}")


def descriptions(attrs):
    """Every processor by its tag."""
    found = {}
    for attr in attrs:
        for part in ("proc", "whole"):
            for chain in attr.get(part, {}).values():
                found.update((p["tag"], p) for p in chain)
        found.update(descriptions(attr.get("sub", [])))
    return found


def of_spec(*specs):
    found = {}
    for spec in specs:
        found.update(descriptions([a for _, a in model.all_attrs(spec)]))
    return found


def contained(value):
    if isinstance(value, dict):
        return SCIMDataContainer(value)
    if isinstance(value, list):
        return [contained(v) for v in value]
    return value


def direct(ctx, index):
    """One attribute on its own."""
    rng = ctx.rng
    name = rng.choice(["alpha", "Beta", "type", "$ref"])
    attr = procs.equip(rng, gen.random_attr(rng, name))
    kinds = descriptions([attr])
    real = build_attr(attr)
    for _ in range(6):
        mode = rng.choice(["parse", "dump"])
        value = gen.valid_value(rng, attr, mode)
        r = rng.random()
        if r < 0.15:
            value = gen.corrupt(rng, value, 1)
        elif r < 0.2:
            value = rng.choice([None, [], {}, "", 5, [None]])
        if duplicated(value):
            continue
        given = copy.deepcopy(value)
        with Watch() as watch:
            expected, expected_issues = model.process_attr(attr, given, mode)
            out, issues = ctx.call(mode, getattr(real, mode), contained(value))
        found = issue_set(issues)
        witness = dict(attribute=attr, value=given, mode=mode)
        ctx.same(found, expected_issues, "issues differ", **witness)
        compare(ctx, watch, kinds, "attribute", **witness)
        if not found:
            ctx.expect(same_data(plain(out), expected), "processed value differs", out=plain(out), expected=expected, **witness)
        ctx.sample((mode, attr, given))
        ctx.seen("refused" if found else "accepted")
        ctx.sig("direct", mode, attr["type"], attr.get("multi"), tuple(sorted({t for t, _ in watch.real})),
                tuple(sorted(found))[:4])


def schemas(ctx, index):
    """A whole resource through a schema with extensions."""
    rng = ctx.rng
    spec = procs.equip_spec(rng, gen.random_spec(rng))
    kinds = of_spec(spec)
    schema = build_schema(spec)
    for _ in range(4):
        mode = rng.choice(["parse", "dump"])
        data = gen.resource(rng, spec, mode)
        if rng.random() < 0.3:
            data = gen.corrupt(rng, data, rng.choice([1, 2]))
        if rng.random() < 0.3:
            data = gen.recase(rng, data)
        if duplicated(data):
            continue
        given = copy.deepcopy(data)
        with Watch() as watch:
            expected, expected_issues = model.process(spec, given, mode)
            out, issues = ctx.call(mode, getattr(schema, mode), data)
        found = issue_set(issues)
        witness = dict(schema=spec, data=given, mode=mode)
        ctx.same(found, expected_issues, "issues differ", **witness)
        compare(ctx, watch, kinds, "schema", **witness)
        if not found:
            ctx.expect(same_data(plain(out), expected), "processed data differs", out=plain(out), expected=expected, **witness)
        ctx.seen("refused" if found else "accepted")
        ctx.sig("schemas", mode, tuple(sorted({t for t, _ in watch.real}))[:8], len(found))


def milder(rng, spec):
    """Without most of the processors that refuse, so that something is delivered."""
    if rng.random() < 0.3:
        return spec
    spec = copy.deepcopy(spec)
    for processor in of_spec(spec).values():
        if processor["kind"] in ("invalid", "issue", "none") and rng.random() < 0.9:
            processor["kind"] = "keep"
    return spec


def requests(ctx, index):
    """Requests and responses about one resource."""
    rng = ctx.rng
    spec = milder(rng, procs.equip_spec(rng, gen.random_spec(rng)))
    kinds = of_spec(spec)
    schema = build_schema(spec)
    config = make_config()
    for _ in range(3):
        if rng.random() < 0.5:
            method = rng.choice(["POST", "PUT"])
            validator = (rv.ResourcesPOST if method == "POST" else rv.ResourceObjectPUT)(config, resource_schema=schema)
            tag, body = c15.body_for(rng, spec)
            if duplicated(body):
                continue
            given = copy.deepcopy(body)
            with Watch() as watch:
                expected, expected_issues = (single.create if method == "POST" else single.replace)(spec, given)
                request, issues = ctx.call(method, validator.parse_request, body=body)
            out = request.body
            strip = single.pruned if method == "PUT" else (lambda x: x)
        else:
            method = rng.choice(["GET", "PUT", "POST", "PATCH", "LIST"])
            body = c17.a_body(rng, spec)
            if rng.random() < 0.2:
                body = gen.corrupt(rng, body, 1)
            if duplicated(body) or not isinstance(body, dict) or not body:
                continue
            status = 201 if method == "POST" else 200
            given = copy.deepcopy(body)
            strip = lambda x: x  # noqa
            if method == "LIST":
                if not isinstance(model.find(body, "schemas"), list) or not model.process(spec, given, "dump")[0].get("schemas"):
                    continue
                validator = rv.ResourcesGET(config, resource_schema=schema)
                whole = {"schemas": ["urn:ietf:params:scim:api:messages:2.0:ListResponse"], "totalResults": 2,
                         "Resources": [body, copy.deepcopy(body)]}
                with Watch() as watch:
                    expected, expected_issues = single.respond(spec, given, 200, 200)
                    single.respond(spec, given, 200, 200)
                    response, issues = ctx.call(method, validator.dump_response, status_code=200, body=whole)
                out = response.body
                if expected is not None:
                    expected = dict(whole, Resources=[expected, expected])
                expected_issues = {(("body", "Resources", i, *loc[1:]), code) for loc, code in expected_issues for i in "01"}
                if expected_issues:
                    # a broken resource may be taken for one of another kind; then only deliveries are judged
                    ctx.expect(out is None or not issue_set(issues), "released together with an issue", body=given)
                    continue
            else:
                cls = {"GET": rv.ResourceObjectGET, "PUT": rv.ResourceObjectPUT, "POST": rv.ResourcesPOST,
                       "PATCH": rv.ResourceObjectPATCH}[method]
                validator = cls(config, resource_schema=schema)
                headers = {"Location": "https://example.com/x"} if method == "POST" else None
                if method == "POST":
                    body["meta"] = {"location": "https://example.com/x"}
                    given = copy.deepcopy(body)
                with Watch() as watch:
                    expected, expected_issues = single.respond(spec, given, status, status, headers, method == "POST")
                    response, issues = ctx.call(method, validator.dump_response, status_code=status, body=body,
                                                headers=headers)
                out = response.body
            method += " response"
        found = issue_set(issues)
        witness = dict(schema=spec, body=given, method=method)
        ctx.same(found, expected_issues, "issues differ", **witness)
        compare(ctx, watch, kinds, method, **witness)
        ctx.expect((out is None) == bool(found), "delivered exactly when it is fine", **witness)
        if out is not None:
            ctx.expect(same_data(strip(plain(out)), strip(expected)), "delivered data differs", out=plain(out),
                       expected=expected, **witness)
            ctx.seen("delivered_" + method)
        ctx.sig("requests", method, tuple(sorted({t for t, _ in watch.real}))[:8], len(found))


def delivered(ctx, watch_kinds, what, judge, **witness):
    before = ctx.events["delivered"] + ctx.events["released"]
    with Watch() as watch:
        judge()
    if ctx.events["delivered"] + ctx.events["released"] > before:
        compare(ctx, watch, watch_kinds, what, **witness)
        ctx.seen("delivered_" + what)
    ctx.sig(what, tuple(sorted({t for t, _ in watch.real}))[:8])


def patches(ctx, index):
    rng = ctx.rng
    plain_spec = c16.unique_spec(rng)
    if plain_spec.get("builtin"):
        raise Skip()
    spec = milder(rng, procs.equip_spec(rng, plain_spec))
    validator = rv.ResourceObjectPATCH(make_config(), resource_schema=build_schema(spec))
    for _ in range(5):
        body = {"schemas": [single.PATCH_URN],
                "Operations": [c16.an_operation(rng, spec, hostile=False) for _ in range(rng.choice([1, 1, 1, 2]))]}
        if duplicated(body):
            continue
        delivered(ctx, of_spec(spec), "PATCH", lambda: c16.judge(ctx, spec, validator, body, "patches"), schema=spec, body=body)


def bulks(ctx, index):
    rng = ctx.rng
    specs = []
    for spec in c19.some_specs(rng):
        specs.append(spec if spec.get("builtin") else milder(rng, procs.equip_spec(rng, spec)))
    n = rng.choice([1, 1, 2])
    kinds = of_spec(*specs)
    body = {"schemas": [bulk.REQUEST_URN], "Operations": [c19.operation_for(rng, specs, True) for _ in range(n)]}
    if not duplicated(body):
        delivered(ctx, kinds, "bulk", lambda: c19.judge(ctx, specs, body, 10, "bulks"), body=body)
    answer = {"schemas": [bulk.RESPONSE_URN], "Operations": [c20.operation_for(rng, specs, True) for _ in range(n)]}
    if not duplicated(answer):
        delivered(ctx, kinds, "bulk response", lambda: c20.judge(ctx, specs, answer, 200, None, "bulks"), body=answer)


STREAMS = {
    "direct": (direct, 8000, 150000),
    "schemas": (schemas, 6000, 100000),
    "requests": (requests, 6000, 100000),
    "patches": (patches, 4000, 80000),
    "bulks": (bulks, 2500, 50000),
}
FLOORS = {"processor_runs": 2000, "ran_value_mark": 300, "ran_value_invalid": 50, "ran_raw_drop": 50, "ran_raw_fewer": 20,
          "ran_whole_stamp": 100, "ran_whole_invalid": 20, "ran_whole_issue": 10, "ran_value_none": 20,
          "delivered_PATCH": 100, "delivered_bulk": 30, "delivered_bulk response": 30, "delivered_POST": 50, "delivered_PUT": 50,
          "delivered_GET response": 20, "delivered_LIST response": 10}
