from vlib import filters, gen, model, procs
from vlib.lib import (
    ISSUER,
    MUTABILITY,
    RETURNED,
    TYPES,
    UNIQUENESS,
    Attribute,
    AttrRep,
    ComplexAttribute,
    Filter,
    PatchPath,
    ResourceSchema,
    at,
    build_attr,
    build_extension,
    create_service_provider_config,
    op,
    rep_of,
    typed,
)

RULE = (
    "definitions of schemas, extensions, attributes, paths, operators and configurations, consistent "
    "or contradictory; counted by kind of definition, its shape and whether it was refused"
)
ASSUMPTIONS = [
    "two attributes of one name in the same schema, text operators comparing with a fraction and "
    "operators comparing with a dictionary are not judged",
]
BUILTIN_FIRST = ["schemas", "id", "externalId", "meta"]


def characteristics(attr):
    """Everything a definition says, through the public properties."""
    out = {
        "type": attr.type,
        "description": attr.description,
        "reference_types": list(attr.reference_types),
        "issuer": attr.issuer,
        "required": attr.required,
        "case_exact": attr.case_exact,
        "multi_valued": attr.multi_valued,
        "canonical_values": None if attr.canonical_values is None else list(attr.canonical_values),
        "validate_canonical_values": attr.validate_canonical_values,
        "mutability": attr.mutability,
        "returned": attr.returned,
        "uniqueness": attr.uniqueness,
        "parsers": [id(p) for p in attr.parsers],
        "dumpers": [id(p) for p in attr.dumpers],
    }
    if isinstance(attr, ComplexAttribute):
        out["complex_parsers"] = [id(p) for p in attr.complex_parsers]
        out["complex_dumpers"] = [id(p) for p in attr.complex_dumpers]
    return out


def defined(spec):
    """What the description of an attribute promises."""
    canonical = spec.get("canonical") or None
    if canonical and not spec.get("caseExact"):
        canonical = [v.lower() if isinstance(v, str) else v for v in canonical]
    references = list(spec.get("refTypes") or {"extref": ["external"], "uriref": ["uri"]}.get(spec["type"], []))
    return {
        "type": at.Complex if spec["type"] == "complex" else TYPES[spec["type"]],
        "description": spec.get("description", ""),
        "reference_types": references,
        "issuer": ISSUER[spec.get("issuer", "none")],
        "required": spec.get("required", False),
        "case_exact": spec.get("caseExact", False),
        "multi_valued": spec.get("multi", False),
        "canonical_values": None if canonical is None else list(canonical),
        "validate_canonical_values": spec.get("enforce", False),
        "mutability": MUTABILITY[spec.get("mutability", "readWrite")],
        "returned": RETURNED[spec.get("returned", "default")],
        "uniqueness": UNIQUENESS[spec.get("uniqueness", "none")],
    }


def fits(ctx, attr, spec, made, where):
    found = characteristics(attr)
    expected = defined(spec)
    for key, value in expected.items():
        ctx.same(found[key], value, "a defined characteristic is not kept", where=where, characteristic=key)
    ctx.same(isinstance(attr, ComplexAttribute), spec["type"] == "complex", "other kind of attribute", where=where)
    if made is not None:
        for key in ("parsers", "dumpers", "complex_parsers", "complex_dumpers"):
            ctx.same(found.get(key), made.get(key), "processors are not kept", where=where, kind=key)
    ctx.seen("attributes")


def bound(ctx, schema, urn, is_extension, specs, made):
    """The attributes of one namespace of a schema: exactly those defined, in order, as defined."""
    names = []
    for spec in specs:
        names.append((urn, spec["name"], ""))
        names += [(urn, spec["name"], s["name"]) for s in spec.get("sub", [])]
    found = [a for a in schema.attrs if a.rep.schema == urn and a.rep.extension == is_extension]
    if not is_extension:
        found = [a for a in found if a.rep.attr not in BUILTIN_FIRST]
    ctx.same([rep_of(a.rep) for a in found], names, "schema has other attributes than defined", urn=urn)
    tops = [a for a in schema.attrs.top_level if a.rep.schema == urn and a.rep.extension == is_extension]
    if not is_extension:
        tops = [a for a in tops if a.rep.attr not in BUILTIN_FIRST]
    ctx.same([rep_of(a.rep) for a in tops], [n for n in names if not n[2]], "other top-level attributes", urn=urn)
    flat = []
    for spec, top in zip(specs, made):
        flat.append((spec, top["self"]))
        flat += list(zip(spec.get("sub", []), top["sub"]))
    for attr, (spec, before) in zip(found, flat):
        fits(ctx, attr, spec, before, repr(attr.rep))
    for attr, spec, before in zip(tops, specs, made):
        if spec["type"] == "complex":
            ctx.same([a.rep.attr for a in attr.attrs], [s["name"] for s in spec["sub"]],
                     "other sub-attributes than defined", attr=spec["name"])
            for sub, sub_spec, sub_before in zip(attr.attrs, spec["sub"], before["sub"]):
                fits(ctx, sub, sub_spec, sub_before, f"{spec['name']}.{sub_spec['name']}")


def snapshot(attr):
    subs = [characteristics(s) for s in attr.attrs] if isinstance(attr, ComplexAttribute) else []
    return {"self": characteristics(attr), "sub": subs}


def schema(ctx, index):
    rng = ctx.rng
    spec = gen.random_spec(rng)
    if rng.random() < 0.5:
        spec = procs.equip_spec(rng, spec)
    plural = spec["plural"] if rng.random() < 0.6 else None
    attrs = [ctx.call("Attribute", build_attr, a) for a in spec["attrs"]]
    made = [snapshot(a) for a in attrs]
    for attr, a in zip(attrs, spec["attrs"]):
        fits(ctx, attr, a, None, a["name"])
        ctx.same(rep_of(attr.rep), ("", a["name"], ""), "attribute has another name")
    overrides = {}
    for name in rng.choice([[], [], rng.sample(["id", "externalId", "meta"], rng.choice([1, 1, 2, 3]))]):
        override = gen.random_attr(rng, name, allow_complex=False)
        if name == "meta":
            override = dict(gen.random_attr(rng, name, allow_complex=False), type="complex", multi=False, sub=[
                {"name": "resourceType", "type": "string"}, {"name": "version", "type": "string", "required": True}])
            for key in ("caseExact", "canonical", "enforce", "refTypes"):
                override.pop(key, None)
        overrides[name] = override
    real = ctx.call(
        "ResourceSchema",
        ResourceSchema,
        schema=spec["schema"],
        attrs=rng.choice([list, tuple, iter])(attrs),
        name=spec["name"],
        description=spec["description"],
        plural_name=plural,
        attr_overrides={k: build_attr(v) for k, v in overrides.items()} or None,
    )
    ctx.same(real.schema, spec["schema"], "schema has another URN")
    ctx.same(real.name, spec["name"], "schema has another name")
    ctx.same(real.plural_name, plural or spec["name"], "schema has another plural name")
    ctx.same(real.description, spec["description"], "schema has another description")
    ctx.same(real.schemas, [spec["schema"]], "schema has extensions nobody added")
    tops = [a.rep.attr for a in real.attrs.top_level]
    ctx.same(tops, BUILTIN_FIRST + [a["name"] for a in spec["attrs"]], "other top-level attributes")
    bound(ctx, real, spec["schema"], False, spec["attrs"], made)
    for name, override in overrides.items():
        found = real.attrs.get(AttrRep(schema=spec["schema"], attr=name))
        fits(ctx, found, override, None, name)
        ctx.seen("overrides")
    added = []
    for extension in spec["extensions"]:
        ext = ctx.call("SchemaExtension", build_extension, extension)
        ext_made = [snapshot(a) for a in ext.attrs]
        ctx.same((ext.schema, ext.name, ext.description),
                 (extension["schema"], extension["name"], extension.get("description", "")),
                 "extension is not kept as defined")
        ctx.call("with_extension", real.with_extension, ext, extension["required"])
        added.append((extension, ext_made))
        ctx.same([snapshot(a) for a in ext.attrs], ext_made, "adding an extension changed it")
        ctx.same([rep_of(a.rep) for a in ext.attrs], [("", a["name"], "") for a in extension["attrs"]],
                 "adding an extension renamed its attributes")
        ctx.same(real.schemas, [spec["schema"]] + [e["schema"] for e, _ in added], "schema has other extensions")
        ctx.same(real.schema_extensions, [e["schema"] for e, _ in added], "schema has other extensions")
        if rng.random() < 0.6:
            refuse_twice(ctx, rng, real)
    bound(ctx, real, spec["schema"], False, spec["attrs"], made)
    for extension, ext_made in added:
        bound(ctx, real, extension["schema"], True, extension["attrs"], ext_made)
    if not added or rng.random() < 0.3:
        refuse_twice(ctx, rng, real)
    ctx.same([snapshot(a) for a in attrs], made, "defining a schema changed its attributes")
    ctx.same([rep_of(a.rep) for a in attrs], [("", a["name"], "") for a in spec["attrs"]],
             "defining a schema renamed its attributes")
    ctx.sample({"schema": spec["schema"], "attrs": [a["name"] for a in spec["attrs"]], "extensions": len(added)})
    ctx.sig("schema", len(added), bool(overrides), tuple(sorted({a["type"] for a in spec["attrs"]})),
            any(a.get("multi") for a in spec["attrs"]))


def refuse_twice(ctx, rng, real):
    """A URN the schema has already, in any letter case."""
    urn = gen.recase_text(rng, rng.choice(real.schemas))
    again = build_extension({"schema": urn, "attrs": [{"name": "zzz", "type": "string"}]})
    before = ([rep_of(a.rep) for a in real.attrs], real.schemas, [a.rep.attr for a in real.attrs.top_level])
    try:
        real.with_extension(again)
    except ValueError:
        ctx.expect(True, "")
    else:
        ctx.expect(False, "an extension was accepted under a URN the schema has already", urn=urn)
    after = ([rep_of(a.rep) for a in real.attrs], real.schemas, [a.rep.attr for a in real.attrs.top_level])
    ctx.same(after, before, "a refused extension changed the schema", urn=urn)
    ctx.seen("refused")
    ctx.sig("twice", urn == real.schema, urn.lower() == real.schema.lower(), len(real.schemas))


def references(ctx, index):
    rng = ctx.rng
    kind = rng.choice(["extref", "uriref", "scimref", "string"])
    pool = ["external", "uri", "User", "External", "URI", "Group", ""]
    given = rng.choice([None, [], [rng.choice(pool)], [rng.choice(pool)], [rng.choice(pool), rng.choice(pool)]])
    only = {"extref": ["external"], "uriref": ["uri"]}.get(kind)
    valid = not given or only is None or list(given) == only
    form = rng.choice([list, tuple, iter]) if given is not None else (lambda x: x)
    try:
        attr = Attribute("a", TYPES[kind], reference_types=form(given))
    except ValueError:
        ctx.expect(not valid, "valid reference types were refused", kind=kind, given=given)
        ctx.seen("refused")
    else:
        ctx.expect(valid, "contradictory reference types were accepted", kind=kind, given=given)
        ctx.same(list(attr.reference_types), list(given or only or []), "other reference types", kind=kind)
        ctx.seen("accepted")
    ctx.sig("refs", kind, valid, len(given or []))


def paths(ctx, index):
    """Paths put together from parts."""
    rng = ctx.rng
    pool = ["emails", "Name", "x"]
    urns = ["", "", "urn:a:b", "urn:a:c"]

    def rep(sub):
        return (rng.choice(urns), rng.choice(pool), sub)

    def similar(parts):
        r = rng.random()
        if r < 0.55:
            return parts
        if r < 0.75:
            return (gen.recase_text(rng, parts[0]), gen.recase_text(rng, parts[1]), parts[2])
        if r < 0.85:
            return ("", parts[1], parts[2])
        return rep(parts[2])

    def make(parts):
        return AttrRep(schema=parts[0], attr=parts[1], sub_attr=parts[2])

    target = rep(rng.choice(["", "", "", "value"]))
    inner = ("eq", ("", "value", ""), "x")
    filter_rep = tree = sub_rep = None
    if rng.random() < 0.7:
        filter_rep = similar(target[:2] + ("",))
        tree = ("complex", filter_rep, inner)
        if rng.random() < 0.15:
            tree = rng.choice([inner, ("not", tree), ("and", (tree, tree)), ("or", (inner, tree))])
    if rng.random() < 0.5:
        sub_rep = similar(target[:2] + (rng.choice(["", "display", "type", "value"]),))
    filter_ = None
    if tree is not None:
        filter_ = Filter(operator_of(tree))
    valid = (
        not (target[2] and (tree is not None or sub_rep is not None))
        and (sub_rep is None or (bool(sub_rep[2]) and same_top(sub_rep, target)))
        and (tree is None or (tree[0] == "complex" and model.rep_equal(tree[1], target)))
    )
    given = (make(target), filter_, None if sub_rep is None else make(sub_rep))
    try:
        path = PatchPath(*given) if rng.random() < 0.5 else PatchPath(
            attr_rep=given[0], complex_filter=given[1], complex_filter_attr_rep=given[2])
    except ValueError:
        ctx.expect(not valid, "consistent path was refused", target=target, tree=tree, sub=sub_rep)
        ctx.seen("refused")
    else:
        ctx.expect(valid, "contradictory path was accepted", target=target, tree=tree, sub=sub_rep)
        ctx.same(rep_of(path.attr_rep), target, "path has another target")
        ctx.expect(path.complex_filter is filter_, "path has another filter")
        found = path.complex_filter_attr_rep
        ctx.same(None if found is None else rep_of(found), sub_rep, "path has another sub-attribute")
        ctx.seen("accepted")
    ctx.sig("path", valid, bool(target[0]), bool(target[2]), tree and tree[0], filter_rep == target, sub_rep and bool(sub_rep[2]),
            sub_rep and sub_rep[:2] == target[:2])


def same_top(a, b):
    return a[1].lower() == b[1].lower() and (not a[0] or not b[0] or a[0].lower() == b[0].lower())


OPERATORS = {
    "eq": op.Equal, "ne": op.NotEqual, "co": op.Contains, "sw": op.StartsWith, "ew": op.EndsWith,
    "gt": op.GreaterThan, "ge": op.GreaterThanOrEqual, "lt": op.LesserThan, "le": op.LesserThanOrEqual,
}


def operator_of(t):
    def make(parts):
        return AttrRep(schema=parts[0], attr=parts[1], sub_attr=parts[2])

    if t[0] in ("and", "or"):
        return {"and": op.And, "or": op.Or}[t[0]](*[operator_of(x) for x in t[1]])
    if t[0] == "not":
        return op.Not(operator_of(t[1]))
    if t[0] == "complex":
        return op.ComplexAttributeOperator(make(t[1]), operator_of(t[2]))
    if t[0] == "pr":
        return op.Present(make(t[1]))
    return OPERATORS[t[0]](make(t[1]), filters.untyped(t[2]))


def operators(ctx, index):
    rng = ctx.rng
    name = rng.choice(sorted(OPERATORS))
    value = rng.choice([
        "x", "", 0, 1, -7, 1.5, 2.0, True, False, None, [], ["x"], ("x",), set(), b"x", object(), {1}, range(2),
    ])
    kind = type(value)
    if kind is float and name in filters.TEXT_OPS:
        return
    if name in ("eq", "ne"):
        allowed = kind in (str, bool, int, float, type(None))
    elif name in filters.TEXT_OPS:
        allowed = kind is str
    else:
        allowed = kind in (str, int, float)
    parts = filters.some_rep(rng, sub=0)
    rep = AttrRep(schema=parts[0], attr=parts[1])
    try:
        made = OPERATORS[name](rep, value)
    except TypeError:
        ctx.expect(not allowed, "comparison value was refused", op=name, value=value)
        ctx.seen("refused")
    else:
        ctx.expect(allowed, "value that can not be compared was accepted", op=name, value=value)
        ctx.same(typed(made.value), typed(value), "operator has another value", op=name)
        ctx.same(rep_of(made.attr_rep), rep_of(rep), "operator has another attribute", op=name)
        ctx.same(made.SCIM_OP, name, "operator of another name")
        ctx.seen("accepted")
        # operands of a logical operator: as given, the same one twice included
        pool = [made, op.Present(rep), op.Not(made)]
        operands = [rng.choice(pool) for _ in range(rng.randint(1, 5))]
        whole = rng.choice([op.And, op.Or])(*operands)
        ctx.expect(len(whole.sub_operators) == len(operands) and all(a is b for a, b in zip(whole.sub_operators, operands)),
                   "operator has other operands", given=len(operands), found=len(whole.sub_operators))
        ctx.expect(op.Not(whole).sub_operator is whole, "negation has another operand")
    ctx.sig("op", name, kind.__name__)


def configuration(ctx, index):
    rng = ctx.rng

    def flag():
        return {} if rng.random() < 0.3 else {"supported": rng.random() < 0.5}

    def amount(options, key):
        r = rng.random()
        if r < 0.6:
            options[key] = rng.choice([1, 2, 1000, 10**9])
        elif r < 0.8:
            options[key] = rng.choice([None, 0])

    bulk, filter_ = flag(), flag()
    amount(bulk, "max_operations")
    amount(bulk, "max_payload_size")
    amount(filter_, "max_results")
    simple = {k: flag() for k in ("patch", "change_password", "sort", "etag")}
    schemes = [
        {k: gen.text(rng) for k in ("name", "description", "spec_uri", "documentation_uri", "type")}
        for _ in range(rng.randint(0, 2))
    ]
    kwargs = {"documentation_uri": gen.text(rng)} if rng.random() < 0.5 else {}
    given = {
        "bulk": bulk, "filter_": filter_, **simple, "authentication_schemes": schemes, **kwargs,
    }
    for key in list(given):
        if not given[key] and rng.random() < 0.5:
            given[key] = None if key != "documentation_uri" else ""
            if rng.random() < 0.5:
                del given[key]
    valid = not (bulk.get("supported") and not (bulk.get("max_operations") and bulk.get("max_payload_size")))
    valid = valid and not (filter_.get("supported") and not filter_.get("max_results"))
    try:
        config = create_service_provider_config(**given)
    except ValueError:
        ctx.expect(not valid, "complete configuration was refused", given=given)
        ctx.seen("refused")
    else:
        ctx.expect(valid, "incomplete configuration was accepted", given=given)
        for key, options in simple.items():
            ctx.same(getattr(config, key).supported, options.get("supported", False), "option is not kept", option=key)
        ctx.same((config.bulk.supported, config.bulk.max_operations, config.bulk.max_payload_size),
                 (bulk.get("supported", False), bulk.get("max_operations"), bulk.get("max_payload_size")),
                 "bulk options are not kept", given=given)
        ctx.same((config.filter.supported, config.filter.max_results),
                 (filter_.get("supported", False), filter_.get("max_results")), "filter options are not kept", given=given)
        ctx.same(config.documentation_uri, kwargs.get("documentation_uri", ""), "documentation link is not kept")
        found = [
            {k: getattr(s, k) for k in ("name", "description", "spec_uri", "documentation_uri", "type")}
            for s in config.authentication_schemes
        ]
        ctx.same(found, schemes, "authentication schemes are not kept")
        ctx.seen("accepted")
    ctx.sig("config", valid, tuple(sorted(bulk.items())), tuple(sorted(filter_.items())), len(schemes))


STREAMS = {
    "schema": (schema, 1500, 20000),
    "references": (references, 1500, 10000),
    "paths": (paths, 6000, 100000),
    "operators": (operators, 2000, 20000),
    "configuration": (configuration, 3000, 40000),
}
FLOORS = {"attributes": 8000, "refused": 2500, "accepted": 4000, "overrides": 200}
