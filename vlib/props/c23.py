import os
import pickle
import random
import re
import signal
import struct
import sys
import threading
import time
import traceback

from vlib import drive, gen, model, procs
from vlib.core import CASE_CPU_S, Violation, case_rng, short
from vlib.lib import (
    Attribute,
    ComplexAttribute,
    Invalid,
    ResourceSchema,
    SCIMDataContainer,
    TYPES,
    build_attr,
    build_extension,
    build_schema,
    ValidationError,
    ValidationIssues,
    get_schema_rep,
    plain,
    processor,
    rv,
)
from vlib.props import c19

RULE = (
    "sequences of calls over shared schemas and validators, repeated, reordered, after other histories and from several "
    "threads with switches forced between source lines, against the same call made alone in a fresh process; arguments, "
    "schemas and earlier results are watched; counted by entry point and outcome, and by thread switch pattern"
)
ASSUMPTIONS = [
    "alone means: in a process forked before the monitored process made any call of the history",
    "thread schedules are sampled, with switches forced at random source lines of the library",
]
ADDRESS = re.compile(r"0x[0-9a-fA-F]+")


def view(result):
    """Everything observable of an outcome as text."""
    if isinstance(result, (rv.RequestData, rv.ResponseData)):
        result = {k: getattr(result, k) for k in ("headers", "query_string", "body") if hasattr(result, k)}
    return ADDRESS.sub("0x", repr(plain(result)))


def report(issues):
    return ADDRESS.sub("0x", repr(issues.to_dict(msg=True, ctx=True)))


def outcome(target, kwargs):
    """(text of the outcome, the returned objects)"""
    try:
        result, issues = target.call(**kwargs)
    except Exception as e:  # judged by C01; here only whether it is always the same
        return f"raises {type(e).__name__}", None
    return view(result) + " | " + report(issues), (result, issues)


def fingerprint(schema):
    """What a schema publicly is."""
    attrs = [(plain(a.rep), a.rep.extension, repr(a.to_dict()), a.required, str(a.issuer), a.validate_canonical_values)
             for a in schema.attrs]
    return (schema.schema, tuple(schema.schemas), schema.name, schema.plural_name, repr(attrs), repr(get_schema_rep(schema)))


def use_targets(rng, specs, schemas):
    """A filter, a sorter and a selection that are used again and again."""
    at = rng.randrange(len(specs))
    spec, schema = specs[at], schemas[at]
    filter_, sorter, checker = drive.some_filter(rng, spec), drive.some_sorter(rng, spec), drive.some_checker(rng, spec)

    def resource(rng):
        return SCIMDataContainer(gen.resource(rng, spec, rng.choice(["parse", "dump"]), density=rng.choice([0.4, 0.9])))

    def evaluate(data, strict):
        return str(filter_(data, schema, strict).status), ValidationIssues()

    def sort(data, several):
        return sorter(data, [schema] * len(data) if several else schema), ValidationIssues()

    def select(data, direction):
        return None, checker(data, schema.attrs, direction)

    targets = [
        drive.Target("sort", "use", sort, lambda rng, level: dict(
            data=[resource(rng) for _ in range(rng.randint(0, 4))], several=rng.random() < 0.5)),
        drive.Target("select", "use", select, lambda rng, level: dict(
            data=resource(rng), direction=rng.choice(["REQUEST", "RESPONSE", "RESPONSE"]))),
    ]
    if filter_ is not None:
        targets.append(drive.Target("evaluate", "use", evaluate, lambda rng, level: dict(
            data=resource(rng), strict=rng.random() < 0.5)))
    return targets * 2


class Plan:
    """Calls of a case; made from its random numbers alone, so that another process makes the same ones."""

    def __init__(self, rng, n, specs=None):
        self.specs, self.schemas, targets = drive.world(rng, specs)
        self.config_seed = None
        self.calls = []
        self.targets = targets + use_targets(rng, self.specs, self.schemas)
        for _ in range(n):
            position = rng.randrange(len(targets))
            self.calls.append((position, targets[position].make(rng, rng.choice([0, 0, 1, 1, 1, 2]))))

    def target(self, k):
        return self.targets[self.calls[k][0]]


# ---------------------------------------------------------------- fresh processes


class Fresh:
    """A process forked before any call; each question is answered by a fork of it."""

    def __init__(self):
        ask_r, ask_w = os.pipe()
        tell_r, tell_w = os.pipe()
        self.owner = os.getpid()
        pid = os.fork()
        if pid == 0:
            os.close(ask_w)
            os.close(tell_r)
            try:
                self._serve(ask_r, tell_w)
            finally:
                os._exit(0)
        os.close(ask_r)
        os.close(tell_w)
        self.ask_fd, self.tell_fd = ask_w, tell_r

    @staticmethod
    def _read(fd):
        header = b""
        while len(header) < 4:
            part = os.read(fd, 4 - len(header))
            if not part:
                return None
            header += part
        (size,) = struct.unpack("!I", header)
        data = b""
        while len(data) < size:
            part = os.read(fd, size - len(data))
            if not part:
                return None
            data += part
        return pickle.loads(data)

    @staticmethod
    def _write(fd, value):
        data = pickle.dumps(value)
        data = struct.pack("!I", len(data)) + data
        while data:
            data = data[os.write(fd, data):]

    def _serve(self, ask, tell):
        signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
        while True:
            question = self._read(ask)
            if question is None:
                return
            child = os.fork()
            if child == 0:
                signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
                try:
                    answer = alone(*question)
                except BaseException:
                    answer = ("error", traceback.format_exc())
                self._write(tell, answer)
                os._exit(0)
            _, status = os.waitpid(child, 0)
            if status:
                self._write(tell, ("error", f"fresh process ended with {status}"))

    def ask(self, *question):
        self._write(self.ask_fd, question)
        answer = self._read(self.tell_fd)
        if answer is None or answer[0] == "error":
            raise RuntimeError(f"no answer from a fresh process: {answer}")
        return answer[1]


def alone(stream, seed, index, ks):
    plan = MAKE[stream](case_rng(seed, "C23-plan", stream, index))
    return "ok", [outcome(plan.target(k), plan.calls[k][1])[0] for k in ks]


_fresh = None


def fresh():
    global _fresh
    if _fresh is None or _fresh.owner != os.getpid():
        _fresh = Fresh()
    return _fresh


def case_seed():
    return int(os.environ.get("VERIF_SEED") or 1)


# ---------------------------------------------------------------- streams


def vandalise(value, seen=None):
    """Spoil a returned object in place, as its owner may do."""
    if isinstance(value, dict):
        for v in list(value.values()):
            vandalise(v)
        value.clear()
        value["vandalised"] = True
    elif isinstance(value, list):
        for v in list(value):
            vandalise(v)
        value.clear()
        value.append("vandalised")


def history(ctx, index):
    """Calls after one another on shared objects; some are repeated, each is compared to the call made alone."""
    server = fresh()
    rng = ctx.rng
    plan = Plan(case_rng(case_seed(), "C23-plan", "history", index), 14)
    prints = [fingerprint(s) for s in plan.schemas]
    order = list(range(len(plan.calls)))
    rng.shuffle(order)
    order += rng.sample(order, 6)
    kept, texts = [], {}
    for k in order:
        target, kwargs = plan.target(k), plan.calls[k][1]
        before = view(kwargs)
        text, returned = outcome(target, kwargs)
        ctx.log.append(f"{k}: {target.label} -> {short(text, 300)}")
        ctx.seen("call:" + target.label)
        ctx.same(view(kwargs), before, "arguments are modified", call=target.label)
        if k in texts:
            ctx.same(text, texts[k], "repeating a call gives another result", call=target.label, arguments=before)
            ctx.seen("repeated")
        texts[k] = text
        if returned:
            kept.append((k, target, text, returned))
        ctx.sig("history", target.label, text[-200:])
    for schema, print_ in zip(plan.schemas, prints):
        ctx.same(fingerprint(schema), print_, "schema is modified by calls")
    for k, target, text, (result, issues) in kept:
        ctx.same(view(result) + " | " + report(issues), text, "earlier result is modified by later calls", call=target.label)
    # each call alone
    ks = rng.sample(order, 4)
    answers = [server.ask("history", case_seed(), index, [k])[0] for k in ks[:3]]
    answers += server.ask("history", case_seed(), index, ks[3:])
    for k, answer in zip(ks, answers):
        ctx.same(texts[k], answer, "call made after others differs from the call made alone", call=plan.target(k).label,
                 arguments=view(plan.calls[k][1]))
        ctx.seen("compared_to_alone")
    # owners of results do what they like with them
    for _, _, _, (result, issues) in kept:
        for part in (getattr(result, "body", None), issues.to_dict(msg=True, ctx=True)):
            vandalise(part.to_dict() if isinstance(part, SCIMDataContainer) else part)
    for schema in plan.schemas:
        vandalise(get_schema_rep(schema))
        vandalise(schema.schemas)
        vandalise(schema.schema_extensions)
    for schema, print_ in zip(plan.schemas, prints):
        ctx.same(fingerprint(schema), print_, "schema is modified through what it returned")
    again = Plan(case_rng(case_seed(), "C23-plan", "history", index), 14)
    for k in rng.sample(range(len(plan.calls)), 5):
        # same arguments, made anew; on the shared objects
        text, _ = outcome(plan.target(k), again.calls[k][1])
        ctx.same(text, texts[k], "results that were handed out are used by later calls", call=plan.target(k).label,
                 arguments=view(again.calls[k][1]))
    ctx.sample([(plan.target(k).label, view(plan.calls[k][1])[:200]) for k in order[:4]])


class Switches:
    """Forces thread switches at random lines of the library, and records where they happened."""

    TOOL = 4

    def __init__(self, seed, chance):
        self.random = random.Random(seed).random
        self.chance = chance
        self.last = None
        self.count = 0
        self.lines = 0
        self.pattern = []
        self.prefix = os.path.join(drive.model.__file__.rsplit("/vlib/", 1)[0], "")

    def __enter__(self):
        from vlib.core import REPO

        prefix = os.path.join(REPO, "src") + os.sep
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "switches")

        def on_line(code, line):
            if not code.co_filename.startswith(prefix):
                return mon.DISABLE
            self.lines += 1
            me = threading.get_ident()
            if me != self.last:
                self.last = me
                self.count += 1
                if len(self.pattern) < 400:
                    self.pattern.append((code.co_name, line))
            if self.random() < self.chance:
                time.sleep(0)

        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.restart_events()
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        return self

    def __exit__(self, *_):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)
        sys.setswitchinterval(self.interval)


def threads(ctx, index):
    """The same calls from several threads on shared validators, schemas, filters and bodies."""
    server = fresh()
    rng = ctx.rng
    plan = thread_plan(case_rng(case_seed(), "C23-plan", "threads", index))
    n = len(plan.calls)
    expected = server.ask("threads", case_seed(), index, list(range(n)))
    before = [view(kwargs) for _, kwargs in plan.calls]
    prints = [fingerprint(s) for s in plan.schemas]
    workers = rng.choice([2, 3, 4, 6])
    orders = []
    for _ in range(workers):
        order = list(range(n))
        rng.shuffle(order)
        orders.append(order)
    if rng.random() < 0.3:
        orders = [orders[0]] * workers
    results = [[] for _ in range(workers)]
    barrier = threading.Barrier(workers)

    def work(w):
        barrier.wait()
        for k in orders[w]:
            results[w].append((k, outcome(plan.target(k), plan.calls[k][1])[0]))

    pool = [threading.Thread(target=work, args=(w,), daemon=True) for w in range(workers)]
    with Switches(rng.random(), rng.choice([0.005, 0.02, 0.1])) as switches:
        for t in pool:
            t.start()
        for t in pool:
            t.join()
    ctx.seen("thread_switches", switches.count)
    ctx.seen("lines_watched", switches.lines)
    for w in range(workers):
        ctx.same(len(results[w]), n, "a thread got no results")
        for k, text in results[w]:
            ctx.same(text, expected[k], "concurrent call differs from the call made alone", call=plan.target(k).label,
                     arguments=before[k], threads=workers)
            ctx.seen("concurrent_calls")
    ctx.same([view(kwargs) for _, kwargs in plan.calls], before, "arguments are modified")
    ctx.same([fingerprint(s) for s in plan.schemas], prints, "schema is modified by calls")
    ctx.sig("threads", tuple(switches.pattern))
    ctx.sample([plan.target(k).label for k in range(n)])


def history_plan(rng):
    return Plan(rng, 14)


def thread_plan(rng):
    """Few targets, so that threads meet in the same objects."""
    specs = c19.some_specs(rng)[:2]
    plan = Plan(rng, 0, specs)
    chosen = [rng.randrange(len(plan.targets)) for _ in range(rng.choice([1, 2, 4]))]
    for _ in range(8):
        position = rng.choice(chosen)
        plan.calls.append((position, plan.targets[position].make(rng, rng.choice([0, 0, 1, 1, 2]))))
    return plan


def probes(rng, spec):
    """Data sent through a schema to see what it does."""
    return [drive.at_level(rng, gen.resource(rng, spec, rng.choice(["parse", "dump"])), rng.choice([0, 0, 1]))
            for _ in range(4)]


def behaviour(schema, data, config):
    out = [fingerprint(schema)]
    for item in data:
        for method in (schema.parse, schema.dump):
            result, issues = method(item)
            out.append(view(result) + report(issues))
        for call in (rv.ResourcesPOST(config, resource_schema=schema).parse_request,
                     rv.ResourceObjectPUT(config, resource_schema=schema).parse_request):
            result, issues = call(body=item)
            out.append(view(result) + report(issues))
    return out


def changed(rng, attr):
    """An attribute of the same name with other characteristics."""
    for _ in range(20):
        other = gen.random_attr(rng, attr["name"])
        if other != attr:
            return other
    return attr


def instances(ctx, index):
    """Configuring one schema instance leaves all others as they were."""
    rng = ctx.rng
    config = drive.make_config(5)
    names = ["User", "Group", "ResourceType", "ServiceProviderConfig"]
    spec = dict(model.BUILTIN[rng.choice(names)]) if rng.random() < 0.4 else gen.random_spec(rng, n_attrs=rng.randint(1, 4))
    other = build_schema(spec)
    data = probes(rng, spec)
    extra = dict(gen.random_spec(rng, n_attrs=rng.randint(1, 3)), schema="urn:verif:extension:%s" % gen.word(rng))
    extra["attrs"] = [a for a in extra["attrs"]]
    if rng.random() < 0.5 and spec["attrs"]:
        extra["attrs"] = [changed(rng, rng.choice(spec["attrs"]))]  # same name as an attribute of the schema itself
    extra["name"] = "Extra"
    with_extra = [dict(d, **{extra["schema"]: {a["name"]: gen.valid_value(rng, a, "parse") for a in extra["attrs"]}})
                  for d in data if isinstance(d, dict)]
    data += with_extra
    known = [m for m in names if m not in (spec.get("builtin"),)][: rng.randint(0, 2)]
    bystanders = [(build_schema(dict(model.BUILTIN[m], builtin=m)), probes(rng, model.BUILTIN[m])) for m in known]
    before = behaviour(other, data, config)
    before_by = [behaviour(s, d, config) for s, d in bystanders]
    one = build_schema(spec)
    ctx.same(behaviour(one, data, config), before, "two instances of a schema differ")
    extension = build_extension(extra)
    print_ = repr(extension.to_dict())
    required = rng.random() < 0.5
    one.with_extension(extension, required)
    configured = behaviour(one, data, config)
    ctx.expect(configured[0] != before[0], "extension is not attached")
    ctx.same(behaviour(other, data, config), before, "extending one schema changes another", extension=extra)
    ctx.same(behaviour(build_schema(spec), data, config), before, "extending one schema changes later ones", extension=extra)
    for (schema, d), b in zip(bystanders, before_by):
        ctx.same(behaviour(schema, d, config), b, "extending one schema changes one of another kind", extension=extra)
    # the extension is shared
    two = build_schema(spec)
    two.with_extension(extension, not required)
    ctx.same(repr(extension.to_dict()), print_, "attaching an extension modifies it")
    ctx.same(behaviour(one, data, config), configured, "sharing an extension changes the first schema", extension=extra)
    three = build_schema(spec)
    three.with_extension(build_extension(extra), required)
    ctx.same(behaviour(three, data, config), configured, "shared and own extension differ", extension=extra)
    ctx.seen("extended:" + (spec.get("builtin") or "generated"))
    # attributes are shared
    if not spec.get("builtin"):
        attrs = [build_attr(a) for a in spec["attrs"]]
        renamed = "urn:verif:other"
        own = ResourceSchema(renamed, [build_attr(a) for a in spec["attrs"]], name="Other")
        moved = [dict(d, schemas=[renamed]) for d in data if isinstance(d, dict)]
        first = ResourceSchema(spec["schema"], attrs, name=spec["name"], description=spec.get("description", ""),
                               plural_name=spec.get("plural"))
        shown = behaviour(first, data, config)
        second = ResourceSchema(renamed, attrs, name="Other",
                                attr_overrides={"id": Attribute("id", TYPES["integer"])} if rng.random() < 0.3 else None)
        if second.attrs.id.type is not TYPES["integer"]:
            ctx.same(behaviour(second, moved, config), behaviour(own, moved, config), "shared attributes behave differently")
        second.with_extension(build_extension(extra), required)
        ctx.same(behaviour(first, data, config), shown, "schemas that share attributes influence each other")
        ctx.seen("shared_attributes")
    ctx.sig("instances", spec["schema"], len(extra["attrs"]), required, tuple(sorted(a["type"] for a in extra["attrs"])))
    ctx.sample((spec.get("builtin") or spec["schema"], extra["attrs"]))


def shared_processors(ctx, index):
    """Attributes built from the same processors, and users who add to those of one attribute."""
    rng = ctx.rng

    def spec_of(name):
        attr = procs.equip(rng, gen.random_attr(rng, name))
        for part in ("proc", "whole"):
            for chain in attr.get(part, {}).values():
                for item in chain:
                    if item["kind"] in ("stamp", "drop", "fewer", "none"):  # depend on the shape
                        item["kind"] = "keep"
        return attr

    source = spec_of("source")
    real = build_attr(source)
    lists = {"parsers": real.parsers, "dumpers": real.dumpers}
    if isinstance(real, ComplexAttribute):
        whole = source.get("whole", {"parse": [], "dump": []})
        lists["complex_parsers"] = [processor(p) for p in whole["parse"]]
        lists["complex_dumpers"] = [processor(p) for p in whole["dump"]]
    lists = {k: list(v) for k, v in lists.items()}
    sizes = {k: len(v) for k, v in lists.items()}

    def make(multi, own):
        given = {k: list(v) if own else v for k, v in lists.items()}
        if not isinstance(real, ComplexAttribute):
            return Attribute(name="made", type_=TYPES[source["type"]], multi_valued=multi, **given)
        return ComplexAttribute(name="made", sub_attributes=[build_attr(dict(a, multi=False)) for a in source["sub"]],
                                multi_valued=multi, **given)

    def show(attr, values):
        out = []
        for value in values:
            for call in (attr.parse, attr.dump):
                result, issues = call(value)
                out.append(view(result) + report(issues))
        return out

    def value(multi):
        base = {**source, "multi": False, "sub": [dict(a, multi=False) for a in source.get("sub", [])]}
        item = gen.valid_value(rng, base, rng.choice(["parse", "dump"]))
        items = [SCIMDataContainer(item) if isinstance(item, dict) else item for _ in range(rng.choice([1, 2]))]
        return items if multi else items[0]

    order = [rng.random() < 0.5 for _ in range(3)]
    values = {multi: [value(multi) for _ in range(2)] for multi in (False, True)}
    alone_ = [show(make(multi, True), values[multi]) for multi in order]
    together = [make(multi, False) for multi in order]
    for attr, multi, expected in zip(together, order, alone_):
        ctx.same(show(attr, values[multi]), expected, "attributes built from the same processors influence each other",
                 attribute=source, order=order)
    ctx.same({k: len(v) for k, v in lists.items()}, sizes, "processors that were given are modified", attribute=source)
    # additions to one attribute
    mine, other = make(order[0], True), make(order[0], True)
    fresh_ = spec_of("fresh")
    first, second = build_attr(dict(fresh_, proc=None, whole=None)), build_attr(dict(fresh_, proc=None, whole=None))

    def refuse(value):
        issues = ValidationIssues()
        issues.add(ValidationError.must_be_equal_to("x"), proceed=False)
        return Invalid, issues

    probe = [gen.valid_value(rng, fresh_, "parse") for _ in range(2)]
    probe = [[SCIMDataContainer(x) if isinstance(x, dict) else x for x in p] if isinstance(p, list) else
             SCIMDataContainer(p) if isinstance(p, dict) else p for p in probe]
    before, before_fresh = show(other, values[order[0]]), show(second, probe)
    for attr in (mine, first):
        attr.parsers.append(refuse)
        attr.dumpers.append(refuse)
        if isinstance(attr, ComplexAttribute):
            attr.complex_parsers.insert(0, refuse)
            attr.complex_dumpers.insert(0, refuse)
    ctx.same(show(other, values[order[0]]), before, "adding a processor to one attribute changes another", attribute=source)
    ctx.same(show(second, probe), before_fresh, "adding a processor to one attribute changes another", attribute=fresh_)
    third = build_attr(dict(fresh_, proc=None, whole=None))
    ctx.same(show(third, probe), before_fresh, "adding a processor to one attribute changes later ones", attribute=fresh_)
    ctx.seen("shared_processors")
    ctx.sig("processors", source["type"], tuple(order), tuple(sorted(sizes.values())))


def family(rng, value):
    """Values that are easily taken for one another."""
    if isinstance(value, bool) or value in (0, 1):
        return rng.choice([[1, True, 1.0], [0, False, 0.0, None]])
    if isinstance(value, int):
        return [value, float(value), str(value)] if abs(value) < 2**53 else [value, value + 1]
    if isinstance(value, float):
        return [value, int(value), str(value)] if value.is_integer() and abs(value) < 2**53 else [value, -value]
    if isinstance(value, str):
        return [value, value.upper(), value.lower(), value + " ", value.title()]
    return [value, [], {}]


def twin_plan(rng):
    """Groups of calls on one target whose arguments are alike, but not the same."""
    specs = c19.some_specs(rng)[:2]
    plan = Plan(rng, 0, specs)
    for _ in range(3):
        position = rng.randrange(len(plan.targets))
        base = plan.targets[position].make(rng, rng.choice([0, 0, 1]))
        names = [k for k in base if isinstance(base[k], (dict, list, str))]
        places = [(k, p) for k in names for p in gen.positions(base[k]) if not isinstance(gen.get_at(base[k], p), (dict, list))]
        numbers = [(k, p) for k, p in places if isinstance(gen.get_at(base[k], p), (bool, int, float))]
        chosen = rng.sample(numbers, min(len(numbers), 2))
        if places and (not chosen or rng.random() < 0.5):
            chosen += rng.sample(places, min(len(places), rng.choice([1, 2])))
        families = [(k, p, family(rng, gen.get_at(base[k], p))) for k, p in chosen]
        for _ in range(5):
            kwargs = dict(base)
            for k, p, values in families:
                kwargs[k] = gen.replace_at(kwargs[k], p, rng.choice(values))
            if rng.random() < 0.2:
                for k in names:
                    if k == "body" or k == "data":
                        kwargs[k] = gen.recase(rng, kwargs[k])
            plan.calls.append((position, kwargs))
    return plan


def twins(ctx, index):
    """Calls whose arguments are alike after one another; each is compared to the call made alone."""
    server = fresh()
    rng = ctx.rng
    plan = twin_plan(case_rng(case_seed(), "C23-plan", "twins", index))
    texts = {}
    order = list(range(len(plan.calls)))
    if rng.random() < 0.5:
        rng.shuffle(order)
    for k in order:
        texts[k] = outcome(plan.target(k), plan.calls[k][1])[0]
        ctx.sig("twins", plan.target(k).label, texts[k][-200:])
    ctx.seen("twins_that_differ", len(set(texts.values())))
    for k in rng.sample(order, 5):
        answer = server.ask("twins", case_seed(), index, [k])[0]
        ctx.same(texts[k], answer, "call made after a similar one differs from the call made alone",
                 call=plan.target(k).label, arguments=view(plan.calls[k][1]))
        ctx.seen("twins_compared")


SHARED = ("filter_", "sorter", "presence_checker")


def reuse_plan(rng):
    """Pairs of calls on one target, the second with the filter, sorter and selection of the first."""
    plan = Plan(rng, 0, c19.some_specs(rng)[:2])
    for _ in range(5):
        position = rng.randrange(len(plan.targets))
        first, second = (plan.targets[position].make(rng, rng.choice([0, 0, 1, 1, 2])) for _ in range(2))
        for name in SHARED:
            if isinstance(first.get(name), (drive.Filter, drive.Sorter, drive.AttributePresenceChecker)):
                second[name] = first[name]
        plan.calls += [(position, first), (position, second)]
    return plan


def morph(old, new):
    """The new value, made of the old object where that is possible."""
    if isinstance(old, dict) and isinstance(new, dict):
        before = dict(old)
        old.clear()
        for k, v in new.items():
            old[k] = morph(before.get(k), v)
        return old
    if isinstance(old, list) and isinstance(new, list):
        before = list(old)
        old[:] = [morph(before[i] if i < len(before) else None, v) for i, v in enumerate(new)]
        return old
    if isinstance(old, SCIMDataContainer) and isinstance(new, SCIMDataContainer):
        names = [k for container in (old, new) for k in container.to_dict()]
        if all(re.fullmatch(r"[A-Za-z]\w*", k) for k in names):
            for k in list(old.to_dict()):
                del old[k]
            for k in new.to_dict():
                old[k] = new[k]
            return old
    return new


def reused(ctx, index):
    """Objects that were arguments of a call before, with new content; compared to the call made alone."""
    server = fresh()
    rng = ctx.rng
    plan = reuse_plan(case_rng(case_seed(), "C23-plan", "reused", index))
    spare = reuse_plan(case_rng(case_seed(), "C23-plan", "reused", index))
    for k in range(0, len(plan.calls), 2):
        target = plan.target(k)
        kwargs = plan.calls[k][1]
        shared = {name: kwargs[name] for name in SHARED if kwargs.get(name) is not None}
        outcome(target, kwargs)
        kwargs = {**morph(kwargs, spare.calls[k + 1][1])}
        kwargs.update({name: v for name, v in shared.items() if isinstance(v, (drive.Filter, drive.Sorter,
                                                                             drive.AttributePresenceChecker))})
        before = view({n: v for n, v in kwargs.items() if n not in SHARED})
        text, _ = outcome(target, kwargs)
        ctx.seen("reused:" + target.label)
        ctx.same(view({n: v for n, v in kwargs.items() if n not in SHARED}), before, "arguments are modified",
                 call=target.label)
        answer = server.ask("reused", case_seed(), index, [k + 1])[0]
        ctx.same(text, answer, "call on objects with new content differs from the call made alone", call=target.label,
                 arguments=before)
        ctx.seen("reused")
        ctx.sig("reused", target.label, text[-200:])


MAKE = {"reused": reuse_plan, "history": history_plan, "threads": thread_plan, "twins": twin_plan}
STREAMS = {"history": (history, 240, 4000), "twins": (twins, 200, 3000), "reused": (reused, 200, 3000),
           "threads": (threads, 160, 3000), "instances": (instances, 200, 3000),
           "shared_processors": (shared_processors, 600, 8000)}
FLOORS = {"repeated": 200, "compared_to_alone": 200, "concurrent_calls": 1000, "thread_switches": 2000,
          "shared_attributes": 20, "twins_compared": 500, "reused": 500, "twins_that_differ": 300, "shared_processors": 300}
