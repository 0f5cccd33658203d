import copy

from vlib import gen
from vlib.lib import AttrRep, Missing, SCIMDataContainer, plain, MISSING

RULE = (
    "random histories of construct/read/assign/delete on resource data with few names in many "
    "letter cases, checked after each step against a reference map; counted by operation kinds and "
    "shape of the final data"
)
ASSUMPTIONS = [
    "assigned complex values are containers (not raw dicts); what assigning sub-attributes to an "
    "empty list does is not specified",
]
NAMES = ["userName", "emails", "x", "Y_1", "and"]
SUBS = ["value", "type", "$ref", "X"]
EXTS = ["urn:ext:A", "urn:ext:b"]
MAIN = "urn:main:Thing"


class M:
    """Reference: ordered case-insensitive map, lower-case name -> [spelling, value]."""

    def __init__(self, data=None):
        self.d = {}
        for k, v in (data or {}).items():
            self.put(k, convert(v))

    def put(self, key, value):
        self.d[key.lower()] = [key, value]

    def namespace(self, schema):
        entry = self.d.get(schema.lower()) if schema else None
        return entry[1] if entry and isinstance(entry[1], M) else None

    def get(self, rep):
        schema, attr, sub, ext = rep
        ns = self.namespace(schema)
        if ns is not None:
            return ns.get(("", attr, sub, False))
        if ext or attr.lower() not in self.d:
            return MISSING
        value = self.d[attr.lower()][1]
        if not sub:
            return value
        if isinstance(value, M):
            return value.get(("", sub, "", False))
        if isinstance(value, list):
            return [v.get(("", sub, "", False)) if isinstance(v, M) else MISSING for v in value]
        return MISSING

    def can_set(self, rep, value):
        """True, False if it has to be refused, None if that is not specified."""
        schema, attr, sub, ext = rep
        if ext:
            entry = self.d.get(schema.lower())
            if entry is None:
                return True
            return entry[1].can_set(("", attr, sub, False), value) if isinstance(entry[1], M) else None
        if schema and self.namespace(schema) is not None:
            return None
        if not sub or attr.lower() not in self.d:
            return True
        current = self.d[attr.lower()][1]
        if isinstance(current, M):
            return True if not (isinstance(value, list) and MISSING in value) else None
        if isinstance(current, list) and isinstance(value, list):
            return all(isinstance(v, M) for v in current) if current else None
        return False

    def set(self, rep, value):
        schema, attr, sub, ext = rep
        if ext:
            if schema.lower() not in self.d:
                self.put(schema, M())
            self.d[schema.lower()][1].set(("", attr, sub, False), value)
        elif not sub:
            self.put(attr, value)
        else:
            if attr.lower() not in self.d:
                self.put(attr, [] if isinstance(value, list) else M())
            current = self.d[attr.lower()][1]
            if isinstance(current, list):
                while len(current) < len(value):
                    current.append(M())
                for item, target in zip(value, current):
                    if item is not MISSING:
                        target.set(("", sub, "", False), item)
            else:
                current.set(("", sub, "", False), value)

    def delete(self, rep):
        schema, attr, sub, ext = rep
        ns = self.namespace(schema)
        if ns is not None:
            return ns.delete(("", attr, sub, False))
        if ext or attr.lower() not in self.d:
            return
        if not sub:
            del self.d[attr.lower()]
            return
        value = self.d[attr.lower()][1]
        for item in value if isinstance(value, list) else [value]:
            if isinstance(item, M):
                item.delete(("", sub, "", False))

    def export(self):
        return {k: export(v) for k, v in self.d.values()}


def export(value):
    if isinstance(value, M):
        return value.export()
    if isinstance(value, list):
        return [export(v) for v in value]
    return value


def convert(value):
    """As the container treats constructor data."""
    if isinstance(value, dict):
        return M(value)
    if isinstance(value, list):
        return [M(v) if isinstance(v, dict) else v for v in value]
    return value


def to_lib(value):
    if isinstance(value, dict):
        return SCIMDataContainer(value)
    if isinstance(value, list):
        return [
            Missing if v is MISSING else SCIMDataContainer(v) if isinstance(v, dict) else v
            for v in value
        ]
    return value


class Values:
    """Unique values, so that a read identifies the write it observes."""

    def __init__(self, rng):
        self.rng = rng
        self.n = 1

    def scalar(self):
        self.n += 1
        return self.rng.choice([f"v{self.n}", self.n, None, f"V{self.n}"])

    def some(self, depth=1):
        r = self.rng.random()
        if depth and r < 0.25:
            return {
                gen.recase_text(self.rng, self.rng.choice(SUBS)): self.scalar()
                for _ in range(gen.few(self.rng, 0, 3))
            }
        if depth and r < 0.5:
            return [self.some(depth - 1) for _ in range(gen.few(self.rng, 0, 3))]
        if depth and r < 0.6:
            return [self.some(1) for _ in range(2)] if depth > 1 else [
                {"value": self.scalar()}, {"Type": self.scalar(), "value": self.scalar()}
            ]
        if depth and r < 0.65:
            return [self.scalar(), {"value": self.scalar()}][:: self.rng.choice([1, -1])]
        return self.scalar()

    def data(self):
        out = {}
        for _ in range(gen.few(self.rng, 0, 5)):
            out[gen.recase_text(self.rng, self.rng.choice(NAMES))] = self.some()
        for ext in EXTS:
            if self.rng.random() < 0.4:
                out[gen.recase_text(self.rng, ext)] = {
                    gen.recase_text(self.rng, self.rng.choice(NAMES)): self.some()
                    for _ in range(gen.few(self.rng, 0, 3))
                }
        return out


def random_rep(rng):
    attr = gen.recase_text(rng, rng.choice(NAMES))
    sub = gen.recase_text(rng, rng.choice(SUBS)) if rng.random() < 0.4 else ""
    r = rng.random()
    if r < 0.3:
        return (gen.recase_text(rng, rng.choice(EXTS)), attr, sub, True)
    if r < 0.4:
        return (MAIN, attr, sub, False)
    if r < 0.45:
        return (gen.recase_text(rng, rng.choice(EXTS)), attr, sub, False)
    return ("", attr, sub, False)


def to_rep(rng, rep):
    schema, attr, sub, ext = rep
    if not ext and rng.random() < 0.4:
        return (schema + ":" if schema else "") + attr + ("." + sub if sub else "")
    return AttrRep(schema=schema, attr=attr, sub_attr=sub, extension=ext)


def observe(ctx, container, model, step):
    ctx.expect(
        plain(ctx.call("to_dict", container.to_dict)) == model.export(),
        "exported data differs from what was stored",
        step=step, expected=model.export(), actual=plain(container.to_dict()),
    )


def read(ctx, container, model, rep, step):
    value = ctx.call("get", container.__getitem__, to_rep(ctx.rng, rep))
    expected = export(model.get(rep))
    ctx.expect(
        plain(value) == expected,
        "read does not return the value most recently stored under the name",
        step=step, name=rep, expected=expected, actual=plain(value), data=model.export(),
    )
    ctx.seen("read_hit" if expected is not MISSING else "read_missing")


def refused(ctx, container, rep, value, step):
    name, given = to_rep(ctx.rng, rep), to_lib(value)
    try:
        container[name] = given
    except KeyError:
        ctx.seen("refused")
        return
    except Exception as e:
        ctx.expect(False, "assignment that does not fit is refused in another way", step=step, name=rep, value=value, error=repr(e))
    ctx.expect(False, "assignment that does not fit is accepted", step=step, name=rep, value=value)


def history(ctx, index):
    rng = ctx.rng
    values = Values(rng)
    data = values.data()
    snapshot = copy.deepcopy(data)
    container = ctx.call("construct", SCIMDataContainer, data)
    model = M(data)
    ctx.log.append(f"construct {data}")
    observe(ctx, container, model, "construct")
    ctx.same(data, snapshot, "constructing modified the given data")
    kinds = []
    for step in range(gen.few(rng, 2, 14, 60)):
        kind = rng.choices(["set", "get", "del"], [5, 3, 2])[0]
        rep = random_rep(rng)
        if kind == "set":
            value = values.some()
            if rep[2] and rng.random() < 0.5:
                value = [rng.choice([MISSING, values.scalar(), values.scalar()]) for _ in range(rng.randint(1, 3))]
            fits = model.can_set(rep, value)
            if fits is None:
                ctx.seen("set_out_of_domain")
                continue
            if not fits:
                ctx.log.append(f"{step}: set {rep} = {value} (refused)")
                refused(ctx, container, rep, value, step)
                observe(ctx, container, model, step)
                continue
            ctx.log.append(f"{step}: set {rep} = {value}")
            model.set(rep, convert(value))
            ctx.call("set", container.__setitem__, to_rep(rng, rep), to_lib(value))
            observe(ctx, container, model, step)
            read(ctx, container, model, rep, step)
        elif kind == "get":
            ctx.log.append(f"{step}: get {rep}")
            read(ctx, container, model, rep, step)
            observe(ctx, container, model, step)
        else:
            ctx.log.append(f"{step}: del {rep}")
            model.delete(rep)
            ctx.call("del", container.__delitem__, to_rep(rng, rep))
            observe(ctx, container, model, step)
            read(ctx, container, model, rep, step)
        kinds.append(kind + ("x" if rep[3] else "") + ("s" if rep[2] else ""))
        ctx.seen("op:" + kind)
        for _ in range(2):
            read(ctx, container, model, random_rep(rng), step)
    compare(ctx, container, model.export())
    another(ctx, container, model)
    if kinds:
        ctx.sig(tuple(kinds), len(model.d), sum(isinstance(v[1], (M, list)) for v in model.d.values()))


def another(ctx, container, model):
    """A container made from a container holds the same data; it shares all changes with it or none."""
    rng = ctx.rng
    before = model.export()
    other = ctx.call("construct", SCIMDataContainer, container)
    ctx.same(plain(other.to_dict()), before, "container made from a container holds other data")
    changed, kept = (other, container) if rng.random() < 0.5 else (container, other)
    rep = random_rep(rng)[:2] + ("", False)
    rep = ("", rep[1], "", False) if rng.random() < 0.8 else ("", "brandNew", "", False)
    if rng.random() < 0.5:
        model.set(rep, convert("new!"))
        ctx.call("set", changed.__setitem__, to_rep(rng, rep), "new!")
    else:
        model.delete(rep)
        ctx.call("del", changed.__delitem__, to_rep(rng, rep))
    observe(ctx, changed, model, "second container")
    read(ctx, changed, model, rep, "second container")
    found = plain(ctx.call("to_dict", kept.to_dict))
    ctx.expect(found in (before, model.export()), "change of one container changes another in part", before=before, after=model.export(),
               actual=found)
    value = plain(ctx.call("get", kept.__getitem__, to_rep(rng, rep)))
    wanted = {k.lower(): v for k, v in found.items()}.get(rep[1].lower(), MISSING)
    ctx.expect(value == wanted, "container reads something else than it exports", name=rep, value=value, exported=wanted)
    ctx.seen("another")


def compare(ctx, container, data):
    rng = ctx.rng
    same = gen.shuffled(rng, gen.recase(rng, data))
    ctx.same(ctx.call("eq", lambda: container == SCIMDataContainer(same)), True,
             "containers with the same data are not equal", data=data, other=same)
    ctx.same(ctx.call("eq", lambda: SCIMDataContainer(same) == container), True,
             "containers with the same data are not equal (reversed)", data=data, other=same)
    ctx.same(ctx.call("eq", lambda: container == same), True,
             "container is not equal to its own data", data=data, other=same)
    other = change(rng, data)
    if other is None:
        return
    for left, right in [(container, SCIMDataContainer(other)), (SCIMDataContainer(other), container)]:
        ctx.same(ctx.call("eq", lambda: left == right), False,
                 "containers with different data are equal", data=data, other=other)
    ctx.same(ctx.call("eq", lambda: container == other), False,
             "container equals different data", data=data, other=other)
    ctx.seen("compared_different")


def change(rng, data):
    """Data that differs from the given in one place."""
    places = [p for p in gen.positions(data) if p]
    kind = rng.choice(["add", "drop", "value", "value"])
    if kind == "add" or not places:
        holders = [()] + [p for p in places if isinstance(gen.get_at(data, p), dict)]
        place = rng.choice(holders)
        target = dict(gen.get_at(data, place))
        target["zzNew"] = rng.choice(["n", None])
        return gen.replace_at(data, place, target)
    place = rng.choice(places)
    if kind == "drop":
        return gen.delete_at(data, place)
    current = gen.get_at(data, place)
    new = rng.choice(["other!", 999999, ["other!"], {"zz": 1}])
    return gen.replace_at(data, place, new) if new != current else None


def equality(ctx, index):
    rng = ctx.rng
    data = Values(rng).data()
    container = ctx.call("construct", SCIMDataContainer, data)
    compare(ctx, container, M(data).export())
    for other in [None, 5, "x", [], [data]]:
        ctx.same(ctx.call("eq", lambda: container == other), False, "container equals a non-container")
    ctx.sig(len(data), tuple(sorted(type(v).__name__ for v in data.values())))


STREAMS = {"history": (history, 16000, 300000), "equality": (equality, 8000, 100000)}
FLOORS = {"refused": 500, "op:set": 5000, "op:del": 3000, "read_hit": 5000, "compared_different": 3000}
