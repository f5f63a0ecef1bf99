"""Histories of two levels: ids, renumbering, merging (C12, C13)."""
import json
import zlib

from . import levels as lv
from . import vals
from .core import observe

REFS = {"AI_controller": ("puppet_id", 3, False), "camera_node": ("c_node_ids", 3, True), "level_end": ("ent_list", 3, True),
        "enemy_key": ("door", 3, False), "custom_score_book": ("level_list_id", 2, False)}


def digest(obj):
    return zlib.crc32(json.dumps(obj, sort_keys=True).encode()) & 0x3FFFFFFF


def is_ref(name, k):
    return name in REFS and REFS[name][0] == k


def refs_of(ent):
    spec = REFS.get(ent.etype)
    if spec is None:
        return []
    var, _t, arr = spec
    v = ent.variables.get(var)
    if v is None:
        return [] if arr else [0]
    p = vals.proj(v)
    got = p.get("a", []) if arr else [p]
    if arr and p.get("et") != 3:
        return [-5]
    return [x.get("n", -5) for x in got]


def sig_ent(i, v):
    e = lv.proj_ent(0, v)
    e["vars"] = [kv for kv in e["vars"]["kv"] if not is_ref(v[2].etype, vals.unkey(kv["k"]))]
    e["vars"].sort(key=lambda kv: kv["k"])
    return digest(e)


def sig_prop(v):
    return digest(lv.proj_prop(0, v))


class Two:
    def __init__(self):
        from dustmaker.level import Level

        self.levels = [Level(), Level()]
        self.sig = {}
        self.n = 0

    def tok_prop(self, v):
        n = v[3].prop_group * 4096 + v[3].prop_index
        return n if self.sig.get(n) == sig_prop(v) else -n - 1

    def tok_ent(self, v):
        t = v[2].variables.get("tok")
        n = t.value if t is not None else -1
        return n if self.sig.get(n) == sig_ent(0, v) else -n - 1

    def state(self, lev):
        def props(x):
            return [{"id": lv.nat(i), "tok": self.tok_prop(v)} for i, v in x.props.items()]

        two = [(0, lev)] + ([(1, lev.backdrop)] if lev.backdrop is not None else [])
        tiles = [{"k": [d, *map(lv.nat, k)], "t": digest(lv.proj_tile(t))} for d, x in two for k, t in x.tiles.items()]
        return {"props": props(lev), "bprops": props(lev.backdrop) if lev.backdrop is not None else [],
                "ents": [{"id": lv.nat(i), "tok": self.tok_ent(v), "refs": refs_of(v[2])} for i, v in lev.entities.items()],
                "tiles": tiles, "misc": digest([vals.projmap(lev.variables), list(lev.sshot)])}

    def event(self, op, **kw):
        e = {"op": op, "out": "ok", "ret": -1, "lv": [self.state(x) for x in self.levels]}
        e.update(kw)
        return e

    def add(self, c, rng):
        lev = self.levels[c["w"] - 1]
        self.n += 1
        n = self.n
        i = None if c["id"] == -1 else c["id"]
        refs = []
        if c["k"] == "e":
            a = lv.rand_ent(rng, 0)
            name = vals.unkey(a["ty"])
            if rng.random() < 0.7 or "refs" in c:
                name = c.get("type") or rng.choice(sorted(REFS))
            kv = [x for x in a["vars"]["kv"] if vals.unkey(x["k"]) != "tok" and not is_ref(name, vals.unkey(x["k"]))]
            if name in REFS:
                var, t, arr = REFS[name]
                want = c["refs"] if "refs" in c else rng.choices(list(lev.entities) * 2 + [1, 100, 101, 102], k=rng.choice([0, 1, 2, 2, 2, 3, 5, 9, 12, 40]))
                if not arr:
                    want = want[:1] or [0]
                refs = list(want)
                if arr:
                    kv.append({"k": vals.key(var), "v": {"t": 15, "et": t, "a": [{"t": t, "n": x} for x in want]}})
                elif want != [0] or rng.random() < 0.5:
                    kv.append({"k": vals.key(var), "v": {"t": t, "n": want[0]}})
            elif rng.random() < 0.3:  # looks like a reference but is none
                kv.append({"k": vals.key(rng.choice(["puppet_id", "door", "level_list_id"])), "v": {"t": 3, "n": 101}})
            kv.append({"k": vals.key("tok"), "v": {"t": 2, "n": n}})
            seen = {}
            for x in kv:
                seen[tuple(x["k"])] = x
            ent = lv.make_entity(name, vals.build({"t": 14, "kv": list(seen.values())}).value, a["rot"], a["l"], bool(a["fx"]), bool(a["fy"]), bool(a["vis"]))
            pos = (a["xi"] + a["xf"] / 128, a["yi"] + a["yf"] / 128)
            if i in lev.entities and rng.random() < 0.4:  # the very object once more
                pos, ent = lev.entities[i][:2], lev.entities[i][2]
            else:
                self.sig[n] = sig_ent(0, (*pos, ent))
            res = observe(lev.add_entity, *pos, ent, id_num=i) if i is not None else observe(lev.add_entity, *pos, ent)
        else:
            p = lv.rand_prop(rng, 0)
            p["grp"], p["idx"] = divmod(n, 4096)
            prop = lv.build_prop(p)
            v = (p["l"], p["px"] / 8, p["py"] / 8, prop)
            where = lev if c["k"] == "p" else lev.backdrop
            if i in where.props and rng.random() < 0.4:
                v = where.props[i]
            else:
                self.sig[n] = sig_prop(v)
            res = observe(where.add_prop, *v, id_num=i) if i is not None else observe(where.add_prop, *v)
        return self.event("add", w=c["w"], k=c["k"], tok=n, refs=refs, out=lv.oc(res), ret=lv.nat(res[1]) if res[0] == "ok" else -1, **{"id_": c["id"]})

    def run(self, ops, rng):
        from dustmaker.level import Level

        out = [self.event("new")]
        for c in ops:
            op = c["op"]
            lev = self.levels[c.get("w", 1) - 1]
            if lev.backdrop is None and (c.get("k") == "b" or op == "tiles"):
                continue
            if op == "add":
                e = self.add(c, rng)
            elif op == "nobd":  # a level may have no backdrop
                lev.backdrop = None
                e = self.event("del", w=c["w"])
            elif op == "del":
                d = lev.props if c["k"] == "p" else lev.entities if c["k"] == "e" else lev.backdrop.props
                key = c["id"] if "id" in c else (rng.choice(sorted(d)) if d else None)
                if key not in d:
                    continue
                del d[key]
                e = self.event("del", w=c["w"])
            elif op == "tiles":
                for t in lv.rand_tiles(rng, c["n"], 60):
                    where = lev if rng.random() < 0.6 else lev.backdrop
                    where.tiles[(t["l"], t["x"] % 3, t["y"] % 3)] = lv.build_tile(t)
                e = self.event("tiles", w=c["w"])
            elif op == "remap":
                res = observe(lev.remap_ids, c["min"]) if c["min"] != 100 or rng.random() < 0.5 else observe(lev.remap_ids)
                e = self.event("remap", w=c["w"], min=c["min"], out=lv.oc(res))
            elif op == "maxid":
                res = observe(lev.calculate_max_id, reset=c["reset"])
                e = self.event("maxid", w=c["w"], reset=c["reset"], out=lv.oc(res), ret=lv.nat(res[1]) if res[0] == "ok" else -1)
            elif op == "reload":
                res = lv.write_level(lev)
                if res[0] == "ok":
                    res = lv.read_level(res[1])
                if res[0] == "ok":
                    self.levels[c["w"] - 1] = res[1]
                e = self.event("reload", w=c["w"], out=lv.oc(res))
            else:
                a, b = self.levels
                if a.backdrop is None and b.backdrop is not None and (b.backdrop.props or b.backdrop.tiles):
                    continue  # nowhere to put them
                res = observe(a.merge, b, remap_ids=c["remap"]) if not c["remap"] or rng.random() < 0.5 else observe(a.merge, b)
                oafter = self.state(b)
                mutate(a, 1)
                omut = self.state(b)
                mutate(a, -1)
                self.levels[1] = Level()
                e = self.event("merge", remap=c["remap"], out=lv.oc(res), oafter=oafter, omut=omut)
            out.append(e)
            if e["out"] not in ("ok", "LevelException"):
                break
        for e in out:
            # the op's own explicit id lives beside the event number the judge adds
            if "id_" in e:
                e["given"] = e.pop("id_")
        return out


def mutate(lev, d):
    from dustmaker.variable import VariableInt

    for x in (lev, lev.backdrop):
        if x is None:
            continue
        for t in x.tiles.values():
            t.sprite_tile = t.sprite_tile ^ 1
            t.edge_data[0].solid = not t.edge_data[0].solid
        for v in x.props.values():
            v[3].palette ^= 1
    for v in lev.entities.values():
        ent = v[2]
        ent.layer ^= 1
        if d > 0:
            ent.variables["zz_mut"] = VariableInt(1)
        else:
            del ent.variables["zz_mut"]
        for var in ent.variables.values():
            if type(var).__name__ == "VariableArray":
                if d > 0:
                    var.value[1].append(VariableInt(1))
                else:
                    var.value[1].pop()


def from_hist(h):
    ops = []
    for o in h["hist"]:
        o = dict(o)
        if o["op"] == "add":
            r = o.pop("r")
            if o["k"] == "e":
                o["refs"] = [r]
        ops.append(o)
    return ops


def rand_ops(rng, n):
    ops = []
    for _ in range(n):
        w = rng.choice([1, 1, 2])
        r = rng.random()
        if r < 0.55:
            ops.append({"op": "add", "w": w, "k": rng.choice("pbeee"), "id": rng.choice([-1, -1, -1, rng.randint(98, 108), rng.choice([1, 2, 5, 1000, 10**6, 2**30])])})
        elif r < 0.65:
            ops.append({"op": "del", "w": w, "k": rng.choice("pbe")})
        elif r < 0.72:
            ops.append({"op": "remap", "w": w, "min": rng.choice([100, 100, 101, 107, 5000])})
        elif r < 0.82:
            ops.append({"op": "maxid", "w": w, "reset": rng.random() < 0.5})
        elif r < 0.88:
            ops.append({"op": "reload", "w": w})
        elif r < 0.94:
            ops.append({"op": "tiles", "w": w, "n": rng.randint(1, 6)})
        elif r < 0.955:
            ops.append({"op": "nobd", "w": w})
        else:
            ops.append({"op": "merge", "remap": rng.random() < 0.75})
    return ops


def drive(c):
    import random

    return Two().run(c["ops"], random.Random(c["seed"]))


def check(ctx, prefixes, gen, extra):
    """gen: number of generated histories to replay; extra: random histories"""
    rng = ctx.rng
    hs = ctx.generate("LevelIdsMC", "LevelIdsGen.cfg", count=False)
    if len(hs) > gen:
        hs = rng.sample(hs, gen)
    cases = [{"ops": from_hist(h), "seed": rng.randrange(2**30)} for h in hs]
    cases += [{"ops": o, "seed": rng.randrange(2**30)} for o in extra]
    groups = ctx.pmap(drive, cases)
    for c, g in zip(cases, groups):
        ctx.count(repr(c))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    ctx.judge("IdsTrace", [g for g in groups if g != ("crash",)], prefixes=prefixes)
    ctx.sample(cases[-1])
