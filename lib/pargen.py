"""Random dataflows with Parallelizable/Collect blocks + reference semantics."""
import vrt
from gen import HEADER, MISSING, REQ, RefError, fresh_names, input_value, load_module

HDR = HEADER + "from hamilton.htypes import Parallelizable, Collect\n"


class PNode:
    def __init__(self, name, role, params, salt, kind="int", block=None, n=None, style="list",
                 collect=None):
        self.name, self.role, self.params, self.salt = name, role, params, salt
        self.kind, self.block, self.n, self.style, self.collect = kind, block, n, style, collect


class PDag:
    def __init__(self):
        self.nodes, self.inputs, self.blocks = {}, {}, []

    def source(self):
        out = [HDR]
        for n in self.nodes.values():
            req = [p for p in n.params if p[1] == REQ]
            opt = [p for p in n.params if p[1] != REQ]
            ps = []
            for nm, d, ann in req + opt:
                ps.append(f"{nm}: {ann}" + ("" if d == REQ else f" = {d!r}"))
            kw = "{" + ", ".join(f"{p[0]!r}: {p[0]}" for p in n.params) + "}"
            sig = ", ".join(ps)
            if n.role == "expand":
                body = f"    base = _H({n.name!r}, {n.salt}, 'int', {kw})\n"
                items = f"[base + 7 * i for i in range({n.n})]"
                if n.kind != "int":
                    items = f"[_vrt.shape({n.kind!r}, base + 7 * i) for i in range({n.n})]"
                if n.style == "gen":
                    body += f"    for it in {items}:\n        yield it\n"
                elif n.style == "tuple":
                    body += f"    return tuple({items})\n"
                elif n.style == "iter":
                    body += f"    return iter({items})\n"
                else:
                    body += f"    return {items}\n"
                out.append(f"def {n.name}({sig}) -> Parallelizable[{vrt.PYTYPE[n.kind]}]:\n{body}\n")
            elif n.role == "collect":
                kw2 = kw.replace(f"{n.collect!r}: {n.collect}", f"{n.collect!r}: list({n.collect})")
                out.append(f"def {n.name}({sig}) -> {vrt.PYTYPE[n.kind]}:\n"
                           f"    return _H({n.name!r}, {n.salt}, {n.kind!r}, {kw2})\n")
            else:
                out.append(f"def {n.name}({sig}) -> {vrt.PYTYPE[n.kind]}:\n"
                           f"    return _H({n.name!r}, {n.salt}, {n.kind!r}, {kw})\n")
        return "\n".join(out)

    def outer(self):
        return [n.name for n in self.nodes.values() if n.role in ("plain", "collect")]

    def sig(self):
        idx = {nm: i for i, nm in enumerate(list(self.inputs) + list(self.nodes))}
        return tuple((n.role, n.kind, n.n, n.style, tuple((idx[p[0]], p[1] == REQ) for p in n.params))
                     for n in self.nodes.values())


def gen_pdag(rng, max_items=6, n_blocks=None):
    d = PDag()
    n_blocks = n_blocks or rng.choice([1, 1, 1, 2, 2, 3])
    names = iter(fresh_names(rng, 60))
    for _ in range(rng.randrange(0, 3)):
        d.inputs[next(names)] = rng.choice(["int", "str", "list"])
    avail = list(d.inputs)
    kinds = ["int", "int", "str", "float", "zero", "none", "list", "empty_list", "false"]

    def kind_of(p):
        return d.inputs.get(p) or d.nodes[p].kind

    def params(k, extra=(), popt=.12):
        pool = [a for a in avail if a not in extra]
        ps = list(extra) + rng.sample(pool, min(k, len(pool)))
        out = []
        for p in ps:
            opt = rng.random() < popt
            out.append((p, 3 if opt else REQ, vrt.PYTYPE[kind_of(p)]))
        return out

    def plain():
        nm = next(names)
        d.nodes[nm] = PNode(nm, "plain", params(rng.randrange(0, 3)), rng.randrange(999), rng.choice(kinds))
        avail.append(nm)
        return nm

    for _ in range(rng.randrange(0, 3)):
        plain()
    for b in range(n_blocks):
        e = next(names)
        d.nodes[e] = PNode(e, "expand", params(rng.randrange(0, 3)), rng.randrange(999),
                           rng.choice(["int", "int", "str", "none", "zero", "list"]), b,
                           rng.choice([0, 1, 2, 3, max_items, rng.randrange(max_items + 1)] + ([11, 12, 25] if rng.random() < .25 else [])),
                           rng.choice(["list", "gen", "gen", "tuple", "iter"]))
        body = []
        nb = rng.randrange(1, 5)
        for j in range(nb):
            nm = next(names)
            if j == 0:
                inner = [e]
            else:
                # the last one must see every earlier body leaf so that all body nodes lead to it
                inner = [rng.choice([e] + body)]
                if rng.random() < .4:
                    inner = list(dict.fromkeys(inner + [rng.choice([e] + body)]))
            if j == nb - 1 and nb > 1:
                used = {p[0] for x in body for p in d.nodes[x].params}
                inner = list(dict.fromkeys(inner + [x for x in body if x not in used]))
            out_p = params(rng.choice([0, 0, 1, 2]))
            d.nodes[nm] = PNode(nm, "body",
                                [(x, REQ, vrt.PYTYPE[kind_of(x)]) for x in inner] + out_p,
                                rng.randrange(999), rng.choice(kinds), b)
            body.append(nm)
        c = next(names)
        last = body[-1]
        d.nodes[c] = PNode(c, "collect",
                           [(last, REQ, f"Collect[{vrt.PYTYPE[kind_of(last)]}]")] + params(rng.choice([0, 0, 1, 2])),
                           rng.randrange(999), rng.choice(["int", "list", "str", "none"]), b, collect=last)
        avail.append(c)
        d.blocks.append((e, body, c))
        for _ in range(rng.randrange(0, 3)):
            plain()
    return d


def evaluate_p(d, final, inputs=None, overrides=None, raises=()):
    """Reference.  `raises` is a set of (name, index-or-None).  Returns (values, call counts)."""
    inputs, overrides = inputs or {}, overrides or {}
    memo, calls = {}, {}

    def call(nm):
        calls[nm] = calls.get(nm, 0) + 1

    def args(n, look):
        kw = {}
        for p, dv, _ in n.params:
            v = look(p)
            if v is MISSING:
                if dv == REQ:
                    raise RefError("missing", p)
                v = dv
            kw[p] = v
        return kw

    def need(nm):
        if nm in memo:
            return memo[nm]
        if nm in overrides:
            v = overrides[nm]
        elif nm in d.nodes:
            n = d.nodes[nm]
            if n.role == "plain":
                kw = args(n, need)
                call(nm)
                v = vrt.value(nm, n.salt, n.kind, kw)
            elif n.role == "expand":
                kw = args(n, need)
                call(nm)
                base = vrt.value(nm, n.salt, "int", kw)
                v = [vrt.shape(n.kind, base + 7 * i) for i in range(n.n)]
            elif n.role == "collect":
                items = need(d.blocks[n.block][0])
                coll = []
                for it in items:
                    scope = {d.blocks[n.block][0]: it}

                    def bneed(x, scope=scope):
                        if x in scope:
                            return scope[x]
                        if x in overrides:
                            return overrides[x]
                        if x in d.nodes and d.nodes[x].role == "body" and d.nodes[x].block == n.block:
                            m = d.nodes[x]
                            kw = args(m, bneed)
                            call(x)
                            scope[x] = vrt.value(x, m.salt, m.kind, kw)
                            return scope[x]
                        return need(x)
                    coll.append(bneed(n.collect))
                kw = args(n, lambda p: coll if p == n.collect else need(p))
                call(nm)
                v = vrt.value(nm, n.salt, n.kind, kw)
            else:
                raise ValueError(nm)
        elif nm in inputs:
            v = inputs[nm]
        else:
            v = MISSING
        memo[nm] = v
        return v

    out = {}
    for f in final:
        v = need(f)
        out[f] = None if v is MISSING else v
    # with an empty expansion the outside values the body would use are not needed by plain
    # evaluation; the scheduler may or may not compute them, so report them as "allowed"
    allowed = set()

    def reach(nm):
        if nm in allowed or nm in overrides or nm not in d.nodes:
            return
        allowed.add(nm)
        for p in d.nodes[nm].params:
            reach(p[0])
    for f in final:
        reach(f)
    return out, calls, allowed


def required_p(d, final, overrides):
    req, opt, seen = set(), set(), set()

    def visit(nm):
        if nm in seen or nm in overrides or nm not in d.nodes:
            return
        seen.add(nm)
        for p, dv, _ in d.nodes[nm].params:
            if p in d.inputs:
                if p not in overrides:
                    (req if dv == REQ else opt).add(p)
            else:
                visit(p)
    for f in final:
        visit(f)
    return req, opt - req


def downstream(d, nm):
    """What really depends on nm (a body that never runs, for lack of items, passes nothing on)."""
    out, st = set(), [nm]
    while st:
        x = st.pop()
        for n in d.nodes.values():
            if n.role == "body" and d.nodes[d.blocks[n.block][0]].n == 0:
                continue
            if any(p[0] == x for p in n.params) and n.name not in out:
                out.add(n.name)
                st.append(n.name)
    return out
