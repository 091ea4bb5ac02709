"""Call graph of the exported MIR: direct calls, drop glue, function values and closures."""


def calls(fn):
    """(block, callee, line) of every call in reachable blocks of a body."""
    from .mir import cfg
    out = []
    if fn.body is None:
        return out
    c = cfg(fn)
    for b in sorted(c.reach):
        t = fn.body["blocks"][b]["t"]
        if t[0] == "call" and "op" not in t[1]:
            out.append((b, t[1], t))
    return out


def values(fn, types):
    """Instances mentioned as values: function items and closures created in the body."""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if isinstance(x.get("inst"), int):
                out.add(x["inst"])
            t = x.get("ty")
            if isinstance(t, int):
                ty(t)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    def ty(i):
        t = types[i]
        if isinstance(t.get("inst"), int):
            out.add(t["inst"])
    if fn.body is not None:
        for b in fn.body["blocks"]:
            walk(b)
        for i in fn.body["locals"]:
            ty(i)
    return out


def succ(crate, fn):
    s = values(fn, crate.types)
    for _, c, _ in calls(fn):
        if isinstance(c.get("inst"), int):
            s.add(c["inst"])
    return s


def reach(crate, roots, stop=lambda f: False):
    """Functions reachable from roots (Fn list): id -> predecessor id (None for roots)."""
    pred = {f.id: None for f in roots}
    todo = [f.id for f in roots]
    while todo:
        i = todo.pop()
        f = crate.fns[i]
        if stop(f):
            continue
        for j in succ(crate, f):
            if j not in pred:
                pred[j] = i
                todo.append(j)
    return pred


def chain(crate, pred, i):
    out = []
    while i is not None:
        out.append(crate.fns[i].path)
        i = pred[i]
    return out[::-1]


def find_call(crate, fn, path):
    """The callee record of the call to trait method `path` nearest to fn."""
    seen, todo = {fn.id}, [fn]
    while todo:
        nxt = []
        for f in todo:
            for _, c, _ in calls(f):
                if c.get("path") == path:
                    return c
            for j in sorted(succ(crate, f) - seen):
                seen.add(j)
                nxt.append(crate.fns[j])
        todo = nxt
    return None


def ints(fn):
    """Every integer constant and switch value in a body."""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "int" and isinstance(x.get("v"), int):
                out.add(x["v"])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    if fn.body is not None:
        for b in fn.body["blocks"]:
            walk(b)
            if b["t"][0] == "switch":
                out |= {v for v, _ in b["t"][2]}
    return out
