"""Loading of the exported MIR and control-flow analyses (weak topological order, liveness)."""
import json


class Fn:
    __slots__ = ("id", "path", "full", "kind", "local", "file", "line", "closure", "name",
                 "impl_self", "impl_trait", "targs", "body", "vidx", "raw", "_cfg", "crate")


class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.name = d["crate"]
        self.types = d["types"]
        self.roots = set(d.get("roots", []))
        self.iters = {int(k): v for k, v in d.get("iters", {}).items()}
        self.fns = []
        self.by_path = {}
        for f in d["fns"]:
            o = Fn()
            o.id = f["id"]
            o.path = f["path"]
            o.full = f.get("full")
            o.kind = f["kind"]
            o.local = f["local"]
            o.crate = f.get("crate")
            o.file = f.get("file")
            o.line = f.get("line")
            o.closure = f.get("closure")
            o.name = f.get("name")
            o.impl_self = f.get("impl_self")
            o.impl_trait = f.get("impl_trait")
            o.targs = f.get("targs", [])
            o.vidx = f.get("vidx")
            o.body = f.get("body")
            o.raw = f
            o._cfg = None
            assert o.id == len(self.fns)
            self.fns.append(o)
            self.by_path.setdefault(o.path, []).append(o)
        self._copy = {}

    def ty(self, i):
        return self.types[i]

    def find(self, path):
        """The generic (identity-substituted) or only instance of a function path: the first exported."""
        fs = self.by_path.get(path)
        return fs[0] if fs else None


class Cfg:
    """Order, loop heads and liveness of one body."""

    def __init__(self, body):
        self.body = body
        bl = body["blocks"]
        n = len(bl)
        self.succ = [self._succ(b["t"]) for b in bl]
        self.pred = [[] for _ in range(n)]
        reach = set()
        st = [0]
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            for y in self.succ[x]:
                st.append(y)
        self.reach = reach
        for x in reach:
            for y in self.succ[x]:
                self.pred[y].append(x)
        self.order = {}
        self.heads = {}       # head -> set of blocks of its component
        self._ctr = 0
        self._wto(set(reach), 0)
        self.loops_of = {}
        for h, comp in self.heads.items():
            for b in comp:
                self.loops_of.setdefault(b, []).append(h)
        self._live()

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return list(dict.fromkeys([x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])))
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "drop":
            return [t[3]]
        if k == "assert":
            return [t[4]]
        return []

    def _wto(self, nodes, entry):
        # iterative Tarjan SCC restricted to nodes; emit in topological order
        index = {}
        low = {}
        onst = set()
        stack = []
        sccs = []
        ctr = [0]
        for root in [entry] + sorted(nodes):
            if root in index or root not in nodes:
                continue
            work = [(root, 0)]
            while work:
                v, i = work.pop()
                if i == 0:
                    index[v] = low[v] = ctr[0]
                    ctr[0] += 1
                    stack.append(v)
                    onst.add(v)
                rec = False
                ss = [y for y in self.succ[v] if y in nodes]
                while i < len(ss):
                    y = ss[i]
                    i += 1
                    if y not in index:
                        work.append((v, i))
                        work.append((y, 0))
                        rec = True
                        break
                    if y in onst:
                        low[v] = min(low[v], index[y])
                if rec:
                    continue
                if low[v] == index[v]:
                    comp = set()
                    while True:
                        y = stack.pop()
                        onst.discard(y)
                        comp.add(y)
                        if y == v:
                            break
                    sccs.append((v, comp))
                if work:
                    p, pi = work[-1]
                    low[p] = min(low[p], low[v])
        sccs.reverse()
        for root, comp in sccs:
            if len(comp) == 1 and root not in self.succ[root]:
                self.order[root] = self._ctr
                self._ctr += 1
                continue
            # head: the component's entry (target of an edge from outside), smallest dfs index
            cand = [b for b in comp if any(p not in comp for p in self.pred_all(b))] or [root]
            head = min(cand, key=lambda b: index[b])
            self.heads[head] = set(comp)
            self.order[head] = self._ctr
            self._ctr += 1
            rest = comp - {head}
            if rest:
                ent = next((y for y in self.succ[head] if y in rest), min(rest))
                self._wto(rest, ent)

    def pred_all(self, b):
        return self.pred[b]

    def _live(self):
        bl = self.body["blocks"]
        addr = set()
        use = {}
        dfn = {}

        def pl_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1:]:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            if o[0] in ("cp", "mv"):
                pl_use(o[1], u, d)

        def rv(r, u, d):
            k = r[0]
            if k in ("use", "repeat"):
                op_use(r[1], u, d)
            elif k in ("ref", "raw"):
                pl_use(r[1], u, d)
                if not any(e[0] == "*" for e in r[1][1:]):
                    addr.add(r[1][0])
            elif k == "cast":
                op_use(r[2], u, d)
            elif k == "bin":
                op_use(r[2], u, d)
                op_use(r[3], u, d)
            elif k == "un":
                op_use(r[2], u, d)
            elif k == "discr":
                pl_use(r[1], u, d)
            elif k == "agg":
                for o in r[3]:
                    op_use(o, u, d)
            elif k == "union":
                for o in r[2]:
                    op_use(o, u, d)

        def dst(p, u, d):
            if len(p) == 1:
                d.add(p[0])
            else:
                pl_use(p, u, d)

        for b in self.reach:
            u, d = set(), set()
            for s in bl[b]["s"]:
                k = s[0]
                if k == "=":
                    rv(s[2], u, d)
                    dst(s[1], u, d)
                elif k == "setd":
                    pl_use(s[1], u, d)
                elif k == "assume":
                    op_use(s[1], u, d)
                elif k == "copynon":
                    for o in s[1:]:
                        if isinstance(o, list):
                            op_use(o, u, d)
            t = bl[b]["t"]
            k = t[0]
            if k == "switch":
                op_use(t[1], u, d)
            elif k == "call":
                if "op" in t[1]:
                    op_use(t[1]["op"], u, d)
                for o in t[2]:
                    op_use(o, u, d)
                dst(t[3], u, d)
            elif k == "assert":
                op_use(t[1], u, d)
            elif k == "drop":
                pl_use(t[1], u, d)
            elif k == "return":
                if 0 not in d:
                    u.add(0)
            use[b], dfn[b] = u, d
        live = {b: set(use[b]) for b in self.reach}
        ch = True
        order = sorted(self.reach, key=lambda b: -self.order.get(b, 0))
        while ch:
            ch = False
            for b in order:
                out = set()
                for y in self.succ[b]:
                    out |= live[y]
                n = use[b] | (out - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        # a local whose address is taken stays live while anything may still point to it
        self.addr = addr
        self.live = live


def cfg(fn):
    if fn._cfg is None:
        fn._cfg = Cfg(fn.body)
    return fn._cfg
