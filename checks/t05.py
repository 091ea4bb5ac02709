"""T05: guessing is a pure function of configuration, data and past codes."""
import re
from .env import *
from . import t04
from sa import graph

RULE = ("Effect analysis over the call graph (all monomorphic instances, closures, vtables, drop glue) of everything that takes part in guessing: "
        "Guesser::codes and Looker of the scanner, Scanner::feedback and more_data, Technique::scanner and byte_at, AllRefs::with_sixteen. No function "
        "outside the standard library that is reached may call into std (clock, environment, files, network, threads, random state) or into "
        "core's cells, atomics, volatile or architecture intrinsics, read uninitialised memory, touch a mutable, thread-local or "
        "interior-mutable static, iterate over a hash map or set, or turn a pointer into a number, compare or print it. Guessing takes its scanner "
        "by shared reference, and no type reachable from a scanner has interior mutability or raw or function pointers of its own.")
ASSUMPTIONS = ["functions of core and alloc not named by the rule are deterministic and free of global state (memory allocation apart)",
               "panics end the operation: what they print is not looked at"]
TECHNIQUE = "effect analysis on the MIR call graph and type-reachability analysis"
FLOOR = 25

STD = {"core", "alloc", "std", "hashbrown", "std_detect", "compiler_builtins", "panic_unwind"}
ITERATES = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "retain", "extract_if", "into_iter"}
HASHED = re.compile(r"std::collections::hash|hashbrown")
DENY = [(re.compile(x), why) for x, why in (
    (r"core::cell::|core::sync::|alloc::sync::Weak|alloc::rc::.*(strong_count|weak_count|get_mut)", "shared mutable state"),
    (r"core::arch|core_arch|core::intrinsics::(volatile|atomic)|core::ptr::(read_volatile|write_volatile)", "machine state"),
    (r"core::ptr::(addr_eq|eq|hash)\b|(const_ptr|mut_ptr|non_null).*::(addr|expose_provenance|expose_addr|align_offset|is_aligned|to_bits)\b"
     r"|as core::fmt::Pointer|core::fmt::Pointer::", "an address"),
    (r"core::any::(type_name|TypeId)", "a compiler-chosen name"),
    (r"core::mem::(zeroed|uninitialized|transmute_copy)|assume_init|::set_len\b|alloc::alloc::(alloc|realloc)\b|MaybeUninit.*::uninit", "uninitialised memory"))]
CELLS = re.compile(r"core::cell::|core::sync::atomic|std::sync::|alloc::rc::Rc\b|alloc::sync::Arc\b")


def forbidden(path):
    """Why a function outside the standard library may not call this one."""
    if HASHED.search(path):
        name = re.sub(r"<.*?>", "", path).rsplit("::", 1)[-1]
        if name in ITERATES or re.search(r"::(Iter|IterMut|Keys|Values|Drain|IntoIter|IntoKeys|IntoValues)\b", path):
            return "the order of a hash table"
        return None
    if "RandomState" in path:
        return None if re.search(r"RandomState(>| as .*)?::(new|default)$", path) else "randomness"
    if path.startswith("alloc::boxed::box_assume_init_into_vec_unsafe") or re.match(r"alloc::boxed::Box::<.*>::new_uninit$", path):
        return None                     # vec![...]
    if re.match(r"<?std::(?!hash::|collections::|vec|panicking|rt::)", path):
        return "the outside world"
    for rx, why in DENY:
        if rx.search(path):
            return why
    return None


def effects(cr, f):
    """What the body of a function does that it must not: (what, line)."""
    for b, c, t in graph.calls(f):
        if t[4] is None:
            continue                    # never returns
        paths = [c.get("path") or ""]
        g = cr.fns[c["inst"]] if isinstance(c.get("inst"), int) else None
        if g is not None:
            paths.append(g.path)
            if g.body is None and g.crate not in STD:
                yield "calls %s, of which nothing is known" % g.path, f.body["blocks"][b]["l"]
        for p in paths:
            why = forbidden(p)
            if why:
                yield "%s (%s)" % (why, p), f.body["blocks"][b]["l"]
                break

    def kind(i):
        return cr.types[i] if isinstance(i, int) else {}

    def statics(x):
        if isinstance(x, dict):
            if x.get("k") == "static" and x.get("v") is None:
                yield x["path"]
            for v in x.values():
                yield from statics(v)
        elif isinstance(x, list):
            for v in x:
                yield from statics(v)
    from sa.mir import cfg
    for b in sorted(cfg(f).reach):
        bl = f.body["blocks"][b]
        for s in bl["s"]:
            if s[0] != "=":
                continue
            r = s[2]
            if r[0] == "tls":
                yield "thread-local %s" % r[1], s[3]
            if r[0] == "cast":
                x, y = kind(r[3]), kind(r[4])
                checked = bl["t"][0] == "assert" and bl["t"][3][0] == "other"       # the compiler's own null and alignment checks
                if checked and r[1] == "transmute":
                    continue
                if r[1] == "expose" or r[1] == "transmute" and x.get("k") in ("ptr", "ref", "fnptr") and y.get("k") == "int":
                    yield "an address is turned into a number", s[3]
                if r[1] == "ptr" and x.get("k") == "ptr" and y.get("k") == "ptr" and y.get("mut") and not x.get("mut"):
                    yield "a shared pointer is made mutable", s[3]
            if r[0] == "bin" and r[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp", "Offset") and kind(r[4]).get("k") in ("ptr", "fnptr") and r[1] != "Offset":
                yield "addresses are compared", s[3]
        for p in statics([bl["s"], bl["t"]]):
            yield "mutable static %s" % p, bl["l"]


def interior(cr, root):
    """Types with interior mutability, raw or function pointers reachable from a type: (name, path of fields)."""
    seen, todo = set(), [(root, cr.types[root]["name"])]
    while todo:
        i, how = todo.pop()
        if i in seen or not isinstance(i, int):
            continue
        seen.add(i)
        t = cr.types[i]
        k = t["k"]
        if k == "adt":
            if CELLS.match(t["path"]) or "UnsafeCell" in t["path"]:
                yield t["name"], how
                continue
            if re.match(r"(core|alloc|std)::", t["path"]):
                for a in t["args"]:
                    todo.append((a, how))
                if t["path"].startswith("std::") and not HASHED.search(t["path"]):
                    yield t["name"], how
                if not t["path"].startswith(("core::option", "core::result", "core::cmp", "core::ops")):
                    continue
            for v in t["variants"]:
                for n, ft in v["fields"]:
                    todo.append((ft, how + "." + n))
        elif k == "ref":
            if t.get("mut"):
                yield t["name"], how
            todo.append((t["to"], how))
        elif k in ("ptr", "fnptr", "dyn"):
            yield t["name"], how
        elif k in ("slice", "array"):
            todo.append((t["elem"], how + "[]"))
        elif k in ("tuple", "closure"):
            for n, ft in enumerate(t["fields"]):
                todo.append((ft, how + ".%d" % n))


def run(ctx):
    cr = ctx.crate()
    sc, te = t04.SC + "::<'t, 'a, 'p, 'd>::", "librezip::technique::Technique::<'a, 'p, 'd>::"
    codes = t04.looker(ctx, "codes")
    roots = [codes, t04.looker(ctx, "best_candidate_better_than")]
    roots += [ctx.fn(x) for x in (sc + "feedback", sc + "more_data", te + "scanner", te + "byte_at", t04.AR + "with_sixteen")]
    roots = [g for f in roots for g in cr.by_path[f.path] if g.body]
    pred = graph.reach(cr, roots)
    done, names = set(), []
    std = 0
    for i in sorted(pred):
        f = cr.fns[i]
        if f.crate in STD:
            std += 1
            continue
        if f.body is None or f.full in done and f.full:
            continue
        done.add(f.full)
        names.append(f.path)
        bad = sorted({"%s, line %s" % x for x in effects(cr, f)})
        ctx.ob("%s is pure" % f.path, not bad, "; ".join(bad[:4]) + ("" if not bad else " (reached by %s)" % " > ".join(graph.chain(cr, pred, i)[-4:])),
               "%s:%s" % (f.file, f.line), key="pure " + f.path)
    ctx.notes["functions_analysed"] = len(names)
    ctx.notes["local_functions"] = sorted(set(names))
    ctx.notes["standard_library_functions_reached"] = std
    for f in roots[:2] + [ctx.fn(sc + "more_data"), ctx.fn(te + "scanner"), ctx.fn(te + "byte_at")]:
        t = cr.types[f.body["locals"][1]]
        good = t["k"] == "ref" and not t.get("mut")
        ctx.ob("%s takes a shared reference" % f.path, good, "takes %s" % t["name"], "%s:%s" % (f.file, f.line), key="shared " + f.path)
    for i, t in enumerate(cr.types):
        if t["k"] == "adt" and t["path"] == t04.SC:
            bad = list(interior(cr, i))
            ctx.ob("nothing in a scanner can change behind a shared reference", not bad, "; ".join("%s at %s" % x for x in bad[:4]), "", key="interior")
            break
    else:
        raise Anchor(t04.SC)
