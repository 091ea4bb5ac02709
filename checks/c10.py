"""C10: the whole stream, parsed and written again."""
import copy
import re
from .env import *
from . import c03, c04, c05, c06, c07, c08, c09, lendist
from .c04 import at, panics
from .c05 import NEXT, reader_at

RULE = ("Composition of lemmas, each decided by abstract interpretation. A stream is (final flag, block)*, padding. (1) Framing, for each "
        "number k of bits taken before: from a state that is not final the iterator takes one bit, the final flag, before the block; it "
        "delivers a block; afterwards it ends exactly if that flag was set, and then only if all bits left in the current byte are zero, "
        "taking no further byte - so the caller, who writes the flag from the end of the iteration and aligns, writes the same bits. "
        "(2) For every kind of block and every class of length and distance, what the parser delivers for the bits of a block is what the "
        "re-encoder writes those bits for: stored blocks (from each bit offset), codes in order, tree descriptions, the trees used, bits "
        "and bytes; as in C03-C09, taking from them only what a difference between input and output can result from. A step which differs "
        "from the specification in both directions is not reported here: the two may agree with each other.")
ASSUMPTIONS = ["read_exact delivers the next bytes or fails; write_all delivers all the bytes or fails",
               "the caller writes the final flag before each block, the blocks in order, and aligns at the end, as the library's own test does",
               "no two leaves of a code tree have the same symbol"]
TECHNIQUE = "composition of lemmas discharged by abstract interpretation of MIR"
FLOOR = 250

# a stream that is refused has no re-encoding to compare
REFUSED = {"key": re.compile(r"refused|^parse: accepted|^parse: no symbol|panic|can be parsed"),
           "detail": re.compile(r"^refused|refused in|^never|panic|failed read|^a table of|no room|no path")}


def run(ctx):
    ctx.fn("librezip::serialise::compressed_block")
    ctx.fn(NEXT)
    lcs, dcs = length_classes(), dist_classes()
    pairs = [(l, dcs[i % 30]) for i, l in enumerate(lcs)] + [(lcs[i % 29], d) for i, d in enumerate(dcs)]
    if ctx.tier == "thorough":
        pairs = [(l, d) for l in lcs for d in dcs]
    items = [("framing", "parse", frame, (k,)) for k in range(8)]
    for op in ("parse", "emit"):
        for i, (l, d) in enumerate(pairs):
            items.append(("codes of a fixed block, length symbol %d, distance symbol %d" % (l[0], d[0]), op, c06.case, ((op, "fixed", l, d),)))
            if i % 4 == 0:
                items.append(("codes of a dynamic block, length symbol %d, distance symbol %d" % (l[0], d[0]), op, c06.case,
                              ((op, "dynamic", l, d),)))
        items.append(("block without distances", op, c06.case, ((op, "no distances", lcs[0], dcs[0]),)))
        items += [("tree description, %d code length codes" % (h + 4), op, c08.case, ((op, h, None),)) for h in (0, 1, 14, 15)]
        items += [("stored block at bit offset %d" % k, op, c05.parse if op == "parse" else c05.emit, (k,)) for k in range(8)]
        items.append(("fixed trees", op, c03.parsing if op == "parse" else c03.emission, ()))
    items += [("tree description kept", "parse", c09.one, (("parse", i),)) for i in (0, 1, 2, (1,))]
    items += [("codes after another block, %s" % kind, "parse", c06.case, (("parse after another block", kind, lcs[12], dcs[7]),))
              for kind in ("fixed", "dynamic", "no distances")]
    items += [("tree description kept", "emit", c09.one, (("emit", i),)) for i in ("empty", "literal")]
    items += [("bits", "parse", f, ()) for f in (c04.reader, c04.align, c04.parts_read)]
    items += [("bits", "emit", f, ()) for f in (c04.writer, c04.parts_written)]
    items += [("bit vectors", "own", f, ()) for f in (c04.vector, c04.vec_written)]
    items.append(("code trees", "own", c07.induct, ()))
    items.append(("symbol 284", "own", surplus, ()))
    ctx.pmap(lemma, items, chunk=2)
    settle(ctx)


def lemma(ctx, item):
    """The obligations of one lemma, without those a stream that is refused fails."""
    comp, side, f, a = item
    before = ctx.obs
    ctx.obs = []
    try:
        ctx.attempt("%s (%s)" % (comp, side), f, ctx, *a)
    finally:
        got, ctx.obs = ctx.obs, before
    for o in got:
        if side != "emit" and f not in (frame, surplus) and o["status"] == "violated" and \
                any(q.search(str(o[x])) for x, q in REFUSED.items()):
            o = dict(o, status="undecided", detail="only decided for what is accepted: " + str(o["detail"]))
        if f is not surplus:
            o["name"], o["key"] = "%s: %s" % (comp, o["name"]), "%s: %s" % (comp, o["key"])
        o["component"], o["side"] = comp, side
        ctx.obs.append(o)


def settle(ctx):
    """What is unlike the specification in both directions may still agree."""
    sides = {}
    for o in ctx.obs:
        if o["status"] == "violated":
            sides.setdefault(family(o["component"]), set()).add(o["side"])
    for o in ctx.obs:
        if o["status"] == "violated" and {"parse", "emit"} <= sides[family(o["component"])] and o["side"] != "own":
            o["status"], o["detail"] = "undecided", "both directions differ from the specification: " + str(o["detail"])


def family(comp):
    return re.split(r",| at ", comp)[0].replace(" kept", "")


def surplus(ctx):
    """Symbol 284 with extra bits 31: length 258, which is written as symbol 285."""
    before = ctx.obs
    ctx.obs = []
    lendist.decode_case(ctx, "length", 284, 0)
    got, ctx.obs = ctx.obs, before
    for o in got:
        if "284 extra 31" in o["key"]:
            ctx.obs.append(o)
    if not any("284 extra 31" in o["key"] for o in got):
        ctx.ob("length symbol 284 with extra bits 31", True)


# ------------------------------------------------------------------ framing
def frame(ctx, k):
    """k bits were taken; a fixed block without codes follows."""
    f = ctx.fn(NEXT)
    I = ctx.interp()
    bitvecs(I)
    byte_input(I, fail=False)
    fixed_trees(I)

    def dec(I, st, ca, a, rty, fn):
        # the end-of-block symbol, its bits left out
        if st.g["read"]:
            st.g["bad"] = "a block is read, but not delivered"
            return err()
        st.g["read"] = "one"
        return ok(256)
    I.hooks[("fn", CT + "decode_symbol")] = dec
    I.anchors.add(CT + "decode_symbol")
    st = State()
    st.g.update(pos=0, err="", read="", bad="")
    st.mem[("env", "it")] = start_parse(ctx, I, st)
    out, path = reader_at(ctx, I, st, k)
    rb = ctx.fn(BR + "read_bit")
    seen = set()

    def bit(s, i):
        return I.bits(s, in_byte(I, i // 8), 8)[i % 8]
    for s, _ in out:
        for final in (0, 1):
            s1 = s.copy()
            for i, v in ((k, final), (k + 1, 1), (k + 2, 0)) + (() if final else ((k + 4, 1), (k + 5, 0))):
                s1.assume(feq(T.sub(bit(s1, i), v)))
            name = "after %d bits, %s block" % (k, "final" if final else "other")
            for s2, r in I.run(f, [P(("env", "it"))], s1):
                if s2.g["bad"]:
                    ctx.ob(name + " is delivered", False, s2.g["bad"], at(f), key="framing: " + s2.g["bad"])
                    continue
                s2.g["read"] = ""
                good = isinstance(r, N) and r.tag == ("enm", 1) and okval(r.kids[0]) is not None
                ctx.ob(name + " is delivered", good, "" if good else "%r instead" % (r,), at(f), key="framing: block not delivered")
                if not good:
                    continue
                took = (k + 3 + 7) // 8
                g = s2.c.norm(s2.g["pos"]) == took
                ctx.ob(name + " takes its bits", g, "" if g else "%r bytes taken" % (s2.g["pos"],), at(f), key="framing: bytes taken")
                if not final:
                    seen.add("other")
                    for s3, r3 in I.run(rb, [P(("env", "it"), path)], s2.copy()):
                        same(ctx, I, s3, name + ": the bit after the block", f,
                             lambda x: (feq(T.sub(v01(x, okval(r3)), bit(x, k + 3))), r3), "bit")
                    # the next call starts another block
                    for s3, r3 in I.run(f, [P(("env", "it"))], s2):
                        if s3.g["bad"]:
                            ctx.ob(name + ": another block follows", False, s3.g["bad"], at(f), key="framing: " + s3.g["bad"])
                            continue
                        good = isinstance(r3, N) and r3.tag == ("enm", 1)
                        ctx.ob(name + ": another block follows", good, "" if good else "the iteration ends", at(f), key="framing: ends early")
                        if good and okval(r3.kids[0]) is not None:
                            g = s3.c.norm(s3.g["pos"]) == (k + 6 + 7) // 8
                            ctx.ob(name + ": the next block starts with its flag", g, "" if g else "%r bytes taken" % (s3.g["pos"],), at(f),
                                   key="framing: start of the next block")
                    continue
                pend = [bit(s2, i) for i in range(k + 3, took * 8)]
                cases_ = [("zero", [feq(b) for b in pend])] + [("with bit %d set" % i, [feq(T.sub(b, 1))]) for i, b in enumerate(pend)]
                for what, facts in cases_:
                    s3 = s2.copy()
                    for q in facts:
                        s3.assume(q)
                    for s4, r4 in I.run(f, [P(("env", "it"))], s3):
                        none = isinstance(r4, N) and r4.tag == ("enm", 0)
                        block = isinstance(r4, N) and r4.tag == ("enm", 1) and okval(r4.kids[0]) is not None
                        if what == "zero":
                            ctx.ob(name + ": the stream ends", not block, "another block is delivered" if block else "", at(f),
                                   key="framing: goes on after the final block")
                            if none:
                                seen.add("final")
                                g = s4.c.norm(s4.g["pos"]) == took
                                ctx.ob(name + ": nothing more is taken", g, "" if g else "%r bytes taken" % (s4.g["pos"],), at(f),
                                       key="framing: bytes after the end")
                        else:
                            good = not none and not block
                            ctx.ob("%s: padding %s is refused" % (name, what), good,
                                   "" if good else "accepted, but zeros are written", at(f), key="framing: padding accepted")
    for what in ("other", "final"):
        ctx.ob("after %d bits: %s blocks are followed" % (k, what), what in seen, "" if what in seen else "never", at(f),
               key="framing: %s blocks" % what)
    panics(ctx, I, "framing panics")


from .c04 import okval, same, v01, feq      # noqa: E402
