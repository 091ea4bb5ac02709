"""Z02: commands report success only once all their output has been delivered."""
from .env import *
from .c04 import at
from .cmd import run_cat
from . import z01

RULE = ("Abstract interpretation of the cat and zero commands over any stream, with a ghost that records whether everything written to "
        "standard output has been flushed since and whether a write or flush failed: every path that returns success has flushed after "
        "its last write and seen no failure. main is analysed with each command's result unknown: it fails whenever the command does.")
ASSUMPTIONS = ["Stdout::flush delivers what was written before it", "a process whose main returns Err exits with a failure status"]
TECHNIQUE = "abstract interpretation of MIR (typestate of the output stream)"
FLOOR = 5


def run(ctx):
    ctx.attempt("cat", cmd, ctx, "cat")
    ctx.attempt("zero", cmd, ctx, "zero")
    ctx.attempt("main", main, ctx)


def zero_paths(ctx):
    I = ctx.interp("rezippers")
    f = ctx.fn(z01.RUN, "rezippers")
    z01.world(ctx, I)
    return I, f, I.run(f, [tok("input")], z01.start(I))


def cmd(ctx, name):
    I, f, res = run_cat(ctx) if name == "cat" else zero_paths(ctx)
    n = 0
    for s, r in res:
        if r.tag != ("enm", 0):
            continue
        bad = s.g["err"] in ("a write failed", "flushing failed", "a block could not be written")
        if bad:
            ctx.ob(name + ": failure is reported", False, "success although " + s.g["err"], at(f), key="%s: success although %s" % (name, s.g["err"]))
        elif not s.g["err"]:
            n += 1
            good = s.g["flushed"] == "yes"
            ctx.ob(name + ": success after a flush", good, "" if good else "success with output that is not flushed", at(f), key=name + ": not flushed")
    ctx.ob(name + ": succeeds", bool(n), "" if n else "never", at(f), key=name + ": never succeeds")


def main(ctx):
    c = ctx.crate("rezippers")
    f = ctx.fn("rezippers::main", "rezippers")
    cmds = [x for x in ("cat", "dump", "zero")]
    I = ctx.interp("rezippers")

    def parse(I, st, ca, a, rty, *_):
        v = I.mat(rty, ("command line",))
        return v

    def command(name):
        def h(I, st, ca, a, rty, f):
            e = st.copy()
            e.g["ran"] = st.g["ran"] + name + " failed;"
            st.g["ran"] = st.g["ran"] + name + " done;"
            return [(e, err(tok("failure"))), (st, ok(UNIT))]
        return h
    I.hooks["clap_builder::derive::Parser::parse"] = I.hooks["clap::derive::Parser::parse"] = I.hooks["clap::Parser::parse"] = parse
    for x in cmds:
        I.hooks[("fn", "rezippers::%s::run" % x)] = command(x)

    def opened(I, st, ca, a, rty, *_):
        e = st.copy()
        e.g["ran"] += "open failed;"
        return [(e, err(IOERR)), (st, ok(tok("file")))]
    for m in ("std::fs::File::open",):
        I.hooks[m] = opened
    for m in ("std::io::stdio::stdin", "std::io::stdio::Stdin::lock"):
        I.hooks[m] = lambda I, st, ca, a, rty: tok("stdin")
    for p in ("alloc::io::buffered::bufreader::BufReader::<R>::", "std::io::buffered::bufreader::BufReader::<R>::"):
        I.hooks[p + "new"] = I.hooks[p + "with_capacity"] = lambda I, st, ca, a, rty: a[-1]
    st = State()
    st.g.update(ran="")
    seen = set()
    for s, r in I.run(f, [], st):
        seen.add(s.g["ran"])
        good = not (r.tag == ("enm", 0) and "failed" in s.g["ran"])
        ctx.ob("main: failures are reported", good, "" if good else "success after: " + s.g["ran"], at(f), key="main: success after failure")
        good = r.tag != ("enm", 0) or "done" in s.g["ran"]
        ctx.ob("main: success only after a command", good, "" if good else "nothing ran", at(f), key="main: nothing ran")
    for x in cmds:
        ctx.ob("main runs " + x, any(x + " done" in v for v in seen), "", at(f), key="main never runs " + x)
