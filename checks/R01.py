"""R01: parallel iterations share nothing mutable.

Every call that runs a lambda in parallel (tbb::parallel_*, task groups, std::async, threads) is found in the
type-checked program.  Its body, and every function it reaches (virtual calls by class hierarchy, context-sensitive
by the regions of the arguments), is analysed for writes: each write must go to an object the iteration created
itself, or to an element whose index provably belongs to this iteration alone (linear bounds over the iteration's
index: i, the (i / n, i mod n) tile decomposition, or the two dimensions of a 2-D range), or be atomic or under a
lock.  Anything declared in the body but outside its loop survives from one iteration of a chunk to the next, so
what it holds depends on how the scheduler cut the range: writing it is a violation too.  Sources of unrepeatable
values (random_device, clocks, thread ids) must not be reached.
"""
from sa import effects as ef


def short(ch):
    return " > ".join(x.replace("huira::", "") for x in ch)


def run(ctx):
    P = ctx.program()
    if len(P.defs) < 1000:
        ctx.require(False, "the library's functions were not extracted")
    fns = set()
    calls = 0
    seen = {}
    for s in ef.sites(P):
        f, n, lam, rng, g = s
        k = (f.key, f.file, n.l)
        if k in seen:
            continue
        seen[k] = 1
        where = "%s:%d" % (f.file, n.l)
        if lam is None:
            ctx.notes.append("%s: %s is not given a lambda this analysis can see" % (where, g.n))
            continue
        A = ef.analyse(P, *s)
        fns |= A.visited
        calls += A.calls
        ctx.sample({"parallel call": where, "in": f.key, "index": A.dims, "functions reached": len(A.visited),
                    "calls analysed": A.calls})
        by = {}
        for (root, w), (kind, ch, what, _) in sorted(A.writes.items()):
            by.setdefault((kind, root), []).append((w, ch, what))
        names = {"shared": "%s, which all iterations share", "static": "%s, which all threads share",
                 "global": "%s, which all threads share", "chunk": "%s"}
        ctx.ob(not by, "writes", where, "iterations write only what is theirs", site=f.key) if not by else None
        for (kind, root), ws in by.items():
            w, ch, what = ws[0]
            if root.startswith("the thread.s".replace(".", chr(39))):
                names["static"] = "%s, which lives on in the next iteration"
            via = (" through " + short(ch)) if ch else ""
            ctx.ob(False, "writes", where,
                   "the parallel loop in %s modifies %s%s (%s at %s%s)" %
                   (f.key, names[kind] % root, via, what, w,
                    "" if len(ws) == 1 else " and %d more" % (len(ws) - 1)), site="%s/%s" % (f.key, root))
        ctx.ob(not A.random, "repeatable", where, "" if not A.random else
               "the parallel loop in %s reaches %s" %
               (f.key, "; ".join("%s at %s" % (v[1], w) for w, v in sorted(A.random.items()))), site=f.key)
    ctx.cov["parallel_calls"] = len(seen)
    ctx.cov["functions_reached"] = len(fns)
    ctx.cov["calls_analysed"] = calls
