"""R02: asking changes nothing.

Every public const member function of the library's value, scene and rendering classes (virtual calls by class
hierarchy, private helpers reached from them) is analysed for writes with the regions of sa/effects.py: the object,
everything reachable from it or from a const argument is one region that must not be written; arguments taken by
non-const reference or pointer (output parameters, generators) and locals may be.  Building a view may write nothing
of the scene and the camera, rendering nothing but the frame buffer (besides the readout's noise generator).  Free functions must not write
function-statics, globals or static members.
"""
import re

from sa import effects as ef
from sa import par

QUIET = ("huira::Logger::", "huira::ScopeLogger::", "huira::spice::")
# what the statement exempts: callbacks' values, the acceleration structures built on first use
BLACK = re.compile(r"Callback::evaluate|::build_blas_")
NOT_QUERY = re.compile(r"Handle<|Handle::|Deleter::operator\(\)|SensorModel::readout|SimpleSensor::readout|CameraModel::readout")
# what a rendering may change: its own view or frame buffer
RENDER = re.compile(r"SceneView::\(ctor\)$|Renderer::render$")
READOUT = re.compile(r"::readout")
# free functions whose purpose is to set process-wide state
SETTERS = re.compile(r"^huira::(set_data_dir|reset_data_dir)$|^huira::spice::")


def subjects(P):
    out = []
    for i, f in enumerate(P.defs):
        if not f.has_body or not f.key.startswith("huira::") or "(anonymous" in f.q or "(lambda" in f.q:
            continue
        if QUIET and f.key.startswith(QUIET) or SETTERS.search(f.key):
            continue
        if RENDER.search(f.key):
            out.append((i, "rendering"))
        elif f.cls:
            if f.const and f.get("acc", "public") == "public" and not NOT_QUERY.search(f.key) and f.body is not None:
                out.append((i, "query"))
        elif f.body is not None:
            out.append((i, "stateless"))
    return out


def one(P, f, rule):
    query = rule != "stateless"
    E = ef.Effects(P, QUIET)
    E.blackbox = BLACK
    S = lambda x: frozenset([("shared", x)])  # noqa: E731
    env = {}
    for p in f.params:
        ty = P.ty(p["t"])
        if rule == "rendering" and "FrameBuffer" not in ty["s"] and not E._int(p["t"]):
            env[p["d"]] = ef.V(S(p["n"]), S(p["n"])) if ty["k"] == "ref" else ef.V(ef.OWN, S(p["n"]))
        elif ty["k"] in ("ref", "ptr") and not E.isconst(ty["p"]) or not query:
            env[p["d"]] = ef.V()
        elif E._int(p["t"]):
            q = ef.psym("%s#%s" % (p["n"], p["d"]))
            env[p["d"]] = ef.V(ef.OWN, ef.OWN, (q,), (q,))
        elif ty["k"] == "ref":
            env[p["d"]] = ef.V(S(p["n"]), S(p["n"]))
        else:
            env[p["d"]] = ef.V(ef.OWN, S(p["n"]) if E.holds(p["t"]) else ef.OWN)
    this = ef.V(S("this"), S("this")) if query and not f.key.endswith("(ctor)") else ef.V()
    for i in f.inits:
        if i["e"] is not None:
            E.ev(i["e"], ef.Frame(f, this, env))
    E.body(f, ef.Frame(f, this, env))
    ws = [(r, w, k, list(ch), what) for (r, w), (k, ch, what, _) in sorted(E.writes.items())]
    if rule == "rendering":
        ws = [x for x in ws if not READOUT.search(" ".join(x[3]))]
    if not query:
        ws = [x for x in ws if x[2] in ("static", "global") and not x[0].startswith("CSPICE")]
    return ws, len(getattr(E, "visited", ()) or ())


def run(ctx):
    P = ctx.program()
    subj = subjects(P)
    ctx.require(len(subj) > 400, "the library's queries were not extracted")

    def chunk(jobs):
        return [(i, q) + one(P, P.defs[i], q) for i, q in jobs]
    res = [x for part in par.each(chunk, [subj[k::8] for k in range(8)]) for x in part]
    nq = {}
    seen = set()
    for i, q, ws, _ in sorted(res, key=lambda x: x[0]):
        f = P.defs[i]
        nq[q] = nq.get(q, 0) + 1
        bad = {}
        for root, w, kind, ch, what in ws:
            bad.setdefault(root if kind != "shared" else root.split(".")[0], []).append((w, ch, what, root))
        if not bad:
            ctx.ob(True, q, f.where, "", site=f.key)
        for r0, xs in bad.items():
            w, ch, what, root = xs[0]
            k = (f.key, r0)
            if k in seen:
                continue
            seen.add(k)
            via = " through " + " > ".join(c.replace("huira::", "") for c in ch) if ch else ""
            ctx.ob(False, q, f.where,
                   "%s %s modifies %s (%s at %s%s)" % ({"query": "the query", "rendering": "rendering:"}.get(q, "the function"), f.key, root, what, w, via),
                   site="%s/%s" % (f.key, r0))
    ctx.require("rendering" in nq, "neither SceneView's constructor nor Renderer::render was found")
    for k, v in nq.items():
        ctx.cov[k + "_functions"] = v
    ctx.sample({"query": "every public const member of every class template, e.g. " +
                ", ".join(P.defs[i].key for i, _ in subj[:200:40])})
