"""G01: the headers can be included by any number of translation units, in one program, with one copy of all state."""

COMPILE_IS_VIOLATION = True


def run(ctx):
    P = ctx.program()
    ctx.explanation = ("every namespace-scope or class-scope definition with external linkage in a header is inline, a template "
                       "(instantiation) or constexpr; no header defines a mutable variable with internal linkage; every header can be "
                       "included twice")
    ctx.trusted = ["clang's linkage computation"]
    seen = set()
    for f in P.defs:
        if not f.file or f.file.startswith("/") or not f.has_body:
            continue
        if f.d.get("linkage", 0) < 3:
            continue  # internal or no linkage: one copy per unit cannot clash
        dup = not (f.d.get("inline") or f.d.get("inst"))
        k = (f.key, f.file, f.line)
        if k in seen and not dup:
            continue
        seen.add(k)
        ctx.count("functions_with_external_linkage")
        ctx.ob(not dup, "duplicate-definition", f.where,
               "%s is defined in a header with external linkage but is neither inline nor a template: two translation units "
               "that include it do not link" % f.key, f.key, f.key)
    for v in P.vars:
        if not v.get("file") or v["file"].startswith("/") or v.get("infn"):
            continue
        isstatic = v.get("linkage", 0) < 3
        const = v.get("constexpr") or P.ty(v["t"]).get("c") or P.tstr(v["t"]).startswith("const ")
        ctx.count("variables")
        if isstatic and not v.get("slocal"):
            ctx.ob(bool(const), "state-per-unit", "%s:%s" % (v["file"], v["line"]),
                   "%s has internal linkage and is mutable: every translation unit gets its own copy" % v["key"], v["key"])
        elif v.get("def"):
            ctx.ob(bool(v.get("inline") or v.get("inst") or v.get("constexpr") or v.get("slocal")), "duplicate-definition",
                   "%s:%s" % (v["file"], v["line"]), "%s is defined in a header but is not inline" % v["key"], v["key"])
    # function-local statics of internal-linkage functions are also one per unit
    for f in P.defs:
        if not f.file or f.file.startswith("/") or not f.has_body or f.d.get("linkage", 0) != 2:
            continue
        for n in f.walk():
            if n.k == "Var" and n.a.get("slocal") or (n.k == "Var" and n.a.get("st") == "static"):
                const = n.a.get("constexpr") or P.tstr(n.t).startswith("const ")
                ctx.ob(bool(const), "state-per-unit", "%s:%d" % (f.file, n.l),
                       "static local %s of %s exists once per translation unit" % (n.a.get("n"), f.key), f.key + "/" + str(n.a.get("n")))
    ok, log = ctx.compile('#include "all_headers.inc"\n#include "all_headers.inc"\nint main() {}\n')
    errs = [x for x in log.splitlines() if "error:" in x]
    ctx.ob(ok, "include-twice", errs[0].split(": ")[0] if errs else "?", "a header cannot be included twice: " + (errs[0] if errs else ""),
           errs[0].split("error:")[-1].strip() if errs else "twice")
    ctx.require(ctx.cov.get("functions_with_external_linkage", 0) > 500, "functions in the headers")
