"""What every check shares: extraction of the current source, reporting, known findings, evidence."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

from . import facts

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HUIRA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL = os.path.join(BUILD, "huira-facts")
STD = ["-std=gnu++20", "-w"]
DEFS = ["-DNDEBUG", '-DHUIRA_VERSION="0.9.5"', '-DHUIRA_DEFAULT_DATA_DIR="/repo/data"']


class AnalysisError(Exception):
    """The analysis could not reach a verdict (not the same thing as a violation)."""


class CompileError(Exception):
    def __init__(self, what, log):
        Exception.__init__(self, what)
        self.log = log


def build_tool():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    stamp = TOOL + ".sha"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = TOOL + ".%d" % os.getpid()
    cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-D__STDC_LIMIT_MACROS",
           src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18",
           "-Wl,-rpath,/usr/lib/llvm-18/lib"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("building the extractor failed:\n" + r.stderr[-3000:])
    os.replace(tmp, TOOL)
    with open(stamp, "w") as f:
        f.write(h)


def header_list():
    """Every public header of the library, the umbrella header first."""
    root = os.path.join(REPO, "include")
    out = []
    for d, _, fs in os.walk(os.path.join(root, "huira")):
        for f in fs:
            if f.endswith(".hpp"):
                out.append(os.path.relpath(os.path.join(d, f), root))
    out.sort()
    out.sort(key=lambda x: x != "huira/huira.hpp")
    return out


def src_hash(extra=()):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, x) for x in ("include", "apps", "bindings")]
    roots += [os.path.join(VERIF, x) for x in ("tus", "stubs", "tool")]
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    h.update(repr((DEFS, STD)).encode())
    for e in extra:
        h.update(e.encode())
    return h.hexdigest()[:24]


def include_flags():
    return ["-I" + os.path.join(VERIF, "tus"), "-I" + os.path.join(VERIF, "stubs"), "-I" + os.path.join(REPO, "include")]


def gen_headers(d):
    with open(os.path.join(d, "all_headers.inc"), "w") as f:
        for h in header_list():
            f.write('#include "%s"\n' % h)


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.cov = {}
        self.samples = []
        self._prog = {}
        self.known_entries = load_known()
        self.level = "other"
        self.seen = set()
        self.notes = []
        self.obligations = 0
        self.discharged = 0
        self.explanation = ""
        self.trusted = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---- sources ----------------------------------------------------------------------------
    def program(self, tu="lib.cpp", flags=(), text=None):
        """The type-checked program of tus/<tu>, or of the generated source `text`."""
        if tu in self._prog:
            return self._prog[tu]
        build_tool()
        key = src_hash([tu] + list(flags) + ([text] if text else []))
        cache = os.path.join(BUILD, "cache")
        os.makedirs(cache, exist_ok=True)
        out = os.path.join(cache, "%s.%s.json" % (tu.replace("/", "_"), key))
        if os.path.exists(out):
            os.utime(out)
        else:
            for f in os.listdir(cache):
                if f.startswith(tu.replace("/", "_") + "."):
                    p = os.path.join(cache, f)
                    try:
                        if time.time() - os.path.getmtime(p) > 600:
                            os.remove(p)
                    except OSError:
                        pass
            with tempfile.TemporaryDirectory(dir=cache) as td:
                gen_headers(td)
                tmp = os.path.join(td, "facts.json")
                src = os.path.join(VERIF, "tus", tu)
                if text is not None:
                    src = os.path.join(td, tu)
                    with open(src, "w") as f:
                        f.write(text)
                cmd = [TOOL, "--root=" + REPO] + (["--root=" + td] if text is not None else []) + ["-o", tmp, src, "--"] + STD + ["-I" + td] + include_flags() + DEFS + list(flags)
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode or not os.path.exists(tmp):
                    raise CompileError("the analysed translation unit %s does not type-check" % tu, r.stderr)
                os.replace(tmp, out)
        self._prog[tu] = facts.Program(out)
        return self._prog[tu]

    def compile(self, text, flags=(), syntax_only=True, cc="clang++"):
        """Type-check a generated translation unit; returns (ok, diagnostics)."""
        with tempfile.TemporaryDirectory() as td:
            gen_headers(td)
            p = os.path.join(td, "w.cpp")
            with open(p, "w") as f:
                f.write(text)
            cmd = [cc] + STD + ["-I" + td] + include_flags() + DEFS + list(flags)
            cmd += ["-fsyntax-only"] if syntax_only else []
            cmd += ["-fno-caret-diagnostics", "-ferror-limit=0"] if cc.startswith("clang") else []
            r = subprocess.run(cmd + [p], capture_output=True, text=True)
            return r.returncode == 0, r.stderr

    # ---- findings ---------------------------------------------------------------------------
    def report(self, rule, where, msg, site, fn=None):
        """A violation. `site` identifies the construct without line numbers."""
        key = (rule, site)
        if key in self.seen:
            return
        self.seen.add(key)
        for e in self.known_entries:
            if e["property"] == self.prop and e["rule"] == rule and e["site"] == site:
                self.known.append((e, where, msg))
                return
        self.violations.append({"rule": rule, "where": where, "site": site, "message": msg, "function": fn or ""})

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def sample(self, x):
        if len(self.samples) < 60:
            self.samples.append(x)

    def require(self, cond, what):
        if not cond:
            raise AnalysisError("nothing to analyse: " + what)

    def ob(self, ok, rule, where, msg, site, fn=None):
        self.obligations += 1
        if ok:
            self.discharged += 1
        else:
            self.report(rule, where, msg, site, fn)
        return ok

    # ---- result -----------------------------------------------------------------------------
    def finish(self, error=None):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": self.level,
            "coverage": dict(self.cov) or {"analysed": 0},
            "wall_s": round(time.time() - self.t0, 2),
        }
        c = ev["coverage"]
        c["obligations"] = self.obligations
        c["discharged"] = self.discharged
        c["explanation"] = self.explanation or "see DESIGN.md"
        if self.trusted:
            c["trusted_base"] = self.trusted
        c["analysed"] = self.samples
        c["violations"] = self.violations
        c["known_findings"] = [{"rule": e["rule"], "site": e["site"], "where": w} for e, w, _ in self.known]
        if self.notes:
            c["notes"] = self.notes
        if error:
            c["error"] = error
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for e, w, m in self.known:
            print("KNOWN-FINDING: property=%s %s at %s: %s" % (self.prop, e["rule"], w, m))
        if error:
            print("ERROR property=%s %s" % (self.prop, error))
            return 2
        print("property=%s obligations=%d discharged=%d known=%d violations=%d wall=%.1fs" % (
            self.prop, self.obligations, self.discharged, len(self.known), len(self.violations), time.time() - self.t0))
        print(" ".join("%s=%s" % (k, v) for k, v in self.cov.items() if isinstance(v, (int, float))))
        if self.violations:
            rp = os.path.join(VERIF, "evidence", self.prop + ".violations.json")
            with open(rp, "w") as f:
                json.dump(self.violations, f, indent=1)
            for v in self.violations[:50]:
                print("  [%s] %s: %s (%s)" % (v["rule"], v["where"], v["message"], v["site"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0


def load_known():
    """known_findings.txt: `finding: property=<id> rule=<rule> site=<site> :: <what fails>` lines.

    Lines that start with `fixed:` document repairs and suppress nothing.
    """
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.rstrip("\n")
        if not line.startswith("finding: "):
            continue
        head, _, what = line[len("finding: "):].partition(" :: ")
        d = {"what": what}
        rest = head
        for k in ("property", "rule", "site"):
            i = rest.index(k + "=")
            rest = rest[i + len(k) + 1:]
            if k != "site":
                v, _, rest = rest.partition(" ")
            else:
                v = rest
            d[k] = v.strip()
        out.append(d)
    return out


def main(argv):
    import importlib
    import traceback
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    sys.setrecursionlimit(20000)
    ctx = Ctx(prop, tier)
    try:
        mod = importlib.import_module("checks." + prop)
        mod.run(ctx)
    except CompileError as e:
        if getattr(sys.modules.get("checks." + prop), "COMPILE_IS_VIOLATION", False):
            first = [x for x in e.log.splitlines() if "error:" in x][:5]
            ctx.report("does-not-compile", first[0].split(": ")[0] if first else "?", "; ".join(first), str(e))
            return ctx.finish()
        print(e.log[-3000:])
        return ctx.finish(error=str(e))
    except AnalysisError as e:
        return ctx.finish(error=str(e))
    except Exception:
        print("".join(traceback.format_exc().splitlines(True)[-12:]))
        return ctx.finish(error="internal: " + traceback.format_exc().splitlines()[-1])
    return ctx.finish()
