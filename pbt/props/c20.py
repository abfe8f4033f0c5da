"""C20: jobs described by a configuration file (worker.py)."""
import contextlib
import io
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from hypothesis import strategies as st
import build
import gen
from core import law, close, need, Violation
import geometry
import materials
import thermodynamics

WORKER = os.path.join(build.SRC, "worker.py")
SOLID = ["PerfectConductor", "Gold", "Gold_plasma", "Silicon", "Polystyrene", "Vacuum", "MercurySmith"]
LAYER = ["Gold", "Silicon", "Polystyrene", "Water"]
MEDIA = ["Vacuum", "Water", "Ethanol"]
QUANTITIES = ["free_energy()", "entropy()", "force()", "get_f_matsubaras(0)", "get_f_matsubaras(1)", "get_f_matsubaras(2)"]


def body():
    """radius and material, or radii and materials from inside out"""
    solid = st.fixed_dictionaries({"r": gen.logf(0.3, 3, 3, special=(1.0, 2.0)).map(lambda x: [x]), "m": st.sampled_from(SOLID).map(lambda x: [x])})
    layered = st.tuples(gen.logf(0.3, 3, 3), st.lists(gen.unif(0.2, 0.9, 3), min_size=1, max_size=2, unique=True), st.lists(st.sampled_from(LAYER), min_size=3, max_size=3)).map(
        lambda t: {"r": sorted([float("%.3g" % (t[0]*f)) for f in t[1]])+[t[0]], "m": t[2][:len(t[1])+1]})
    # layers of no thickness have no effect, but count
    thin = st.tuples(gen.logf(0.3, 3, 3), st.lists(st.sampled_from([0.5, 0.5, 0.8, 1.0]), min_size=2, max_size=5), st.tuples(*[st.sampled_from(["Gold", "Silicon"])]+[st.sampled_from(LAYER)]*5).map(list)).map(
        lambda t: {"r": sorted([float("%.3g" % (t[0]*f)) for f in t[1]])+[t[0]], "m": t[2][:len(t[1])+1]})
    return st.one_of(gen.opaque(solid), gen.opaque(solid), gen.opaque(layered), gen.opaque(thin))


def job(slow=True):
    return st.fixed_dictionaries({
        "a": body(), "b": body(), "med": st.sampled_from(MEDIA), "gap": gen.logf(1.0, 4.0, 3), "inside": st.booleans(),
        "lmax": st.one_of(st.integers(1, 3), st.integers(1, 3), st.just("automatic")), "lss": st.one_of(st.integers(0, 2), st.just("automatic")),
        "off": st.one_of(st.none(), st.integers(0, 2)), "ev": st.one_of(st.none(), st.just("lndet"), st.just("trace"), st.just("lndet")),
        "an": st.sampled_from(["True", "False", "yes", "no", "on", "0", "1", "off", "true", "FALSE"]), "prec": st.sampled_from(["1e-3", "1e-5", "0.001", "1e-8"]),
        "dT": gen.unif(0.4, 2.5, 3), "nT": st.integers(2, 4), "nmax": st.one_of(st.integers(0, 6), st.integers(0, 6), st.just("automatic")),
        "q": st.sampled_from(QUANTITIES+(["F_zero_T()", "e0()"] if slow else [])), "d_cfg": gen.logf(5.0, 9.0, 3), "override": st.booleans(), "style": st.integers(0, 420)})


def resolve(c):
    """parameters of the calculation"""
    p = dict(c)
    r1, r2 = c["a"]["r"], c["b"]["r"]
    p["inside"] = c["inside"] and len(r1) == 1 and len(r2) == 1 and c["b"]["m"] != ["Vacuum"]
    if p["inside"]:
        r2 = [float("%.4g" % (r1[0]*(1+2*c["gap"])))]
        d = float("%.4g" % (0.5*r1[0]*c["gap"]))
    else:
        d = float("%.5g" % (r1[-1]+r2[-1]+c["gap"]*min(r1[-1], r2[-1])))
    p.update(r1=r1, r2=r2, d=d)
    p["lssmax"] = c["lss"] if c["lss"] == "automatic" else ("automatic" if c["lmax"] == "automatic" else c["lmax"]+c["lss"])
    if not p["inside"] and p["lssmax"] == "automatic" and c["lmax"] != "automatic" and r1[-1] > r2[-1]:
        p["lssmax"] = c["lmax"]         # lssmax below lmax is not supported
    if c["q"].startswith("get_f") and c["nmax"] != "automatic":
        p["nmax"] = max(c["nmax"], int(c["q"][-2])+1)
    if c["q"] in ("F_zero_T()", "e0()"):
        p["lmax"], p["lssmax"], p["nmax"] = 1, 1, 3
        p["off"] = c["off"]
    if max(r2[-1]/r1[-1], r1[-1]/r2[-1]) > 4 or (p["inside"] and p["lmax"] == "automatic"):
        p["lmax"], p["lssmax"] = 2, 3   # keeps the matrices small
    if p["lmax"] == "automatic" and (c["prec"] == "1e-8" or c["ev"] == "trace"):
        p["prec"] = "1e-3"
    return p


SEP = [", ", ",", " , ", ",  "]
ASSIGN = [": ", " = ", "=", ":", " : "]


def mat_text(names, med, style=0):
    if len(names) == 1:
        return "materials."+names[0]
    t = SEP[style % 4].join("materials."+n for n in names+[med])
    return "["+t+"]" if style % 7 == 3 else "("+t+")" if style % 7 == 5 else t


def num_text(r, style=0):
    return SEP[style % 4].join(repr(x) for x in r)


def config_text(p, d):
    w = p["style"]
    g = [("ra", num_text(p["r1"], w)), ("rb", num_text(p["r2"], w)), ("d", repr(d)), ("lmax", str(p["lmax"])), ("lssmax", str(p["lssmax"])),
         ("analytic_n0", p["an"]), ("precision", p["prec"])]
    if p["off"] is not None:
        g.append(("l_offset", str(p["off"])))
    if p["ev"] is not None:
        g.append(("evaluation", p["ev"]))
    m = [("mata", mat_text(p["a"]["m"], p["med"], w)), ("matb", mat_text(p["b"]["m"], p["med"], w)), ("matmd", "materials."+p["med"])]
    t = [("Tmin", repr(p["dT"])), ("Tmax", repr(p["nT"]*p["dT"])), ("nmax", str(p["nmax"])), ("quantity", p["q"]), ("out_file", "ignored.dat")]
    sections = [("geometry", g), ("materials", m), ("thermodynamics", t)]
    if w % 3 == 1:
        # the order of sections and options has no meaning
        sections = [(n, o[::-1]) for n, o in sections[::-1]]
    return "".join("[%s]\n# comment\n%s\n\n" % (n, "\n".join(ASSIGN[w % 5].join(kv) for kv in o)) for n, o in sections)


def expected(p):
    """the same calculation through the library"""
    med = getattr(materials, p["med"])

    def b(r, m):
        if len(r) == 1:
            return r[0], getattr(materials, m[0])
        return list(r), [getattr(materials, n) for n in m]+[med]
    (r1, m1), (r2, m2) = b(p["r1"], p["a"]["m"]), b(p["r2"], p["b"]["m"])
    G = geometry.SphereSphere(r1, r2, p["d"], m1, m2, med, lmax=p["lmax"], l_offset=p["off"] or 0, lssmax=p["lssmax"], precision=float(p["prec"]),
                              evaluation=p["ev"] or "lndet")
    an = p["an"].lower() in ("true", "yes", "on", "1") and len(p["r1"]) == 1 and len(p["r2"]) == 1
    f = thermodynamics.finiteT(p["dT"], p["nmax"], p["nT"]*p["dT"], G, an)
    q = p["q"]
    if q.startswith("get_f"):
        res = f.get_f_matsubaras(int(q[-2]))
    else:
        res = getattr(f, q[:-2])()
    return np.asarray(res, dtype=float), G, f


def run(args, cwd):
    """executes worker.py in this process; returns None or the exception"""
    argv, old = sys.argv, os.getcwd()
    sys.argv = [WORKER]+args
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(WORKER, run_name="__main__")
    except SystemExit as e:
        return None if e.code in (None, 0) else e
    except Exception as e:
        return e
    finally:
        sys.argv = argv
        os.chdir(old)
    return None


def snapshot(d):
    out = {}
    for n in sorted(os.listdir(d)):
        f = os.path.join(d, n)
        if os.path.isfile(f):
            with open(f, "rb") as h:
                out[n] = h.read()
    return out


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c20-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def values(text):
    rows = [[float(x) for x in re.split(r"[,\s]+", ln.strip())] for ln in text.splitlines() if ln.strip() and not ln.startswith("#")]
    return np.array(rows)


def bare(t):
    return re.sub(r"[\s\[\]()]", "", t)


def check_header(text, p, name, G, f):
    head = [ln for ln in text.splitlines() if ln.startswith("#")]
    need(text.startswith("#") and all(ln.startswith("#") for ln in text.splitlines()[:len(head)]), "the header is not in front of the data")
    h = "\n".join(head)

    def field(key, want):
        m = re.search(r"\b%s\s*[=:]\s*([^,\s]+)" % key, h)
        need(m and float(m.group(1)) == float(want), "header says %s = %s instead of %s" % (key, m and m.group(1), want))
    need(name in h, "header does not name the job file")
    field("d", p["d"])
    for key, v in (("lmax", G.lmax), ("l_offset", p["off"] or 0), ("lssmax", G.lssmax), ("nmax", f.nmax)):
        field(key, v)
    field("deltaT", "%.4f" % p["dT"])
    field("Tmax", "%.4f" % (p["nT"]*p["dT"]))
    for key, r in (("r1", p["r1"]), ("r2", p["r2"])):
        m = re.search(r"\b%s = (\[[^\]]*\]|[^,\s]+)" % key, h)
        need(m and [float(x) for x in m.group(1).strip("[]").split(",")] == [float(x) for x in r], "header gives %s as %s instead of %s" % (key, m and m.group(1), r))
    for t in (mat_text(p["a"]["m"], p["med"]), mat_text(p["b"]["m"], p["med"]), "materials."+p["med"], p["q"], p["ev"] or "lndet"):
        need(bare(t) in bare(h), "header does not mention %s" % t)
    m = re.search(r"precision: (\S+)", h)
    need(m and float(m.group(1)) == float(p["prec"]), "header gives the precision as %s" % (m and m.group(1)))
    if p["ev"] == "trace":
        got = [(int(a), int(b)) for x in re.findall(r"\{([^}]*)\}", h) for a, b in re.findall(r"(-?\d+)\s*:\s*(-?\d+)", x)]
        want = sorted((int(k), int(v)) for k, v in G.roundTrip_dct.items())
        need(sorted(got) == want, "header gives the numbers of round trips as %s instead of %s" % (got, want))


def check_result(text, p, name):
    want, G, f = expected(p)
    got = values(text)
    want = np.atleast_1d(want)
    need(got.size == want.size and len(got) == len(want), "result file has %s values instead of %s" % (got.shape, want.shape))
    if want.ndim == 2:
        need(got.shape == want.shape, "result file has %s values instead of %s" % (got.shape, want.shape))
    close(got.reshape(-1), want.reshape(-1), 1e-10, 1e-300, "result of %s" % p["q"])
    check_header(text, p, name, G, f)


def label(p):
    return "%s,%s%s%s" % (p["q"], "int" if p["inside"] else "ext", ",layered" if len(p["r1"])+len(p["r2"]) > 2 else "", ",distance given" if p["override"] else "")


def s_job(tier):
    return job()


@law("C20", s_job, 390, 5200)
def job_equals_library(c):
    """a generated job file gives the values of the same call of the library and a header with the parameters used; a distance
       on the command line replaces that of the file"""
    p = resolve(c)
    with Scratch() as d:
        with open(os.path.join(d, "job.config"), "w") as f:
            f.write(config_text(p, p["d_cfg"] if p["override"] else p["d"]))
        before = snapshot(d)
        e = run(["job.config", "res.dat"]+([repr(p["d"])] if p["override"] else []), d)
        if e is not None:
            raise Violation("worker failed: %r" % (e,))
        after = snapshot(d)
        need(sorted(after) == ["job.config", "res.dat"] and after["job.config"] == before["job.config"], "files after the run: %s" % sorted(after))
        check_result(after["res.dat"].decode(), p, "job.config")
    return label(p)


def drop(key):
    return lambda text, p: re.sub(r"(?m)^%s: .*\n" % key, "", text)


def put(key, value):
    return lambda text, p: re.sub(r"(?m)^%s: .*$" % key, "%s: %s" % (key, value), text)


# how -> the text of a job that cannot be run
BAD = {"distance": lambda text, p: text, "no file": lambda text, p: text, "empty": lambda text, p: "",
       "evaluation": lambda text, p: config_text(dict(p, ev="lndett"), p["d"]),
       "material": lambda text, p: text.replace("matmd: materials.", "matmd: materials.No"),
       "radius": lambda text, p: text.replace("ra: ", "ra: x"),
       "no section": lambda text, p: text.replace("[materials]", ""), "no radius": drop("rb"), "no precision": drop("precision"), "no medium": drop("matmd"),
       "no quantity": drop("quantity"), "no Tmin": drop("Tmin"), "no nmax": drop("nmax"), "quantity": put("quantity", "free_energi()"), "lmax": put("lmax", "many"),
       "nmax": put("nmax", "some"), "Tmin": put("Tmin", "cold"), "precision": put("precision", "good"),
       "layers": lambda text, p: re.sub(r"(?m)^ra: (.*)$", r"ra: 0.1, 0.2, 0.25, \1", text)}


def s_hist(tier):
    names = st.sampled_from(["r", "r1", "r11", "s.dat", "sub/r", "job0.config1"])
    step = st.one_of(st.fixed_dictionaries({"op": st.just("run"), "job": st.integers(0, 1), "out": names, "dist": st.one_of(st.none(), gen.logf(9.0, 12.0, 3)), "abs": st.booleans()}),
                     st.fixed_dictionaries({"op": st.just("run"), "job": st.integers(0, 1), "out": st.just("r"), "dist": st.none(), "abs": st.booleans()}),
                     st.fixed_dictionaries({"op": st.just("file"), "out": names, "text": st.text("ab\n# ", max_size=6)}),
                     st.fixed_dictionaries({"op": st.just("args"), "n": st.sampled_from([0, 1, 4, 5])}),
                     st.fixed_dictionaries({"op": st.just("bad"), "how": st.sampled_from(sorted(BAD))}))
    j = job(False).map(lambda c: dict(c, lmax=c["lmax"] if c["lmax"] != "automatic" else 2, nmax=min(3, c["nmax"]) if c["nmax"] != "automatic" else 2, inside=False))
    again = st.fixed_dictionaries({"op": st.just("run"), "job": st.integers(0, 1), "out": st.sampled_from(["r", "r1", "s.dat"]), "dist": st.none(), "abs": st.booleans()})
    return st.fixed_dictionaries({"jobs": st.lists(j, min_size=2, max_size=2), "first": again, "steps": st.lists(step, min_size=1, max_size=6), "last": again})


def tree(d):
    out = {}
    for base, _, files in os.walk(d):
        for n in files:
            f = os.path.join(base, n)
            with open(f, "rb") as h:
                out[os.path.relpath(f, d)] = h.read()
    return out


@law("C20", s_hist, 180, 2400)
def histories(c):
    """sequences of runs, foreign files and failing runs in one directory: a run adds exactly one file (the name extended until
       it is free) and changes no other; failing runs (wrong number of arguments, invalid options) leave everything as it was;
       non-trivial: at least two runs, or a run after a file of its name existed"""
    ps = [dict(resolve(j), override=False) for j in c["jobs"]]
    runs = clash = 0
    with Scratch() as d:
        os.mkdir(os.path.join(d, "sub"))
        for i, p in enumerate(ps):
            with open(os.path.join(d, "job%d.config" % i), "w") as f:
                f.write(config_text(p, p["d"]))
        for s in [c["first"]]+c["steps"]+[c["last"]]:
            before = tree(d)
            if s["op"] == "file":
                with open(os.path.join(d, s["out"]), "w") as f:
                    f.write(s["text"])
                continue
            if s["op"] == "run":
                p = ps[s["job"]]
                if s["dist"] is not None:
                    p = dict(p, d=s["dist"])
                out = os.path.join(d, s["out"]) if s["abs"] else s["out"]
                e = run(["job%d.config" % s["job"], out]+([] if s["dist"] is None else [repr(s["dist"])]), d)
                if e is not None:
                    raise Violation("worker failed: %r" % (e,))
                want = s["out"]
                while want in before:
                    want += "1"
                    clash += 1
                after = tree(d)
                need(set(after)-set(before) == {want}, "new files %s instead of %s" % (sorted(set(after)-set(before)), want))
                text = after.pop(want).decode()
                need(after == before, "an existing file was changed")
                check_result(text, p, "job%d.config" % s["job"])
                runs += 1
                continue
            if s["op"] == "args":
                e = run(["job0.config", "new", "9.5", "x", "y"][:s["n"]], d)
                need(isinstance(e, ValueError), "%d arguments: %r instead of a ValueError" % (s["n"], e))
            else:
                p = dict(ps[0], style=0)
                args = ["bad.config", "new"]
                text = config_text(p, p["d"])
                if s["how"] == "distance":
                    args.append("far")
                text = BAD[s["how"]](text, p)
                if s["how"] == "no file":
                    args[0] = "absent.config"
                with open(os.path.join(d, "bad.config"), "w") as f:
                    f.write(text)
                before = tree(d)
                e = run(args, d)
                need(e is not None, "invalid %s was accepted" % s["how"])
            need(tree(d) == before, "a failing run changed the directory")
    return "%d runs%s" % (min(runs, 3), ",name taken" if clash else "") if runs > 1 or clash else None


def s_sub(tier):
    return st.tuples(job(False), job(False)).map(list)


@law("C20", s_sub, 12, 60)
def command_line(c):
    """the same as a process of its own, started in the directory of the job"""
    with Scratch() as d:
        for i, j in enumerate(c):
            p = resolve(j)
            with open(os.path.join(d, "j.config"), "w") as f:
                f.write(config_text(p, p["d_cfg"] if p["override"] else p["d"]))
            env = dict(os.environ, PYTHONPATH=os.pathsep.join(x for x in sys.path if x))
            r = subprocess.run([sys.executable, WORKER, "j.config", "o"]+([repr(p["d"])] if p["override"] else []), cwd=d, env=env, capture_output=True, text=True, timeout=600)
            need(r.returncode == 0, "worker failed: %s" % r.stderr[-600:])
            with open(os.path.join(d, "o"+"1"*i)) as f:
                check_result(f.read(), p, "j.config")
        r = subprocess.run([sys.executable, WORKER, "j.config"], cwd=d, env=env, capture_output=True, text=True, timeout=600)
        need(r.returncode != 0 and "ValueError" in r.stderr, "one argument was accepted")
    return "process"
