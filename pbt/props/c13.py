"""C13: results do not depend on what was computed before (model-based histories of calls)."""
import copy
import os
import pickle
import signal
import traceback
import gc
import numpy as np
from hypothesis import strategies as st
import gen
import geo
import mats
from core import law, close, need, Violation
import geometry
import materials
import thermodynamics


def s_geom(tier, hi=3):
    return st.fixed_dictionaries({"g": geo.case(tier, hi, hi+1, 1, shp=geo.shape((0.1, 20.0))),
                                  "kind": st.sampled_from(["solid", "solid", "solid", "strat", "strat2", "coated"]), "d": gen.dielectric(),
                                  "ev": st.sampled_from(["lndet", "lndet", "trace"]), "p": st.sampled_from([1e-4, 1e-10])})


def build(c, shared):
    """a geometry; `shared` keeps the material objects of a history, so that instances have them in common"""
    g, s = c["g"], c["g"]["s"]

    def mat(spec):
        key = repr(spec)
        if key not in shared:
            shared[key] = mats.make(spec)
        return shared[key]
    a, b, md, d = mat(g["a"]), mat(g["b"]), mat(g["med"]), mat(c["d"])
    kind = c["kind"] if s["ext"] else "strat" if "strat" in c["kind"] else "solid"
    if kind == "coated":
        return geometry.CoatedSphereSphere(0.5*s["r1"], s["r1"], d, d if mats.is_pec(g["a"]) else a, 0.6*s["r2"], s["r2"], d,
                                           d if mats.is_pec(g["b"]) else b, s["L"], md, g["t"]["lmax"], g["t"]["lss"])
    r1, m1 = s["r1"], a
    if kind == "strat":
        r1, m1 = [0.5*s["r1"], s["r1"]], [d, d if mats.is_pec(g["a"]) else a, md]
    r2, m2 = s["r2"], b
    if kind == "strat2":
        r2, m2 = [0.6*s["r2"], s["r2"]], [d, d if mats.is_pec(g["b"]) else b, md]
    return geometry.SphereSphere(r1, r2, s["L"], m1, m2, md, lmax=g["t"]["lmax"], lssmax=g["t"]["lss"], precision=c["p"],
                                 evaluation=c["ev"])


OPS = ["single_m", "single_m", "mSumme", "mSumme", "blockmatrices", "channels", "supermatrix", "force", "roundtrips", "one",
       "single_k0", "sum_k0", "k_and_0"]


def op(tier):
    return st.fixed_dictionaries({"o": st.sampled_from(OPS), "i": st.integers(0, 1), "m": st.integers(0, 3), "k": st.integers(0, 3),
                                  "edit": st.sampled_from(["no", "no", "no", "scale", "reverse", "refill", "nudge", "swap"]), "dirty": st.booleans()})


TWINS = ["L", "r1", "r2", "lmax", "lss", "a", "b", "med", "ev", "p", "kind", "d", "number in a", "number in b", "number in med"]


def tweak(spec, f, n):
    """a material that differs from another one in a single number, often the permeability"""
    if mats.is_pec(spec):
        return spec
    spec = copy.deepcopy(mats.expand(spec))
    if "eps" in spec:
        key = "eps" if n % 2 else "mu"
        spec[key] = float("%.6g" % (spec[key]*f))
        return spec
    if n % 3 == 0 and not "smith" in spec:
        b = list(spec["b"])
        spec["b"] = [float("%.6g" % (b[0]*(1+f)))]+b[1:] if len(b) else [2.0, 1e15]
        return spec
    places = [(p, i) for p in ([spec["smith"]] if "smith" in spec else spec["e"]) for i in range(3) if p[i] != 0]
    if places:
        p, i = places[n % len(places)]
        p[i] = float("%.6g" % (p[i]*f))
    return spec


def twin(a, b, what, f):
    """the geometry `a` with a single parameter changed"""
    a = copy.deepcopy(a)
    s = a["g"]["s"]
    if what == "L":
        s["L"] = float("%.7g" % (s["L"]*f if s["ext"] else s["L"]/f))
    elif what in ("r1", "r2"):
        # away from the other surface
        s[what] = float("%.7g" % (s[what]/f if s["ext"] or what == "r1" else s[what]*f))
    elif what in ("lmax", "lss"):
        t = a["g"]["t"]
        t[what] += 1
        t["lss"] = max(t["lss"], t["lmax"])
    elif what in ("a", "b", "med"):
        a["g"][what] = b["g"][what]
    elif what in ("ev", "p", "kind", "d"):
        a[what] = b[what]
    elif what.startswith("number in "):
        which = what[10:]
        a["g"][which] = tweak(a["g"][which], f, int(f*1e6))
    return a


def s_hist(tier):
    return st.fixed_dictionaries({"a": s_geom(tier), "b": s_geom(tier), "same": st.sampled_from(["same", "same", "other"]+TWINS), "f": gen.logf(1.05, 1.5),
                                  "q": st.lists(gen.logf(1e-2, 5), min_size=4, max_size=4), "n": st.integers(1, 3),
                                  "ops": st.lists(op(tier), min_size=2, max_size=8)})


def apply_op(G, o, k, lmax):
    """-> result or the exception class"""
    m = min(o["m"], lmax)
    try:
        if o["o"] == "single_m":
            return G.single_m(m, k)
        if o["o"] == "mSumme":
            return G.mSumme(k)
        if o["o"] == "blockmatrices":
            return G.blockmatrices(m, k)
        if o["o"] == "channels":
            return G.blockmatrices_channels(m, k)
        if o["o"] == "supermatrix":
            return G.supermatrix(m, k)
        if o["o"] == "force":
            return G.mSum_trace_dot(k)
        if o["o"] == "roundtrips":
            return G.mSum_roundtrips(k, order=2)
        if o["o"] == "one":
            return G.mSum_oneRoundtrip(k)
        if o["o"] == "single_k0":
            return G.single_m_k0(m)
        if o["o"] == "sum_k0":
            return G.mSumme_k0()
        return G.single_m(m, np.append([0.0], k))
    except NotImplementedError:
        return NotImplementedError


def as_list(r):
    return [np.array(x, dtype=float) for x in (r if isinstance(r, list) else [r])]


def compare(got, want, what):
    if got is NotImplementedError or want is NotImplementedError:
        need(got is want, "%s: one history raises NotImplementedError, the other does not" % what)
        return
    g, w = as_list(got), as_list(want)
    need(len(g) == len(w), "%s: %d instead of %d arrays" % (what, len(g), len(w)))
    for x, y in zip(g, w):
        need(x.shape == y.shape, "%s: shape %s after this history, %s from a fresh instance" % (what, x.shape, y.shape))
        ok = np.isclose(x, y, rtol=1e-11, atol=1e-15*(1+np.nanmax(np.abs(y)) if y.size and np.any(np.isfinite(y)) else 1), equal_nan=True)
        need(np.all(ok), "%s: %r after this history, %r from a fresh instance" % (what, x[~ok][:3], y[~ok][:3]))


@law("C13", s_hist, 1000, 20000)
def geometry_histories(c):
    """histories of 2-8 calls on two interleaved geometries with common materials (equal, differing in a single parameter, or
       unrelated): different or equal wavenumber arrays of equal
       shape, arrays the caller edits in place afterwards, results the caller overwrites; each result equals that of a fresh
       instance, and earlier results stay as they were"""
    specs = [c["a"], c["b"] if c["same"] == "other" else twin(c["a"], c["b"], c["same"], c["f"])]
    pools, shared = [], {}
    for s in specs:
        # twins are evaluated at the same wavenumbers
        base = geo.kchar((s if c["same"] == "other" else specs[0])["g"]["s"])
        pool = []
        for j in range(4):
            k = np.array([float("%.5g" % (base*q)) for q in (c["q"][j:]+c["q"][:j])[:c["n"]]])
            if not all(geo.in_range(s["g"], x, 3000) for x in k):
                return None
            pool.append(k)
        pools.append(pool)
    G = [build(s, shared) for s in specs]
    kept = []
    force_seen = False
    for n, o in enumerate(c["ops"]):
        i = o["i"]
        k = pools[i][o["k"]]
        before = k.copy()
        r = apply_op(G[i], o, k, specs[i]["g"]["t"]["lmax"])
        need(np.array_equal(k, before), "%s changed the wavenumbers of the caller" % o["o"])
        fresh = apply_op(build(specs[i], {}), o, k.copy(), specs[i]["g"]["t"]["lmax"])
        compare(r, fresh, "call %d, %s" % (n, o["o"]))
        for x, y in kept:
            need(all(np.array_equal(u, v, equal_nan=True) for u, v in zip(as_list(x), y)), "call %d changed an earlier result" % n)
        if o["dirty"] and r is not NotImplementedError:
            for x in (r if isinstance(r, list) else [r]):
                if isinstance(x, np.ndarray) and x.flags.writeable:
                    x[...] = 7.0
        elif r is not NotImplementedError:
            kept.append((r, as_list(r)))
        if o["edit"] == "scale":
            k *= 1.25
        elif o["edit"] == "reverse":
            k[:] = k[::-1].copy()
        elif o["edit"] == "nudge":
            k *= 1+1e-7
        elif o["edit"] == "swap":
            k[:2] = k[:2][::-1].copy()
        elif o["edit"] == "refill":
            k[:] = k[0]*np.linspace(0.5, 0.9, len(k))
    kinds = ",".join(sorted({s["kind"] if s["g"]["s"]["ext"] else "int" for s in specs}))
    return kinds+","+("twin" if c["same"] in TWINS else c["same"])+(",edited" if any(o["edit"] != "no" for o in c["ops"]) else "")


def in_child(f):
    """the result of f, evaluated in a process of its own that has computed nothing before"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(200)
            os.close(r)
            try:
                out = pickle.dumps((True, f()))
            except Exception:
                out = pickle.dumps((False, traceback.format_exc()))
            with os.fdopen(w, "wb") as h:
                h.write(out)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        out = h.read()
    _, status = os.waitpid(pid, 0)
    need(status == 0, "the process of the calculation ended with status %d" % status)
    good, out = pickle.loads(out)
    if not good:
        raise Violation(out)
    return out


P_OPS = ["single_m", "mSumme", "blockmatrices", "channels", "force", "roundtrips", "one", "single_k0", "sum_k0", "sum_k0", "k_and_0", "free_energy"]


def p_op(G, o, k, lmax):
    if o["o"] == "free_energy":
        try:
            return thermodynamics.finiteT(k[0], 2, 2*k[0], G).free_energy()
        except NotImplementedError:
            return NotImplementedError
    return apply_op(G, o, k, lmax)


def s_pristine(tier):
    o = st.fixed_dictionaries({"o": st.sampled_from(P_OPS), "m": st.integers(0, 3), "k": st.integers(0, 1)})
    dk = geo.case(tier, 3, 4, 1, body_=st.one_of(geo.body(), gen.dielectric(gen.MAYBE_B)), shp=geo.shape((0.1, 20.0)))
    g = st.fixed_dictionaries({"g": dk, "kind": st.sampled_from(["solid", "solid", "solid", "strat", "strat2", "coated"]), "d": gen.dielectric(),
                               "ev": st.sampled_from(["lndet", "lndet", "trace"]), "p": st.sampled_from([1e-4, 1e-10])})
    return st.fixed_dictionaries({"a": g, "b": g, "same": st.sampled_from(["other", "med", "med", "number in a", "number in b"]+TWINS), "f": gen.logf(1.05, 1.5),
                                  "q": st.lists(gen.logf(1e-2, 5), min_size=2, max_size=2), "n": st.integers(1, 3), "drop": st.booleans(),
                                  "first": st.lists(o, min_size=0, max_size=2), "ops": st.lists(o, min_size=1, max_size=3)})


@law("C13", s_pristine, 800, 16000)
def new_process(c):
    """calls on a geometry give the same whether another geometry (with one parameter changed, or unrelated, sharing the
       material objects, or released with all of its objects) was evaluated by the same and other calls before or the process has computed nothing before at all"""
    specs = [c["a"], c["b"] if c["same"] == "other" else twin(c["a"], c["b"], c["same"], c["f"])]
    ks = []
    for s in specs:
        base = geo.kchar((s if c["same"] == "other" else specs[0])["g"]["s"])
        ks.append([np.array([float("%.5g" % (base*q*f)) for q in (1.0, 1.7, 0.3)[:c["n"]]]) for f in c["q"]])
        if not all(geo.in_range(s["g"], x, 3000) for k in ks[-1] for x in k):
            return None

    def run(both):
        shared, rows = {}, []
        # objects that were released: new ones may take their place in memory
        for rep in range(2 if both and c["drop"] else 1):
            if both:
                G = build(specs[0], shared)
                for o in c["ops"]+c["first"]:
                    p_op(G, o, ks[0][o["k"]].copy(), specs[0]["g"]["t"]["lmax"])
                if c["drop"]:
                    G = None
                    shared.clear()
                    gc.collect()
            G = build(specs[1], shared)
            out = [p_op(G, o, ks[1][o["k"]].copy(), specs[1]["g"]["t"]["lmax"]) for o in c["ops"]]
            rows.append([r if r is NotImplementedError else as_list(r) for r in out])
            if c["drop"]:
                G = None
                shared.clear()
                gc.collect()
        return rows
    after, alone = in_child(lambda: run(True)), in_child(lambda: run(False))[0]
    for row in after:
        for o, x, y in zip(c["ops"], row, alone):
            compare(x, y, "%s after the same calls on %s%s" % (o["o"], "another geometry" if c["same"] == "other" else "a geometry differing in "+c["same"],
                                                               " that was released" if c["drop"] else ""))
    return c["same"]


def s_rel(tier):
    m = st.one_of(gen.dielectric(), gen.drude(), gen.dielectric(gen.MAYBE_B), gen.const((1, 50)))
    return st.fixed_dictionaries({"g": geo.case(tier, 1, 2, 1, shp=geo.shape((0.3, 10.0))), "mats": st.lists(m, min_size=2, max_size=3), "what": st.sampled_from(["a", "b", "med", "ab", "all"]),
                                  "kind": st.sampled_from(["solid", "solid", "strat", "strat2"]), "d": gen.dielectric(), "o": st.sampled_from(["sum_k0", "single_m", "mSumme", "free_energy", "force"]),
                                  "seed": st.integers(0, 2**32-1), "q": gen.logf(1e-2, 3)})


@law("C13", s_rel, 60, 1200)
def released_objects(c):
    """many short-lived geometries of a few materials, each released with all of its objects before the next is built (whose
       objects may take their places in memory), give what they give in a process where all objects are kept"""
    rng = np.random.default_rng(c["seed"])
    seq_ = []
    for i in range(24):
        g = dict(c["g"])
        pick = [c["mats"][j] for j in rng.integers(0, len(c["mats"]), 3)]
        for name, v in zip(("a", "b", "med"), pick):
            if c["what"] in (name, "all") or (c["what"] == "ab" and name != "med"):
                g[name] = v
        seq_.append({"g": g, "kind": c["kind"], "d": c["d"], "ev": "lndet", "p": 1e-8})
    k = np.array([geo.kchar(c["g"]["s"])*c["q"]])
    if not all(geo.in_range(s["g"], k[0], 1000) for s in seq_):
        return None
    op = {"o": c["o"], "m": 0, "k": 0}

    def run(keep):
        out, old = [], []
        for s in seq_:
            shared = {}
            G = build(s, shared)
            r = p_op(G, op, k.copy(), s["g"]["t"]["lmax"])
            out.append(r if r is NotImplementedError else as_list(r))
            if keep:
                old += [G, shared]
            else:
                G = shared = None
                gc.collect()
        return out
    for i, (x, y) in enumerate(zip(in_child(lambda: run(False)), in_child(lambda: run(True)))):
        compare(x, y, "%s of geometry %d after the others were released" % (c["o"], i))
    return c["what"]+" "+c["o"]


T_OPS = ["free_energy", "free_energy", "entropy", "force", "f_matsubaras", "force", "geometry"]


def s_thermo(tier):
    return st.fixed_dictionaries({"a": s_geom(tier, 2), "dT": gen.logf(0.3, 3), "n": st.integers(2, 6), "t": st.integers(2, 5),
                                  "two": st.booleans(), "an": st.booleans(),
                                  "ops": st.lists(st.tuples(st.sampled_from(T_OPS), st.integers(0, 1), st.booleans()), min_size=2, max_size=7)})


def t_op(f, o, k):
    try:
        if o == "f_matsubaras":
            return f.get_f_matsubaras(0)
        if o == "geometry":
            return f.geometry.mSumme(k)
        return getattr(f, o)()
    except NotImplementedError:
        return NotImplementedError


@law("C13", s_thermo, 500, 10000)
def thermodynamic_histories(c):
    """histories of free_energy, entropy, force and of the geometry itself on one or two calculations sharing a geometry"""
    s = c["a"]
    dT = float("%.5g" % (c["dT"]*geo.kchar(s["g"]["s"])))
    k = np.array([dT*1.3])
    if not all(geo.in_range(s["g"], x, 3000) for x in (dT, dT*c["n"], k[0])) or not geo.in_range(s["g"], 1e-10, 3000):
        return None
    if dT < 1e-8:
        return None

    def new():
        G = build(s, {})
        f = [thermodynamics.finiteT(dT, c["n"], dT*c["t"], G, c["an"])]
        f.append(thermodynamics.finiteT(dT*1.5, c["n"], dT*3, G, not c["an"]) if c["two"] else f[0])
        return f
    F = new()
    kept = []
    seen = []
    last = [None, None]
    for n, (o, i, dirty) in enumerate(c["ops"]):
        if o == "f_matsubaras" and last[i if c["two"] else 0] == "force":
            # the raw Matsubara terms are those of the quantity asked for last
            o = "free_energy"
        if o != "geometry":
            last[i if c["two"] else 0] = o
        r = t_op(F[i], o, k)
        fresh = t_op(new()[i], o, k)
        compare(r, fresh, "call %d, %s after %s" % (n, o, seen))
        for x, y in kept:
            need(np.array_equal(x, y, equal_nan=True), "call %d changed an earlier result" % n)
        seen.append(o)
        if r is not NotImplementedError:
            if dirty and isinstance(r, np.ndarray) and r.flags.writeable:
                r[...] = 7.0
            else:
                kept.append((r, np.array(r)))
    return "%d kinds" % len({o[0] for o in c["ops"]})


def s_mats(tier):
    return st.fixed_dictionaries({"n": st.lists(st.sampled_from(gen.ALL_NAMES), min_size=3, max_size=3), "s": geo.shape((0.1, 20.0), False),
                                  "l": st.integers(1, 3)})


@law("C13", s_mats, 40, 600)
def library_unchanged(c):
    """using the materials of the library leaves every one of them as it was"""
    def snap():
        out = {}
        for n in gen.ALL_NAMES:
            m = getattr(materials, n)
            out[n] = {k: copy.deepcopy(getattr(m, k, None)) for k in ("e_properties", "b_properties")}
            if n != "PerfectConductor":
                out[n]["eps"] = m.epsilon(np.array([0.3, 2.0])).tolist()
                out[n]["mu"] = m.mu(np.array([0.3, 2.0])).tolist()
        return out
    before = snap()
    a, b, md = c["n"]
    if md in ("PerfectConductor",):
        md = "Vacuum"
    s = c["s"]
    g = {"s": s, "a": {"lib": a}, "b": {"lib": b}, "med": {"lib": md if md in gen.DIEL_NAMES else "Water"}, "t": {"lmax": c["l"], "lss": c["l"]}}
    k = geo.kchar(s)
    if not geo.in_range(g, 3*k, 3000):
        return None
    G = geo.make(g)
    G.mSumme(np.array([k, 2*k]))
    G.mSumme_k0()
    G.mSum_trace_dot(np.array([k]))
    thermodynamics.finiteT(k, 2, 2*k, G).entropy()
    after = snap()
    for n in before:
        need(repr(before[n]) == repr(after[n]), "material %s changed: %r -> %r" % (n, before[n], after[n]))
    return "lib"
