"""C33: plotters draw the given trajectories and the black hole's surfaces."""
import contextlib
import importlib

from .common import *
from symx import funcs as F
from symx.real import lift, cmp0

FN = ("plotting.geodesic.static.StaticGeodesicPlotter", "plotting.geodesic.interactive.InteractiveGeodesicPlotter")
EPS = Fraction(1, 10 ** 10)


class Rec:
    """Stand-in for matplotlib / plotly objects: every call is recorded."""

    def __init__(self, log, name="", kind=None):
        self.__dict__.update(_log=log, _name=name, _n=0)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        r = Rec(self._log, n)
        self.__dict__[n] = r
        return r

    def __call__(self, *a, **k):
        self._log.append((self._name, a, k))
        if self._name == "subplots":
            return Rec(self._log, "figure"), Rec(self._log, "axes")
        r = Rec(self._log, self._name + "()")
        r.__dict__["made_by"] = (self._name, a, k)
        return r

    def __iter__(self):
        yield Rec(self._log, self._name + "[0]")

    def __getitem__(self, i):
        return Rec(self._log, self._name + "[]")

    def __setitem__(self, i, v):
        pass


@contextlib.contextmanager
def recording(module, **names):
    m = importlib.import_module("einsteinpy.plotting." + module)
    log = []
    old = {}
    for n in ("plt", "go", "saveplot", "FuncAnimation"):
        if hasattr(m, n):
            old[n] = getattr(m, n)
            setattr(m, n, Rec(log, n))
    try:
        yield m, log
    finally:
        for n, v in old.items():
            setattr(m, n, v)


def grid(mk, rows):
    from symx.nproxy import SymArray
    return np.array(rows, dtype=object).view(SymArray) if mk.symbolic else np.array(rows, dtype=float)


class Geod:
    def __init__(self, mk, i, n):
        self.metric_params = (i["a"],) if "a" in i else (0.0,)
        self.kind, self.coords = "Null", "BL"
        cols = [[i[f"{v}{k}"] for k in range(n)] for v in "txyz"] + [[i["p"] + j * 10 + k for k in range(n)] for j in range(4)]
        self.trajectory = (mk.arr([i[f"l{k}"] for k in range(n)]), grid(mk, [[cols[j][k] for j in range(8)] for k in range(n)]))


def traj_in(n, spin=True):
    def f(c):
        d = {"p": c.real("p", 1, 2)}
        if spin:
            d["a"] = c.real("a", 0.1, 0.95, min=0, max=1)
        for v in "ltxyz":
            for k in range(n):
                d[f"{v}{k}"] = c.real(f"{v}{k}", -4, 4)
        return d
    return f


def arr2(x):
    return np.asarray(x, dtype=object)


def trace(name, a, k):
    """x, y, z, label of a drawing call (matplotlib or plotly style)."""
    a = list(a)
    xs = [k.get(n, a[j] if len(a) > j and not isinstance(a[j], str) else None) for j, n in enumerate("xyz")]
    return xs, k.get("label", k.get("name", ""))


def drawn(log, interactive):
    """All drawing calls as (kind, [x, y, z], label)."""
    out = []
    if interactive:
        made = []
        for n, a, k in log:
            if n in ("add_trace", "add_traces"):
                for t in (a[0] if n == "add_traces" else [a[0]]):
                    made.append(t.__dict__["made_by"])
            elif n.startswith("add_") and k:
                made.append((n[4:].title().replace("3D", "3d"), a, k))
        for n, a, k in made:
            xs, lab = trace(n, a, k)
            out.append((n, xs, lab))
    else:
        for n, a, k in log:
            if n in ("plot", "plot3D", "plot_surface", "plot_wireframe", "fill", "plot_trisurf"):
                xs, lab = trace(n, a, k)
                out.append((n, xs, lab))
    return [{"kind": n, "lab": str(l), "xs": [None if v is None else arr2(v) for v in xs]} for n, xs, l in out]


def axis_text(log):
    """Axis -> the texts it is labelled with."""
    r = {}
    for n, a, k in log:
        for ax in "xyz":
            t = None
            if n in (f"set_{ax}label", f"{ax}label"):
                t = a[0] if a else k.get("label", k.get(f"{ax}label"))
            elif n == "set":
                t = k.get(f"{ax}label")
            elif n == f"update_{ax}axes":
                t = k.get("title_text", k.get("title"))
            elif n == "update_layout":
                t = k.get(f"{ax}axis_title") or (k.get(f"{ax}axis") or {}).get("title") or k.get(f"{ax}axis_title_text")
            elif n == "Scene":
                t = k.get(f"{ax}axis_title")
            if isinstance(t, dict):
                t = t.get("text")
            if t is not None:
                r.setdefault(ax, []).append(str(t))
    return r


def pick(d, few):
    """A spread of the points of a drawn surface / outline."""
    xs = [v for v in d["xs"] if v is not None]
    sh = xs[0].shape
    assert all(v.shape == sh for v in xs), [v.shape for v in xs]
    ax = [sorted({round(j * (s - 1) / (m - 1)) for j in range(m)}) for s, m in zip(sh, (few, 3) if len(sh) == 2 else (few + 9,))]
    ids = [(p, q) for p in ax[0] for q in ax[1]] if len(sh) == 2 else [(p,) for p in ax[0]]
    return [[v[i] for v in xs] for i in ids]


def cover(d, val):
    """Angular gaps left by the points of a surface: (polar, azimuth) in rad."""
    import math
    pts = [[val(v) for v in p] for p in zip(*[x.ravel() for x in d["xs"] if x is not None])]
    if len(pts[0]) == 3:
        pol = sorted(math.atan2(math.hypot(p[0], p[1]), p[2]) for p in pts)
        az = sorted(math.atan2(p[1], p[0]) for p in pts if math.hypot(p[0], p[1]) > 1e-3)
        gp = max([pol[0], math.pi - pol[-1]] + [b - a for a, b in zip(pol, pol[1:])])
    else:
        az, gp = sorted(math.atan2(p[1], p[0]) for p in pts), 0
    ga = max([az[0] + 2 * math.pi - az[-1]] + [b - a for a, b in zip(az, az[1:])])
    return gp < 0.3 and ga < 0.3


def surf_claims(name, d, a, flat, ergo, few):
    r = []
    for k, p in enumerate(pick(d, few)):
        p = [lift(v) for v in p]
        s = p[0] ** 2 + p[1] ** 2 + (0 if flat else p[2] ** 2)
        z2 = p[-1] ** 2 if not flat else p[1] ** 2
        if ergo:
            # r = 1 + sqrt(1 - a^2 z^2/r^2), r^2 = s:  (s^2 + a^2 z^2)^2 = 4 s^3, r >= 1
            lhs, rhs = (s * s + a * a * z2) ** 2, 4 * s ** 3
            r.append(Holds(f"{name}[{k}]", And(cmp0(lhs - rhs - EPS, "<="), cmp0(rhs - lhs - EPS, "<="), cmp0(s - 1 + EPS, ">="))))
        else:
            # (r - 1)^2 = 1 - a^2, r >= 1
            rh = 1 + F.sqrt(1 - a * a)
            r.append(Holds(f"{name}[{k}]", And(cmp0(s - rh * rh - EPS, "<="), cmp0(rh * rh - s - EPS, "<="))))
    return r


# ---- geodesic plotters
def scen(module, method, n, kw=None, init=None, again=False):
    cls = "InteractiveGeodesicPlotter" if "inter" in module else "StaticGeodesicPlotter"

    def f(mk, i):
        with recording("geodesic." + module) as (m, log):
            p = getattr(m, cls)(**(init or {}))
            if again:       # the plotter has drawn another geodesic before
                first = {k: 0.4 for k in i}
                getattr(p, method)(Geod(mk, first, n), **(kw or {}))
                del log[:]
            getattr(p, method)(Geod(mk, i, n), **(kw or {}))
        return {"d": drawn(log, "inter" in module), "text": axis_text(log)}
    return f


def split(out):
    return ([d for d in out["d"] if "orizon" in d["lab"]], [d for d in out["d"] if "rgosphere" in d["lab"]],
            [d for d in out["d"] if "orizon" not in d["lab"] and "rgosphere" not in d["lab"]])


def plot_claims(n, cols, ergo=True, spin=True, few=17):
    flat = len(cols) == 2

    def f(c, out, i):
        H, E, T = split(out)
        a = lift(i["a"]) if spin else lift(0)
        r = [Fact("one horizon", len(H) == 1), Fact("one ergosphere", len(E) == (1 if ergo else 0)), Fact("one trajectory", len(T) == 1, str([d["lab"] for d in T])),
             Fact("surfaces", all((d["kind"] in ("fill", "Scatter")) == flat and (d["kind"] != "plot") for d in H + E), str([d["kind"] for d in H + E]))]
        for nm, D, e in (("horizon", H, False), ("ergosphere", E, True)):
            for d in D:
                r += surf_claims(nm, d, a, flat, e, few)
        for ax, col in zip("xyz", cols):
            n2 = f"X{'xyz'.index(col) + 1}" if flat else col.upper()
            r.append(Fact(f"text on axis {ax}", all(n2 in t for t in out["text"].get(ax, [])), str(out["text"])))
        for d in T:
            xs = [x for x in d["xs"] if x is not None]
            r.append(Fact("axes", len(xs) == len(cols)))
            for ax, (x, col) in enumerate(zip(xs, cols)):
                r.append(Fact(f"points on axis {ax}", x.shape == (n,), str(x.shape)))
                r += [Eq(f"axis{ax}[{k}]", x[k], i[f"{col}{k}"]) for k in range(min(n, len(x)))]
        return r
    return f


def par_claims(n):
    def f(c, out, i):
        T = out["d"]
        r = [Fact("three curves", len(T) == 3), Fact("labels", [d["lab"] for d in T] == [f"X{j} (BL)" for j in (1, 2, 3)], str([d["lab"] for d in T]))]
        for d in T:
            j = [v for v, nm in zip("xyz", ("X1", "X2", "X3")) if nm in d["lab"]]
            for k in range(n):
                r += [Eq(f"{d['lab']} lambda[{k}]", d["xs"][0][k], i[f"l{k}"])]
                r += [Eq(f"{d['lab']} value[{k}]", d["xs"][1][k], i[f"{v}{k}"]) for v in j]
        return r
    return f


def cov_scen(module, method):
    """Concrete outlines: the drawn surfaces close up."""
    cls = "InteractiveGeodesicPlotter" if "inter" in module else "StaticGeodesicPlotter"

    def f(mk, i):
        with recording("geodesic." + module) as (m, log):
            p = getattr(m, cls)()
            if hasattr(p, method):
                getattr(p, method)(0.5)
            else:                                     # the helper has another name: all of the first plot
                (p.plot2D if "2D" in method else p.plot)(geodesic(mk, {"a": 0.5, **{f"{v}{k}": 1.0 + k for v in "xyz" for k in range(2)}}, 2))
        return {"cover": [cover(d, float) for d in drawn(log, "inter" in module)], "z": i["z"]}
    return f


# ---- bad arguments
def bad_scen(module, method, kw):
    def f(mk, i):
        s = scen(module, method, 2, kw)
        r = mk.attempt(lambda: s(mk, i), IndexError, ValueError)
        return {"exc": type(r).__name__ if isinstance(r, BaseException) else "none"}
    return f


# ---- animation
def anim_in(n, order):
    def f(c):
        d = traj_in(n)(c)
        for v, o in zip("xyz", order or [()] * 3):
            for p, q in zip(o, o[1:]):
                c.assume(d[f"{v}{p}"] < d[f"{v}{q}"])
            if not o:
                c.assume(d[f"{v}0"] != d[f"{v}1"])
        return d
    return f


def anim_scen(n):
    def f(mk, i):
        with recording("geodesic.static") as (m, log):
            p = m.StaticGeodesicPlotter()
            g = Geod(mk, i, n)
            p.animate(g)
            lim = {}
            for nm, a, k in log:
                for ax in "xyz":
                    if nm in (f"set_{ax}lim3d", f"set_{ax}lim"):
                        lim[ax] = list(a[0]) if len(a) == 1 else list(a)
            an = [(a, k) for nm, a, k in log if nm == "FuncAnimation"]
            (a, k), = an
            upd, frames = (a[1] if len(a) > 1 else k["func"]), (a[2] if len(a) > 2 else k["frames"])
            fr = []
            seq = list(range(int(frames))) if not hasattr(frames, "__iter__") else list(frames)
            for num in seq:
                del log[:]
                upd(num, *k.get("fargs", ()))
                xy = [q[0] for nm, q, _ in log if nm == "set_data"]
                z = [q[0] for nm, q, _ in log if nm == "set_3d_properties"]
                fr.append([list(arr2(v)) for v in (xy[0][0], xy[0][1], z[0])])
        return {"lim": lim, "frames": fr}
    return f


def anim_claims(n):
    def f(c, out, i):
        r = [Fact("frames", len(out["frames"]) in (n, n + 1), str(len(out["frames"]))), Fact("limits", set(out["lim"]) == set("xyz"))]
        for ax in "xyz":
            lo, hi = out["lim"][ax]
            for k in range(n):
                r.append(Holds(f"{ax}{k} inside the axes", And(cmp0(lift(i[f"{ax}{k}"]) - lift(lo), ">="), cmp0(lift(hi) - lift(i[f"{ax}{k}"]), ">="))))
        last = -1
        for q, fr in enumerate(out["frames"]):
            m = len(fr[0])
            r.append(Fact(f"frame {q} grows", all(len(v) == m for v in fr) and m >= last and m in (q, q + 1), str(m)))
            last = m
            for ax, v in zip("xyz", fr):
                r += [Eq(f"frame {q} {ax}[{k}]", v[k], i[f"{ax}{k}"]) for k in range(m)]
        return r
    return f


# ---- hypersurface and shadow plotters
def hs_in(c):
    return {f"{v}{k}": c.real(f"{v}{k}", 0.5, 3) for v in "XYZ" for k in range(6)}


def hs_scen(kind):
    def f(mk, i):
        seen = []

        class Emb:
            def get_values_surface(self, alpha):
                seen.append(alpha)
                return grid(mk, [[i[f"X{3 * p + q}"] for q in range(3)] for p in range(2)]), grid(mk, [[i[f"Y{3 * p + q}"] for q in range(3)] for p in range(2)]), mk.arr([i[f"Z{k}"] for k in range(6)])
        with recording("hypersurface.core") as (m, log):
            m.HypersurfacePlotter(embedding=Emb(), plot_type=kind, alpha=37).plot()
        return {"d": drawn(log, False), "seen": seen}
    return f


def hs_claims(kind):
    def f(c, out, i):
        r = [Fact("step", out["seen"] == [37], str(out["seen"])), Fact("one surface of the kind asked for", [d["kind"] for d in out["d"]] == ["plot_" + kind], str([d["kind"] for d in out["d"]]))]
        for d in out["d"]:
            for v, x in zip("XYZ", d["xs"]):
                r.append(Fact("shape " + v, x.shape == (2, 3)))
                r += [Eq(f"{v}[{p},{q}]", x[p, q], i[f"{v}{3 * p + q}"]) for p in range(2) for q in range(3)]
        return r
    return f


def sh_in(n):
    def f(c):
        return {f"{v}{k}": c.real(f"{v}{k}", 0.5, 3, positive=(v == "b")) for v in "bdI" for k in range(n)}
    return f


def sh_scen(n, line):
    def f(mk, i):
        class Sh:
            fb1 = [i[f"b{k}"] for k in range(n)]
            fb2 = [i[f"d{k}"] for k in range(n)]
            intensity = [i[f"I{k}"] for k in range(n)]
        with recording("rays.shadow") as (m, log):
            p = m.ShadowPlotter(Sh(), is_line_plot=line)
            p.plot()
            p.show()
        if line:
            return {"c": [[list(a[0]), list(a[1])] for nm, a, k in log if nm == "plot"], "shown": sum(nm == "show" for nm, a, k in log)}
        return {"c": [[arr2(a[0]), arr2(a[1]), arr2(a[2])] for nm, a, k in log if nm in ("pcolormesh", "pcolor", "contourf")]}
    return f


def sh_claims(n, line):
    def f(c, out, i):
        r = []
        if line:
            r = [Fact("two curves", len(out["c"]) == 2), Fact("shown", out["shown"] == 1)]
            for v, (x, y) in zip("bd", out["c"]):
                r += [Eq(f"{v}[{k}]", x[k], i[f"{v}{k}"]) for k in range(n)] + [Eq(f"intensity of {v}[{k}]", y[k], i[f"I{k}"]) for k in range(n)]
            return r
        r = [Fact("one image", len(out["c"]) == 1)]
        x, y, v = out["c"][0]
        r.append(Fact("shapes", x.shape == y.shape == v.shape and x.shape[1] == n, f"{x.shape} {y.shape} {v.shape}"))
        for p in range(x.shape[0]):
            for k in range(n):
                b = lift(i[f"b{k}"])
                s = lift(x[p, k]) ** 2 + lift(y[p, k]) ** 2
                r.append(Holds(f"radius [{p},{k}]", And(cmp0(s - b * b * (1 + EPS), "<="), cmp0(b * b * (1 - EPS) - s, "<="))))
                r.append(Eq(f"intensity [{p},{k}]", v[p, k], i[f"I{k}"]))
        return r
    return f


def one(name, inputs, sc, cl, bounds, fns=FN):
    return simple_case(name, inputs, sc, cl, functions=fns, bounds=bounds, check_defined=False)


CASES = []
for mod in ("static", "interactive"):
    B = "every spin 0..1, every trajectory (4 points); 51 points of each surface"
    CASES.append(one(f"{mod}_plot", traj_in(4), scen(mod, "plot", 4), plot_claims(4, "xyz"), B))
    CASES.append(one(f"{mod}_plot_schwarzschild", traj_in(2, False), scen(mod, "plot", 2, init={"draw_ergosphere": False}), plot_claims(2, "xyz", False, False), "no spin, no ergosphere, every trajectory (2 points)"))
    for A, Bc in ((1, 2), (1, 3), (3, 2), (2, 2)):
        CASES.append(one(f"{mod}_plot2D_{A}{Bc}", traj_in(3), scen(mod, "plot2D", 3, {"coordinates": (A, Bc)}), plot_claims(3, [" xyz"[A], " xyz"[Bc]], few=16 if (A, Bc) == (1, 3) else 2), "every spin 0..1, every trajectory (3 points)"))
    CASES.append(one(f"{mod}_plot2D_noergo", traj_in(2), scen(mod, "plot2D", 2, None, {"draw_ergosphere": False}), plot_claims(2, "xy", False), "every spin, no ergosphere"))
    CASES.append(one(f"{mod}_parametric", traj_in(4), scen(mod, "parametric_plot", 4), par_claims(4), "every trajectory (4 points)"))
    CASES.append(one(f"{mod}_second_plot", traj_in(2), scen(mod, "plot", 2, again=True), plot_claims(2, "xyz", few=4), "second geodesic on the same plotter, every spin and trajectory (2 points)"))
    CASES.append(one(f"{mod}_second_plot2D", traj_in(2), scen(mod, "plot2D", 2, {"coordinates": (2, 3)}, again=True), plot_claims(2, "yz", few=2), "second geodesic on the same plotter, every spin and trajectory (2 points)"))
    for me in ("_draw_bh", "_draw_bh_2D"):
        CASES.append(one(f"{mod}{me}_closed", lambda c: {"z": c.real("z", 0, 1)}, cov_scen(mod, me),
                         lambda c, out, i: [Fact("surfaces close up", all(out["cover"]) and len(out["cover"]) == 2, str(out["cover"]))], "angular coverage of both surfaces (gaps < 0.3 rad)"))
    for bad in ((0, 2), (1, 4), (2, -1), (7, 3)):
        CASES.append(one(f"{mod}_bad_{bad[0]}_{bad[1]}", traj_in(2), bad_scen(mod, "plot2D", {"coordinates": bad}),
                         lambda c, out, i: [Fact("rejected", out["exc"] == "IndexError", out["exc"])], "coordinate labels outside 1..3"))
    CASES.append(one(f"{mod}_bad_aspect", traj_in(2), bad_scen(mod, "plot", {"aspect": "sphere"}),
                     lambda c, out, i: [Fact("rejected", out["exc"] == "ValueError", out["exc"])], "unknown aspect"))
CASES.append(one("animate_any_order", anim_in(2, None), anim_scen(2), anim_claims(2), "every trajectory (2 points)"))
CASES.append(one("animate_3", anim_in(3, [(0, 1, 2), (1, 0, 2), (2, 0, 1)]), anim_scen(3), anim_claims(3), "trajectories of 3 points, one order of the extremes per axis"))


# ---- long trajectories, as affine families of points
def stretch(i, n):
    return {**{k: i[k] for k in ("a", "p") if k in i}, **{f"{v}{k}": i[v + "_0"] + k * i[v + "_d"] for v in "xyzlt" for k in range(n)}}


def long_in(c):
    d = {"a": c.real("a", 0.05, 0.95, min=0, max=1), "p": c.real("p", 1, 2)}
    for v in "xyzlt":
        d[v + "_0"], d[v + "_d"] = c.real(v + "_0", -3, 3), c.real(v + "_d", 0.1, 0.6, positive=True)
    return d


def longer(name, n, sc, cl, bounds):
    return one(name, long_in, lambda mk, i: sc(mk, stretch(i, n)), lambda c, out, i: cl(c, out, stretch(i, n)), bounds)


for mod in ("static", "interactive"):
    N = 120
    CASES += [longer(f"{mod}_long_plot", N, scen(mod, "plot", N), plot_claims(N, "xyz", few=2), f"every evenly spaced trajectory of {N} points"),
              longer(f"{mod}_long_plot2D", N, scen(mod, "plot2D", N, {"coordinates": (3, 1)}), plot_claims(N, "zx", few=2), f"every evenly spaced trajectory of {N} points"),
              longer(f"{mod}_long_parametric", N, scen(mod, "parametric_plot", N), par_claims(N), f"every evenly spaced trajectory of {N} points")]
CASES.append(longer("animate_long", 16, anim_scen(16), anim_claims(16), "every evenly spaced rising trajectory of 16 points"))
for kind in ("wireframe", "surface"):
    CASES.append(one(f"hypersurface_{kind}", hs_in, hs_scen(kind), hs_claims(kind), "every surface (2 x 3 points)", ("plotting.hypersurface.core.HypersurfacePlotter.plot",)))
CASES.append(one("shadow_line", sh_in(3), sh_scen(3, True), sh_claims(3, True), "every profile (3 rays)", ("plotting.rays.shadow.ShadowPlotter",)))
CASES.append(one("shadow_image", sh_in(5), sh_scen(5, False), sh_claims(5, False), "every profile (5 rays)", ("plotting.rays.shadow.ShadowPlotter",)))


# ---- which plotter GeodesicPlotter is
def shell_scen(mk, i):
    import builtins
    import runpy
    out = {"z": i["z"]}
    had = "get_ipython" in vars(builtins)
    for sh in ("ZMQInteractiveShell", "TerminalInteractiveShell", "OtherShell", None):
        if sh:
            builtins.get_ipython = lambda sh=sh: type(sh, (), {})()
        try:
            d = mk.attempt(lambda: runpy.run_module("einsteinpy.plotting.geodesic.core"), Exception)
        finally:
            if not had and "get_ipython" in vars(builtins):
                del builtins.get_ipython
        out[str(sh)] = str(d) if isinstance(d, Exception) else ",".join(b.__name__ for b in d["GeodesicPlotter"].__mro__[1:-1])
    return out


def shell_claims(c, out, i):
    want = {k: "StaticGeodesicPlotter" for k in out}
    want["ZMQInteractiveShell"] = "InteractiveGeodesicPlotter"
    return [Eq("z", out["z"], i["z"])] + [Fact(f"plotter in {k}", want[k] in v.split(",") and len(set(v.split(",")) & set(want.values())) == 1, v)
                                          for k, v in out.items() if k != "z"]


CASES.append(one("platform", lambda c: {"z": c.real("z", 0, 1)}, shell_scen, shell_claims, "notebook, terminal, other shell, plain Python", ("plotting.geodesic.core.GeodesicPlotter",)))
