"""C34: coordinate objects and bodies report the values they were built from."""
from .common import *
from symx.real import lift

ALT = {u.s: u.day, u.m: u.au, u.rad: u.arcmin, u.m / u.s: u.km / u.day, u.rad / u.s: u.deg / u.hour, u.kg: u.g, u.C: u.mC, u.km: u.cm}
POS = {"Cartesian": (("t", u.s), ("x", u.m), ("y", u.m), ("z", u.m)),
       "Spherical": (("t", u.s), ("r", u.m), ("theta", u.rad), ("phi", u.rad)),
       "BoyerLindquist": (("t", u.s), ("r", u.m), ("theta", u.rad), ("phi", u.rad))}
VEL = {"Cartesian": (("v_x", u.m / u.s), ("v_y", u.m / u.s), ("v_z", u.m / u.s))}
VEL["Spherical"] = VEL["BoyerLindquist"] = (("v_r", u.m / u.s), ("v_th", u.rad / u.s), ("v_p", u.rad / u.s))
WRONG = (u.K, u.kg, u.s ** 2)


def fields(sysn, diff):
    return POS[sysn] + (VEL[sysn] if diff else ())


def inp(sysn, diff, body=False):
    def f(c):
        d = {n: c.real(n) for n, _ in fields(sysn, diff)}
        if body:
            d.update({n: c.real(n) for n in ("mass", "q", "R")})
        return d
    return f


def cls_of(sysn, diff):
    import einsteinpy.coordinates as C
    return getattr(C, sysn + ("Differential" if diff else ""))


def val(q, unit):
    return q.to(unit).value


def built(mk, i, sysn, diff, alt, how):
    qs = {n: mk.q(i[n], un) for n, un in fields(sysn, diff)}
    if alt:
        qs = {n: q.to(ALT[un]) for (n, un), q in zip(fields(sysn, diff), qs.values())}
    K = cls_of(sysn, diff)
    if how == "positional":
        return K(*qs.values())
    return K(**dict(reversed(list(qs.items()))))


def obj_scen(sysn, diff):
    def f(mk, i):
        out = {}
        for alt in (False, True):
            for how in ("positional", "keyword"):
                o = built(mk, i, sysn, diff, alt, how)
                fs = fields(sysn, diff)
                d = {"attr": [val(getattr(o, n), un) for n, un in fs], "position": list(o.position()), "values": list(o.values()),
                     "system": [o.system]}
                if not diff:
                    d["index"] = [val(o[k], un) for k, (n, un) in enumerate(fs)]
                    d["np_index"] = [val(o[np.int64(k)], un) for k, (n, un) in enumerate(fs)]
                    d["negative"] = [val(o[k - 4], un) for k, (n, un) in enumerate(fs)]
                    d["name"] = [val(o[n], un) for n, un in fs]
                    d["system"].append(o["system"])
                    d["beyond"] = [type(mk.attempt(lambda: o[k], Exception)).__name__ for k in (4, "nothing")]
                out[f"{'alt' if alt else 'si'}_{how}"] = d
        good = {n: mk.q(i[n], un) for n, un in fields(sysn, diff)}
        K = cls_of(sysn, diff)
        for n, un in fields(sysn, diff):
            for w in WRONG:
                out[f"refused_{n}_{w}"] = mk.attempt(lambda: K(**dict(good, **{n: mk.q(i[n], w)})), Exception)
            # the unit of another argument
            for w in (u.s, u.m, u.rad):
                if not w.is_equivalent(un):
                    out[f"refused_{n}_{w}"] = mk.attempt(lambda: K(**dict(good, **{n: mk.q(i[n], w)})), Exception)
        return out
    return f


def refused(out):
    return [Fact(k, isinstance(v, (u.UnitsError, TypeError)), f"{type(v).__name__}") for k, v in out.items() if k.startswith("refused")]


def obj_claims(sysn, diff):
    def f(c, out, i):
        fs = fields(sysn, diff)
        cl = refused(out)
        for w, d in out.items():
            if w.startswith("refused"):
                continue
            cl.append(Fact(w + ".system", set(d["system"]) == {sysn}, str(d["system"])))
            for k, (n, un) in enumerate(fs):
                cl += [Eq(f"{w}.{how}[{n}]", d[how][k], i[n]) for how in ("attr", "index", "np_index", "negative", "name", "values") if how in d]
            cl += [Fact(f"{w}.{how} has {len(fs)} entries", len(d[how]) == len(fs)) for how in ("values",)]
            cl.append(Fact(w + ".position has 4 entries", len(d["position"]) == 4))
            cl.append(Eq(w + ".position[0] = ct", d["position"][0], c.ns["c"] * i["t"]))
            cl += [Eq(f"{w}.position[{k}]", d["position"][k], i[fs[k][0]]) for k in (1, 2, 3)]
            if "beyond" in d:
                cl.append(Fact(w + ".unknown index refused", all(x in ("IndexError", "KeyError") for x in d["beyond"]), str(d["beyond"])))
        return cl
    return f


# ---- bodies
BU = (("mass", u.kg), ("q", u.C), ("R", u.km))


def body_scen(sysn):
    def f(mk, i):
        from einsteinpy.bodies import Body
        out = {}
        for alt in (False, True):
            o = built(mk, i, sysn, True, alt, "positional")
            qs = {n: mk.q(i[n], un) for n, un in BU}
            if alt:
                qs = {n: q.to(ALT[un]) for (n, un), q in zip(BU, qs.values())}
            sun = Body(name="parent", mass=qs["mass"])
            b = Body(name="b", coords=o, parent=sun, **qs)
            fs = fields(sysn, True)
            out[f"{alt}"] = {"own": [val(getattr(b, n), un) for n, un in BU], "pos": [val(v, un) for v, (n, un) in zip(b.pos_vec, fs[1:4])],
                             "vel": [val(v, un) for v, (n, un) in zip(b.vel_vec, fs[4:])], "lens": [len(b.pos_vec), len(b.vel_vec)],
                             "who": [b.name, b.parent.name, str(b.coords is o), str(sun.parent)], "pmass": val(b.parent.mass, u.kg)}
            free = Body(**qs)
            out[f"{alt}"]["free"] = [val(getattr(free, n), un) for n, un in BU]
            out[f"{alt}"]["bare"] = [str(free.coords), str(free.parent), str(hasattr(free, "pos_vec"))]
            out[f"{alt}"]["default"] = [val(getattr(Body(), n), un) for n, un in BU]
        for n, un in BU:
            for w in WRONG + (u.m / u.s, u.V):
                if not w.is_equivalent(un):
                    out[f"refused_{n}_{w}"] = mk.attempt(lambda: Body(**{n: mk.q(i[n], w)}), Exception)
        return out
    return f


def body_claims(sysn):
    def f(c, out, i):
        fs, cl = fields(sysn, True), refused(out)
        for w, d in out.items():
            if w.startswith("refused"):
                continue
            cl.append(Fact(w + ".identity", list(d["who"]) == ["b", "parent", "True", "None"] and list(d["lens"]) == [3, 3]
                           and list(d["bare"]) == ["None", "None", "False"], f"{d['who']} {d['lens']} {d['bare']}"))
            cl += [Eq(f"{w}.{n}", d[k][j], i[n]) for k in ("own", "free") for j, (n, _) in enumerate(BU)]
            cl += [Eq(f"{w}.default {n}", d["default"][j], 0) for j, (n, _) in enumerate(BU)]
            cl.append(Eq(w + ".parent mass", d["pmass"], i["mass"]))
            cl += [Eq(f"{w}.pos_vec[{n}]", d["pos"][j], i[n]) for j, (n, _) in enumerate(fs[1:4])]
            cl += [Eq(f"{w}.vel_vec[{n}]", d["vel"][j], i[n]) for j, (n, _) in enumerate(fs[4:])]
        return cl
    return f


# ---- the Lorentz factor and stripping of units
def misc_in(c):
    d = {n: c.real(n, -0.5, 0.5) for n in ("v1", "v2", "v3", "p")}
    c.assume(d["v1"] ** 2 + d["v2"] ** 2 + d["v3"] ** 2 < 1)
    return d


def misc_scen(mk, i):
    from einsteinpy import constant
    from einsteinpy.coordinates.utils import lorentz_factor
    from einsteinpy.units import primitive
    import einsteinpy.coordinates.utils as U
    cc = U._c
    qs = [mk.q(i["v1"], u.km), mk.q(i["v2"], u.deg), i["v3"], mk.q(i["p"], u.g)]
    return {"gamma": lorentz_factor(cc * i["v1"], cc * i["v2"], cc * i["v3"]), "prim": list(primitive(*qs)),
            "n": [len(primitive(*qs[:k])) for k in range(5)]}


def misc_claims(c, out, i):
    g = R.lift(out["gamma"])
    v2 = i["v1"] ** 2 + i["v2"] ** 2 + i["v3"] ** 2
    return [Eq("gamma^2 (1 - v^2/c^2) = 1", g ** 2 * (1 - v2), 1), Holds("gamma > 0", g > 0), Eq("km", out["prim"][0], 1000 * i["v1"]),
            Eq("deg", out["prim"][1], F.PI() / 180 * i["v2"]), Eq("plain", out["prim"][2], i["v3"]), Eq("g", out["prim"][3], i["p"] / 1000),
            Fact("one value per argument", list(out["n"]) == [0, 1, 2, 3, 4], str(out["n"]))]


B = "all values of all components (SI and day, au, arcmin, km/day, deg/h, g, mC, cm), positional and keyword; wrong units for every argument"
CASES = [simple_case(f"{s}{'_diff' if d else ''}", inp(s, d), obj_scen(s, d), obj_claims(s, d),
                     functions=(f"coordinates.{s}{'Differential' if d else ''}.__init__, position, __getitem__", f"{s}Conversion.values"), bounds=B)
         for d in (False, True) for s in POS]
CASES += [simple_case(f"body_{s}", inp(s, True, True), body_scen(s), body_claims(s), functions=("bodies.Body.__post_init__",), bounds=B) for s in POS]
CASES.append(simple_case("misc", misc_in, misc_scen, misc_claims, functions=("coordinates.utils.lorentz_factor", "units.primitive"),
                         bounds="all velocities below c, all values"))


# ---- a velocity counts only when all of it is given
def part_in(c):
    return {n: c.real(n, 0.3, 1.0) for n in ("t", "p", "q", "s", "v0", "v1", "v2")}


def part_scen(mk, i):
    import einsteinpy.coordinates.conversion as C
    import itertools
    out = {}
    vs = [i["v0"], i["v1"], i["v2"]]
    for k in ("Cartesian", "Spherical", "BoyerLindquist"):
        for m in itertools.product((0, 1), repeat=3):
            o = getattr(C, k + "Conversion")(i["t"], i["p"], i["q"], i["s"], *[v if f else None for v, f in zip(vs, m)])
            out[f"{k}{m}"] = list(o.values())
        # changing to or from Boyer-Lindquist takes a mass and a spin
        for to in ("bl",) if k != "BoyerLindquist" else ("cartesian", "spherical"):
            for kw in ({}, {"M": 1.0}, {"a": 0.5}):
                out[f"{k} to {to} with {','.join(kw)}"] = type(mk.attempt(lambda: getattr(o, "convert_" + to)(**kw), Exception)).__name__
    return out


def part_claims(c, out, i):
    full = [i[n] for n in ("t", "p", "q", "s", "v0", "v1", "v2")]
    r = []
    for k, v in out.items():
        if " to " in k:
            r.append(Fact(k + " refused", v == "KeyError", v))
            continue
        n = 7 if k.endswith("(1, 1, 1)") else 4
        r.append(Fact(k + ".length", len(v) == n, str(len(v))))
        r += [Eq(f"{k}[{j}]", v[j], full[j]) for j in range(min(n, len(v)))]
    return r


CASES.append(simple_case("partial_velocity", part_in, part_scen, part_claims, functions=("coordinates.conversion.*Conversion.values",),
                         bounds="all components, every combination of missing velocity components"))
