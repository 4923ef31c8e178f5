"""C10: horizons and ergospheres are the roots of Delta and g_tt, in order."""
from .common import *


def inp(kind):
    def f(c):
        d = bh_inputs(c, kind != "schwarzschild", kind == "kerrnewman")
        if kind == "kerrnewman":
            G, cc, ke = c.ns["G"], c.ns["c"], c.ns["ke"]
            # sub-extremal: (r_s/2)^2 >= alpha^2 + r_Q^2
            c.assume((G * d["M"] / cc ** 2) ** 2 >= al(c, d) ** 2 + d["Q"] ** 2 * G * ke / cc ** 4)
        return d
    return f


def sample(rng, v):
    if "Q" in v:
        v["a"] = round(rng.uniform(0.1, 0.7), 3)
        v["Q"] = float(f"{rng.uniform(-0.5, 0.5) * v['M'] * 8.6e-11:.4g}")


def scen(kind):
    def f(mk, i):
        m = make_metric(mk, i, kind)
        s = m.singularities()
        out = {"keys": ",".join(sorted(s)), "rm": s["inner_horizon"], "rp": s["outer_horizon"]}
        for k, n in (("em", "inner_ergosphere"), ("ep", "outer_ergosphere")):
            v = s[n]
            out["call_" + k] = callable(v)
            out[k] = v(i["th"]) if callable(v) else v
        x = lambda r: mk.arr([i["t"], r, i["th"], i["ph"]])
        if kind != "schwarzschild":
            dm = m.delta(out["rm"], mk.q(i["M"], u.kg), mk.q(i["a"], u.one), mk.q(i.get("Q", 0), u.C))
            dp = m.delta(out["rp"], mk.q(i["M"], u.kg), mk.q(i["a"], u.one), mk.q(i.get("Q", 0), u.C))
            out["d"] = [dm, dp, out["rp"] ** 2]
        return out
    return f


def claims(kind):
    def f(c, out, i):
        G, cc, ke = c.ns["G"], c.ns["c"], c.ns["ke"]
        rs = 2 * G * i["M"] / cc ** 2
        A = al(c, i)
        rQ2 = i["Q"] ** 2 * G * ke / cc ** 4 if "Q" in i else 0
        co = F.cos(i["th"])
        cl = [Fact("keys", out["keys"] == "inner_ergosphere,inner_horizon,outer_ergosphere,outer_horizon", out["keys"])]
        rm, rp, em, ep = (R.lift(out[k]) for k in ("rm", "rp", "em", "ep"))
        if kind == "schwarzschild":
            return cl + [Eq("outer horizon", rp, rs), Eq("inner horizon", rm, 0), Eq("outer ergosphere", ep, rs),
                         Eq("inner ergosphere", em, 0)]
        for n, r in (("inner_horizon", rm), ("outer_horizon", rp)):
            cl.append(Eq(n + " is a root of Delta", r * r + A * A + rQ2, rs * r))
        for n, r in (("inner_ergosphere", em), ("outer_ergosphere", ep)):
            cl.append(Eq(n + " is a root of g_tt", r * r + A * A * co * co + rQ2, rs * r))
        cl += [Eq("horizons sum", rm + rp, rs), Eq("ergospheres sum", em + ep, rs),
               Holds("0<=inner ergosphere", em >= 0),
               Holds("inner ergosphere <= inner horizon", em <= rm), Holds("inner <= outer horizon", rm <= rp),
               Holds("outer horizon <= outer ergosphere", rp <= ep)]
        cl += [Fact("ergospheres are functions of theta", out["call_em"] and out["call_ep"])]
        cl += [Eq("delta at inner horizon", out["d"][0], 0), Eq("delta at outer horizon", out["d"][1], 0)]
        return cl
    return f


CASES = [simple_case(k, inp(k), scen(k), claims(k), functions=("BaseMetric.singularities", "BaseMetric.alpha", "BaseMetric.delta"),
                     sample=staticmethod(sample), vtol=1e-3 if k != "schwarzschild" else 1e-6,
                     bounds="all M>0, 0<=a<=1, sub-extremal Q, all theta")
         for k in ("schwarzschild", "kerr", "kerrnewman")]
