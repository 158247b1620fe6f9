"""C14: measurement operators are the right projective measurements."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

import mentpy as mp
from mentpy.operators import ControlMent, Ment, MentOutcome

from pbt import exprs, gen, mk, ref
from pbt.core import Skip, Sub, Violation, require

AXES, PLANES = ("X", "Y", "Z"), ("XY", "XZ", "YZ", "XYZ")


def angle_for(plane):
    if plane == "XYZ":
        return st.tuples(gen.angles(), gen.angles()).map(list)
    return st.one_of(gen.angles(), st.integers(-4, 4))


@st.composite
def spec(draw):
    plane = draw(st.sampled_from(AXES + PLANES + PLANES))
    angle = None
    if plane in PLANES and draw(st.booleans()):
        angle = draw(angle_for(plane))
    return [plane, angle]


@st.composite
def case_strategy(draw):
    s = draw(spec())
    return {"spec": s, "given": draw(angle_for(s[0] if s[0] in PLANES else "XY")),
            "case": draw(st.sampled_from(["upper", "lower", "mixed"]))}


def tup(a):
    return tuple(a) if isinstance(a, list) else a


def spellings(plane, angle, how):
    p = {"upper": plane, "lower": plane.lower(), "mixed": plane.capitalize()}[how]
    a = tup(angle)
    out = [Ment(angle=a, plane=p), Ment(a, p), Ment(plane=p, angle=a)]
    if a is None:
        out.append(Ment(p))
        if plane == "XY":
            out += [Ment(), Ment(None), Ment(plane=None)]
        if plane in AXES:
            out += [Ment(0, p), Ment(p, 0), Ment(0.0, p)]
    else:
        out.append(Ment(p, a))
        if plane == "XY":
            out += [Ment(a), Ment(angle=a)]
    out += [mp.Measurement(a, p)] if hasattr(mp, "Measurement") else []
    return out


def is_measurement(m, angle_arg, want, args=()):
    """m.matrix / m.get_povm with this argument is the observable `want`."""
    mat = mk.array(m.matrix(*angle_arg, *args), (2, 2), "matrix")
    require(mk.close(mat, want), "matrix is {}, expected {}", mat.tolist(), want.tolist())
    require(mk.close(mat, mat.conj().T) and abs(np.trace(mat)) < 1e-9
            and mk.close(mat @ mat, np.eye(2)), "not a traceless Hermitian involution")
    povm = m.get_povm(*angle_arg, *args)
    require(len(povm) == 2, "{} POVM elements", len(povm))
    p0, p1 = (mk.array(p, (2, 2), "POVM element") for p in povm)
    require(mk.close(p0 + p1, np.eye(2)), "POVM elements do not sum to one")
    for p, sign in ((p0, 1), (p1, -1)):
        require(mk.close(p @ p, p) and abs(np.trace(p) - 1) < 1e-9, "not a projector")
        require(mk.close(want @ p, sign * p), "outcome {} is not the {} eigenspace",
                (1 - sign) // 2, sign)


def check(case, t):
    warnings.simplefilter("ignore")
    plane, angle = case["spec"]
    given = tup(case["given"])
    free = plane in PLANES and angle is None
    for m in spellings(plane, angle, case["case"]):
        require(m.plane == plane, "plane is {}", m.plane)
        require(m.angle == (0 if plane in AXES else tup(angle)), "angle is {}", m.angle)
        require(m.is_trainable() is free or m.is_trainable() == free, "trainable: {}",
                m.is_trainable())
        if free:
            is_measurement(m, (given,), ref.observable(plane, given))
            # a slightly different angle is another observable
            near = (given[0] + 3e-5, given[1] - 3e-5) if plane == "XYZ" else given + 3e-5
            is_measurement(m, (near,), ref.observable(plane, near))
            mk.raises(lambda: m.matrix(), ValueError, "matrix without an angle")
            mk.raises(lambda: m.get_povm(), ValueError, "POVM without an angle")
        else:
            want = ref.observable(plane, tup(angle))
            is_measurement(m, (), want)
            is_measurement(m, (m.angle,), want)
            other = (0.123, 4.5) if plane == "XYZ" else m.angle + 0.5
            mk.raises(lambda: m.matrix(other), Exception, "a conflicting angle")
            mk.raises(lambda: m.get_povm(other), Exception, "a conflicting angle")
            if plane in ("XY", "XZ", "YZ"):
                mk.raises(lambda: m.matrix(angle + 2e-3), Exception, "a conflicting angle")
        for c in (m.copy(), copy.copy(m), copy.deepcopy(m)):
            require(type(c) is Ment and (c.plane, c.angle, c.is_trainable()) ==
                    (m.plane, m.angle, m.is_trainable()), "the copy is {}", c)
            if plane in PLANES:
                fresh = (1.0, 2.0) if plane == "XYZ" else 1.0
                require(c.set_angle(fresh) is c, "set_angle does not return the measurement")
                require(c.angle == fresh and not c.is_trainable(), "angle after setting")
                is_measurement(c, (), ref.observable(plane, fresh))
                require(m.angle == tup(angle) and m.is_trainable() == free,
                        "changing a copy changed the original")
        require(isinstance(repr(m), str), "no text form")
    t.label(plane, "free" if free else "fixed")
    t.interesting(plane in PLANES)


@st.composite
def bad_case(draw):
    return {"what": draw(st.sampled_from(["plane", "angle type", "axis angle", "xyz"])),
            "plane": draw(st.text("XYZAB ", min_size=0, max_size=4)),
            "angle": draw(st.sampled_from([[1.0], {"a": 1}, "list", "complex"])),
            "axis": draw(st.sampled_from(AXES)), "value": draw(gen.generic_angles())}


def check_bad(case, t):
    warnings.simplefilter("ignore")
    w = case["what"]
    if w == "plane":
        if case["plane"].upper() in AXES + PLANES:
            return
        mk.raises(lambda: Ment(case["plane"]), ValueError, f"plane {case['plane']!r}")
        mk.raises(lambda: Ment(0.3, case["plane"]), ValueError, f"plane {case['plane']!r}")
    elif w == "angle type":
        a = {"list": [0.1], "complex": 1j}.get(case["angle"], case["angle"]) \
            if isinstance(case["angle"], str) else case["angle"]
        mk.raises(lambda: Ment(a, "XY"), TypeError, f"angle {a!r}")
    elif w == "axis angle":
        if case["value"] == 0:
            return
        mk.raises(lambda: Ment(case["value"], case["axis"]), ValueError, "axis with angle")
        mk.raises(lambda: Ment(case["axis"], case["value"]), ValueError, "axis with angle")
    else:
        mk.raises(lambda: Ment("XYZ").matrix(case["value"]), TypeError,
                  "one angle for two")
    t.label(w)
    t.interesting()


@st.composite
def control_case(draw):
    two = [p for p in AXES + ("XY", "XZ", "YZ", "XY")]
    s = gen.meas_specs(tuple(two))
    return {"cond": draw(st.one_of(exprs.trees([0, 1, 2]),
                                   st.booleans().map(lambda b: ["bool", b]))),
            "true": draw(s), "false": draw(s), "angle": draw(gen.angles())}


def check_control(case, t):
    warnings.simplefilter("ignore")
    ments = {}

    def outcome_of(v):
        m = ments.setdefault(v, Ment("X"))
        m.node_id = v
        return m.outcome

    cond = case["cond"]
    c = cond[1] if cond[0] == "bool" else exprs.build(cond, outcome_of)
    (tp, ta), (fp, fa) = case["true"], case["false"]
    cm = ControlMent(c, ta if len(tp) > 1 else None, tp, fa if len(fp) > 1 else None, fp)
    free = [len(p) > 1 and a is None for p, a in (case["true"], case["false"])]
    require(bool(cm.is_trainable()) == any(free), "trainable: {}", cm.is_trainable())
    seen = set()
    for m in (cm, cm.copy(), copy.deepcopy(cm)):
        require(isinstance(m, ControlMent), "the copy is a {}", type(m))
        if cond[0] == "bool":
            plane, angle = case["true"] if cond[1] else case["false"]
            require(m.angle() == (angle if len(plane) > 1 else 0), "angle is {}", m.angle())
        else:
            require((m.angle() is None) == any(free), "angle is {}", m.angle())
        for k in range(8):
            outs = {v: k >> v & 1 for v in range(3)}
            hit = cond[1] if cond[0] == "bool" else exprs.value(cond, outs)
            plane, angle = case["true"] if hit else case["false"]
            seen.add(bool(hit))
            want = ref.observable(plane, case["angle"] if angle is None else angle)
            arg = case["angle"] if any(free) else None
            is_measurement(m, (arg,), want, (outs,))
            require(m.plane(outs) == plane, "plane is {}, expected {}", m.plane(outs), plane)
            want_angle = (angle if len(plane) > 1 else 0)
            require(m.angle(outs) == want_angle, "angle is {}, expected {}", m.angle(outs),
                    want_angle)
            if not any(free):
                mk.raises(lambda: m.matrix(0.5, outs), ValueError, "an unused angle")
            elif len(plane) > 1 and angle is None:
                mk.raises(lambda: m.matrix(None, outs), ValueError, "a missing angle")
    t.label(*(f"condition {s}" for s in seen))
    t.interesting(len(seen) == 2 and case["true"] != case["false"])


SUBS = [
    Sub("ment", case_strategy, check, 4000,
        rule="every plane, special and random angles, all spellings; non-trivial: a plane "
             "rather than an axis"),
    Sub("refused", bad_case, check_bad, 800, rule="non-trivial: refusable"),
    Sub("control", control_case, check_control, 1600,
        rule="controlled measurements on all outcome assignments; non-trivial: both "
             "branches occur and differ"),
]
