"""Builds mentpy objects from JSON cases and validates what comes back."""
import networkx as nx
import numpy as np

import mentpy as mp
from mentpy.mbqc.states.graphstate import GraphState
from mentpy.operators import Ment

from pbt.core import Violation, require


def ment(spec):
    plane, angle = spec
    if len(plane) == 1:
        return Ment(plane)
    if angle is None:
        return Ment(plane)
    return Ment(tuple(angle) if plane == "XYZ" else angle, plane)


def graph(g, nodes=None, cls=GraphState):
    gr = cls()
    gr.add_nodes_from(range(g["n"]) if nodes is None else nodes)
    gr.add_edges_from([tuple(e) for e in g["edges"]])
    return gr


def circuit(g, meas=None, **kw):
    m = None
    if meas is not None:
        m = {int(k): (None if s is None else ment(s)) for k, s in meas.items()}
        for v in range(g["n"]):
            m.setdefault(v, None)
    return mp.MBQCircuit(
        graph(g), input_nodes=list(g["inputs"]), output_nodes=list(g["outputs"]),
        measurements=m, **kw,
    )


def array(x, shape, what):
    require(isinstance(x, np.ndarray) or np.isscalar(x) or hasattr(x, "__array__"),
            "{} is {}, not an array", what, type(x))
    a = np.asarray(x)
    require(a.shape == tuple(shape), "{} has shape {}, expected {}", what, a.shape, shape)
    require(np.all(np.isfinite(a.astype(complex))), "{} is not finite", what)
    return a.astype(complex)


def close(a, b, tol=1e-6):
    return np.allclose(a, b, atol=tol, rtol=0)


def raises(fn, kinds, what):
    """fn must raise one of the kinds."""
    try:
        fn()
    except kinds as e:
        return e
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__}: {str(e)[:200]}")
    raise Violation(f"{what}: accepted")
