"""C20: flow-space enumeration lists exactly the graphs with flow."""
import itertools

import networkx as nx
from hypothesis import strategies as st

import mentpy as mp

from pbt import gen, mk, ref
from pbt.core import Skip, Sub, Violation, require
from pbt.props import c19


@st.composite
def space_case(draw, sizes=(1, 2, 3, 3, 4, 4, 4)):
    n = draw(st.sampled_from(sizes))
    k = min(n, draw(st.sampled_from([1, 1, 2, 2, 3, 4])))
    ins = list(draw(st.permutations(range(n))))[:k]
    outs = list(draw(st.permutations(range(n))))[:k]
    pairs = [(i, j) for i in range(n) for j in range(i)]
    edges = [list(p) for p, b in zip(pairs, draw(st.lists(
        st.booleans(), min_size=len(pairs), max_size=len(pairs)))) if b]
    return {"n": n, "edges": edges, "inputs": ins, "outputs": outs,
            "names": draw(st.sampled_from(["range", "shifted", "text"])),
            "group": draw(st.sampled_from(["flow", "total", "none"]))}


def check_space(case, t):
    n = case["n"]
    name = {"range": lambda v: v, "shifted": lambda v: 3 * v + 5,
            "text": lambda v: "node" + str(v)}[case["names"]]
    g = mp.GraphState()
    g.add_nodes_from([name(v) for v in range(n)])
    g.add_edges_from([(name(a), name(b)) for a, b in case["edges"]])
    mc = mp.MBQCircuit(g, input_nodes=[name(v) for v in case["inputs"]],
                       output_nodes=[name(v) for v in case["outputs"]])
    fs = mp.utils.FlowSpace(mc)
    total, flow, noflow = fs.total_graph_space, fs.flow_graph_space, fs.no_flow_graph_space
    pairs = [frozenset(p) for p in itertools.combinations(range(n), 2)]
    graph_of = {}
    for v in total.nodes:
        c = total.nodes[v]["mbqc_circuit"]
        require(sorted(c.graph.nodes) == list(range(n)), "member on nodes {}",
                list(c.graph.nodes))
        require(list(c.input_nodes) == case["inputs"] and
                list(c.output_nodes) == case["outputs"], "member with inputs {} outputs {}",
                c.input_nodes, c.output_nodes)
        graph_of[v] = frozenset(frozenset(e) for e in c.graph.edges)
    require(len(set(graph_of.values())) == len(graph_of) == 2 ** len(pairs),
            "{} members, {} distinct graphs, expected {}", len(graph_of),
            len(set(graph_of.values())), 2 ** len(pairs))
    n_flow = 0
    for v, edges in graph_of.items():
        want = ref.has_causal_flow_bruteforce(range(n), [tuple(e) for e in edges],
                                              case["inputs"], case["outputs"])
        n_flow += want
        require(bool(total.nodes[v]["flow"]) == want, "graph {} is marked {}",
                sorted(map(sorted, edges)), total.nodes[v]["flow"])
        require((v in flow.nodes) == want and (v in noflow.nodes) == (not want),
                "graph {} is in the wrong part", sorted(map(sorted, edges)))
        c = total.nodes[v]["mbqc_circuit"]
        require((c.flow is not None) == want, "circuit of graph {} has flow {}",
                sorted(map(sorted, edges)), c.flow)
    require(set(flow.nodes) | set(noflow.nodes) == set(total.nodes), "parts do not cover")
    by_graph = {e: v for v, e in graph_of.items()}
    want_edges = {frozenset((v, by_graph[e ^ {p}])) for v, e in graph_of.items()
                  for p in pairs}
    for name_, part in (("total", total), ("flow", flow), ("no flow", noflow)):
        want = {e for e in want_edges if all(v in part.nodes for v in e)}
        require({frozenset(e) for e in part.edges} == want, "{} space has {} neighbour "
                "relations, expected {}", name_, len(part.edges), len(want))
    require(str(n) in repr(fs), "repr {!r}", repr(fs))
    # grouping into local-Clifford classes
    if case["group"] != "none":
        part = flow if case["group"] == "flow" else total
        ind, graphs = mp.utils.lc_cluster_flowspace(part)
        members = [v for k in ind for v in ind[k]]
        require(sorted(members) == sorted(part.nodes), "the groups hold {} of {} graphs",
                len(members), len(part))
        require(set(ind) == set(graphs), "group names {} and {}", list(ind), list(graphs))
        classes = {}
        for k in ind:
            require([frozenset(frozenset(e) for e in gr.edges) for gr in graphs[k]] ==
                    [graph_of[v] for v in ind[k]], "graphs and indices of group {} differ", k)
            for v in ind[k]:
                orb = c19.orbit(c19.masks(n, [tuple(e) for e in graph_of[v]]))
                classes.setdefault(orb, set()).add(k)
        require(all(len(s) == 1 for s in classes.values()), "a class is split")
        require(len(classes) == len(ind), "{} groups for {} classes", len(ind), len(classes))
        t.label(f"grouped {case['group']}")
    t.label(f"{n} nodes", f"{len(case['inputs'])} wires")
    t.interesting(0 < n_flow < len(graph_of))


@st.composite
def size_case(draw):
    return {"n": draw(st.integers(8, 10))}


def check_size(case, t):
    """Larger spaces are refused unless asked for."""
    mc = mp.templates.linear_cluster(case["n"])
    mk.raises(lambda: mp.utils.FlowSpace(mc), UserWarning, "a space of many nodes")
    t.interesting()


SUBS = [
    Sub("space", space_case, check_space, 120, 600,
        rule="all graphs on up to four nodes for random inputs, outputs and labels, against "
             "brute-force flows and complete orbits; non-trivial: some graphs have flow and "
             "some do not"),
    Sub("sizes", size_case, check_size, 6, 6, rule="all non-trivial"),
    Sub("space5", lambda: space_case((5,)), check_space, 0, 8,
        rule="as space, with five nodes (thorough tier only)"),
]
