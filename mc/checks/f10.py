"""F10: data flows and computation graphs which are visualised.

Explicit-state exploration of the real tracker and dashboard (all sequences of operations up to a
depth) against plain lists; all small graphs, parameter trees and hierarchies through every
renderer which can run here, the result being parsed back and compared with what was given.
"""

import contextlib
import io
import itertools
import json
import re
import warnings

import jax.numpy as jnp
import numpy as np

from mc.core import Task
from wax.flax.visualization import (
    ComputationGraphRenderer,
    DashboardConfig,
    DataFlowTracker,
    DataFlowVisualizer,
    InteractiveDashboard,
    PipelineEdge,
    PipelineNode,
    render_pipeline_graph,
    visualize_streaming_data,
)
from wax.flax.visualization.nested_graph_viz import (
    CytoscapeNestedRenderer,
    D3NestedRenderer,
    GraphHierarchy,
    GraphvizNestedRenderer,
    HierarchicalGraphAnalyzer,
    NestedGraphConfig,
    NestedGraphVisualizer,
)

PROPERTY = "F10"
ASSUMPTIONS = [
    "renderers whose libraries are not installed (plotly, bokeh, networkx, flask) are not run",
    "layout, colours and styles are not specified",
]

# -- tracker -------------------------------------------------------------------------------

RECORDS = {
    "A input": ("A", "input", 1.5, ()),
    "A output": ("A", "output", np.ones((2, 3)), (2, 3)),
    "B state": ("B", "state", {"x": 1, "y": 2}, (2,)),
    "B gradient": ("B", "gradient", [1, 2, 3], (3,)),
    "B other": ("B", "other", "text", ()),
}
TOPS = [*RECORDS, "step", "clear"]
FLAGS = ["input", "output", "state", "gradient"]


def check_tracker(ex, depth, history, off, first):
    kw = {f"track_{k}s": k not in off for k in FLAGS}

    def run(ops):
        tr = DataFlowTracker(max_history=history, **kw)
        step, hist, mods = 0, [], {}
        for i, op in enumerate(ops):
            if op == "step":
                tr.step()
                step += 1
            elif op == "clear":
                tr.clear_history()
                step, hist, mods = 0, [], {}
            else:
                m, kind, value, shape = RECORDS[op]
                meta = {"i": i} if i % 2 else None
                tr.record_data(m, kind, value, meta)
                if kind in off:
                    continue
                rec = (step, m, kind, id(value), shape, meta or {})
                hist = (hist + [rec])[-history:]
                mods[m] = (mods.get(m, []) + [rec])[-history:]

        def view(dps):
            return [(d.step, d.module_name, d.data_type, id(d.value), tuple(d.shape), d.metadata) for d in dps]

        case = " / ".join(ops)
        ex.check(tr.step_count == step and view(tr.data_history) == hist, case, f"{view(tr.data_history)}, expected {hist}")
        for n in (0, 1, 2, 100):
            want = hist[max(0, len(hist) - n) :]
            ex.check(view(tr.get_recent_data(n)) == want, f"{case}: last {n}", f"{view(tr.get_recent_data(n))}, expected {want}")
        for m, kind in itertools.product(("A", "B", "C"), (None, *FLAGS, "other")):
            want = [r for r in mods.get(m, []) if kind in (None, r[2])]
            got = view(tr.get_module_history(m, kind))
            ex.check(got == want, f"{case}: {m} {kind}", f"{got}, expected {want}")
        times = [d.timestamp for d in tr.data_history]
        ex.check(all(0 <= a <= b + 1e-3 for a, b in zip(times, times[1:] + times[-1:])), case + ": times", times)
        text = visualize_streaming_data(tr, backend="text")
        if hist:
            rows = [tuple(x.strip() for x in line.split("|")) for line in text.split("\n") if line.startswith("Step ")]
            want = [(f"{r[0]}", r[1], r[2]) for r in hist[-10:]]
            ok = [(r[0].split()[1], r[1], r[2]) for r in rows] == want
            ok = ok and f"Total steps: {step}" in text and f"Active modules: {len({r[1] for r in hist})}" in text and f"Recent points: {len(hist)}" in text
            ex.check(ok, case + ": text", text)
        else:
            ex.check("No data points" in text, case + ": text", text)
        ex.explored(transitions=len(ops), traces=1)
        ex.model_states.add((step, tuple(r[:3] for r in hist)))
        ex.outcome(repr([r[:3] for r in hist]))

    for n in range(depth):
        for rest in itertools.product(TOPS, repeat=n):
            run([first, *rest])


def check_plot(ex, T):
    """The lines drawn are the scalars recorded, module by module."""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    for seq in itertools.product([("A", 1.0), ("B", jnp.asarray(2.0)), ("B", jnp.ones(3)), ("A", 4)], repeat=T):
        for points in (2, 200):
            tr = DataFlowTracker()
            vis = DataFlowVisualizer(backend="matplotlib", max_points=points)
            vis.attach_tracker(tr)
            fig = vis.create_streaming_plot()
            data = []
            for m, v in seq:
                tr.record_data(m, "output", v)
                data.append((m, tr.step_count, v))
                tr.step()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                vis.update_plot()
            want = {}
            for m, s, v in data[-points:]:
                if np.ndim(v) == 0:
                    want.setdefault(m, ([], []))[0].append(s)
                    want[m][1].append(float(v))
            got = {li.get_label(): (list(map(float, li.get_xdata())), list(map(float, li.get_ydata()))) for li in fig.axes[0].get_lines()}
            ex.check(got == {k: (list(map(float, a)), b) for k, (a, b) in want.items()}, f"{[(m, np.shape(v)) for m, v in seq]},{points}", f"{got}, expected {want}")
            ex.check(len(tr.data_history) == len(seq), "history", "changed by the plot")
            plt.close(fig)
            ex.explored(T, T, 1)


# -- dashboard -----------------------------------------------------------------------------

BOPS = {
    "register p": None,
    "register q": None,
    "step p": None,
    "step q": None,
    "fast p": ("p", {"execution_time_ms": 5.0, "memory_usage_mb": 10.0}),
    "slow p": ("p", {"execution_time_ms": 250.0}),
    "big q": ("q", {"memory_usage_mb": 5000.0}),
    "plain q": ("q", None),
}


def check_dashboard(ex, depth, alerts, first):
    def run(ops):
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            d = InteractiveDashboard(DashboardConfig(max_data_points=2, enable_alerts=alerts))
            pipes, metrics, alarms = {}, {}, []
            count = 0
            for op in ops:
                what, p = op.split()
                if what == "register":
                    d.register_pipeline(p, abs, 1.0, "text " + p)
                    pipes[p] = dict(calls=0, step=0, data=[])
                elif what == "step":
                    d.step_pipeline(p)
                    if p in pipes:
                        pipes[p]["calls"] += 1
                        pipes[p]["step"] += 1
                else:
                    _, meta = BOPS[op]
                    d.record_pipeline_data(p, "mod", "output", 3.0, meta)
                    if p not in pipes:
                        continue
                    count += 1
                    pipes[p]["data"] = (pipes[p]["data"] + [(pipes[p]["step"], "mod", "output", 3.0, meta or {})])[-2:]
                    for key, name, limit, kind in (("execution_time_ms", "execution_time", 100.0, "performance"), ("memory_usage_mb", "memory_usage", 1000.0, "memory")):
                        if meta and key in meta:
                            metrics.setdefault(f"{p}_{name}", []).append(meta[key])
                            if alerts and meta[key] > limit:
                                alarms.append((kind, p))
        case = " / ".join(ops)
        got = {p: dict(calls=i["total_calls"], step=d.state.data_trackers[p].step_count, data=[(x.step, x.module_name, x.data_type, x.value, x.metadata) for x in d.state.data_trackers[p].data_history]) for p, i in d.state.active_pipelines.items()}
        ex.check(got == pipes, case, f"{got}, expected {pipes}")
        ex.check(all(i["function"] is abs and i["description"] == "text " + p for p, i in d.state.active_pipelines.items()), case, "description")
        got = {k: list(v) for k, v in d.state.performance_metrics.items() if k != "global_throughput" and len(v)}
        ex.check(got == metrics, case + ": metrics", f"{got}, expected {metrics}")
        ex.check(len(d.state.performance_metrics["global_throughput"]) == count, case + ": throughput", count)
        got = [(a["type"], a["pipeline_id"]) for a in d.state.alerts]
        ex.check(got == alarms, case + ": alerts", f"{got}, expected {alarms}")
        ex.explored(transitions=len(ops), traces=1)
        ex.model_states.add(repr((pipes, alarms)))
        ex.outcome(repr((sorted(pipes), alarms)))

    for n in range(depth):
        for rest in itertools.product(BOPS, repeat=n):
            run([first, *rest])


def check_limits(ex):
    """Alerts and metrics keep the last 100 and 1000."""
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        d = InteractiveDashboard(DashboardConfig())
        d.register_pipeline("p", abs, 1.0)
        for k in range(1100):
            d.record_pipeline_data("p", "m", "output", k, {"execution_time_ms": 1000.0 + k})
    values = list(d.state.performance_metrics["p_execution_time"])
    ex.check(values == [1000.0 + k for k in range(100, 1100)], "metrics", values[:3])
    alerts = [a["message"] for a in d.state.alerts]
    ex.check(len(alerts) == 100 and "2000.0" in alerts[0] and "2099.0" in alerts[-1], "alerts", alerts[:2])
    ex.check(len(d.state.data_trackers["p"].data_history) == 1000, "data", len(d.state.data_trackers["p"].data_history))
    ex.explored(1100, 1100, 1)


# -- graphs --------------------------------------------------------------------------------

NODE = re.compile(r'^\s*"?([\w.]+)"? \[(.*)\];?$')
EDGE = re.compile(r'^\s*"?([\w.]+)"? -> "?([\w.]+)"?(?: \[(.*?)\])?;?$')


def parse_dot(text):
    """Nodes (with the clusters which contain them and the label) and edges of a DOT text."""
    nodes, edges, stack = [], [], []
    for line in text.split("\n"):
        s = line.strip()
        if s.startswith("subgraph"):
            stack.append(s.split()[1].strip('"'))
        elif s == "}":
            if stack:
                stack.pop()
        elif EDGE.match(s):
            m = EDGE.match(s)
            label = re.search(r'label="?(\w+)', m.group(3) or "")
            edges.append((m.group(1), m.group(2), label and label.group(1) or ""))
        elif NODE.match(s) and s.split()[0] not in ("node", "edge", "graph"):
            m = NODE.match(s)
            label = re.search(r'label=("(?:[^"]*)"|\w+)', m.group(2))
            nodes.append((m.group(1), tuple(stack), label.group(1).strip('"')))
    return nodes, edges


def check_graphs(ex, n, max_label=20):
    """All directed graphs on n nodes, given node by node and edge by edge."""
    names = ["alpha", "b.c", "a_rather_long_name_for_a_node"][:n]
    types = ["EWMA", "Dense", "Buffer"]
    pairs = list(itertools.product(range(n), repeat=2))
    for edges in itertools.product([None, "", "lab"], repeat=len(pairs)) if n < 3 else itertools.product([None, "lab"], repeat=len(pairs)):
        for shapes in (True, False):
            es = [(names[i], names[j], lab) for (i, j), lab in zip(pairs, edges) if lab is not None]
            case = f"{es},{shapes}"
            for fmt in ("dot", "html"):
                r = ComputationGraphRenderer(output_format=fmt, include_shapes=shapes)
                for k, name in enumerate(names):
                    r.add_node(PipelineNode(id=name, name=name, module_type=types[k], input_shapes={"x": (k + 2, 7)} if k else {}))
                for a, b, lab in es:
                    r.add_edge(PipelineEdge(source=a, target=b, label=lab))
                text = r.render()
                if fmt == "dot":
                    nodes, got = parse_dot(text)
                    ok = [x[0] for x in nodes] == names and all(lab.startswith(name[:20]) and f"({t})" in lab for (_, _, lab), name, t in zip(nodes, names, types))
                    ok = ok and all((f"x: {(k + 2, 7)}" in lab) == (shapes and k > 0) for k, (_, _, lab) in enumerate(nodes))
                    ok = ok and all(len(lab.split("\\n")[0]) <= 23 for _, _, lab in nodes)
                else:
                    got = [(a, b, lab) for a, b, lab in re.findall(r'class="edge">(\S+) → (\S+?)(?: \[(\w+)\])?</div>', text)]
                    ok = re.findall(r"ID: (\S+)", text) == names and f"Nodes ({n})" in text and f"Edges ({len(es)})" in text
                ex.check(ok and got == es, f"{case} {fmt}", f"{text[-1500:]}, expected {es}")
            ex.explored(1, len(es) + n, 1)
            ex.outcome(repr(len(es)))


class Transform:
    def __init__(self, params, state, how):
        self.params, self.state, self.how = params, state, how
        self.__name__ = "the_function"

    def init(self, rng, x, *more):
        if self.how == "pair":
            return self.params, self.state
        if self.how == "raises":
            raise ValueError("no")
        return {"params": self.params, "state": self.state}

    def apply(self, *a):
        raise AssertionError("the function is not run")


PARTS = [
    {"EWMA_0": {"logcom": np.zeros(())}},
    {"EWMA_1": {"alpha": 0.5}},
    {"Dense_0": {"kernel": np.zeros((2, 3)), "bias": np.zeros(3)}},
    {"Buffer_0": {"maxlen": 4}},
    {"wrap": {"Dense_1": {"kernel": np.zeros((1, 1))}}},
    {"outer": {"inner": {"EWMA_2": {"alpha": 0.5}}, "Dense_2": {"kernel": np.zeros(2)}}},
]
FOUND = [
    [("EWMA_0", "EWMA_0", "EWMA", "ewma")],
    [("EWMA_1", "EWMA_1", "EWMA", "ewma")],
    [("Dense_0", "Dense_0", "Dense", "unknown")],
    [("Buffer_0", "Buffer_0", "Buffer", "buffer")],
    [("wrap.Dense_1", "Dense_1", "Dense", "unknown")],
    [("outer.inner.EWMA_2", "EWMA_2", "EWMA", "ewma"), ("outer.Dense_2", "Dense_2", "Dense", "unknown")],
]
MAIN = ("main", "the_function", "StreamingFunction", "function")


def check_transforms(ex, how):
    """All subsets of modules: one node for each of them and one for the function."""
    for bits in itertools.product([False, True], repeat=len(PARTS)):
        params = {k: v for b, p in zip(bits, PARTS) if b for k, v in p.items()}
        want = [x for b, f in zip(bits, FOUND) if b for x in f] + [MAIN]
        if how in ("raises", "plain"):
            want = [("main", "the_function", "Function", "function")]
        fn = Transform(params, {}, how)
        if how == "plain":

            def fn(x):
                raise AssertionError("the function is not run")

            fn.__name__ = "the_function"
        for x, shape in ((np.zeros((4, 2)), (4, 2)), ([1.0, 2.0], (2,))):
            case = f"{how},{bits},{shape}"
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = ComputationGraphRenderer(output_format="dot").analyze_streaming_function(fn, x)
                dot = render_pipeline_graph(fn, x, format="dot")
            got = [(i, n.name, n.module_type) for i, n in r.nodes.items()]
            ex.check(sorted(got) == sorted(w[:3] for w in want), case, f"{got}, expected {want}")
            ex.check(r.nodes["main"].input_shapes == {"input": shape}, case + " shape", r.nodes["main"].input_shapes)
            ex.check(sorted(p[0] for p in parse_dot(dot)[0]) == sorted(w[0] for w in want), case + " dot", dot)
            for auto, least in ((True, 2), (True, 3), (False, 2)):
                cfg = NestedGraphConfig(auto_cluster=auto, cluster_min_nodes=least)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    an = HierarchicalGraphAnalyzer(cfg)
                    h = an.analyze_streaming_function(fn, x)
                    h = an.analyze_streaming_function(fn, x)  # as the first time
                    summary = NestedGraphVisualizer(cfg).get_hierarchy_summary(fn, x)
                groups = {}
                for w in want:
                    groups.setdefault(w[3], []).append(w[0])
                clusters = {k: v for k, v in groups.items() if auto and len(v) >= least}
                real = {i: n for i, n in h.items() if n.node_type != "cluster"}
                made = {n.properties["cluster_type"]: sorted(n.children) for n in h.values() if n.node_type == "cluster"}
                ok = {i: n.node_type for i, n in real.items()} == {w[0]: w[3] for w in want} and made == {k: sorted(v) for k, v in clusters.items()}
                levels = {w[0]: int(w[3] in clusters) for w in want}
                ok = ok and all(real[i].level == lv for i, lv in levels.items()) and all(n.level == 0 and n.parent is None for n in h.values() if n.node_type == "cluster")
                ok = ok and all((real[w[0]].parent is None) if w[3] not in clusters else (w[0] in h[real[w[0]].parent].children) for w in want)
                ex.check(ok, f"{case},{auto},{least} hierarchy", f"{h}, expected {want}")
                top = max(levels.values())
                per = {lv: n for lv, n in {0: sum(v == 0 for v in levels.values()) + len(clusters), 1: sum(v == 1 for v in levels.values())}.items() if n}
                kinds = {k: len(v) for k, v in groups.items()} | ({"cluster": len(clusters)} if clusters else {})
                ok = summary["total_nodes"] == len(want) + len(clusters) and summary["max_hierarchy_level"] == top and dict(summary["nodes_per_level"]) == per and dict(summary["node_types"]) == kinds
                ex.check(ok and an.get_max_level() == top, f"{case},{auto},{least} summary", f"{ {k: v for k, v in summary.items() if k != 'hierarchy'} }")
            ex.explored(1, len(want), 1)
            ex.outcome(repr(sorted(got)))


def embedded(text, accept):
    """First JSON value of a text which is accepted."""
    dec = json.JSONDecoder()
    for m in re.finditer(r"[\[{]", text):
        try:
            v, _ = dec.raw_decode(text, m.start())
        except ValueError:
            continue
        if accept(v):
            return v
    return None


def check_hierarchies(ex, n):
    """All forests on n nodes, in all the renderers."""
    ids = [f"n{k}" for k in range(n)]
    for parents in itertools.product(*[range(-1, k) for k in range(n)]):
        for order in itertools.permutations(range(n)) if n <= 3 else [tuple(range(n)), tuple(reversed(range(n)))]:
            level = []
            for p in parents:
                level.append(0 if p < 0 else level[p] + 1)
            nodes = [GraphHierarchy(ids[k], f"name{k}", "ewma" if k % 2 else "module", level[k], None if parents[k] < 0 else ids[parents[k]]) for k in range(n)]
            for k, p in enumerate(parents):
                if p >= 0:
                    nodes[p].add_child(ids[k])
                    nodes[p].add_child(ids[k])  # once
            h = {ids[k]: nodes[k] for k in order}
            case = f"{parents},{order}"
            edges = sorted((ids[p], ids[k]) for k, p in enumerate(parents) if p >= 0)
            ex.check(all(nodes[k].is_leaf() == (k not in parents) for k in range(n)), case, "leaves")
            dot = GraphvizNestedRenderer().render_hierarchical_graph(h)
            got, ge = parse_dot(dot)

            def path(k):
                up = () if parents[k] < 0 else path(parents[k])
                return (*up, f"cluster_{ids[k]}") if k in parents else up

            want = sorted((ids[k], path(k), f"name{k}") for k in range(n))
            ex.check(sorted(got) == want and sorted(e[:2] for e in ge) == edges, case + " graphviz", f"{dot}, expected {want} {edges}")
            v = embedded(D3NestedRenderer().render_d3_graph(h), lambda v: isinstance(v, dict) and "nodes" in v and "links" in v)
            ok = v and [(x["id"], x["name"], x["type"], x["level"]) for x in v["nodes"]] == [(nodes[k].node_id, nodes[k].name, nodes[k].node_type, level[k]) for k in order]
            ex.check(ok and sorted((x["source"], x["target"]) for x in v["links"]) == edges, case + " d3", v)
            v = embedded(CytoscapeNestedRenderer().render_interactive_graph(h), lambda v: isinstance(v, list) and v and isinstance(v[0], dict) and "data" in v[0])
            ds = [x["data"] for x in v or []]
            got = [(x["id"], x["label"], x["type"], x["level"], x.get("parent")) for x in ds if "source" not in x]
            ok = got == [(nodes[k].node_id, nodes[k].name, nodes[k].node_type, level[k], nodes[k].parent) for k in order]
            es = [x for x in ds if "source" in x]
            ok = ok and sorted((x["source"], x["target"]) for x in es) == edges and len({x["id"] for x in ds}) == len(ds)
            ex.check(ok, case + " cytoscape", v)
            ex.explored(1, n, 1)
            ex.outcome(repr(edges))


def tasks(tier):
    th = tier == "thorough"
    res = [Task("plot", check_plot, dict(T=4 if th else 2)), Task("limits", check_limits)]
    for op in TOPS:
        for history, off in [(2, ()), (3, ("input", "state"))] + ([(4, ("gradient",))] if th else []):
            res.append(Task(f"tracker:{history},{off}:{op}", check_tracker, dict(depth=5 if th else 4, history=history, off=off, first=op)))
    for op in BOPS:
        for alerts in (True, False):
            res.append(Task(f"dashboard:{alerts}:{op}", check_dashboard, dict(depth=5 if th else 4, alerts=alerts, first=op)))
    res += [Task(f"graphs:{n}", check_graphs, dict(n=n)) for n in (1, 2, 3)]
    res += [Task(f"transforms:{how}", check_transforms, dict(how=how)) for how in ("pair", "dict", "raises", "plain")]
    res += [Task(f"hierarchies:{n}", check_hierarchies, dict(n=n)) for n in range(1, 7 if th else 6)]
    return res
