"""C11: level structures and peripheral nodes: all labelled graphs up to a size, all roots."""
import itertools

import networkx as nx
import numpy as np
import scipy.sparse as sp

from ..core import Violation
from sigmaepsilon.math.graph import Graph, pseudo_peripheral_nodes, rooted_level_structure
from sigmaepsilon.math.linalg import csr_matrix


def bfs(nb, root):
    """levels as a list of sorted lists"""
    seen = {root}
    levels = [[root]]
    while True:
        new = sorted({y for x in levels[-1] for y in nb[x]} - seen)
        if not new:
            return levels
        seen.update(new)
        levels.append(new)


def check_rls(ctx, got, nb, root, what):
    ctx.step()
    L = bfs(nb, root)
    keys = sorted(int(k) for k in got.keys())
    if keys != list(range(len(L))):
        raise Violation(f"{what}: levels {keys} from root {root}, expected {len(L)} levels; neighbours {nb}")
    for k in keys:
        g = np.asarray(got[k]).tolist()
        if sorted(g) != L[k]:
            raise Violation(f"{what}: level {k} from root {root} is {g}, not {L[k]}; neighbours {nb}")


def check_ppn(ctx, got, nb, what):
    ctx.step()
    g = [int(x) for x in np.asarray(got)]
    if not g or any(not 0 <= x < len(nb) for x in g):
        raise Violation(f"{what}: returned {g}; neighbours {nb}")
    r = g[-1]
    L0 = bfs(nb, 0)
    if r not in {x for l in L0 for x in l}:
        raise Violation(f"{what}: root {r} is not in the component of the start; neighbours {nb}")
    L = bfs(nb, r)
    if sorted(g[:-1]) != L[-1]:
        raise Violation(f"{what}: {g[:-1]} is not the last level {L[-1]} of the structure rooted at {r}; neighbours {nb}")
    if len(L) < len(L0):
        raise Violation(f"{what}: depth {len(L)} from {r} is less than the depth {len(L0)} from the start; neighbours {nb}")
    for x in L[-1]:  # nothing farther is seen from there
        if len(bfs(nb, x)) > len(L):
            raise Violation(f"{what}: depth {len(L)} from {r}, but {len(bfs(nb, x))} from {x} of its last level; neighbours {nb}")
    ctx.outcome(f"depth {len(L)}" if len(L) < 8 else "deeper")


def neighbours(n, edges):
    nb = [set() for _ in range(n)]
    for a, b in edges:
        nb[a].add(b)
        nb[b].add(a)
    return [sorted(s) for s in nb]


def to_csr(n, edges, loops=()):
    A = np.zeros((n, n))
    for a, b in edges:
        A[a, b] = A[b, a] = 1
    for a in loops:
        A[a, a] = 1
    return sp.csr_matrix(A)


def check_graph(ctx, n, edges, loops=(), roots=None, what="graph"):
    nb = neighbours(n, list(edges) + [(a, a) for a in loops])
    S = to_csr(n, edges, loops)
    m = csr_matrix(S)
    before = (m.data.copy(), m.indices.copy(), m.indptr.copy())
    for r in range(n) if roots is None else roots:
        check_rls(ctx, rooted_level_structure(m, r), nb, r, what)
    check_ppn(ctx, pseudo_peripheral_nodes(m), nb, what)
    if not all(np.array_equal(a, b) for a, b in zip(before, (m.data, m.indices, m.indptr))):
        raise Violation(f"{what}: the adjacency matrix was changed; neighbours {nb}")
    ctx.trace()


def k_all(ctx, p):
    """all labelled graphs on n nodes (a range of edge masks), every root"""
    n = p["n"]
    pairs = list(itertools.combinations(range(n), 2))
    for mask in range(p["lo"], p["hi"]):
        ctx.beat()
        E = [e for k, e in enumerate(pairs) if mask >> k & 1]
        check_graph(ctx, n, E)
        if p.get("loops"):
            for lm in range(1, 2**n):
                check_graph(ctx, n, E, [k for k in range(n) if lm >> k & 1], what="graph with loops")
        ctx.state((n, mask))


def k_class(ctx, p):
    """the Graph class: same answers, same graph, indices in the order of the nodes"""
    n = p["n"]
    pairs = list(itertools.combinations(range(n), 2))
    names = p["names"]
    for mask in range(p["lo"], p["hi"]):
        ctx.beat()
        E = [e for k, e in enumerate(pairs) if mask >> k & 1]
        nb = neighbours(n, E)
        for how in ("edges", "nx", "build"):
            lab = [tuple(x) if isinstance(x, list) else x for x in names]
            if how == "edges":
                G = Graph([(lab[a], lab[b]) for a, b in E])
                G.add_nodes_from(lab)
            elif how == "nx":
                H = nx.Graph()
                H.add_nodes_from(lab)
                H.add_edges_from([(lab[b], lab[a]) for a, b in reversed(E)])
                G = Graph(H)
            else:
                G = Graph()
                for x in reversed(lab):
                    G.add_node(x)
                for a, b in E:
                    G.add_edge(lab[a], lab[b])
            order = list(G.nodes)
            pos = {x: i for i, x in enumerate(order)}
            nbG = neighbours(n, [(pos[lab[a]], pos[lab[b]]) for a, b in E])
            D = np.zeros((n, n))
            for i, s in enumerate(nbG):
                D[i, s] = 1
            A = G.adjacency_matrix()
            if not np.array_equal(np.asarray(A.todense()), D):
                raise Violation(f"adjacency matrix of {how} graph with edges {E} is {A.todense().tolist()}")
            C = G.adjacency_matrix(to_csr=True)
            if not isinstance(C, csr_matrix) or not np.array_equal(C.to_numpy(), D):
                raise Violation(f"adjacency csr_matrix of {how} graph with edges {E} is {C}")
            P = [order[-1]] + order[:-1]
            A = G.adjacency_matrix(nodelist=P)
            perm = [pos[x] for x in P]
            if not np.array_equal(np.asarray(A.todense()), D[np.ix_(perm, perm)]):
                raise Violation(f"adjacency matrix in the node order {P} of edges {E} is {A.todense().tolist()}")
            for i in range(n):
                if sorted(C.irow(i).tolist()) != nbG[i]:
                    raise Violation(f"row {i} of the adjacency of edges {E} lists {C.irow(i).tolist()}")
                check_rls(ctx, G.rooted_level_structure(i), nbG, i, f"Graph from {how}")
                check_rls(ctx, rooted_level_structure(C, i), nbG, i, f"adjacency of Graph from {how}")
            check_rls(ctx, G.rooted_level_structure(), nbG, 0, f"Graph from {how}")
            check_ppn(ctx, G.pseudo_peripheral_nodes(), nbG, f"Graph from {how}")
            if list(G.nodes) != order or G.number_of_edges() != len(E):
                raise Violation(f"the graph with edges {E} was changed by asking")
            ctx.state((how, mask, str(names)))
        ctx.trace()


def k_weights(ctx, p):
    """weights of edges are in the adjacency matrix and of no influence on the levels"""
    n = p["n"]
    pairs = list(itertools.combinations(range(n), 2))
    for mask in range(p["lo"], p["hi"]):
        E = [e for k, e in enumerate(pairs) if mask >> k & 1]
        nb = neighbours(n, E)
        for W in p["weights"]:
            G = Graph()
            G.add_nodes_from(range(n))
            D = np.zeros((n, n))
            for k, (a, b) in enumerate(E):
                w = W[k % len(W)]
                G.add_edge(a, b, weight=w)
                D[a, b] = D[b, a] = w
            A = G.adjacency_matrix()
            if not np.array_equal(np.asarray(A.todense()), D):
                raise Violation(f"adjacency matrix of the edges {E} with weights {W} is {A.todense().tolist()}")
            C = G.adjacency_matrix(to_csr=True)
            if not np.array_equal(C.to_numpy(), D):
                raise Violation(f"adjacency csr_matrix of the edges {E} with weights {W} is {C.to_numpy().tolist()}")
            U = np.asarray(G.adjacency_matrix(weight=None).todense())
            if not np.array_equal(U, (D != 0).astype(float)):
                raise Violation(f"adjacency matrix without weights of the edges {E} is {U.tolist()}")
            for r in range(n):
                check_rls(ctx, G.rooted_level_structure(r), nb, r, f"edges {E} with weights {W}")
                check_rls(ctx, rooted_level_structure(C, r), nb, r, f"edges {E} with weights {W}")
            check_ppn(ctx, G.pseudo_peripheral_nodes(), nb, f"edges {E} with weights {W}")
            ctx.state((n, mask, str(W)))
        ctx.trace()


def k_edit(ctx, p):
    """answers follow the current graph through a history of edits"""
    n = p["n"]
    G = Graph()
    G.add_nodes_from(range(n))
    E = set()
    for a, b in p["seq"]:
        e = (min(a, b), max(a, b))
        if e in E:
            E.remove(e)
            G.remove_edge(a, b)
        else:
            E.add(e)
            G.add_edge(a, b)
        nb = neighbours(n, sorted(E))
        D = np.zeros((n, n))
        for i, s in enumerate(nb):
            D[i, s] = 1
        if not np.array_equal(G.adjacency_matrix(to_csr=True).to_numpy(), D):
            raise Violation(f"adjacency after the edits {p['seq']}")
        for r in range(n):
            check_rls(ctx, G.rooted_level_structure(r), nb, r, f"after the edits {p['seq']}")
        check_ppn(ctx, G.pseudo_peripheral_nodes(), nb, f"after the edits {p['seq']}")
        ctx.state(str(sorted(E)))
    ctx.deeper(len(p["seq"]))
    ctx.trace()


def family(name, n):
    if name == "path":
        return n, [(i, i + 1) for i in range(n - 1)]
    if name == "midpath":  # a path numbered from the middle
        order = sorted(range(n), key=lambda i: abs(i - n // 2))
        at = {x: k for k, x in enumerate(order)}
        return n, [(at[i], at[i + 1]) for i in range(n - 1)]
    if name == "cycle":
        return n, [(i, (i + 1) % n) for i in range(n)]
    if name == "star":
        return n, [(0, i) for i in range(1, n)]
    if name == "starlast":
        return n, [(n - 1, i) for i in range(n - 1)]
    if name == "complete":
        return n, list(itertools.combinations(range(n), 2))
    if name == "grid":
        k = max(2, int(n**0.5))
        return k * k, [(i * k + j, i * k + j + 1) for i in range(k) for j in range(k - 1)] + [(i * k + j, i * k + k + j) for i in range(k - 1) for j in range(k)]
    if name == "tree":
        return n, [(i, (i - 1) // 2) for i in range(1, n)]
    if name == "broom":
        return n, [(i, i + 1) for i in range(n // 2)] + [(n // 2, j) for j in range(n // 2 + 1, n)]
    if name == "twopaths":
        h = n // 2
        return n, [(i, i + 1) for i in range(h - 1)] + [(i, i + 1) for i in range(h, n - 1)]
    if name == "scatter":
        return n, [(i, (i * 7 + 3) % n) for i in range(n) if i != (i * 7 + 3) % n]
    if name == "empty":
        return n, []
    raise KeyError(name)


def k_family(ctx, p):
    n, E = family(p["name"], p["n"])
    mul = p["mul"]
    if np.gcd(mul, n) == 1:
        E = [((a * mul) % n, (b * mul) % n) for a, b in E]
    E = sorted({(min(a, b), max(a, b)) for a, b in E})
    check_graph(ctx, n, E, roots=sorted({0, 1 % n, n // 2, n - 1}), what=f"{p['name']} {n}")
    ctx.state((p["name"], n, mul))


KINDS = {"weights": k_weights, "all": k_all, "class": k_class, "edit": k_edit, "family": k_family}


def cases(tier):
    th = tier == "thorough"
    for n in (1, 2, 3, 4, 5) + ((6, 7) if th else (6,)):
        T = 2 ** (n * (n - 1) // 2)
        for lo in range(0, T, 512):
            yield "all", dict(n=n, lo=lo, hi=min(T, lo + 512), loops=1 if n <= (4 if th else 3) else 0)
    for names in ([0, 1, 2, 3], [3, 1, 7, 5], ["d", "a", "c", "b"], [[0, 1], [1, 0], [0, 0], [1, 1]]):
        for n in (2, 3, 4):
            T = 2 ** (n * (n - 1) // 2)
            for lo in range(0, T, 16):
                yield "class", dict(n=n, names=names[:n], lo=lo, hi=min(T, lo + 16))
    for n in (2, 3, 4) + ((5,) if th else ()):
        T = 2 ** (n * (n - 1) // 2)
        for lo in range(0, T, 16):
            yield "weights", dict(n=n, lo=lo, hi=min(T, lo + 16), weights=[[0.5], [2.5, -1.0, 0.25], [3, 7], [-2, 1e-9]])
    pairs = list(itertools.combinations(range(4), 2))
    for seq in itertools.product(pairs, repeat=4 if th else 3):
        yield "edit", dict(n=4, seq=[list(x) for x in seq])
    for name in ("path", "midpath", "cycle", "star", "starlast", "complete", "grid", "tree", "broom", "twopaths", "scatter", "empty"):
        for n in (7, 8, 16, 33, 64, 65, 100, 300, 1100) + ((128, 257, 500, 5000) if th else ()):
            if name == "complete" and n > 300:
                continue
            for mul in (1, 3, 7):
                yield "family", dict(name=name, n=n, mul=mul)
