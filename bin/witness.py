#!/usr/bin/env python3-vt
"""stdin: {"alg","n","es","ret"} -> stdout: {"k":..,"d":..} witness against an answer (untrusted; TLC verifies it)."""
import itertools, json, sys
import networkx as nx

r = json.load(sys.stdin)
n, es, alg, ret = r["n"], r["es"], r["alg"], r["ret"]
G = nx.Graph()
G.add_nodes_from(range(1, n + 1))
G.add_edges_from(map(tuple, es))


def rotation(emb, drop=None):
    out = []
    for v in range(1, n + 1):
        out.append([w for w in emb.neighbors_cw_order(v) if w != drop])
    return out


def has(alg, H):
    """does H contain one of the obstructions (brute force through minors of small pieces)"""
    if alg in "pd":
        return not nx.check_planarity(H)[0]
    if alg == "o":
        A = H.copy()
        A.add_edges_from((0, v) for v in H.nodes)
        return not nx.check_planarity(A)[0]
    return False


out = {"k": "none"}
if ret == -1 and alg in "pd":
    ok, emb = nx.check_planarity(G)
    if ok:
        out = {"k": "rot", "d": rotation(emb)}
elif ret == -1 and alg == "o":
    A = G.copy()
    A.add_edges_from((0, v) for v in G.nodes)
    ok, emb = nx.check_planarity(A)
    if ok:
        out = {"k": "rot", "d": rotation(emb, 0)}
elif ret == 1 and alg in "pdo" and has(alg, G):
    H = G.copy()
    for e in list(H.edges):
        H.remove_edge(*e)
        if not has(alg, H):
            H.add_edge(*e)
    out = {"k": "sub", "d": [list(e) for e in H.edges]}
print(json.dumps(out))
