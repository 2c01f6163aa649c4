"""Reference model of the call-graph output and comparison with what the tool
printed.  Only semantics are compared: node numbering, edge order, duplicate
edges and white space in the types of fictitious nodes are free."""
import itertools
import re

import dot as D


class Mismatch(Exception):
    pass


def is_q(n):
    return n.name == "?" and n.local is None


def algebra(nodes, succ, local):
    """-> {node: (kind, value)}; nodes: iterable, local[n]: int or None"""
    order, comp = tarjan(nodes, succ)
    res = {}
    for scc in order:  # callees first
        cyc = len(scc) > 1 or scc[0] in succ[scc[0]]
        out = [res[m] for n in scc for m in succ[n] if comp[m] is not comp[n] and comp[m] != comp[n]]
        exact = all(k == "=" for k, _ in out)
        best = max([v for _, v in out], default=0)
        loc = max((local[n] or 0) for n in scc)
        known = all(local[n] is not None for n in scc)
        if cyc and loc != 0:
            exact = False
        if not known:
            exact = False
        for n in scc:
            res[n] = ("=" if exact else ">=", best + loc)
    return res, [s for s in order if len(s) > 1 or s[0] in succ[s[0]]]


def tarjan(nodes, succ):
    index, low, onstack, stack = {}, {}, set(), []
    out, comp = [], {}
    cnt = [0]
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(succ[root]))]
        index[root] = low[root] = cnt[0]
        cnt[0] += 1
        stack.append(root)
        onstack.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    stack.append(w)
                    onstack.add(w)
                    work.append((w, iter(succ[w])))
                    adv = True
                    break
                elif w in onstack:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == index[v]:
                scc = []
                while True:
                    w = stack.pop()
                    onstack.discard(w)
                    scc.append(w)
                    if w == v:
                        break
                for w in scc:
                    comp[w] = len(out)
                out.append(scc)
    return out, comp


def self_consistent(g, info=True):
    """max values and clusters of the printed graph against its own locals/edges"""
    bad = []
    succ = g.succ()
    local = {i: n.local for i, n in g.nodes.items()}
    if all(n.max is None for n in g.nodes.values()):
        if info and g.nodes and any(n.local not in (None,) and not n.dashed for n in g.nodes.values()):
            bad.append(("max", "no maximum is shown although stack sizes are known"))
        return bad
    res, cycles = algebra(list(g.nodes), succ, local)
    looped = {i for c in cycles for i in c}
    for i, n in g.nodes.items():
        k, v = res[i]
        if (n.maxkind, n.max) != (k, v):
            bad.append(("max", f"node {n.name!r}: shown `max {n.maxkind} {n.max}`, its edges give `max {k} {v}`"))
            if i in looped:
                bad.append(("cycle-max", f"node {n.name!r} of a cycle: shown `max {n.maxkind} {n.max}`, the cycle's is `max {k} {v}`"))
    want = {frozenset(c) for c in cycles}
    got = [frozenset(c) for _, c in g.clusters]
    if set(got) != want or len(got) != len(want):
        bad.append(("cycles", f"clusters {sorted(map(sorted, got))} but the cycles are {sorted(map(sorted, want))}"))
    for _, c in g.clusters:
        if len(c) != len(set(c)):
            bad.append(("cycles", "a node is listed twice in a cluster"))
    return bad


def plain(ty):
    """the name of a type, up to white space and quotes"""
    return re.sub(r'[\s"]', "", ty)


def compare(prog, exp, g, expect_max=True):
    """-> list of (category, text)"""
    groups = {}
    for k, (label, _) in exp.nodes.items():
        groups.setdefault(label, []).append(k)
    dups = [(l, ks) for l, ks in groups.items() if len(ks) > 1]
    if not dups:
        return compare_(prog, exp, g, expect_max, {})
    # several functions share one name: any assignment that fits is fine
    best = None
    perms = []
    for label, ks in dups:
        ns = [n for n in g.nodes.values() if n.name == label and not n.dashed]
        if len(ns) != len(ks):
            return [("nodes", f"{len(ns)} nodes named {label!r}, but the binary has {len(ks)} functions of that name")]
        perms.append([dict(zip(ks, p)) for p in itertools.permutations(ns)])
    for combo in itertools.product(*perms):
        a = {}
        for d in combo:
            a.update(d)
        bad = compare_(prog, exp, g, expect_max, a)
        if not bad:
            return bad
        if best is None or len(bad) < len(best):
            best = bad
    return best


def compare_(prog, exp, g, expect_max, fixed):
    bad = []
    by = {}
    for n in g.nodes.values():
        if n.dashed or is_q(n):
            continue
        by.setdefault(n.name, []).append(n)
    key2node = {}
    node2key = {}
    for k, (label, local) in exp.nodes.items():
        c = [fixed[k]] if k in fixed else by.pop(label, [])
        if k in fixed:
            by.pop(label, None)
        if len(c) != 1:
            # aliases: any of the names of the function is an acceptable label
            alts = set()
            f = prog.fns[k]
            for nm in f.names:
                alts |= {nm.dem, nm.dehashed}
            alts |= set(f.notypes)
            hits = [by.pop(a)[0] for a in alts if a in by and len(by[a]) == 1] if len(c) == 0 else []
            if len(hits) == 1:
                # which alias names the node is free, except that hashes must not
                # be cut off in a way that makes two nodes look alike
                if len(f.names) == 1 and k not in exp.free_label:
                    bad.append(("label", f"function {f.names[0].sym} is shown as {hits[0].name!r}, expected {label!r}"))
                c = hits
            else:
                bad.append(("nodes", f"{len(c) or len(hits)} nodes for function {label!r} ({f.names[0].sym}), expected one"))
                continue
        key2node[k] = c[0]
        node2key[c[0].id] = k
        if c[0].local != local:
            bad.append(("local", f"{label!r}: local = {c[0].local}, expected {local}"))
            if c[0].local is not None and (local is None or c[0].local < local):
                bad.append(("local-under", f"{label!r}: local = {c[0].local}, but its frame has {local} bytes"))
    undef_labels = {u for s in exp.undef.values() for u in s}
    undef_labels |= {exp.undef_alt[u] for u in list(undef_labels) if u in exp.undef_alt}
    undef_ids = {}
    for name, c in by.items():
        if name in undef_labels:
            for n in c:
                undef_ids[n.id] = name
                if n.local is not None:
                    bad.append(("local", f"undefined symbol {name!r} has local = {n.local}"))
            if len(c) > 1:
                bad.append(("nodes", f"undefined symbol {name!r} has {len(c)} nodes"))
        else:
            bad.append(("nodes", f"unexpected node(s) {c}"))
    succ = g.succ()
    for k, node in key2node.items():
        lab = exp.nodes[k][0]
        d, u, ind, q, qi = set(), set(), set(), False, False
        for t in succ[node.id]:
            tn = g.nodes[t]
            if t in node2key:
                d.add(node2key[t])
            elif t in undef_ids:
                u.add(undef_ids[t])
            elif is_q(tn):
                q = True
            elif tn.dashed:
                if tn.local != 0:
                    bad.append(("local", f"fictitious node {tn.name!r} has local = {tn.local}"))
                for t2 in succ[t]:
                    if t2 in node2key:
                        ind.add(node2key[t2])
                    elif is_q(g.nodes[t2]):
                        qi = True
                    else:
                        bad.append(("ind-extra", f"fictitious node {tn.name!r} calls {g.nodes[t2].name!r}"))
        names = lambda s: sorted(exp.nodes[x][0] if x in exp.nodes else str(x) for x in s)
        ed = exp.direct[k]
        if ed - d:
            bad.append(("edge-missing", f"{lab!r} calls {names(ed - d)} but there is no such edge"))
        if d - ed:
            bad.append(("edge-extra", f"{lab!r} -> {names(d - ed)}: no such call exists"))
        eu = exp.undef.get(k, set())
        u2 = {next((a for a, b in exp.undef_alt.items() if b == x), x) for x in u}
        if u2 != eu:
            bad.append(("edge-missing" if eu - u2 else "edge-extra", f"{lab!r}: undefined callees {sorted(u2)}, expected {sorted(eu)}"))
            bad.append(("unknown-missing" if eu - u2 else "unknown-extra", f"{lab!r}: callees outside of the program {sorted(u2)}, expected {sorted(eu)}"))
        want = set().union(*exp.ind.get(k, {}).values()) if exp.ind.get(k) else set()
        if want - ind:
            bad.append(("ind-missing", f"{lab!r} makes indirect calls {sorted(exp.sigs[k])} but these matching functions are not linked: {names(want - ind)}"))
        if ind - want:
            bad.append(("ind-extra", f"{lab!r} with indirect calls {sorted(exp.sigs[k])} is linked to non-matching {names(ind - want)}"))
        wantq = k in exp.q
        if wantq and not q:
            bad.append(("unknown-missing", f"{lab!r} performs an indirect branch in machine code without type information, but no `?` callee is shown"))
        if q and not wantq:
            bad.append(("unknown-extra", f"{lab!r} has a `?` callee without reason"))
        types = sorted(plain(g.nodes[t].name) for t in set(succ[node.id]) if g.nodes[t].dashed and not is_q(g.nodes[t]))
        want = sorted(plain(f"{r}({','.join(a)})*") for r, a in exp.sigs[k])
        if types != want and not (want and not types):
            bad.append(("type", f"{lab!r} makes indirect calls of the types {want} but is shown to call {types}"))
        if exp.sigs[k]:
            unmatched = any(not s for s in exp.ind[k].values())
            needq = exp.untyped or unmatched
            if needq and not qi and not q:
                why = "untyped functions exist" if exp.untyped else "no function has that signature"
                if exp.untyped:
                    bad.append(("ind-unknown", f"{lab!r}: indirect call {sorted(exp.sigs[k])} does not lead to the functions of unknown type"))
                bad.append(("unknown-missing", f"{lab!r}: indirect call {sorted(exp.sigs[k])} could reach anything ({why}), but no `?` is shown"))
            if qi and not needq:
                bad.append(("unknown-extra", f"{lab!r}: indirect calls are bounded but a `?` callee is shown"))
        elif qi:
            bad.append(("unknown-extra", f"{lab!r} has no indirect call"))
    if expect_max and not any(c in ("nodes",) for c, _ in bad):
        bad += model_max(exp, key2node)
    return bad


def model_max(exp, key2node):
    succ, local = {}, {}
    for k, (lab, loc) in exp.nodes.items():
        s = set(exp.direct[k])
        for u in exp.undef.get(k, ()):
            s.add(("u", u))
            succ[("u", u)] = set()
            local[("u", u)] = None
        if k in exp.q:
            s.add("?")
        for sig, callees in exp.ind.get(k, {}).items():
            n = ("i", sig)
            s.add(n)
            succ[n] = set(callees)
            if exp.untyped or not callees:
                succ[n].add("?")
            local[n] = 0
        succ[k] = s
        local[k] = loc
    succ["?"] = set()
    local["?"] = None
    if all(l is None for l in (local[k] for k in exp.nodes)):
        return []
    res, cycles = algebra(list(succ), succ, local)
    looped = {i for c in cycles for i in c}
    bad = []
    for k, n in key2node.items():
        if (n.maxkind, n.max) != res[k]:
            if n.max is None:
                continue
            if n.maxkind == "=" and res[k][0] == ">=":
                bad.append(("claimed-exact", f"{exp.nodes[k][0]!r}: `max = {n.max}` is shown as exact, but the program has `max >= {res[k][1]}`"))
            if n.max < res[k][1]:
                bad.append(("under", f"{exp.nodes[k][0]!r}: `max {n.maxkind} {n.max}`, but {res[k][1]} bytes are certain"))
            if n.maxkind == "=" and (res[k][0] == ">=" or n.max < res[k][1]):
                bad.append(("exceeded", f"{exp.nodes[k][0]!r}: `max = {n.max}`, but executions can use {res[k][1]} bytes{' and more' * (res[k][0] == '>=')}"))
            if k in looped:
                bad.append(("cycle-max", f"{exp.nodes[k][0]!r} of a cycle: `max {n.maxkind} {n.max}`, the program has `max {res[k][0]} {res[k][1]}`"))
            bad.append(("model-max", f"{exp.nodes[k][0]!r}: `max {n.maxkind} {n.max}`, the program has `max {res[k][0]} {res[k][1]}`"))
    return bad


def canon(g):
    """the graph up to the numbering and order of its nodes and edges"""
    succ, pred = g.succ(), {i: set() for i in g.nodes}
    for a, s in succ.items():
        for b in s:
            pred[b].add(a)
    clus = {}
    for k, (_, c) in enumerate(g.clusters):
        for x in c:
            clus[x] = k
    col = {i: repr((n.label, n.dashed, i in clus)) for i, n in g.nodes.items()}
    for _ in range(4):
        col = {i: str(hash((col[i], tuple(sorted(col[j] for j in succ[i])), tuple(sorted(col[j] for j in pred[i])))))
               for i in g.nodes}
    return (sorted((repr(g.nodes[i].label), g.nodes[i].dashed, col[i]) for i in g.nodes),
            sorted((col[a], col[b]) for a in succ for b in succ[a]),
            sorted(sorted(col[x] for x in c) for _, c in g.clusters))


def diff(a, b):
    x, y = sorted(n.label for n in a.nodes.values()), sorted(n.label for n in b.nodes.values())
    if x != y:
        return f"only one has {[v for v in x if v not in y][:2]}, only the other {[v for v in y if v not in x][:2]}"
    ea = sorted((a.nodes[i].name, a.nodes[j].name) for i, j in set(a.edges))
    eb = sorted((b.nodes[i].name, b.nodes[j].name) for i, j in set(b.edges))
    return f"edges {[v for v in ea if v not in eb][:2]} vs {[v for v in eb if v not in ea][:2]}"
