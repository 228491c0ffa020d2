"""Certificates of optimality.  They are untrusted: the specification verifies them."""


def hungarian(c):
    """Potentials u, v with u[i] + v[j] <= c[i][j] and maximum sum; c is a square matrix."""
    n = len(c)
    inf = float("inf")
    u, v, p = [0] * (n + 1), [0] * (n + 1), [0] * (n + 1)
    for i in range(1, n + 1):
        p[0], j0 = i, 0
        minv, used, way = [inf] * (n + 1), [False] * (n + 1), [0] * (n + 1)
        while True:
            used[j0] = True
            i0, delta, j1 = p[j0], inf, 0
            for j in range(1, n + 1):
                if not used[j]:
                    cur = c[i0 - 1][j - 1] - u[i0] - v[j]
                    if cur < minv[j]:
                        minv[j], way[j] = cur, j0
                    if minv[j] < delta:
                        delta, j1 = minv[j], j
            for j in range(n + 1):
                if used[j]:
                    u[p[j]] += delta
                    v[j] -= delta
                else:
                    minv[j] -= delta
            j0 = j1
            if p[j0] == 0:
                break
        while j0:
            j1 = way[j0]
            p[j0] = p[j1]
            j0 = j1
    return u[1:], v[1:]


def dist(p, q):
    return max(abs(p[0] - q[0]), abs(p[1] - q[1]))


def half(p):
    return abs(p[1] - p[0]) // 2


def potentials(A, B, p):
    n, m = len(A), len(B)
    if not n or not m:
        return [half(a) ** p for a in A], [half(b) ** p for b in B]
    d1, d2 = [half(a) ** p for a in A], [half(b) ** p for b in B]
    N = n + m
    c = [[0] * N for _ in range(N)]
    for i in range(n):
        for j in range(m):
            c[i][j] = min(0, dist(A[i], B[j]) ** p - d1[i] - d2[j])
    u, v = hungarian(c)
    s, r = max(v[m:]), max(u[n:])
    return [d1[i] + u[i] + s for i in range(n)], [d2[j] + v[j] + r for j in range(m)]


def saturate(need, adj):
    """Matches all points in need; returns (matching, None) or (None, violating set)."""
    mate = {}

    def augment(i, seen):
        for j in adj[i]:
            if j not in seen:
                seen.add(j)
                if j not in mate or augment(mate[j], seen):
                    mate[j] = i
                    return True
        return False
    for i in need:
        seen = set()
        if not augment(i, seen):
            return None, sorted({i} | {mate[j] for j in seen})
    return mate, None


def feasible(A, B, ok):
    """Partial matching in which every unmatched point is allowed on the diagonal, or a blocked set."""
    n, m = len(A), len(B)
    N = n + m
    adj = {i: [] for i in range(N)}
    for i in range(n):
        adj[i] = [j for j in range(m) if ok(dist(A[i], B[j]))]
        if ok(half(A[i])):
            adj[i].append(m + i)
    for j in range(m):
        adj[n + j] = ([j] if ok(half(B[j])) else []) + list(range(m, N))
    mate, bad = saturate(range(N), adj)
    if mate is not None:
        return [[i + 1, j + 1] for j, i in mate.items() if i < n and j < m]
    return None


def bottleneck(A, B):
    values = sorted({0} | {half(p) for p in A + B} | {dist(p, q) for p in A for q in B})
    lo, hi = 0, len(values) - 1
    while lo < hi:
        mid = (lo + hi) // 2
        if feasible(A, B, lambda x: x <= values[mid]) is not None:
            hi = mid
        else:
            lo = mid + 1
    v = values[lo]
    M = feasible(A, B, lambda x: x <= v)

    def blocked(P, Q):
        need = [i for i in range(len(P)) if half(P[i]) >= v]
        adj = {i: [j for j in range(len(Q)) if dist(P[i], Q[j]) < v] for i in need}
        return [i + 1 for i in (saturate(need, adj)[1] or [])]
    return {"v": v, "M": M, "SA": blocked(A, B) if v else [], "SB": blocked(B, A) if v else []}
