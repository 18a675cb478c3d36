"""Executable reference model: one time step of each problem kind, written from the published weak
forms with plain P1 finite elements on the mesh's triangles (tetrahedra).  Shares no code with conmech; takes
nodes and elements (public mesh data), the JSON spec, and the previous state; returns the next."""

import itertools

import numpy as np

import models as M


class Fem:
    def __init__(self, nodes, elements, spec, density=None):
        """``density``: stiffness factor of each element."""
        self.x, self.tri, self.spec = nodes, np.array(elements), spec
        n, dim = nodes.shape
        self.n, self.dim, size = n, dim, dim + 1
        self.K = np.zeros((dim, dim, n, n))  # int d_a phi_i d_b phi_j
        self.U = np.zeros((n, n))            # int phi_i phi_j
        self.G = np.zeros((dim, n, n))       # int phi_i d_a phi_j
        self.load = np.zeros((n, n))         # nodal quadrature of body forces
        faces = {}
        for k, t in enumerate(self.tri):
            rho = 1.0 if density is None else density[k]
            p = nodes[t]
            volume = abs(np.linalg.det(p[1:] - p[0])) / (2 if dim == 2 else 6)
            grad = np.linalg.inv(np.hstack([np.ones((size, 1)), p]))[1:]  # (dim, size)
            for i in range(size):
                for j in range(size):
                    for a in range(dim):
                        self.G[a, t[i], t[j]] += volume / size * grad[a, j]
                        for b in range(dim):
                            self.K[a, b, t[i], t[j]] += rho * volume * grad[a, i] * grad[b, j]
                    self.U[t[i], t[j]] += volume * (2 if i == j else 1) / (size * (size + 1))
                    if i != j:
                        self.load[t[i], t[j]] += volume / (size * dim)
                face = tuple(sorted(int(t[j]) for j in range(size) if j != i))
                faces.setdefault(face, []).append(t[i])
        mesh = spec["mesh"]
        contact, dirichlet = M.side(spec["contact"], mesh), M.side(spec["dirichlet"], mesh)
        self.surface = np.zeros(n)
        self.contact = []  # (nodes of a face, its measure, outward normal)
        listed = []  # the same with the signs of the normals that known finding K2 can give
        bnodes = set()
        border = sorted(f for f, o in faces.items() if len(o) == 1)
        for f in border:
            bnodes |= set(f)
            p = nodes[list(f)]
            mid = p.mean(axis=0)
            if dim == 2:
                tan = p[1] - p[0]
                cross, measure = np.array([tan[1], -tan[0]]), float(np.linalg.norm(tan))
            else:
                cross = np.cross(p[1] - p[0], p[2] - p[0])
                measure = float(np.linalg.norm(cross)) / 2
            if contact(mid):
                nrm = cross / np.linalg.norm(cross)
                if nrm @ (nodes[faces[f][0]] - mid) > 0:
                    nrm = -nrm
                other = faces[border[len(self.contact)]][0]
                side = nrm @ (nodes[other] - p[0])
                # at a node of the surface itself the sign is that of a rounding error
                listed.append((1.0, 0.0, -1.0) if abs(side) < 1e-9 else (-np.sign(side),))
                self.contact.append((f, measure, nrm))
            elif not dirichlet(mid):
                self.surface[list(f)] += measure / dim
        self.contact_listed = [
            [(f, m, sign * nrm) for (f, m, nrm), sign in zip(self.contact, signs)]
            for signs in itertools.islice(itertools.product(*listed), 81)]
        self.soft, self.seen, self.flat = False, None, False  # known findings K3 and K4, see step()
        self.bnodes = sorted(bnodes)
        self.dir = [i for i in self.bnodes if dirichlet(nodes[i])]
        self.dval = M.prescribed(spec, nodes[self.dir])
        ends = {i for c in self.contact for i in c[0]}
        self.pdir, self.pval = [], np.zeros(0)
        if spec["kind"] == "piezo":
            for part in spec["piezo_parts"]:
                pd = M.side(part[0], mesh)
                ids = sorted({i for f in border if pd(nodes[list(f)].mean(axis=0)) for i in f})
                self.pdir += ids
                self.pval = np.concatenate([self.pval, M.piezo_value(part, nodes[ids])])
        self.corner = bool(ends & (set(self.dir) | set(self.pdir)))

    # ------------------------------------------------------------------ operators
    def elastic(self, mu, la):
        K, d = self.K, range(self.dim)
        shear = mu * sum(K[c, c] for c in d)
        return np.block([[la * K[a, b] + mu * K[b, a] + (shear if a == b else 0.0) for b in d]
                         for a in d])

    def relax(self, c):
        K = self.K
        return np.block([
            [c[0][0][0] * K[0, 0] + c[0][1][1] * K[1, 1], c[0][1][0] * K[1, 0] + c[0][0][1] * K[0, 1]],
            [c[1][1][0] * K[1, 0] + c[1][0][1] * K[0, 1], c[1][0][0] * K[0, 0] + c[1][1][1] * K[1, 1]]])

    def piezo(self, c):
        K = self.K
        a11 = c[0][0][0] * K[0, 0] + c[0][1][1] * K[1, 1]
        a12 = c[0][1][0] * K[1, 0] + c[0][0][1] * K[0, 1]
        a21 = c[1][1][0] * K[1, 0] + c[1][0][1] * K[0, 1]
        a22 = c[1][0][0] * K[0, 0] + c[1][1][1] * K[1, 1]
        return np.hstack([a11 + a12, a22 + a21])

    def tensor(self, c):
        return sum(c[a][b] * self.K[a, b] for a in range(2) for b in range(2))

    def mass2(self):
        Z = np.zeros_like(self.U)
        return np.block([[self.U, Z], [Z, self.U]])

    def forces(self, t, dim):
        s = self.spec
        inner = np.array([M.force_value(s["inner"], dim, p, t) for p in self.x])
        outer = np.array([M.force_value(s["outer"], dim, p, t) for p in self.x])
        return (self.load @ inner + self.surface[:, None] * outer).T.ravel()

    # ------------------------------------------------------------------ solving
    def terms(self, law, dim, u, dt, lumped=False):
        """Convex contact energy as a list of (row, test, weight, offset, one-sided):
        its gradient is sum weight * test * f(row . x + offset), f = max(., 0) or identity."""
        out, n = [], self.n
        if law in (None, "none"):
            return out
        if law == "slope_i":
            for j in range(n):
                r = np.zeros(dim * n)
                r[j] = 1.0
                out.append((r, r, 0.5 * self.U[:, j].sum() * 8.0, 0.5 * u[j] + 0.1 * dt, True))
            return out
        for ids, measure, nrm in self.contact:
            if self.flat:
                measure = float(np.linalg.norm((self.x[ids[0]] - self.x[ids[1]])[:2]))
            mean = np.array([np.mean([u[i + d * n] for i in ids]) for d in range(dim)])
            for w in [[(i, 1.0)] for i in ids] + [[(i, 1.0 / len(ids)) for i in ids]]:
                rows = np.zeros((dim, dim * n))  # value of each component at the point
                for k, c in w:
                    for d in range(dim):
                        rows[d, k + d * n] += c
                r = nrm @ rows if dim > 1 else rows[0]
                test = r
                if lumped:
                    test = np.zeros(dim * n)
                    for k in ids:
                        for d in range(dim):
                            test[k + d * n] = 0.5 * nrm[d]
                q = measure / (len(ids) + 1)
                if law == "heat":
                    out.append((r, test, q * 0.1, 0.0, False))
                elif law in ("slope", "slope2"):
                    out.append((r, test, q * {"slope": 10.0, "slope2": 25.0}[law], 0.0, True))
                elif law == "rich":
                    s = float(mean @ nrm)
                    out.append((r, test, q * 1.5 * 10.0, 2 * s + 0.05 * dt, True))
                    tau = mean - s * nrm
                    for d in range(dim):
                        rt = rows[d] - nrm[d] * r
                        out.append((rt, rt, q * (1 + 400 * s * s) * 3.0, tau[d], False))
                else:
                    raise ValueError(law)
        return out

    def solve(self, A, b, dim, fixed, value, terms=()):
        """Zero of A x - b + sum of contact terms, x = value on fixed nodes; semismooth Newton."""
        n = self.n
        dofs = np.array([i + k * n for k in range(dim) for i in fixed], dtype=int)
        free = np.setdiff1d(np.arange(dim * n), dofs)
        x = np.zeros(dim * n)
        x[dofs] = np.tile(value, dim)
        if self.soft and len(terms):
            b = b - A[:, dofs] @ x[dofs]
            b[dofs] = x[dofs]
            A = A.copy()
            A[:, dofs] = 0.0
            A[dofs, :] = 0.0
            A[dofs, dofs] = 1.0
            self.soft = False
            try:
                out = self.solve(A, b, dim, [], np.zeros(0), terms)
            finally:
                self.soft = True
            out[dofs] = x[dofs]
            return out
        R = np.array([t[0] for t in terms]).reshape(-1, dim * n)
        T = np.array([t[1] for t in terms]).reshape(-1, dim * n)
        W = np.array([t[2] for t in terms])
        O = np.array([t[3] for t in terms])
        one = np.array([t[4] for t in terms], dtype=bool)
        active = ~one
        for _ in range(80):
            TW = T[active].T * W[active]
            H = A + TW @ R[active]
            c = b - TW @ O[active]
            x[free] = np.linalg.solve(
                H[np.ix_(free, free)], c[free] - H[np.ix_(free, dofs)] @ x[dofs])
            new = (R @ x + O > 0) | ~one
            if np.array_equal(new, active):
                return x
            active = new
        raise RuntimeError("HARNESS: reference model did not converge")

    def potential(self, C, b, heat):
        if self.seen is None:
            return self.solve(C, b, 1, self.pdir, self.pval, heat)
        seen = self.seen.copy()
        seen[self.pdir] = self.pval
        terms = []
        for r, _, w, o, one in heat:
            mine = r.copy()
            mine[self.dir] = 0.0
            terms.append((mine, mine, w, o + r[self.dir] @ seen[self.dir], one))
        self.soft = True
        try:
            return self.solve(C, b, 1, self.pdir, self.pval, terms)
        finally:
            self.soft = False

    def solve_linear(self, A, b, fixed, value):
        return self.solve(A, b, 1, fixed, value)


def law_of(spec):
    if spec["kind"] == "wave_interior":
        return spec["law"]
    return "none" if spec["contact"] == "none" else spec["law"]


def initial(spec, nodes):
    vec = "wave" if spec["kind"].startswith("wave") else "vec"
    out = {"time": 0.0, "displacement": M.init_value(spec["u0"], vec, nodes),
           "velocity": np.zeros_like(nodes), "absement": np.zeros_like(nodes)}
    if spec["kind"] == "relaxation":
        out["absement"] = M.init_value(spec["b0"], vec, nodes)
    else:
        out["velocity"] = M.init_value(spec["v0"], vec, nodes)
    if spec["kind"] == "temperature":
        out["temperature"] = M.init_value(spec["s0"], "scalar", nodes)
    if spec["kind"] == "piezo":
        out["electric_potential"] = M.init_value(spec["s0"], "scalar", nodes)
    return out


def step(fem, spec, prev, frozen=False, listed=None, corner=None, flat=False):
    """Acceptable next states (a list: coupled kinds stop their iteration at some count).
    ``listed``: the index of one of ``fem.contact_listed``; ``frozen``, ``corner``, ``flat``: all as known findings K1-K4 describe, not as it should be
    ("soft": a contact law sees the Dirichlet nodes its surfaces end in as unknowns of unit stiffness;
    "potential": it sees velocity in place of the electric potential there)."""
    contact = fem.contact
    try:
        fem.soft, fem.flat = corner == "soft", flat
        if corner == "potential":
            fem.seen = np.array(prev["velocity"])[:, 0]
        if listed is not None:
            fem.contact = fem.contact_listed[listed]
        return _step(fem, spec, prev, frozen)
    finally:
        fem.contact, fem.soft, fem.seen, fem.flat = contact, False, None, False


def _step(fem, spec, prev, frozen):
    kind, n = spec["kind"], fem.n
    flat = lambda a: np.asarray(a).T.ravel()
    unflat = lambda v: v.reshape(fem.dim, -1).T
    dval = fem.dval
    t, dt = prev["time"], spec["dt"]
    if kind in ("poisson", "poisson3d"):
        K = sum(fem.K[a, a] for a in range(fem.dim))
        return [{"temperature": fem.solve_linear(K, fem.forces(0.0, 1), fem.dir, dval)}]
    u, v = flat(prev["displacement"]), flat(prev["velocity"])
    one = kind.startswith("wave")
    still = kind in ("static", "static3d")
    terms = fem.terms(law_of(spec), 1 if one else fem.dim, u, 0.0 if still else dt,
                      lumped=spec["method"] == "direct")
    E = fem.elastic(spec["mu"], spec["la"])
    if still:
        x = fem.solve(E, fem.forces(0.0, fem.dim), fem.dim, fem.dir, dval, terms)
        return [{"displacement": unflat(x)}]
    if frozen:
        u, v, t = 0 * u, 0 * v, 0.0
    if one:
        K = spec["propagation"] ** 2 * (fem.K[0, 0] + fem.K[1, 1])
        b = fem.forces(t, 1) - K @ u[:n] + fem.U @ v[:n] / dt
        w = fem.solve(fem.U / dt + K * dt, b, 1, fem.dir, dval, terms)
        vel = np.stack([w, np.zeros(n)], axis=1)
        return [{"velocity": vel, "displacement": prev["displacement"] + dt * vel}]
    if kind == "relaxation":
        c = M.relaxation_value(spec["relaxation"], t)
        R = fem.relax(c)
        b = fem.forces(t, 2) - R @ flat(prev["absement"])
        x = unflat(fem.solve(E + R * dt, b, 2, fem.dir, dval, terms))
        return [{"displacement": x, "absement": prev["absement"] + dt * x}]
    V = fem.elastic(spec["th"], spec["ze"])
    if kind == "quasistatic":
        x = unflat(fem.solve(V + dt * E, fem.forces(t, 2) - E @ u, 2, fem.dir, dval, terms))
        return [{"velocity": x, "displacement": prev["displacement"] + dt * x}]
    Mm = fem.mass2()
    if kind == "dynamic":
        x = unflat(fem.solve(V + Mm / dt + dt * E, fem.forces(t, 2) - E @ u + Mm @ v / dt, 2,
                             fem.dir, dval, terms))
        return [{"velocity": x, "displacement": prev["displacement"] + dt * x}]
    out = []
    heat = fem.terms("heat", 1, u, dt)
    if kind == "temperature":
        th = np.array(spec["expansion"])
        X = np.hstack([th[0, 0] * fem.G[0] + th[0, 1] * fem.G[1],
                       th[1, 0] * fem.G[0] + th[1, 1] * fem.G[1]])
        C = fem.tensor(np.array(spec["conductivity"]))
        A = V + Mm / dt + dt * E
        b0 = fem.forces(t + dt, 2) - E @ u + Mm @ v / dt
        T0 = prev["temperature"]
        T = T0
        for k in range(10):
            x = fem.solve(A, b0 + X.T @ T, 2, fem.dir, dval, terms)
            T = fem.solve(fem.U / dt + C, fem.U @ T0 / dt - X @ x, 1, fem.dir, dval, heat)
            if k >= 4:
                xv = unflat(x)
                out.append({"velocity": xv, "displacement": prev["displacement"] + dt * xv,
                            "temperature": T})
        return out
    if kind == "piezo":
        P = fem.piezo(np.array(spec["piezo_t"]))
        C = fem.tensor(np.array(spec["permittivity"]))
        A = V + dt * E
        b0 = fem.forces(t + dt, 2) - E @ u
        p = prev["electric_potential"]
        for k in range(10):
            x = fem.solve(A, b0 - P.T @ p, 2, fem.dir, dval, terms)
            p = fem.potential(C, P @ (u + dt * x), heat)
            if k >= 4:
                xv = unflat(x)
                out.append({"velocity": xv, "displacement": prev["displacement"] + dt * xv,
                            "electric_potential": p})
        return out
    raise ValueError(kind)
