"""vocabulary shared by the contracts: index layouts, geometry of connected faces, physical fluxes"""
import itertools
from fractions import Fraction as F
from vc import expr as X
from vc.contract import g_sqrt, g_abs, g_max, g_min, g_lt, g_ite, g_fn

HEAT = F(7, 5)
GM1 = F(2, 5)


def fnum(x, like):
    """a rational constant in the arithmetic of `like`"""
    return float(x) if isinstance(like, float) else x


def var(n, w='r'):
    return X.var(n, w)


def fvars(prefix, n):
    return [X.var('%s_%d' % (prefix, i)) for i in range(n)]


def dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = r + x * y
    return r


def total(it):
    r = 0
    for x in it:
        r = r + x
    return r


def norm(a):
    return g_sqrt(dot(a, a))


# ---- faces.  A face perpendicular to axis d carries its quadrature points in row-major order over the remaining axes.
def face_points(nd, rs, d):
    """list of dicts axis -> node index"""
    axes = [a for a in range(nd) if a != d]
    return [dict(zip(axes, t)) for t in itertools.product(range(rs), repeat=nd - 1)]


def face_index(nd, rs, d, pt):
    axes = [a for a in range(nd) if a != d]
    i = 0
    for a in axes:
        i = i * rs + pt[a]
    return i


def legal_directions(nd, deformed):
    """orientations in which two right-handed elements can share a face"""
    out = []
    for i0 in range(nd):
        for i1 in range(nd):
            for s0 in (0, 1):
                for s1 in (0, 1):
                    if i0 == i1 and s0 == s1:
                        continue
                    if not deformed and not (i0 == i1 and s0 == 1 and s1 == 0):
                        continue
                    out.append((i0, i1, s0, s1))
    return out


def match_point(nd, rs, dr, pt):
    """the point of face 1 that coincides with point `pt` of face 0.

    Element 1's axes seen from element 0: the outward normal of 0 is the inward normal of 1, the two normal axes trade places,
    any third axis is kept, and the map preserves handedness (both elements have positive Jacobian)."""
    i0, i1, s0, s1 = dr
    q = {}
    sg0, sg1 = 2 * s0 - 1, 2 * s1 - 1
    for a in range(nd):
        if a == i1:
            continue
        if a == i0:
            # axis i0 of element 1 is axis i1 of element 0, with the sign that makes the determinant positive:
            # det = -( -sg0*sg1 ) * t = 1
            t = sg0 * sg1
            v = pt[i1]
            q[a] = v if t > 0 else rs - 1 - v
        else:
            q[a] = pt[a]
    return q


def point_map(nd, rs, dr):
    """index of the face-0 point -> index of the matching face-1 point"""
    return [face_index(nd, rs, dr[1], match_point(nd, rs, dr, p)) for p in face_points(nd, rs, dr[0])]


# ---- Navier-Stokes: conserved state m[nd], rho, E
def pressure(u, nd):
    return GM1 * (u[nd + 1] - dot(u[:nd], u[:nd]) / u[nd] / 2) if not isinstance(u[nd], float) else .4 * (u[nd + 1] - .5 * dot(u[:nd], u[:nd]) / u[nd])


def euler_flux(u, n, nd):
    """physical flux through area vector n"""
    p = pressure(u, nd)
    vn = dot(u[:nd], n) / u[nd]
    return [u[i] * vn + p * n[i] for i in range(nd)] + [u[nd] * vn, (u[nd + 1] + p) * vn]


def euler_speed(u, nd):
    """signal speed bound: |v| + sqrt(gamma (gamma-1) E/rho)"""
    return g_sqrt(fnum(HEAT * GM1, u[nd]) * u[nd + 1] / u[nd]) + norm(u[:nd]) / u[nd]


def pos_state_sample(rng, nd):
    rho = rng.uniform(.5, 2)
    m = [rng.uniform(-1, 1) for _ in range(nd)]
    return m + [rho, sum(x * x for x in m) / rho * .5 + rng.uniform(.5, 3)]


# ---- Gauss-Legendre nodes of the advection directions, as the code sees them
def legendre_nodes(n):
    import numpy
    x, w = numpy.polynomial.legendre.leggauss(n)
    return [float(v) for v in x], [float(v) for v in w]


# ---- trusted contract of the Gauss-Legendre helper object used by the advection equation: nodes() is the vector of its nodes
def gl_contracts(h):
    from vc.exec import Ptr, UNDEF
    from vc.exec import VCError

    def ctor(ex, st, a):
        ex.store(st, Ptr(a[0].o, a[0].off + 8), 4, 'i', a[1])
        return None

    def nodes(ex, st, a):
        n = ex.load(st, Ptr(a[1].o, a[1].off + 8), 4, 'i')
        d = st.new(8 * n, 'heap nodes', 'heap')
        for i in range(n):
            ex.store(st, Ptr(d.o, 8 * i), 8, 'd', X.var('glnode_%d' % i))
        ex.store(st, a[0], 8, 'p', d)
        ex.store(st, Ptr(a[0].o, a[0].off + 8), 8, 'i', n)
        return None

    def nop(ex, st, a):
        return None
    return {'_ZN5hexed14Gauss_legendreC1Ei': ctor, '_ZN5hexed5BasisC2Ei': ctor, '_ZN5hexed5BasisC1Ei': ctor, '_ZNK5hexed5Basis5nodesEv': nodes,
            '_ZN5hexed5BasisD2Ev': nop, '_ZN5hexed5BasisD1Ev': nop, '_ZN5hexed5BasisD0Ev': nop}


def glnode(i, V, n):
    """node i of the n-point Gauss-Legendre rule on [0, 1]"""
    if V.extra.get('native'):
        return (legendre_nodes(n)[0][i] + 1) / 2
    return X.var('glnode_%d' % i)
