"""
Independent reference model of what SLAT computes (numpy/scipy quadrature).

Objects are plain tuples/dicts (see gen.py); nothing here uses SLAT.
"""
import os
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
import numpy as np
from scipy.special import ndtr, ndtri

# --- lognormal distributions: (mu_ln, sigma_ln)


def dist(kind, a, b):
    if kind == 'muln_sdln':
        return (a, b)
    if kind == 'median_sdln':
        return (np.log(a) if a > 0 else -np.inf, b)
    if kind == 'mean_sdln':
        return (np.log(a) - b * b / 2 if a > 0 else -np.inf, b)
    if kind == 'mean_sd':
        if a == 0:
            return (-np.inf, 0.0)
        s = np.sqrt(np.log1p((b / a) ** 2))
        return (np.log(a) - s * s / 2, s)
    raise ValueError(kind)


def mean(d):
    return 0.0 if d[0] == -np.inf else float(np.exp(d[0] + d[1] ** 2 / 2))


def sd(d):
    return 0.0 if d[0] == -np.inf else mean(d) * float(np.sqrt(np.expm1(d[1] ** 2)))


def from_moments(m, var):
    return dist('mean_sd', m, np.sqrt(max(var, 0.0)))


def cdf(d, x):
    x = np.asarray(x, float)
    with np.errstate(divide='ignore', invalid='ignore'):
        if d[0] == -np.inf:
            return np.ones_like(x)
        r = ndtr((np.log(np.maximum(x, 1e-300)) - d[0]) / d[1])
        return np.where(x > 0, r, 0.0)


def add(ds):
    return from_moments(sum(mean(d) for d in ds), sum(sd(d) ** 2 for d in ds))


def mix(ds, ws):
    m = sum(w * mean(d) for d, w in zip(ds, ws))
    e2 = sum(w * (mean(d) ** 2 + sd(d) ** 2) for d, w in zip(ds, ws))
    return from_moments(m, e2 - m * m)


def scale(d, f):
    return dist('mean_sdln', f * mean(d), d[1])


# --- deterministic functions

def val(f, x):
    x = np.asarray(x, float)
    t = f[0]
    with np.errstate(all='ignore'):
        if t == 'nlh':
            v, im, a = f[1:4]
            return np.where(x >= im, 0.0, np.where(x <= 0, v, v * np.exp(a / np.log(np.minimum(np.maximum(x, 1e-300) / im, 1 - 1e-16)))))
        if t == 'pow':
            return f[1] * np.power(x, f[2])
        xs, ys = np.asarray(f[1]), np.asarray(f[2])
        if t == 'lin':
            return np.interp(x, xs, ys)
        if t == 'loglog':
            return np.exp(np.interp(np.log(np.clip(x, xs[0], xs[-1])), np.log(xs), np.log(ys)))
    raise ValueError(t)


def deriv(f, x):
    x = np.asarray(x, float)
    t = f[0]
    with np.errstate(all='ignore'):
        if t == 'nlh':
            v, im, a = f[1:4]
            xx = np.minimum(np.maximum(x, 1e-300), im * (1 - 1e-13))
            l = np.log(xx / im)
            return np.where((x >= im) | (x <= 0), 0.0, v * np.exp(a / l) * (-a) / (xx * l * l))
        if t == 'pow':
            return f[1] * f[2] * np.power(x, f[2] - 1)
        xs, ys = np.asarray(f[1]), np.asarray(f[2])
        i = np.clip(np.searchsorted(xs, x, side='right') - 1, 0, len(xs) - 2)
        if t == 'lin':
            s = (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i])
        else:
            b = (np.log(ys[i + 1]) - np.log(ys[i])) / (np.log(xs[i + 1]) - np.log(xs[i]))
            s = b * val(f, x) / x
        return np.where((x < xs[0]) | (x > xs[-1]), 0.0, s)


def knots(f):
    if f[0] in ('lin', 'loglog'):
        return list(f[1])
    if f[0] == 'nlh':
        return [f[2]]
    return []


# --- probabilistic functions: (mtype, stype, mu_fn, sd_fn)

def params(p, x):
    """(mu_ln, sigma_ln) arrays at x"""
    mt, st, f, g = p
    m, s = val(f, x), val(g, x)
    with np.errstate(all='ignore'):
        if st == 'sd_ln':
            sg = s
            if mt == 'mean_ln':
                mu = m
            elif mt == 'median':
                mu = np.log(m)
            else:
                mu = np.log(m) - sg ** 2 / 2
        else:
            if mt == 'mean':
                sg = np.sqrt(np.log1p((s / m) ** 2))
                mu = np.log(m) - sg ** 2 / 2
            else:
                mu = m if mt == 'mean_ln' else np.log(m)
                r = s / np.exp(mu)
                sg = np.sqrt(np.log((1 + np.sqrt(1 + 4 * r * r)) / 2))
    return mu, sg


def edp_params(e, im):
    ps = e['probs']
    mu, sg = params(ps[0], im)
    if len(ps) == 2:
        mu2, sg2 = params(ps[1], im)
        first = np.exp(mu + sg ** 2 / 2) > np.exp(mu2 + sg2 ** 2 / 2)
        mu, sg = np.where(first, mu, mu2), np.where(first, sg, sg2)
    return mu, sg


# --- quadrature

_gx, _gw = np.polynomial.legendre.leggauss(10)


def nodes(breaks):
    """Composite Gauss-Legendre between the breaks"""
    b = np.unique(np.asarray(breaks, float))
    h = np.diff(b) / 2
    c = (b[1:] + b[:-1]) / 2
    return (c[:, None] + h[:, None] * _gx[None, :]).ravel(), (h[:, None] * _gw[None, :]).ravel()


def im_nodes(im, extra=(), lo=1e-9, hi=1e6, panels=220):
    """Nodes, and weights * |d lambda/d im|"""
    ks = [k for k in list(knots(im['det'])) + list(extra) if lo < k < hi]
    top = min([hi] + [f[2] for f in [im['det']] if f[0] == 'nlh'])
    br = list(np.linspace(np.log(lo), np.log(top), panels)) + [np.log(k) for k in ks if k <= top]
    if im['det'][0] == 'nlh':
        # essential singularity at im_asy: refine
        br += [np.log(top) - 10.0 ** -k for k in range(0, 8)]
    u, w = nodes([b for b in br if b <= np.log(top)])
    x = np.exp(u)
    return x, w * x * np.abs(deriv(im['det'], x))


_z, _zw = nodes(np.linspace(-9, 9, 61))
_phi = np.exp(-_z * _z / 2) / np.sqrt(2 * np.pi) * _zw


def total(x, v):
    """Sum of the contributions; infinite if much of it comes from intensities so
    low that the models don't mean anything (so it is that of the lower limit)"""
    t = float(np.sum(v))
    low = float(np.sum(np.where(x < 1e-6, v, 0)))
    return t if abs(low) <= 1e-4 * abs(t) else np.inf


def fates(im, x):
    """repair, demolition, collapse"""
    c = cdf(im['collapse'], x) if im.get('collapse') else np.zeros_like(np.asarray(x, float))
    d = np.maximum(cdf(im['demolition'], x) - c, 0) if im.get('demolition') else np.zeros_like(c)
    return 1 - c - d, d, c


def coll_rate(im):
    if not im.get('collapse'):
        return 0.0
    x, w = im_nodes(im)
    return total(x, w * fates(im, x)[2])


def dem_rate(im):
    if not im.get('demolition'):
        return 0.0
    x, w = im_nodes(im)
    return total(x, w * fates(im, x)[1])


def edp_knots(e):
    return [k for p in e['probs'] for f in p[2:4] for k in knots(f)]


def edp_lambda(e, y):
    im = e['im']
    x, w = im_nodes(im, edp_knots(e))
    mu, sg = edp_params(e, x)
    with np.errstate(all='ignore'):
        p = 1 - ndtr((np.log(y) - mu) / sg) if y > 0 else np.ones_like(x)
        p = ndtr(-(np.log(y) - mu) / sg) if y > 0 else p
    r = fates(im, x)[0]
    return total(x, w * (p * r + 1 - r))


# --- fragility and loss

def p_exceeded(fr, edp):
    return np.array([cdf(d, edp) for d in fr])


def p_highest(fr, edp):
    p = p_exceeded(fr, edp)
    q = p.copy()
    q[:-1] = np.maximum(p[:-1] - p[1:], 0)
    return q


def loss_dists(l, count):
    if l[0] == 's':
        return l[1]
    out = []
    for lo, hi, cl, ch, s in l[1]:
        m = cl if count <= lo else ch if count >= hi else cl + (count - lo) / (hi - lo) * (ch - cl)
        out.append(dist('mean_sdln', m, s))
    return out


def loss(l, probs, count, adj):
    return scale(scale(mix(loss_dists(l, count), probs), count), adj)


def loss_moments(l, fr, count, adj, edp):
    """E and E^2 of group loss, given an array of edp"""
    ph = p_highest(fr, edp)
    ds = loss_dists(l, count)
    m = np.array([mean(d) for d in ds])
    s = np.array([sd(d) for d in ds])
    e = np.tensordot(m, ph, 1)
    e2 = np.tensordot(m * m + s * s, ph, 1)
    e2 = e * e + np.abs(e2 - e * e)
    f = count * adj
    return e * f, e2 * f * f


def group_im(cg, x, which='cost'):
    """(mean, E[loss^2]) of a group's loss at an array of im"""
    x = np.atleast_1d(np.asarray(x, float))
    l = cg['cost'] if which == 'cost' else cg['delay']
    adj = cg['ca'] if which == 'cost' else cg['da']
    mu, sg = edp_params(cg['edp'], x)
    with np.errstate(all='ignore'):
        edp = np.exp(np.clip(mu[:, None] + sg[:, None] * _z[None, :], -600, 600))
    e, e2 = loss_moments(l, cg['frag'], cg['count'], adj, edp)
    return np.sum(e * _phi, axis=1), np.sum(e2 * _phi, axis=1)


def group_dist(cg, x, which='cost'):
    """Mean and sd_ln at one im"""
    e, e2 = group_im(cg, [x], which)
    return sdln(float(e[0]), float(e2[0]))


def sdln(e, e2):
    if e == 0:
        return 0.0, 0.0
    return e, float(np.sqrt(np.log1p(max(e2 - e * e, 0.0) / (e * e))))


def cg_knots(cg):
    return edp_knots(cg['edp'])


def group_annual(cg):
    x, w = im_nodes(cg['edp']['im'], cg_knots(cg))
    e, _ = group_im(cg, x)
    return total(x, w * e)


def group_lambda(cg, c):
    x, w = im_nodes(cg['edp']['im'], cg_knots(cg))
    e, e2 = group_im(cg, x)
    with np.errstate(all='ignore'):
        s = np.sqrt(np.log1p(np.maximum(e2 - e * e, 0) / (e * e)))
        mu = np.log(e) - s * s / 2
        p = ndtr(-(np.log(c) - mu) / s)
    p = np.where((e > 0) & np.isfinite(p), p, 0.0)
    return total(x, w * p)


def group_pds(cg, x):
    x = np.atleast_1d(np.asarray(x, float))
    mu, sg = edp_params(cg['edp'], x)
    with np.errstate(all='ignore'):
        edp = np.exp(np.clip(mu[:, None] + sg[:, None] * _z[None, :], -600, 600))
    return np.sum(p_exceeded(cg['frag'], edp) * _phi[None, None, :], axis=2)


def group_rate(cg):
    x, w = im_nodes(cg['edp']['im'], cg_knots(cg))
    return np.array([total(x, p * w) for p in group_pds(cg, x)])


# --- structures

def struct_nc(st, x):
    """(mean, variance) of the repair cost at an array of im"""
    x = np.atleast_1d(np.asarray(x, float))
    m, v = np.zeros_like(x), np.zeros_like(x)
    for cg in st['cgs']:
        e, e2 = group_im(cg, x)
        m += e
        v += np.maximum(e2 - e * e, 0)
    return m, v


def struct_total(st, x):
    """(mean, variance) considering fates"""
    x = np.atleast_1d(np.asarray(x, float))
    m, v = struct_nc(st, x)
    im = st['im']
    r, d, c = fates(im, x)
    e = m * r
    e2 = (m * m + v) * r
    if st.get('demol'):
        e = e + np.where(d > 0, mean(st['demol']) * d, 0)
        e2 = e2 + np.where(d > 0, (mean(st['demol']) ** 2 + sd(st['demol']) ** 2) * d, 0)
    if st.get('rebuild'):
        e = e + np.where(c > 0, mean(st['rebuild']) * c, 0)
        e2 = e2 + np.where(c > 0, (mean(st['rebuild']) ** 2 + sd(st['rebuild']) ** 2) * c, 0)
    return e, e2


def struct_annual(st):
    """(mean, sd) of the annual cost"""
    extra = [k for cg in st['cgs'] for k in cg_knots(cg)]
    x, w = im_nodes(st['im'], extra)
    e, e2 = struct_total(st, x)
    mu, b = total(x, w * e), total(x, w * e2)
    return mu, float(np.sqrt(abs(b - mu * mu))) if np.isfinite(b) else np.inf
