"""finite differences of the 2D renderer against its gradients, on small scenes"""
import numpy as np
from deodr import differentiable_renderer_cython as drc
from deodr.differentiable_renderer import Scene2D


def scene(seed=0, n=2, H=14, W=17, C=3, textured=None, edges=True, clockwise=True, strict=True, integer=True, th=5, tw=7, shared=False, **kw):
    r = np.random.default_rng(seed)
    ij, faces, uv = [], [], []
    for k in range(n):
        while True:
            t = r.uniform(-2, 1, (3, 2)) * 0 + r.uniform(-2.3, 3.1, (3, 2)) + np.array([[W, H]]) * r.uniform(0, 1, (3, 2))
            a, b = t[1] - t[0], t[2] - t[0]
            s = a[0] * b[1] - a[1] * b[0]
            if abs(s) > 25:
                break
        if (s < 0) == clockwise:
            t = t[::-1]
        ij.append(t)
        faces.append([3 * k, 3 * k + 1, 3 * k + 2])
        uv.append(r.uniform(0.2, min(th, tw) - 0.2, (3, 2)))
    ij = np.concatenate(ij)
    m = len(ij)
    if textured is None:
        textured = r.integers(0, 2, n).astype(bool)
    textured = np.array(textured, bool) if np.ndim(textured) else np.full(n, textured)
    depths = np.repeat(r.permutation(n) + 1.0, 3) + r.uniform(0, 0.3, m)
    d = dict(faces=np.array(faces, np.uint32), faces_uv=np.array(faces, np.uint32), ij=ij, depths=depths, textured=textured,
             uv=np.concatenate(uv), shade=r.uniform(0.3, 1.5, m), colors=r.uniform(0, 1, (m, C)), shaded=textured.copy(),
             edgeflags=np.full((n, 3), edges), height=H, width=W, nb_colors=C, texture=r.uniform(0, 1, (th, tw, C)),
             background_image=r.uniform(0, 1, (H, W, C)), clockwise=clockwise, backface_culling=True, strict_edge=strict,
             perspective_correct=False, integer_pixel_centers=integer)
    d.update(kw)
    return Scene2D(**d)


PARAMS = ("ij", "uv", "shade", "colors", "texture")


def forward(s, sigma, err, obs):
    image = np.zeros((s.height, s.width, s.nb_colors))
    z = np.zeros((s.height, s.width))
    e = np.zeros((s.height, s.width)) if err else None
    drc.renderSceneCpp(s, sigma, image, z, err, obs, e)
    return image, z, e


def gradients(s, sigma=1.0, err=False, obs=None, up=None, seed=5):
    r = np.random.default_rng(seed)
    image, z, e = forward(s, sigma, err, obs)
    for p in PARAMS:
        setattr(s, p + "_b", np.zeros(getattr(s, p).shape))
    if err:
        up = r.uniform(-1, 1, e.shape) if up is None else up
        drc.renderSceneBCpp(s, sigma, image.copy(), z, None, True, obs, e.copy(), up.copy())
    else:
        up = r.uniform(-1, 1, image.shape) if up is None else up
        drc.renderSceneBCpp(s, sigma, image.copy(), z, up.copy())
    return up


def fd(s, p, d, up, sigma, err, obs, eps=1e-6):
    x = getattr(s, p)
    v = []
    for sg in (1, -1):
        setattr(s, p, x + sg * eps * d)
        im, z, e = forward(s, sigma, err, obs)
        v.append(np.sum(up * (e if err else im)))
    setattr(s, p, x)
    return (v[0] - v[1]) / (2 * eps)


def check(s, params=PARAMS, sigma=1.0, err=False, obs=None, trials=4, tol=2e-3, seed=3, eps=1e-6):
    """largest relative error between gradient and finite differences, per parameter (median over random directions,
    so that a pixel changing hands between the two renderings does not count)"""
    r = np.random.default_rng(seed)
    if err and obs is None:
        obs = r.uniform(0, 1, (s.height, s.width, s.nb_colors))
    up = gradients(s, sigma, err, obs)
    out = {}
    for p in params:
        es = []
        for _ in range(trials):
            d = r.standard_normal(getattr(s, p).shape)
            a = np.sum(getattr(s, p + "_b") * d)
            b = fd(s, p, d, up, sigma, err, obs, eps)
            es.append(abs(a - b) / (1e-3 + abs(a) + abs(b)))
        out[p] = sorted(es)[len(es) // 2]
    return out


def expect(cases, tol=2e-3):
    """cases: list of (name, dict of errors); exits 1 when a gradient is wrong"""
    import sys
    bad = False
    for name, o in cases:
        print(name, {k: float("%.2g" % v) for k, v in o.items()})
        bad |= any(not (v < tol) for v in o.values())
    sys.exit(1 if bad else 0)
