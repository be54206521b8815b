from tripcommon import *
from pyebsdindex import _ebsd_index_single as es, band_detect as bdm
_idx = {}
def indexer(phases, shape=(40, 48), nB=7, nTheta=60, nRho=30, cls=None, **k):
    key = (tuple(map(str, phases)), shape, nB, nTheta, nRho, tuple(sorted(k.items())))
    if key not in _idx:
        _idx[key] = es.EBSDIndexer(phaselist=[phase(x) if isinstance(x, int) else x for x in phases], patDim=np.array(shape), nTheta=nTheta, nRho=nRho, tSigma=1.0, rSigma=1.2, rhoMaskFrac=.1, nBands=nB, vendor="EDAX", PC=[.5, .6, .65], **k)
    return _idx[key]
def kik(rng, i, shape, PC=(.5, .6, .65), nb=None):
    """a pattern with a bright stripe per plane of phase i in a random orientation"""
    H, W = shape; q = rotm(rng); P = planes(i)
    tx, ty, L = PC[0] * W, PC[1] * H, PC[2] * min(H, W)
    y, x = np.mgrid[0:H, 0:W]; v = np.stack([x + .5 - tx, (H - y - .5) - ty, np.full((H, W), L)], -1); v /= np.linalg.norm(v, axis=-1, keepdims=True)
    im = np.zeros(shape)
    for k, (h, f, n) in enumerate(P[:nb] if nb else P): im += np.exp(-((v @ (mat(q) @ n)) / .035) ** 2) * (1.4 - .1 * f)
    return im + rng.normal(size=shape) * .05
def stack(rng, i, n, shape):
    out = []
    for k in range(n):
        c = k % 6
        out.append(kik(rng, i, shape) if c in (0, 1, 3) else rng.normal(size=shape) if c == 2 else np.full(shape, 3.0) if c == 4 else np.outer(np.linspace(0, 1, shape[0]), np.ones(shape[1])))
    return np.array(out, dtype=np.float32)
def eq(a, b):
    """structured records agree"""
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and all(np.allclose(np.asarray(a[f], float), np.asarray(b[f], float), rtol=2e-5, atol=2e-5, equal_nan=True) for f in a.dtype.names)
