from lib import *
from pyebsdindex.radon_fast import Radon
S = Suite("I03", "detector shapes square, wide, tall, odd; source points on and off the detector; five conventions; one centre and one per pattern; batches 1-4 of 1-9 bands")
def conv(ven, W, H, t, L, d):
    tx, ty = t
    return {"EDAX": [tx / W, ty / H, L / min(W, H)], "OXFORD": [tx / W, ty / W, L / W], "BRUKER": [tx / W, 1 - ty / H, L / H], "KIKUCHIPY": [tx / W, 1 - ty / H, L / H], "EMSOFT": [W / 2 - tx, ty - H / 2, L * d, d]}[ven]
VEN = ["EDAX", "OXFORD", "BRUKER", "KIKUCHIPY", "EMSOFT"]
def poles(S):
    for rep in range(14 * S.scale):
        H, W = [(60, 60), (48, 64), (64, 48), (61, 80), (97, 33)][rep % 5]
        nT, nR = [(180, 90), (90, 45), (60, 30)][rep % 3]
        R = Radon(imageDim=np.array([H, W]), nTheta=nT, nRho=nR)
        n, m = [(1, 1), (1, 9), (3, 4), (4, 9), (2, 7), (3, 3)][rep % 6]
        av = np.zeros((n, m, 2), np.float32); av[:, :, 0] = S.rng.uniform(0, nR - 1, (n, m)); av[:, :, 1] = S.rng.uniform(0, nT - 1, (n, m))
        if rep % 4 == 0: av[:, :, 1] = np.round(av[:, :, 1]); av[:, :, 0] = np.round(av[:, :, 0])
        t = np.c_[S.rng.uniform(.2, .8, n) * W, S.rng.uniform(-.1, 1.1, n) * H]; L = S.rng.uniform(.3, 1.2, n) * W; d = S.rng.uniform(20, 70)
        for per in (False, True):
            for ven in VEN + ["oxford"]:
                pcs = np.array([conv(ven.upper(), W, H, t[i if per else 0], L[i if per else 0], d) for i in range(n)])
                PC = pcs if per else pcs[0]
                bd = np.zeros((n, m), dtype=[("aveloc", np.float32, (2,)), ("theta", np.float32), ("rho", np.float32)]); bd["aveloc"] = av
                P0 = PC.copy()
                r = np.asarray(R.radon2pole(bd, PC=PC, vendor=ven))
                inp = {"shape": (H, W), "nTheta": nT, "nRho": nR, "vendor": ven, "PC": P0, "aveloc": av}
                S.check(np.array_equal(PC, P0), "PC unmodified", inp)
                th = np.pi - np.deg2rad(av[:, :, 1] * 180.0 / nT)
                dr = 2 * R.rhoMax / nR; rho = -(av[:, :, 0] * dr - (R.rhoMax - dr))
                c, s = np.cos(th), np.sin(th)
                S.check(np.allclose(bd["theta"], th, atol=1e-5) and np.allclose(bd["rho"], rho, atol=1e-3), "stored line", inp)
                tt = np.array([t[i if per else 0] for i in range(n)]); LL = np.array([L[i if per else 0] for i in range(n)])
                dv = np.stack([W / 2 + rho * c - tt[:, :1], H / 2 + rho * s - tt[:, 1:], np.broadcast_to(LL[:, None], (n, m))], -1)
                e = np.cross(np.stack([-s, c, 0 * s], -1), dv); e /= np.linalg.norm(e, axis=-1, keepdims=True)
                if not S.check(r.shape == (n, m, 3), "shape", inp, {"shape": r.shape}): continue
                S.check(np.abs(r - e).max() < 3e-5, "normals:" + ven.upper(), inp, lambda: {"got": r, "expected": e})
S.run(poles)
