"""Every low-rank method and the cACGMM x every option x parameter grid x letter (including silent frames, loud, quiet,
integer, real and repeated data): all states of the run are visited and the declared domains are evaluated in each:
positivity and floors, stochastic latent variables, Hermitian positive definite matrices, the advertised normalization,
and shapes and counts that match the input."""

import numpy as np

from .. import configs as C
from .. import drive as D
from ..ref import lowrank as L
from ..ref.aux import demix
from . import c08

ID = "C28"
TITLE = "Estimated parameters stay in their domain"
BOUNDS = {
    "quick": "all options (and the parameter grid of C08), 2-4 channels, 9 letters, 5 steps",
    "thorough": "2-5 channels, 15 letters, 7 steps",
}
ASSUMPTIONS = ["mixtures have full rank in every bin"]
FLOOR = 1e-10


def cases(tier):
    q = tier == "quick"
    out, seen = [], set()

    def add(cfg, n, F, T, inp, N):
        if cfg["kw"].get("domain") == 1 and inp.startswith("real"):
            N = min(N, 4)  # unbounded likelihood: degenerates early
        c = {"cfg": cfg, "n": n, "F": F, "T": T, "inp": inp, "N": N}
        if case_name(c) not in seen:
            seen.add(case_name(c))
            out.append(c)

    letters = ["mix:0", "gen:1", "quiet:2", "loud:3", "silentframe:4", "silentstart:5", "real:6", "int:7", "dup:8"]
    if not q:
        letters += ["mix:9", "gen:10", "silentframe:11", "tilt:12", "silentstart:13", "mix:14"]
    for cfg in C.all_configs(1):
        fam = C.family(cfg)
        if fam not in ("ilrma", "ipsdta", "mnmf", "cacgmm"):
            continue
        if fam in ("ilrma", "ipsdta"):
            cfg = C.with_kw(cfg, scale_restoration=False)
        if cfg["cls"] == "FastGaussMNMF" and cfg["kw"].get("partitioning"):
            continue
        for n in (2, 3, 4) if q else (2, 3, 4, 5):
            for inp in letters:
                if fam == "ipsdta":
                    add(cfg, n, 4, 14, inp, 3 if q else 6)
                else:
                    add(cfg, n, 3, 10 * n, inp, 5 if q else 7)
    for cfg in C.all_configs(0):  # a given, unnormalized start
        if C.family(cfg) == "ipsdta":
            for nb in (2, 4):
                for n in (2, 3):
                    c = {"cfg": C.with_kw(cfg, scale_restoration=False, n_blocks=nb), "n": n, "F": 5 if nb == 2 else 4, "T": 14, "inp": "mix:0", "N": 2, "start": 1}
                    if case_name(c) not in seen:
                        seen.add(case_name(c))
                        out.append(c)
    for c in c08.configs(q):
        add(c["cfg"], c["n"], c["F"], c["T"], c["inp"], 4 if q else 8)
    return out


def case_name(c):
    return "%s/%d/%dx%d/%s/%d" % (C.cfg_name(c["cfg"]), c["n"], c["F"], c["T"], c["inp"], c["N"]) + ("/given" if c.get("start") else "")


def psd_ok(ctx, key, M, strict=True):
    sc = max(np.max(np.abs(M)), 1e-300)
    ctx.check(np.max(np.abs(M - np.swapaxes(M.conj(), -1, -2))) <= 1e-9 * sc, key + ":hermitian", "not Hermitian")
    lam = np.linalg.eigvalsh((M + np.swapaxes(M.conj(), -1, -2)) / 2)
    ctx.check(lam.min() > -1e-12 * sc, key + ":definite", "smallest eigenvalue %g" % lam.min())
    ctx.check((np.trace(M, axis1=-2, axis2=-1).real > 0).all(), key + ":trace", "vanishing matrix")


def given_basis(kw, n, F):
    """Hermitian positive definite blocks with traces unlike the advertised ones"""
    rng, out = np.random.default_rng(3), []
    sizes = [len(b) for b in L.blocks(F, kw["n_blocks"])]
    for z in sorted(set(sizes)):
        A = rng.standard_normal((n, kw["n_basis"], sizes.count(z), z, z)) + 1j * rng.standard_normal((n, kw["n_basis"], sizes.count(z), z, z))
        out.append(3 * A @ np.swapaxes(A.conj(), -1, -2) + np.eye(z))
    return {"basis": tuple(out) if len(out) > 1 else out[0]}


def run(case, ctx):
    cfg, n, F = case["cfg"], case["n"], case["F"]
    kw, fam, cls = cfg["kw"], C.family(cfg), cfg["cls"]
    X = C.shape_input(cfg, case["inp"], n, F, case["T"])
    T = X.shape[2]
    rec = D.Recorder()
    m, out = D.run(cfg, X, case["N"], callbacks=rec, call_kw=given_basis(kw, n, F) if case.get("start") else None)
    N, K = kw.get("n_sources") or n, kw.get("n_basis")
    ctx.check((m.n_sources, m.n_channels, m.n_bins, m.n_frames) == (N, n, F, T), "counts",
              lambda: "%s" % ((m.n_sources, m.n_channels, m.n_bins, m.n_frames),))
    ctx.check(np.shape(out) == (N, F, T), "output shape", lambda: str(np.shape(out)))
    part = kw.get("partitioning", False)
    nrm = kw.get("source_normalization" if fam == "ipsdta" else "normalization", True)
    shapes = {}
    if fam in ("ilrma", "mnmf"):
        shapes = {"basis": (F, K), "activation": (K, T), "latent": (N, K)} if part else {"basis": (N, F, K), "activation": (N, K, T)}
    if fam == "ilrma":
        shapes["output" if C.is_output_based(cfg) else "demix_filter"] = (N, F, T) if C.is_output_based(cfg) else (F, N, n)
    if fam == "ipsdta":
        shapes = {"activation": (N, K, T), "demix_filter": (F, N, n)}
    if cls == "GaussMNMF":
        shapes["spatial"] = (N, F, n, n)
    if cls == "FastGaussMNMF":
        shapes.update(spatial=(F, N, n), diagonalizer=(F, n, n))
    if fam == "cacgmm":
        shapes = {"mixing": (N, F), "covariance": (N, F, n, n)}
    for i, s in enumerate(rec.states):
        ctx.step()
        ctx.state(C.cfg_name(cfg), s)
        ctx.outcome(cls)
        k = "@%d" % i
        for a, shp in shapes.items():
            ctx.check(a in s and s[a].shape == shp, "shape:" + a + k, lambda: "%s expected %s" % (s[a].shape if a in s else None, shp))
        bad = [a for a, v in s.items() if not np.isfinite(v).all()]
        if not ctx.check(not bad, "finite" + k, "non-finite %s" % bad):
            return
        if fam in ("ilrma", "mnmf"):
            rescaled = i > 0 and nrm  # the floor precedes the final rescaling of an iteration
            for a in ("basis", "activation"):
                lo = 0 if (rescaled and a == "basis") else FLOOR * (1 - 1e-9)
                ctx.check(np.isrealobj(s[a]) and (s[a] > 0).all() and s[a].min() >= lo, "positive:" + a + k, lambda: "minimum %g" % s[a].min())
        if part:
            z = s["latent"]
            ctx.check((z >= 0).all() and np.allclose(z.sum(axis=0), 1, atol=1e-8), "latent" + k, lambda: "sums %s" % z.sum(axis=0))
        if fam == "ilrma" and nrm and i > 0:
            Y = s["output"] if C.is_output_based(cfg) else demix(s["demix_filter"], X)
            if nrm is True or nrm == "power":
                ctx.close(np.mean(np.abs(Y) ** 2, axis=(1, 2)), np.ones(N), "normalized" + k, rtol=1e-8)
            else:
                ctx.close(Y.sum(axis=0), X[kw.get("reference_id", 0)], "normalized" + k, rtol=1e-6)
        if fam == "ipsdta":
            bases = L.get_basis(s)
            sizes = [len(b) for b in L.blocks(F, kw["n_blocks"])]
            ctx.check([b.shape for b in bases] == [(N, K, z, z) for z in sizes], "shape:basis" + k, lambda: str([b.shape for b in bases]))
            for j, b in enumerate(bases):
                psd_ok(ctx, "basis%d%s" % (j, k), b)
            ctx.check((s["activation"] >= 0).all(), "positive:activation" + k, "minimum %g" % s["activation"].min())
            if nrm:
                tr = sum(np.trace(b, axis1=-2, axis2=-1).real for b in bases)
                ctx.close(tr, np.ones((N, K)), "normalized" + k, rtol=1e-8)
        if cls == "GaussMNMF":
            psd_ok(ctx, "spatial" + k, s["spatial"])
            if nrm:
                ctx.close(np.trace(s["spatial"], axis1=-2, axis2=-1).real, np.ones((N, F)), "normalized" + k, rtol=1e-8)
        if cls == "FastGaussMNMF":
            ctx.check(np.isrealobj(s["spatial"]) and (s["spatial"] > 0).all(), "positive:spatial" + k, "minimum %g" % s["spatial"].min())
            if nrm and i > 0:
                QX = np.abs(demix(s["diagonalizer"], X)) ** 2
                ctx.close(np.mean(QX, axis=(1, 2)), np.ones(n), "normalized" + k, rtol=1e-8)
        if fam == "cacgmm":
            a, B = s["mixing"], s["covariance"]
            ctx.check((a >= 0).all() and np.allclose(a.sum(axis=0), 1, atol=1e-9), "weights" + k, "sums %s" % a.sum(axis=0))
            psd_ok(ctx, "covariance" + k, B)
            if nrm or i == 0:
                ctx.close(np.trace(B, axis1=-2, axis2=-1).real, np.ones((N, F)), "normalized" + k, rtol=1e-8)
            if "posterior" in s:
                g = s["posterior"]
                ctx.check(g.shape == (N, F, T) and (g >= 0).all() and np.allclose(g.sum(axis=0), 1, atol=1e-9), "posterior" + k, "not a distribution")
    ctx.trace()
