"""For every low-rank method (ILRMA, IPSDTA, MNMF, FastMNMF) x every option (source model, algorithm, domain, shape,
degrees of freedom, partitioning, normalization, spatial algorithm, pair order, number of bases / sources / blocks) and
every input letter, all states along a run are visited and each transition is compared with one reference iteration
computed by loops over sources, bins and frames.  The normalization is additionally decided by an invariance check:
relative to the separated signals the modelled variances after the real step are those of the un-normalized step."""

import numpy as np

from .. import configs as C
from .. import drive as D
from ..ref import aux as A
from ..ref import lowrank as L
from ..stepcheck import compare

ID = "C08"
TITLE = "Source-model updates follow their multiplicative rules"
BOUNDS = {
    "quick": "all options plus dof {1,5,50}, shape {0.5,1,1.5,1.9}, domain {0.5,1,1.5,2}, bases {1,2,3}, blocks {1,2,3}, sources x channels up to 4, 4 steps, 3 letters",
    "thorough": "as quick with up to 5 channels, 6 steps, 7 letters",
}
ASSUMPTIONS = ["rows of demixing filters and diagonalizers updated pairwise are compared up to a unit factor",
               "multichannel NMF with partitioning: the trace normalization is documented to be uncompensated"]


def configs(q):
    out, seen = [], set()

    def add(cfg, n, F, T, inp, **case):
        c = dict(case, cfg=cfg, n=n, F=F, T=T, inp=inp)
        k = case_name(c)
        if k not in seen:
            seen.add(k)
            out.append(c)

    letters = ("mix:0", "gen:1", "real:2") if q else ("mix:0", "gen:1", "real:2", "loud:3", "mix:4", "gen:5", "tilt:6")
    base = [c for c in C.all_configs(1) if C.family(c) in ("ilrma", "ipsdta", "mnmf")]
    for cfg in base:
        fam = C.family(cfg)
        if fam != "mnmf":
            cfg = C.with_kw(cfg, scale_restoration=False)
        if cfg["cls"] == "FastGaussMNMF" and cfg["kw"].get("partitioning"):
            continue
        F = {"ilrma": 3, "ipsdta": 5, "mnmf": 3}[fam]
        for n in (2, 3, 4) if q else (2, 3, 4, 5):
            for inp in letters:
                add(cfg, n, F, (24 if n < 4 else 18 * n) if fam == "ilrma" else 14, inp)
    mk = lambda cls, **kw: {"cls": cls, "kw": dict(kw, scale_restoration=False)}  # noqa: E731
    for alg in ("IP1", "ISS1"):
        for part in (False, True):
            for p in (0.5, 1, 1.5, 2):
                for nrm in (True, False, "power") + (() if part else ("projection_back",)):
                    kw = dict(spatial_algorithm=alg, partitioning=part, domain=p, normalization=nrm)
                    for nb in (1, 3):
                        add(mk("GaussILRMA", n_basis=nb, **kw), 2, 3, 24, "mix:1")
                    for nu in (1, 50):
                        add(mk("TILRMA", n_basis=2, dof=nu, **kw), 2, 3, 24, "mix:1")
                    for beta in (0.5, 1.9):
                        add(mk("GGDILRMA", n_basis=2, beta=beta, **kw), 2, 3, 24, "mix:1")
            for ref in (1, 2, -1):
                if not part:
                    for cls, k in (("GaussILRMA", {}), ("TILRMA", {"dof": 5}), ("GGDILRMA", {"beta": 1.5})):
                        add(mk(cls, n_basis=2, normalization="projection_back", reference_id=ref, spatial_algorithm=alg, **k), 3, 3, 24, "mix:2")
    for cls, k in (("GaussIPSDTA", {}), ("TIPSDTA", {"dof": 1}), ("TIPSDTA", {"dof": 50})):
        for F, nb in ((3, 1), (4, 2), (5, 2), (5, 3), (6, 3), (4, 4), (3, 2)):
            for nbas in (1, 3):
                for nrm in (True, False):
                    add(mk(cls, n_basis=nbas, n_blocks=nb, source_normalization=nrm, **k), 2, F, 14, "mix:1")
    for nch, ns in ((2, 3), (3, 2), (3, 1), (2, 2)):
        for nbas in (1, 3):
            for nrm in (True, False):
                for part in (False, True):
                    add({"cls": "GaussMNMF", "kw": dict(n_basis=nbas, n_sources=ns, partitioning=part, normalization=nrm)}, nch, 3, 14, "mix:1")
                for alg in ("IP1", "IP2") if ns > 1 else ("IP1",):  # one source: the pairwise eigenproblem is degenerate
                    add({"cls": "FastGaussMNMF", "kw": dict(n_basis=nbas, n_sources=ns, diagonalizer_algorithm=alg, normalization=nrm)}, nch, 3, 14, "mix:1")
    return out


def cases(tier):
    q = tier == "quick"
    out = configs(q)
    for c in out:
        c["N"] = 4 if q else 6
        if c["cfg"]["kw"].get("spatial_algorithm") == "IPA" and c["n"] > 3:
            c["N"] = 3  # later its linear terms reach the absolute threshold of the inner program (keeping or dropping a term is a tie)
    return out


def case_name(c):
    return "%s/%d/%dx%d/%s" % (C.cfg_name(c["cfg"]), c["n"], c["F"], c["T"], c["inp"])


def reference(cfg, pre, X):
    fam = C.family(cfg)
    if fam == "ilrma":
        return A.ilrma_step(cfg, pre, X, reference_id=cfg["kw"].get("reference_id", 0))
    if fam == "ipsdta":
        return L.ipsdta_step(cfg, pre, X)
    if cfg["cls"] == "GaussMNMF":
        return L.mnmf_step(cfg, pre, X)
    return L.fastmnmf_step(cfg, pre, X)


def relative_variance(cfg, s, X):
    """scale-free description of the modelled variances"""
    fam = C.family(cfg)
    if fam == "ilrma":
        Y = s["output"] if C.is_output_based(cfg) else A.demix(s["demix_filter"], X)
        return np.abs(Y) ** 2 / A.nmf(s) ** (2 / cfg["kw"].get("domain", 2))
    if fam == "ipsdta":
        return np.concatenate([np.array(r).ravel() for r in L.psdtf(L.get_basis(s), s["activation"])])
    if cfg["cls"] == "GaussMNMF":
        return np.array(L.mnmf_R(s))
    return np.einsum("nft,nfab->nftab", L.variances(s), L.fast_cov(s))


def run(case, ctx):
    cfg, n = case["cfg"], case["n"]
    X = C.shape_input(cfg, case["inp"], n, case["F"], case["T"])
    rec = D.Recorder()
    D.run(cfg, X, case["N"], callbacks=rec)
    kw = cfg["kw"]
    alg = kw.get("spatial_algorithm", kw.get("diagonalizer_algorithm"))
    nrm_key = "source_normalization" if C.family(cfg) == "ipsdta" else "normalization"
    plain = C.with_kw(cfg, **{nrm_key: False})
    documented_change = cfg["cls"] == "GaussMNMF" and kw.get("partitioning")
    ctx.state(C.cfg_name(cfg), rec.states[0])
    for i, (a, b) in enumerate(zip(rec.states, rec.states[1:])):
        if not all(np.isfinite(v).all() for v in a.values()):
            ctx.fail("step%d:nonfinite" % i, "non-finite parameters on a well-posed input")
            break
        align = ("demix_filter", "output", "diagonalizer") if alg in ("IP2", "ISS2") else ()
        compare(ctx, "step%d" % i, lambda p: reference(cfg, p, X), a, b, rtol=1e-5 if alg in ("IPA", "ISS2") else 1e-6, align=align)
        if kw.get(nrm_key, True) and not documented_change and not ctx.ill:
            un = dict(a)
            un.update(reference(plain, a, X))
            ctx.close(relative_variance(cfg, b, X), relative_variance(cfg, un, X), "step%d:normalization" % i, rtol=1e-4)
        ctx.step()
        ctx.trace()
        ctx.state(C.cfg_name(cfg), b)
        ctx.outcome(cfg["cls"])
