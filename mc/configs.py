"""Registry of the separation methods: every class x its discrete options, as JSON-able descriptors.

descriptor: {"cls": name, "kw": {constructor keywords}, "fn": contrast family, "sel": pair selector}
"""

import functools
import itertools
import warnings

import numpy as np
from ssspy.bss.admmbss import ADMMBSS, MaskingADMMBSS
from ssspy.bss.cacgmm import CACGMM
from ssspy.bss.fdica import (
    AuxFDICA,
    AuxLaplaceFDICA,
    GradFDICA,
    GradLaplaceFDICA,
    NaturalGradFDICA,
    NaturalGradLaplaceFDICA,
)
from ssspy.bss.hva import HVA, MaskingADMMHVA, MaskingPDSHVA
from ssspy.bss.ica import FastICA, GradICA, GradLaplaceICA, NaturalGradICA, NaturalGradLaplaceICA
from ssspy.bss.ilrma import GaussILRMA, GGDILRMA, TILRMA
from ssspy.bss.ipsdta import TIPSDTA, GaussIPSDTA
from ssspy.bss.iva import (
    ADMMIVA,
    AuxGaussIVA,
    AuxIVA,
    AuxLaplaceIVA,
    FasterIVA,
    FastIVA,
    GradGaussIVA,
    GradIVA,
    GradLaplaceIVA,
    NaturalGradGaussIVA,
    NaturalGradIVA,
    NaturalGradLaplaceIVA,
    PDSIVA,
)
from ssspy.bss.mnmf import FastGaussMNMF, GaussMNMF
from ssspy.bss.pdsbss import PDSBSS, MaskingPDSBSS
from ssspy.utils.select_pair import combination_pair_selector, sequential_pair_selector

CLASSES = {
    c.__name__: c
    for c in [
        GradICA, NaturalGradICA, FastICA, GradLaplaceICA, NaturalGradLaplaceICA,
        GradFDICA, NaturalGradFDICA, AuxFDICA, GradLaplaceFDICA, NaturalGradLaplaceFDICA, AuxLaplaceFDICA,
        GradIVA, NaturalGradIVA, FastIVA, FasterIVA, AuxIVA, PDSIVA, ADMMIVA, GradLaplaceIVA, GradGaussIVA,
        NaturalGradLaplaceIVA, NaturalGradGaussIVA, AuxLaplaceIVA, AuxGaussIVA,
        GaussILRMA, TILRMA, GGDILRMA, GaussIPSDTA, TIPSDTA, GaussMNMF, FastGaussMNMF, CACGMM,
        PDSBSS, MaskingPDSBSS, ADMMBSS, MaskingADMMBSS, HVA, MaskingPDSHVA, MaskingADMMHVA,
    ]
}

DELTA = 0.3


# ---------------------------------------------------------------- contrast families
def ica_fns(name):
    if name == "logcosh":
        return dict(
            contrast_fn=lambda y: np.log(np.cosh(y)),
            score_fn=np.tanh,
            d_score_fn=lambda y: 1 - np.tanh(y) ** 2,
        )
    if name == "smooth":
        return dict(
            contrast_fn=lambda y: np.sqrt(y**2 + DELTA),
            score_fn=lambda y: y / np.sqrt(y**2 + DELTA),
            d_score_fn=lambda y: DELTA / (y**2 + DELTA) ** 1.5,
        )
    raise KeyError(name)


def fdica_fns(name):
    if name == "laplace":
        return dict(
            contrast_fn=lambda y: 2 * np.abs(y),
            score_fn=lambda y: y / np.maximum(np.abs(y), 1e-10),
            d_contrast_fn=lambda r: 2 * np.ones_like(r),
        )
    if name == "smooth":
        return dict(
            contrast_fn=lambda y: 2 * np.sqrt(np.abs(y) ** 2 + DELTA),
            score_fn=lambda y: y / np.sqrt(np.abs(y) ** 2 + DELTA),
            d_contrast_fn=lambda r: 2 * r / np.sqrt(r**2 + DELTA),
        )
    raise KeyError(name)


def iva_fns(name):
    if name == "laplace":
        return dict(
            contrast_fn=lambda y: 2 * np.linalg.norm(y, axis=1),
            score_fn=lambda y: y / np.maximum(np.linalg.norm(y, axis=1, keepdims=True), 1e-10),
            d_contrast_fn=lambda r: 2 * np.ones_like(r),
            dd_contrast_fn=lambda r: np.zeros_like(r),
        )
    if name == "smooth":
        return dict(
            contrast_fn=lambda y: 2 * np.sqrt(np.sum(np.abs(y) ** 2, axis=1) + DELTA),
            score_fn=lambda y: y / np.sqrt(np.sum(np.abs(y) ** 2, axis=1, keepdims=True) + DELTA),
            d_contrast_fn=lambda r: 2 * r / np.sqrt(r**2 + DELTA),
            dd_contrast_fn=lambda r: 2 * DELTA / (r**2 + DELTA) ** 1.5,
        )
    raise KeyError(name)


def _l1_penalty(y):
    return np.sum(np.abs(y)).item()


def _l1_prox(y, step_size=1):
    r = np.abs(y)
    return np.where(r > step_size, y * (1 - step_size / np.maximum(r, 1e-300)), 0)


def _l21_penalty(y):
    return np.sum(np.linalg.norm(y, axis=1)).item()


def _l21_prox(y, step_size=1):
    r = np.linalg.norm(y, axis=1, keepdims=True)
    return np.where(r > step_size, y * (1 - step_size / np.maximum(r, 1e-300)), 0)


def _l1_mask(y, step_size=1):
    r = np.abs(y)
    return np.maximum(0, 1 - step_size / np.maximum(r, 1e-300))


def _l21_mask(y, step_size=1):
    r = np.linalg.norm(y, axis=1, keepdims=True)
    return np.maximum(0, 1 - step_size / np.maximum(r, 1e-300))


def _phase_mask(y, step_size=1):
    """complex-valued mask: shrinks and turns the phase"""
    r = np.abs(y)
    return (0.3 + 0.5 * r / (1 + r)) * np.exp(0.8j / (1 + r))


PENALTY = {"l1": _l1_penalty, "l21": _l21_penalty, "phase": _l1_penalty}
PROX = {"l1": _l1_prox, "l21": _l21_prox, "phase": lambda y, step_size=1: _phase_mask(y) * y}
MASK = {"l1": _l1_mask, "l21": _l21_mask, "phase": _phase_mask}


def reversed_pairs(n_sources):
    for m in range(n_sources - 1, 0, -1):
        yield m, m - 1
    if n_sources > 2:
        yield 0, n_sources - 1


SELECTORS = {
    None: None,
    "sequential": sequential_pair_selector,
    "combination": combination_pair_selector,
    "reversed": reversed_pairs,
}

ICA = {"GradICA", "NaturalGradICA", "FastICA", "GradLaplaceICA", "NaturalGradLaplaceICA"}
FDICA = {"GradFDICA", "NaturalGradFDICA", "AuxFDICA", "GradLaplaceFDICA", "NaturalGradLaplaceFDICA", "AuxLaplaceFDICA"}
IVA = {"GradIVA", "NaturalGradIVA", "FastIVA", "FasterIVA", "AuxIVA", "GradLaplaceIVA", "GradGaussIVA",
       "NaturalGradLaplaceIVA", "NaturalGradGaussIVA", "AuxLaplaceIVA", "AuxGaussIVA"}
PROXM = {"PDSIVA", "ADMMIVA", "PDSBSS", "MaskingPDSBSS", "ADMMBSS", "MaskingADMMBSS", "HVA", "MaskingPDSHVA", "MaskingADMMHVA"}
HVAS = {"HVA", "MaskingPDSHVA", "MaskingADMMHVA"}
ILRMA = {"GaussILRMA", "TILRMA", "GGDILRMA"}
IPSDTA = {"GaussIPSDTA", "TIPSDTA"}
MNMF = {"GaussMNMF", "FastGaussMNMF"}
RNG = ILRMA | IPSDTA | MNMF | {"CACGMM"}
ISSLIKE = {"ISS", "ISS1", "ISS2", "IPA"}


def family(cfg):
    c = cfg["cls"]
    for name, s in [("ica", ICA), ("fdica", FDICA), ("iva", IVA), ("prox", PROXM), ("ilrma", ILRMA),
                    ("ipsdta", IPSDTA), ("mnmf", MNMF)]:
        if c in s:
            return name
    return "cacgmm"


def is_output_based(cfg):
    return cfg["kw"].get("spatial_algorithm") in ISSLIKE


def fns_for(cfg):
    """functions given to the constructor of this class (only those it takes)"""
    c, fn = cfg["cls"], cfg.get("fn")
    if fn is None:
        return {}
    if c in ICA:
        f = ica_fns(fn)
        keys = ["contrast_fn", "score_fn"] + (["d_score_fn"] if c == "FastICA" else [])
    elif c in FDICA:
        f = fdica_fns(fn)
        keys = ["contrast_fn", "d_contrast_fn"] if c.startswith("Aux") else ["contrast_fn", "score_fn"]
    elif c in IVA:
        f = iva_fns(fn)
        if c == "FastIVA":
            keys = ["contrast_fn", "d_contrast_fn", "dd_contrast_fn"]
        elif c in ("FasterIVA", "AuxIVA"):
            keys = ["contrast_fn", "d_contrast_fn"]
        else:
            keys = ["contrast_fn", "score_fn"]
    elif c in ("PDSBSS", "ADMMBSS"):
        names = fn.split("+")
        if len(names) == 1:
            return dict(penalty_fn=PENALTY[fn], prox_penalty=PROX[fn])
        return dict(penalty_fn=[PENALTY[n] for n in names], prox_penalty=[PROX[n] for n in names])
    elif c in ("MaskingPDSBSS", "MaskingADMMBSS"):
        return dict(mask_fn=MASK[fn])
    elif c in ("PDSIVA", "ADMMIVA"):
        return dict(contrast_fn=lambda y: np.linalg.norm(y, axis=1), prox_penalty=_l21_prox)
    else:
        raise KeyError(c)
    return {k: f[k] for k in keys}


class CountingRng:
    pass


def rng_for(cfg, k=0):
    return np.random.default_rng(1000 + k)


def build(cfg, rng=None, **extra):
    """construct the real object"""
    kw = dict(cfg["kw"])
    kw.update(fns_for(cfg))
    if cfg.get("sel") is not None:
        kw["pair_selector"] = SELECTORS[cfg["sel"]]
    if cfg["cls"] in RNG:
        kw["rng"] = rng if rng is not None else rng_for(cfg, cfg.get("seed", 0))
    if cfg["cls"] in HVAS or cfg["cls"].startswith("Masking"):
        if extra.get("record_loss", True) and "penalty_fn" not in extra:
            extra = dict(extra, record_loss=False)  # no penalty: nothing to record
    kw.update(extra)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return CLASSES[cfg["cls"]](**kw)


def shape_input(cfg, name, n_channels, n_bins, n_frames):
    from . import inputs

    if cfg["cls"] in ICA:
        kind, _, arg = name.partition(":")
        return inputs.waveform(int(arg or 0), n_channels, n_frames * max(1, n_bins))
    x = inputs.letter(name, n_channels, n_bins, n_frames)
    if cfg["cls"] in PROXM:
        nrm = np.max(np.linalg.norm(x.transpose(1, 0, 2), ord=2, axis=(-2, -1)))
        if nrm > 0:
            x = x / (np.sqrt(max(1, len(str(cfg.get("fn")).split("+")))) * nrm)
    return x


def _c(cls, fn=None, sel=None, **kw):
    d = {"cls": cls, "kw": kw}
    if fn is not None:
        d["fn"] = fn
    if sel is not None:
        d["sel"] = sel
    return d


def cfg_name(cfg):
    s = cfg["cls"]
    if cfg.get("fn"):
        s += "<%s>" % cfg["fn"]
    if cfg.get("sel"):
        s += "{%s}" % cfg["sel"]
    if cfg["kw"]:
        s += "(" + ",".join("%s=%s" % (k, v) for k, v in sorted(cfg["kw"].items())) + ")"
    return s


def all_configs(level=1):
    """every class x every discrete option (level 0: one per algorithmic path, 1: full product, 2: + selectors)"""
    out = []
    for c in ("GradICA", "NaturalGradICA"):
        for h in (False, True):
            for fn in ("logcosh", "smooth")[: 1 + (level > 0)]:
                out.append(_c(c, fn, is_holonomic=h))
            out.append(_c(c.replace("ICA", "LaplaceICA"), is_holonomic=h))
    out.append(_c("FastICA", "logcosh"))
    out.append(_c("FastICA", "smooth"))
    fns = ("laplace", "smooth")
    for c in ("GradFDICA", "NaturalGradFDICA"):
        for h in (False, True):
            for fn in fns[level == 0:]:
                out.append(_c(c, fn, is_holonomic=h))
            out.append(_c(c.replace("FDICA", "LaplaceFDICA"), is_holonomic=h))
    sels = (None, "combination", "reversed")
    for a in ("IP", "IP1", "IP2"):
        for sel in (sels if (a == "IP2" and level > 0) else (None,)):
            for fn in fns[level == 0:]:
                out.append(_c("AuxFDICA", fn, sel, spatial_algorithm=a))
            out.append(_c("AuxLaplaceFDICA", None, sel, spatial_algorithm=a))
    for c in ("GradIVA", "NaturalGradIVA"):
        for h in (False, True):
            for fn in fns[level == 0:]:
                out.append(_c(c, fn, is_holonomic=h))
            out.append(_c(c.replace("IVA", "LaplaceIVA"), is_holonomic=h))
            out.append(_c(c.replace("IVA", "GaussIVA"), is_holonomic=h))
    for fn in fns:
        out.append(_c("FastIVA", fn))
        out.append(_c("FasterIVA", fn))
    for a in ("IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"):
        for sel in (sels if (a in ("IP2", "ISS2") and level > 0) else (None,)):
            ipas = [{}]
            if a == "IPA" and level > 0:
                ipas = [{}, {"newton_iter": 3}, {"lqpqm_normalization": False}]
            for k in ipas:
                for fn in fns[level == 0:]:
                    out.append(_c("AuxIVA", fn, sel, spatial_algorithm=a, **k))
                out.append(_c("AuxLaplaceIVA", None, sel, spatial_algorithm=a, **k))
                out.append(_c("AuxGaussIVA", None, sel, spatial_algorithm=a, **k))
    for a in ("IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"):
        for src in ("MM", "ME"):
            for p in ((2, 1) if src == "MM" else (2,)):
                for part in (False, True):
                    for nrm in (True, False, "projection_back"):
                        if part and nrm == "projection_back":
                            continue
                        if level == 0 and nrm == "projection_back" and a not in ("IP", "ISS"):
                            continue
                        out.append(_c("GaussILRMA", n_basis=2, spatial_algorithm=a, source_algorithm=src, domain=p,
                                      partitioning=part, normalization=nrm))
                        if a != "IPA":
                            out.append(_c("TILRMA", n_basis=2, dof=5, spatial_algorithm=a, source_algorithm=src,
                                          domain=p, partitioning=part, normalization=nrm))
                            if src == "MM":
                                for beta in ((1, 1.5) if level > 0 else (1.5,)):
                                    out.append(_c("GGDILRMA", n_basis=2, beta=beta, spatial_algorithm=a,
                                                  source_algorithm=src, domain=p, partitioning=part,
                                                  normalization=nrm))
    for nb in (1, 2):
        for nrm in (True, False):
            out.append(_c("GaussIPSDTA", n_basis=2, n_blocks=nb, source_normalization=nrm))
            out.append(_c("TIPSDTA", n_basis=2, n_blocks=nb, dof=5, source_normalization=nrm))
    for part in (False, True):
        for nrm in (True, False):
            out.append(_c("GaussMNMF", n_basis=2, partitioning=part, normalization=nrm))
            for a in ("IP", "IP1", "IP2") if not part else ():
                for sel in (sels if (a == "IP2" and level > 0) else (None,)):
                    out.append(_c("FastGaussMNMF", None, sel, n_basis=2, diagonalizer_algorithm=a, partitioning=part,
                                  normalization=nrm))
    for nrm in (True, False):
        for al in (True, False, "posterior_score", "amplitude_score", "amplitude_correlation"):
            out.append(_c("CACGMM", normalization=nrm, permutation_alignment=al))
    for rel in (1, 0.75):
        for fn in ("l1", "l21", "l1+l21"):
            out.append(_c("PDSBSS", fn, relaxation=rel))
            out.append(_c("ADMMBSS", fn, relaxation=rel))
        for fn in ("l1", "l21"):
            out.append(_c("MaskingPDSBSS", fn, relaxation=rel))
            out.append(_c("MaskingADMMBSS", fn, relaxation=rel))
        for fn in (None, "l21"):
            out.append(_c("PDSIVA", fn, relaxation=rel))
            out.append(_c("ADMMIVA", fn, relaxation=rel))
        for it in (1, 2):
            out.append(_c("HVA", relaxation=rel, mask_iter=it))
            out.append(_c("MaskingPDSHVA", relaxation=rel, mask_iter=it))
            out.append(_c("MaskingADMMHVA", relaxation=rel, mask_iter=it))
    return out


def with_kw(cfg, **kw):
    d = dict(cfg)
    d["kw"] = dict(cfg["kw"], **kw)
    return d


STATE_ATTRS = ("demix_filter", "output", "basis", "activation", "latent", "variance", "spatial", "diagonalizer",
               "instant_covariance", "mixing", "covariance", "posterior", "dual", "dual1", "dual2", "auxiliary1", "auxiliary2")


def snapshot(method):
    """observable parameters of a separator after an operation"""
    s = {}
    for a in STATE_ATTRS:
        v = getattr(method, a, None)
        if isinstance(v, np.ndarray):
            s[a] = v.copy()
        elif isinstance(v, (tuple, list)) and all(isinstance(u, np.ndarray) for u in v):
            for i, u in enumerate(v):
                s["%s.%d" % (a, i)] = u.copy()
    return s
