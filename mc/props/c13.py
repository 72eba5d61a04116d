"""Every relabelling of the bounded problem is executed: all permutations of the frequency bins (or the generators of the group for more
bins), generators of the permutations of the frames and of the sources, complex conjugation, positive scaling, subsets of frequencies, and
changes of the channel basis.  Base run and transformed run start from correspondingly transformed parameters, and every state, the
result and the progress of the loss must correspond."""

import itertools

import numpy as np

from .. import configs as C
from .. import drive as D
from .. import inputs as I
from .c04 import HANDOVER

ID = "C13"
TITLE = "Symmetry: relabelling channels, frequencies or frames relabels the result"
BOUNDS = {
    "quick": "level-0 option set x symmetries: all 6 permutations of 3 bins, generators for 6 bins, frames and sources, conjugation, scaling, basis changes; 2 and 3 sources, 1 letter, 2 iterations",
    "thorough": "full option product, all 24 permutations of 4 bins, 3 letters, 2-4 sources, 4 iterations",
}
ASSUMPTIONS = [
    "random initial values are handed over relabelled (as keyword arguments, or through the generator for the cACGMM)",
    "source relabelling only for methods that update all sources at once; basis changes only where the documented updates are equivariant",
    "permutation alignment of frequencies is switched off (C18 decides it) except for frames, conjugation and scaling",
]

PARALLEL = {"GradICA", "NaturalGradICA", "GradLaplaceICA", "NaturalGradLaplaceICA", "GradFDICA", "NaturalGradFDICA", "GradLaplaceFDICA",
            "NaturalGradLaplaceFDICA", "GradIVA", "NaturalGradIVA", "GradLaplaceIVA", "GradGaussIVA", "NaturalGradLaplaceIVA",
            "NaturalGradGaussIVA", "FastIVA", "FasterIVA", "GaussMNMF", "CACGMM"} | C.PROXM
WHITE = {"FastICA", "FastIVA", "FasterIVA"}
SCALEFREE = {"FastICA", "FastIVA", "FasterIVA", "GradGaussIVA", "NaturalGradGaussIVA", "AuxLaplaceFDICA", "AuxLaplaceIVA",
             "AuxGaussIVA", "CACGMM"} | C.ILRMA | C.IPSDTA | C.MNMF


TILTED = {"bins3:%d" % k for k in range(2, 6)} | {"bins6:%d" % k for k in (0, 2)}  # (permutations left out for the tilted letter)


def symmetries(cfg, q):
    fam = C.family(cfg)
    out = ["conj"]
    out += ["frames:%d" % k for k in range(3)]
    if fam == "ica":
        out = out[1:]
    hva = cfg["cls"] in C.HVAS
    if fam == "ipsdta":  # the filters of the bins of a block are updated in turn
        out += ["bins6:1"] if cfg["kw"]["n_blocks"] == 2 else []
    elif fam not in ("ica",) and not hva:
        out += ["bins3:%d" % k for k in range(1, 6)] if q else ["bins4:%d" % k for k in range(1, 24)]
        out += ["bins6:%d" % k for k in range(3)]
    if cfg["cls"] in PARALLEL:
        out += ["sources:%d" % k for k in range(2)]
    if cfg["cls"] in SCALEFREE or cfg.get("fn") == "laplace" and cfg["cls"].startswith("Aux"):
        if cfg["kw"].get("spatial_algorithm") != "IPA" or "Laplace" not in cfg["cls"] and "fn" not in cfg:
            out += ["scale:8", "scale:0.3"]
    if fam == "fdica" or cfg["cls"] == "CACGMM":
        out += ["subset:%d" % k for k in range(3)]
    if cfg["cls"] not in WHITE:
        out += ["unitary"]
    if cfg["cls"].startswith(("Aux", "NaturalGrad")) or fam in ("ilrma", "ipsdta", "mnmf"):
        out += ["linear"]
    if cfg["cls"] == "GaussMNMF" and cfg["kw"]["partitioning"] and cfg["kw"]["normalization"]:
        out.remove("linear")  # this normalization is documented to change the model
    if cfg["kw"].get("permutation_alignment"):
        out = [o for o in out if o[:6] in ("conj", "frames", "scale:")]
    if cfg["kw"].get("normalization") == "projection_back":  # refers to the reference channel
        out = [o for o in out if o not in ("unitary", "linear")]
    if fam == "prox":
        out = [o for o in out if o != "scale"]
    return out


def prepare(cfg):
    if C.family(cfg) == "fdica":
        return C.with_kw(cfg, permutation_alignment=False)
    if cfg["cls"] == "CACGMM":
        return C.with_kw(cfg, permutation_alignment=False)
    return cfg


def cases(tier):
    q = tier == "quick"
    out, seen = [], set()
    configs = [prepare(cfg) for cfg in C.all_configs(0 if q else 1)]
    configs += [c for c in C.all_configs(0) if c["cls"] == "CACGMM"]
    configs += [C.with_kw(c, permutation_alignment=True) for c in C.all_configs(0) if C.family(c) == "fdica"]
    for cfg in configs:
        for sym in symmetries(cfg, q):
            for n in (2, 3) if q else (2, 3, 4):
                if sym[:4] == "bins" and n == 4 and sym[4] == "4":
                    continue
                tilt = ("tilt:0",) if C.family(cfg) != "ica" and sym[:4] in ("bins", "subs") and sym not in TILTED else ()
                for inp in ("mix:0",) + tilt if q else ("mix:0", "mix:1", "gen:0") + tilt:
                    c = {"cfg": cfg, "sym": sym, "n": n, "inp": inp, "N": 2 if q else 4}
                    if case_name(c) not in seen:
                        seen.add(case_name(c))
                        out.append(c)
    return out


def case_name(c):
    return "%s/%s/%d/%s" % (C.cfg_name(c["cfg"]), c["sym"], c["n"], c["inp"])


def perm(kind, k, size):
    """generators: adjacent transposition, rotation, reversal; or the k-th permutation"""
    if kind == "all":
        return list(list(itertools.permutations(range(size)))[k])
    p = list(range(size))
    if k == 0:
        p[0], p[1] = p[1], p[0]
    elif k == 1:
        p = p[1:] + p[:1]
    else:
        p = p[::-1]
    return p


class TapRng:
    """the given generator, with relabelled draws"""

    def __init__(self, seed, remap):
        self.rng, self.remap = np.random.default_rng(seed), remap

    def random(self, shape):
        return self.remap(self.rng.random(self.remap.shape(shape)))


def take(v, axis, p):
    return np.take(v, p, axis=axis)


class Sym:
    """relabelling of the input, of the parameters and of the output"""

    def __init__(self, case):
        self.case = case
        self.cfg = case["cfg"]
        self.fam = C.family(self.cfg)
        name, _, k = case["sym"].partition(":")
        self.name = name
        self.n = case["n"]
        self.F = {"bins3": 3, "bins4": 4}.get(name, 6)
        self.T = 19
        if name.startswith("bins"):
            self.p = perm("all" if name != "bins6" else "gen", int(k), self.F)
            if name == "bins6" and self.cfg["kw"].get("n_blocks", 1) == 2:  # permutations that keep the partition into blocks
                self.p = [3, 4, 5, 0, 1, 2]
        elif name == "frames":
            self.p = perm("gen", int(k), self.T if self.fam != "ica" else self.T * self.F)
        elif name == "sources":
            self.p = perm("gen", int(k), self.n)
        elif name == "subset":
            self.p = [[0], [4, 2], [5, 3, 1]][int(k)]
        elif name == "scale":
            self.c = float(k)
        elif name in ("unitary", "linear"):
            F = 1 if self.fam == "ica" else self.F
            A = np.eye(self.n) + 0.5 * I.generic(3, F, self.n, self.n, complex_=self.fam != "ica")
            if name == "unitary":
                A = np.linalg.qr(A)[0]
            if self.cfg["cls"] == "CACGMM":  # the initial covariances are diagonal: relabelled channels with phases
                ph = np.exp(1j * np.arange(F * self.n).reshape(F, self.n))
                A = np.stack([np.diag(ph[f])[perm("gen", 1, self.n)] for f in range(F)])
            self.A = A[0] if self.fam == "ica" else A

    # ---- the input
    def data(self, X):
        n = self.name
        if n.startswith("bins") or n == "subset":
            return X[:, self.p]
        if n == "frames":
            return X[..., self.p]
        if n == "conj":
            return X.conj()
        if n == "scale":
            return self.c * X
        if n in ("unitary", "linear"):
            if X.ndim == 2:
                return self.A @ X
            return np.einsum("fdc,cft->dft", self.A, X)
        return X.copy()

    # ---- parameters, by name
    def par(self, key, v):
        n, key0 = self.name, key.split(".")[0]
        if n == "conj":
            return v.conj()
        if n.startswith("bins") or n == "subset":
            if self.fam == "ipsdta" and key0 == "basis":
                return self.blocks(v)
            ax = self.bin_axis(key0, v.ndim)
            return v if ax is None else take(v, ax, self.p)
        if n == "frames":
            for ax, s in enumerate(v.shape):
                if s == len(self.p):
                    v = take(v, ax, self.p)
            return v
        if n == "sources":
            if key0 in ("demix_filter", "dual1", "auxiliary1"):
                return take(v, -2, self.p)
            if key0 in ("dual", "dual2", "auxiliary2"):
                return take(v, -3, self.p)
            if key0 in ("output", "latent", "variance", "mixing", "covariance", "posterior") or v.ndim == 3 or key0 == "spatial":
                if key0 == "instant_covariance":
                    return v
                return take(v, 0, self.p)
            return v
        if n == "scale":
            c, p = self.c, self.cfg["kw"].get("domain", 2)
            if key0 == "basis":
                return v * c**p
            return v
        A = self.A
        Ai = np.linalg.inv(A)
        if key0 in ("demix_filter", "diagonalizer") and v is not None:
            return v @ Ai
        if key0 in ("dual1", "auxiliary1"):
            return v @ Ai
        if key0 in ("covariance", "spatial") and v.ndim == 4:
            return A @ v @ A.conj().swapaxes(-1, -2)
        if key0 == "instant_covariance" and v.ndim == 4:
            return A[:, None] @ v @ A[:, None].conj().swapaxes(-1, -2)
        return v

    def bin_axis(self, key, ndim):
        if self.fam == "ica" or key in ("variance", "activation", "latent"):
            return None
        if key in ("demix_filter", "diagonalizer", "dual1", "auxiliary1", "instant_covariance"):
            return 0
        if key in ("mixing", "covariance"):
            return 1
        if key == "spatial":
            return 1 if ndim == 4 else 0
        return -2  # output, posterior, dual2, auxiliary2, basis

    def blocks(self, v):
        nb, b = v.shape[2], v.shape[3]
        full = np.zeros(v.shape[:2] + (self.F, self.F), dtype=v.dtype)
        for i in range(nb):
            s = slice(i * b, (i + 1) * b)
            full[..., s, s] = v[:, :, i]
        full = full[..., self.p, :][..., :, self.p]
        return np.stack([full[..., i * b : (i + 1) * b, i * b : (i + 1) * b] for i in range(nb)], axis=2)

    # ---- draws of the cACGMM: (sources, bins) and (sources, bins, channels)
    def shape(self, shape):
        if self.name == "subset":
            return tuple(self.F if i == 1 else s for i, s in enumerate(shape))
        return shape

    def __call__(self, v):
        if self.name.startswith("bins") or self.name == "subset":
            return v[:, self.p]
        if self.name == "sources":
            return v[self.p]
        if self.name == "unitary" and v.ndim == 3:
            return v[..., perm("gen", 1, self.n)]
        return v

    def output(self, v):
        n = self.name
        if n == "scale":
            return v if (self.cfg["cls"] in WHITE and not self.rescaled()) else self.c * v
        if n in ("unitary", "linear"):
            return v
        if n == "sources":
            return take(v, 0, self.p)
        if n.startswith("bins") or n == "subset":
            return v[:, self.p]
        if n == "frames":
            return v[..., self.p]
        return v.conj()

    def rescaled(self):
        return self.fam not in ("ica", "mnmf", "cacgmm")


def run(case, ctx):
    cfg, n, N = case["cfg"], case["n"], case["N"]
    S = Sym(case)
    shown = {"cls": cfg["cls"], "kw": {}, "fn": cfg.get("fn", "l1")}
    X = C.shape_input(shown, case["inp"], n, S.F, S.T)
    if S.fam == "prox":
        X = 0.8 * X
    extra = {}
    basis = S.name in ("unitary", "linear")
    if basis and S.fam not in ("ica", "mnmf", "cacgmm"):
        extra["scale_restoration"] = False
    if cfg["cls"] == "CACGMM":
        ident = Sym(dict(case, sym="conj"))
        extra["rng"] = TapRng(3, ident)
    # base run from explicit parameters
    kw = {}
    if cfg["cls"] != "CACGMM":
        start, _ = D.run(cfg, X, 0, **extra)
        for a in HANDOVER:
            v = getattr(start, a, None)
            if isinstance(v, np.ndarray):
                kw[a] = v.copy()
        if "demix_filter" in kw and not cfg["cls"] in WHITE:
            kw["demix_filter"] = kw["demix_filter"] + 0.2 * I.generic(4, *kw["demix_filter"].shape, complex_=S.fam != "ica")
        if "auxiliary1" in kw:
            kw["auxiliary1"] = np.eye(n) + 0.3 * I.generic(5, S.F, n, n)
        if "diagonalizer" in kw:
            kw["diagonalizer"] = kw["diagonalizer"] + 0.2 * I.generic(4, *kw["diagonalizer"].shape)
        if C.is_output_based(cfg):
            kw["demix_filter"] = np.eye(n) + 0.2 * I.generic(4, S.F, n, n)
    ra, rb = D.Recorder(), D.Recorder()
    ma, oa = D.run(cfg, X, N, callbacks=ra, call_kw={k: v.copy() for k, v in kw.items()}, **extra)
    if cfg["cls"] == "CACGMM":
        extra["rng"] = TapRng(3, S)
    mb, ob = D.run(cfg, S.data(X), N, callbacks=rb, call_kw={k: S.par(k, v.copy()) for k, v in kw.items()}, **extra)
    ctx.step(2 * N)
    ctx.trace()
    for s in ra.states:
        ctx.state(C.cfg_name(cfg), s)
    ctx.outcome(S.name)
    if not all(np.isfinite(v).all() for s in ra.states for v in s.values()):
        return ctx.outcome("non-finite")
    chan = basis and S.fam in ("mnmf", "cacgmm")  # images in the other channel basis
    norm = cfg["kw"].get("normalization", S.fam == "mnmf" or None)
    states_scale = S.name == "scale" and (norm is not False)  # parameters move between factors
    pair = str(cfg["kw"].get("spatial_algorithm", cfg["kw"].get("diagonalizer_algorithm", "")))[-1:] in ("2", "A") or cfg["cls"] == "CACGMM"
    for i, (s, t) in enumerate(zip(ra.states, rb.states)):
        rtol = 1e-7 * 10**i
        for k in sorted(set(s) & set(t)):
            if k == "output":
                if chan or (S.name == "scale"):
                    continue
                a, b = S.output(s[k]), t[k]
            elif S.name == "scale" and k in ("demix_filter", "diagonalizer", "basis", "activation", "variance", "instant_covariance",
                                             "spatial", "latent", "output"):
                continue
            elif basis and S.fam == "mnmf" and norm is not False and k in ("spatial", "basis", "diagonalizer", "latent"):
                continue  # the normalization fixes the scale in the other basis
            else:
                a, b = S.par(k, s[k]), t[k]
            if pair and k in ("demix_filter", "diagonalizer", "output"):
                ax = -1
                p = np.sum(a * b.conj(), axis=ax, keepdims=True)
                b = b * p / np.maximum(np.abs(p), 1e-300)
            ctx.close(b, a, "iter%d:%s" % (i, k), rtol=rtol)
    rtol = 1e-7 * 10**N
    if not chan:
        a, b = S.output(oa), ob
        if pair and basis:
            p = np.sum(a * b.conj(), axis=-1, keepdims=True)
            b = b * p / np.maximum(np.abs(p), 1e-300)
        if cfg["cls"] in WHITE:
            a, b = np.abs(a), np.abs(b)  # whitening leaves a phase open
        ctx.close(b, a, "output", rtol=rtol)
    if ma.loss is not None and S.name != "subset":
        la, lb = np.array(ma.loss, float), np.array(mb.loss, float)
        if S.name in ("scale", "linear"):
            la, lb = la - la[-1], lb - lb[-1]
        if S.name == "scale" and S.fam in ("fdica", "iva"):  # the scale settles in the first iteration (Gauss) or geometrically
            la, lb = (la[1:], lb[1:]) if "Gauss" in cfg["cls"] else (la[:0], lb[:0])
        ctx.close(lb, la, "loss", rtol=rtol, atol=rtol * max(1.0, np.abs(ma.loss).max()))
