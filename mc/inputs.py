"""Alphabets of inputs.  Every letter is a fixed deterministic array (no sampling at run time)."""

import itertools

import numpy as np


def _rs(*key):
    s = 0
    for k in key:
        s = (s * 1000003 + int(k) + 12345) % (2**31 - 1)
    return np.random.RandomState(s)


def generic(k, *shape, complex_=True):
    """k-th generic letter: full-rank, unequal channel powers, non-stationary envelopes."""
    rs = _rs(k, *shape)
    x = rs.standard_normal(shape)
    if complex_:
        x = x + 1j * rs.standard_normal(shape)
    return x


def mixture(k, n_channels, n_bins, n_frames):
    """k-th convolutive mixture letter: independent non-stationary sources through a per-bin mixing matrix."""
    rs = _rs(77, k, n_channels, n_bins, n_frames)
    n_sources = n_channels
    env = rs.uniform(0.1, 2.0, size=(n_sources, 1, n_frames)) * rs.uniform(0.5, 1.5, size=(n_sources, n_bins, 1))
    s = env * (rs.standard_normal((n_sources, n_bins, n_frames)) + 1j * rs.standard_normal((n_sources, n_bins, n_frames)))
    a = np.eye(n_channels) + 0.5 * (
        rs.standard_normal((n_bins, n_channels, n_sources)) + 1j * rs.standard_normal((n_bins, n_channels, n_sources))
    )
    x = a @ s.transpose(1, 0, 2)
    return np.ascontiguousarray(x.transpose(1, 0, 2))


def waveform(k, n_channels, n_samples):
    rs = _rs(99, k, n_channels, n_samples)
    s = rs.laplace(size=(n_channels, n_samples)) * rs.uniform(0.3, 2, size=(n_channels, 1))
    a = np.eye(n_channels) + 0.4 * rs.standard_normal((n_channels, n_channels))
    return a @ s


def letter(name, n_channels, n_bins, n_frames):
    """named spectrogram letters used by the state-space explorations"""
    kind, _, arg = name.partition(":")
    if kind == "mix":
        return mixture(int(arg or 0), n_channels, n_bins, n_frames)
    if kind == "gen":
        return generic(int(arg or 0), n_channels, n_bins, n_frames)
    x = mixture(int(arg or 0), n_channels, n_bins, n_frames)
    if kind == "loud":
        return x * 1e4
    if kind == "quiet":
        return x * 1e-3
    if kind == "silentframe":
        x = x.copy()
        x[:, :, n_frames // 2] = 0
        return x
    if kind == "silentstart":
        x = x.copy()
        x[:, :, 0] = 0
        return x
    if kind == "silentbin":
        x = x.copy()
        x[:, 0, :] = 0
        return x
    if kind == "tilt":  # levels of the bins differ by up to three orders of magnitude
        return x * 10.0 ** -((2.0 * np.arange(n_bins)[:, None] + 1) % 4)
    if kind == "real":
        return x.real + 0j
    if kind == "int":
        return np.round(3 * x.real) + 1j * np.round(3 * x.imag)
    if kind == "dup":  # repeated frames
        x = x.copy()
        x[:, :, 1] = x[:, :, 0]
        return x
    if kind == "copychannel":
        x = x.copy()
        x[-1] = x[0]
        return x
    raise KeyError(name)


def words(alphabet, n):
    return itertools.product(alphabet, repeat=n)
