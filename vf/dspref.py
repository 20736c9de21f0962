"""Independent float64 reference implementations of the spectrometer and correlator definitions."""
import numpy as np

C = 299792458.0
NTAP = 4


def as_complex(signals):
    """Whatever dtype the library accepts -> (float64/complex128 array, is complex)."""
    if signals.dtype.names:
        re, im = signals.dtype.names[:2]
        return signals[re].astype(np.float64) + 1j * signals[im].astype(np.float64), True
    if signals.dtype.kind == 'c':
        return signals.astype(np.complex128), True
    return signals.astype(np.float64), False


def frequencies(LFFT, is_complex, sample_rate, central_freq):
    if is_complex:
        k = np.arange(LFFT) - LFFT // 2
        return k * sample_rate / LFFT + central_freq
    return np.arange(LFFT) * sample_rate / (2 * LFFT)


def pfb_window(L):
    i = np.arange(L * NTAP)
    return np.sinc((i - L * NTAP / 2.0 + 0.5) / L) * (0.54 - 0.46 * np.cos(2 * np.pi * i / (L * NTAP)))


def blocks(x, LFFT, is_complex, window=None, pfb=False, clip=0, overlap=1, start=0, stop_max=0):
    """Transforms of one stream.  Returns (F[nFFT, LFFT], valid[nFFT], ambiguous)."""
    L = LFFT if is_complex else 2 * LFFT
    avail = len(x) - stop_max
    out, valid, amb = [], [], False
    j = 0
    while L * j // overlap + L <= avail:
        s = start + L * j // overlap
        if pfb:
            lo = s - L * (NTAP - 1)
            seg = np.zeros(L * NTAP, dtype=x.dtype)
            idx = np.arange(lo, lo + L * NTAP)
            ok = idx >= 0
            seg[ok] = x[idx[ok]]
        else:
            seg = x[s:s + L]
        good = True
        if clip:
            mag = np.abs(seg)
            if is_complex and (np.abs(mag - clip) < 1e-4 * clip).any():
                amb = True
            if (mag >= clip).any():
                good = False
        if pfb:
            y = (seg * pfb_window(L)).reshape(NTAP, L).sum(axis=0)
        else:
            y = seg if window is None else seg * np.asarray(window(L), dtype=np.float64)
        F = np.fft.fft(y)
        if is_complex:
            F = np.fft.fftshift(F)
        else:
            F = F[:LFFT]
        out.append(F if good else np.zeros_like(F))
        valid.append(good)
        j += 1
    if not out:
        return np.zeros((0, LFFT), dtype=np.complex128), np.zeros(0, dtype=bool), amb
    return np.array(out), np.array(valid), amb


def spectra(signals, LFFT, window=None, pfb=False, clip=0):
    x, cplx = as_complex(signals)
    L = LFFT if cplx else 2 * LFFT
    res, amb, empty = [], False, []
    for s in x:
        F, v, a = blocks(s, LFFT, cplx, window, pfb, clip)
        amb |= a
        n = v.sum()
        empty.append(n == 0)
        res.append((np.abs(F) ** 2).sum(axis=0) / (L * max(n, 1)))
    return np.array(res), amb, np.array(empty)


def stokes(X, Y, LFFT, window=None, pfb=False, clip=0):
    x, cplx = as_complex(X)
    y, _ = as_complex(Y)
    L = LFFT if cplx else 2 * LFFT
    res, amb, empty = [], False, []
    for a, b in zip(x, y):
        FX, vX, a1 = blocks(a, LFFT, cplx, window, pfb, clip)
        FY, vY, a2 = blocks(b, LFFT, cplx, window, pfb, clip)
        amb |= a1 | a2
        v = vX & vY
        n = v.sum()
        empty.append(n == 0)
        FX, FY = FX[v], FY[v]
        xy = FX * FY.conj()
        d = L * max(n, 1)
        res.append([(np.abs(FX) ** 2 + np.abs(FY) ** 2).sum(axis=0) / d,
                    (np.abs(FX) ** 2 - np.abs(FY) ** 2).sum(axis=0) / d,
                    2 * xy.real.sum(axis=0) / d, 2 * xy.imag.sum(axis=0) / d])
    return np.array(res).transpose(1, 0, 2), amb, np.array(empty)


def pointing(az_deg, alt_deg):
    az, alt = np.radians(az_deg), np.radians(alt_deg)
    return np.array([np.cos(alt) * np.sin(az), np.cos(alt) * np.cos(az), np.sin(alt)])


def cable_delay(c, freq):
    ln = c.length * c.stretch
    with np.errstate(all='ignore'):
        d = ln / (c.vf * C) + c.dd * (ln / 100.0) / np.sqrt(np.asarray(freq) / c.ref_freq) + c.clock_offset
    return d


def cable_gain(c, freq):
    ln = c.length * c.stretch
    att = np.exp(2 * c.a0 * ln * np.sqrt(freq / c.ref_freq) + c.a1 * ln * (freq / c.ref_freq))
    return 1.0 / (att * 10 ** (c.asp_atten_db / 10))


def delays(ants, freq, src):
    d = np.array([cable_delay(a.cable, freq) - np.dot(src, a.stand.xyz) / C for a in ants])
    if not np.isfinite(d).all():
        d[~np.isfinite(d)] = d[np.isfinite(d)].max()
    return d


def fengine(x, cplx, d, freq, LFFT, sample_rate, window, pfb, clip, overlap):
    L = LFFT if cplx else 2 * LFFT
    fr = d[:, LFFT // 2] * sample_rate
    fifo = np.floor(np.abs(fr) + 0.5).astype(int) * np.sign(fr).astype(int)
    amb = bool((np.abs(np.abs(fr - np.floor(fr)) - 0.5) < 1e-6).any())
    fmax = max(0, fifo.max()) if len(fifo) else 0
    out, valid = [], []
    ref = freq[LFFT // 2] if cplx else 0.0
    for i in range(len(x)):
        F, v, a = blocks(x[i], LFFT, cplx, window, pfb, clip, overlap, start=fifo[i], stop_max=fmax)
        amb |= a
        frac = d[i] - fifo[i] / sample_rate
        rot = np.exp(2j * np.pi * freq * frac) * np.exp(2j * np.pi * ref * fifo[i] / sample_rate) / np.sqrt(L)
        out.append(F * rot)
        valid.append(v)
    return np.array(out), np.array(valid), amb


def pair(F1, v1, F2, v2):
    """<F1 conj(F2)> over jointly valid transforms (NaN if there are none)."""
    k = min(len(v1), len(v2))
    F1, v1, F2, v2 = F1[:k], v1[:k], F2[:k], v2[:k]
    n = (v1 & v2).sum()
    s = (F1 * F2.conj()).sum(axis=0)
    return s / n if n else np.full(s.shape, np.nan + 0j)


def judge_stokes(m, got, xx, yy, xy, yx, div, scale, rtol, mech, **detail):
    """Compare a (4, nchan) Stokes visibility with the one its linear products define.  For U and V the library (and its test suite)
    use only the XY product and its conjugate, which drops the imaginary part; that is reported under its own mechanism (a known finding)."""
    full = [xx + yy, xx - yy, xy + yx, (xy - yx) / 1j]
    part = [None, None, xy + xy.conj(), (xy - xy.conj()) / 1j]
    for s in range(4):
        ref = full[s] / div
        if s > 1 and np.shape(got[s]) == ref.shape and not (np.abs(got[s] - ref) <= rtol * np.asarray(scale)).all() \
                and (np.abs(got[s] - part[s] / div) <= rtol * np.asarray(scale)).all():
            m.event('uv_from_xy_only')
            m.violation('stokes-uv-from-xy-only', 'Stokes %s is %s Re/Im of XY only instead of the complex combination of XY and YX' % ('IQUV'[s], '2x'))
        else:
            m.close(got[s], ref, mech + '-' + 'IQUV'[s], rtol=rtol, scale=scale, **detail)
