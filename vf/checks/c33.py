"""C33 - the magnetic field, electron content and pierce points are those of the models and maps."""
import math
import os

RULE = ('random places, epochs (1900 to 2030) and elevations for the field, against an independent spherical-harmonic synthesis; random sites and directions (every quadrant, zenith, horizon, poles) for pierce points, against ray tracing to the ellipsoid height; random maps of all seven '
        'providers, served over the loopback network by a server that loses some of them, for the electron content; distinct = distinct cases')
OPTS = {'scale': 3}
NEED = {'field': 100, 'pierce': 100, 'tec': 200, 'maps': 25, 'rapid': 2, 'mirror': 2, 'cached': 10}
A, F = 6378137.0, 1 / 298.257223563
E2 = F * (2 - F)


def _ecef(lat, lon, h):
    n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    return ((n + h) * math.cos(lat) * math.cos(lon), (n + h) * math.cos(lat) * math.sin(lon), (n * (1 - E2) + h) * math.sin(lat))


def _geo(x, y, z):
    """latitude, longitude (rad) and height by iteration"""
    p = math.hypot(x, y)
    lat = math.atan2(z, p * (1 - E2))
    for _ in range(12):
        n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
        lat = math.atan2(z + E2 * n * math.sin(lat), p)
    n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    h = p * math.cos(lat) + z * math.sin(lat) - A * A / n
    return lat, math.atan2(y, x), h


def _mjd(y, mo=1, d=1):
    import datetime
    return (datetime.date(y, mo, d) - datetime.date(1858, 11, 17)).days


def _igrf():
    from vf.common import REPO
    rows, years = {}, None
    for l in open(os.path.join(REPO, 'lsl/data/geo/igrf14coeffs.txt')):
        f = l.split()
        if f and f[0] == 'g/h':
            years = [float(y) for y in f[3:-1]]
        elif f and f[0] in 'gh' and years:
            rows[f[0], int(f[1]), int(f[2])] = [float(v) for v in f[3:]]
    return years, rows


def _field(table, lat, lon, h, mjd):
    """north, east, up and ecef components (nT), by Schmidt recursion"""
    years, rows = table
    import datetime
    d = datetime.date(1858, 11, 17) + datetime.timedelta(days=int(math.floor(mjd)))
    a, b = _mjd(d.year), _mjd(d.year + 1)
    yr = d.year + (mjd - a) / (b - a)
    x, y, z = _ecef(lat, lon, h)
    r = math.sqrt(x * x + y * y + z * z)
    th, ph = math.acos(z / r), math.atan2(y, x)
    if yr >= years[-1]:
        co = {k: v[len(years) - 1] + v[-1] * (yr - years[-1]) for k, v in rows.items()}
    else:
        i = max(k for k in range(len(years)) if years[k] <= yr)
        w = (yr - years[i]) / (years[i + 1] - years[i])
        co = {k: v[i] * (1 - w) + v[i + 1] * w for k, v in rows.items()}
    N = 13
    s, c = math.sin(th), math.cos(th)
    P, dP = {(0, 0): 1.0}, {(0, 0): 0.0}
    for n in range(1, N + 1):
        for m in range(n + 1):
            if n == m:
                k = math.sqrt((2 * n - 1) / (2.0 * n)) if n > 1 else 1.0
                P[n, m] = k * s * P[n - 1, m - 1]
                dP[n, m] = k * (c * P[n - 1, m - 1] + s * dP[n - 1, m - 1])
            else:
                q = math.sqrt(n * n - m * m)
                P[n, m] = (2 * n - 1) / q * c * P[n - 1, m]
                dP[n, m] = (2 * n - 1) / q * (c * dP[n - 1, m] - s * P[n - 1, m])
                if n - 2 >= m:
                    t = math.sqrt((n - 1) ** 2 - m * m) / q
                    P[n, m] -= t * P[n - 2, m]
                    dP[n, m] -= t * dP[n - 2, m]
    br = bt = bp = 0.0
    for n in range(1, N + 1):
        f = (6371200.0 / r) ** (n + 2)
        for m in range(n + 1):
            g, hh = co.get(('g', n, m), 0.0), co.get(('h', n, m), 0.0)
            cc = g * math.cos(m * ph) + hh * math.sin(m * ph)
            br += (n + 1) * f * cc * P[n, m]
            bt -= f * cc * dP[n, m]
            bp += f * m * (g * math.sin(m * ph) - hh * math.cos(m * ph)) * P[n, m] / s
    X = (br * s + bt * c) * math.cos(ph) - bp * math.sin(ph)
    Y = (br * s + bt * c) * math.sin(ph) + bp * math.cos(ph)
    Z = br * c - bt * s
    north = -math.sin(lat) * math.cos(lon) * X - math.sin(lat) * math.sin(lon) * Y + math.cos(lat) * Z
    east = -math.sin(lon) * X + math.cos(lon) * Y
    up = math.cos(lat) * math.cos(lon) * X + math.cos(lat) * math.sin(lon) * Y + math.sin(lat) * Z
    return (north, east, up), (X, Y, Z), yr


def field(m, n):
    import time
    from lsl.misc import ionosphere as I
    table = _igrf()
    for k in range(m.n(n)):
        rng = m.rng(k)
        lat = rng.choice([0.0, 34.07, 89.0, -89.0, rng.uniform(-89.9, 89.9), rng.uniform(-89.9, 89.9)])
        lon = rng.choice([0.0, 180.0, -180.0, -107.63, 252.4, rng.uniform(-180, 180), rng.uniform(-180, 360)])
        h = rng.choice([0.0, 2133.0, 450e3, rng.uniform(-100, 800e3)])
        y = rng.choice([1900, 1904, 1905, 1999, 2000, 2012, 2024, 2025, 2029, rng.randint(1900, 2029), rng.randint(1900, 2029)])
        mjd = _mjd(y) + rng.choice([0, 0.5, 364.9, 59, rng.uniform(0, 364.9)])
        if rng.random() < 0.1:
            mjd = int(mjd)
        with m.case({'lat': lat, 'lon': lon, 'elev': h, 'mjd': mjd}):
            top, ecef, yr = _field(table, math.radians(lat), math.radians(lon), h, mjd)
            b = I.get_magnetic_field(lat, lon, h, mjd=mjd)
            m.close(b, top, 'field-topocentric', atol=0.02, rtol=0)
            m.close(I.get_magnetic_field(lat, lon, h, mjd=mjd, ecef=True), ecef, 'field-ecef', atol=0.02, rtol=0)
            bh = math.hypot(b[0], b[1])
            dec = I.compute_magnetic_declination(*b)
            if bh < 99.9:
                m.check(math.isnan(dec), 'declination-at-pole', lambda: 'got %r' % dec)
            elif bh > 100.1:
                m.check(abs((dec - math.degrees(math.atan2(b[1], b[0])) + 180) % 360 - 180) < 1e-6, 'declination', lambda: 'got %r for %r' % (dec, b))
            m.check(abs(I.compute_magnetic_inclination(*b) - math.degrees(math.atan2(-b[2], bh))) < 1e-6, 'inclination', lambda: 'for %r' % (b,))
            m.event('field')
    for k in range(m.n(30)):
        rng = m.rng('angles', k)
        b = [rng.choice([0.0, rng.uniform(-6e4, 6e4), rng.uniform(-150, 150)]) for _ in range(3)]
        bh = math.hypot(b[0], b[1])
        if abs(bh - 100) < 1e-3:
            continue
        with m.case({'field': b}):
            dec = I.compute_magnetic_declination(*b)
            if bh < 100:
                m.check(math.isnan(dec), 'declination-at-pole')
            else:
                m.check(abs((dec - math.degrees(math.atan2(b[1], b[0])) + 180) % 360 - 180) < 1e-6, 'declination', lambda: 'got %r for %r' % (dec, b))
            if any(b):
                m.check(abs(I.compute_magnetic_inclination(*b) - math.degrees(math.atan2(-b[2], bh))) < 1e-6, 'inclination')
    with m.case({'what': 'now and out of range'}):
        now = 40587 + time.time() / 86400.0
        if now < _mjd(2029, 12, 30):
            m.close(I.get_magnetic_field(34.0, -107.0, 2000.0), I.get_magnetic_field(34.0, -107.0, 2000.0, mjd=now), 'field-now', atol=0.05, rtol=0)
        m.raises(RuntimeError, lambda: I.get_magnetic_field(34.0, -107.0, 2000.0, mjd=_mjd(1899, 12, 30)), 'field-before-1900')


def pierce(m, n):
    import ephem
    from astropy.coordinates import Angle
    from lsl.common.stations import LWAStation, lwa1
    from lsl.misc import ionosphere as I
    for k in range(m.n(n)):
        rng = m.rng(k)
        if rng.random() < 0.3:
            st = lwa1
        else:
            st = LWAStation('x', rng.choice([0.0, 80.0, -85.0, rng.uniform(-89, 89)]), rng.choice([179.99, -179.99, 0.0, rng.uniform(-180, 180)]), rng.choice([0.0, 2133.0, 5000.0]))
        az = rng.choice([0.0, 0.01, 359.99, 90.0, 180.0, 270.0, rng.uniform(0, 360), rng.uniform(0, 360)])
        el = rng.choice([90.0, 89.99, 45.0, 10.0, 0.5, rng.uniform(0.5, 90), rng.uniform(5, 90)])
        H = rng.choice([450e3, 450e3, 300e3, 100e3, 1000e3])
        kw = {} if H == 450e3 and rng.random() < 0.5 else {'height': H}
        form = rng.choice(['deg', 'deg', 'ephem', 'astro', 'mixed'])
        a = {'deg': az, 'ephem': ephem.degrees(math.radians(az)), 'astro': Angle(az, 'deg'), 'mixed': ephem.degrees(math.radians(az))}[form]
        e = {'deg': el, 'ephem': ephem.degrees(math.radians(el)), 'astro': Angle(math.radians(el), 'rad'), 'mixed': el}[form]
        with m.case({'site': [float(st.lat), float(st.lon), float(st.elev)], 'az': az, 'el': el, 'height': H, 'form': form}):
            la, lo = float(st.lat), float(st.lon)
            p = _ecef(la, lo, float(st.elev))
            ca, sa, ce, se = math.cos(math.radians(az)), math.sin(math.radians(az)), math.cos(math.radians(el)), math.sin(math.radians(el))
            d = (-math.sin(lo) * sa * ce - math.sin(la) * math.cos(lo) * ca * ce + math.cos(la) * math.cos(lo) * se,
                 math.cos(lo) * sa * ce - math.sin(la) * math.sin(lo) * ca * ce + math.cos(la) * math.sin(lo) * se,
                 math.cos(la) * ca * ce + math.sin(la) * se)
            lo_, hi_ = 0.0, 2e7
            for _ in range(70):
                mid = (lo_ + hi_) / 2
                if _geo(*[p[i] + mid * d[i] for i in range(3)])[2] < H:
                    lo_ = mid
                else:
                    hi_ = mid
            q = [p[i] + lo_ * d[i] for i in range(3)]
            got = I.get_ionospheric_pierce_point(st, a, e, **kw)
            g = _ecef(math.radians(got[0]), math.radians(got[1]), got[2])
            miss = math.dist(g, q)
            m.check(got[2] == H, 'pierce-height', lambda: 'height %r, asked for %r' % (got[2], H))
            m.check(miss < 20.0, 'pierce-point', lambda: 'pierce point %r is %.1f m from where the line of sight reaches %g m' % (got, miss, H))
            m.check(abs(got[0]) <= 90 and abs(got[1]) <= 360, 'pierce-range', lambda: '%r' % (got,))
            m.event('pierce')


class Maps:
    """A day of maps: dates (MJD), latitudes (north first), longitudes, values [t, lat, lon]"""

    def __init__(self, rng, nr, day, minutes, first, missing):
        import numpy as np
        self.day = day
        self.min = list(range(first, 24 * 60 + (1 if first == 0 else 0), minutes))
        self.lats = np.arange(87.5, -87.6, -rng.choice([12.5, 25.0, 35.0]))
        self.lngs = np.arange(-180, 180.1, rng.choice([20.0, 40.0, 60.0, 5.0]))
        s = (len(self.min), len(self.lats), len(self.lngs))
        self.tec = nr.integers(0, 1200, s) / 10.0
        self.rms = nr.integers(0, 90, s) / 10.0 if rng.random() < 0.7 else None
        if missing:
            self.tec[nr.random(s) < 0.1] = np.nan
        self.dates = np.array([day + q / 1440.0 for q in self.min])

    def text(self, rng):
        import datetime
        import numpy as np
        d0 = datetime.datetime(1858, 11, 17) + datetime.timedelta(days=self.day)
        t = ['     1.0            IONOSPHERE MAPS     GPS                 IONEX VERSION / TYPE', '     0' + ' ' * 54 + 'EXPONENT', ' ' * 60 + 'END OF HEADER']
        for kind, v in (('TEC', self.tec), ('RMS', self.rms)):
            if v is None:
                continue
            for i, q in enumerate(self.min):
                e = d0 + datetime.timedelta(minutes=q)
                if q == 1440 and rng.random() < 0.5:
                    ep = [d0.year, d0.month, d0.day, 24, 0, 0]
                else:
                    ep = [e.year, e.month, e.day, e.hour, e.minute, e.second]
                t.append('%6d%s' % (i + 1, ' ' * 54) + 'START OF %s MAP' % kind)
                t.append(''.join('%6d' % x for x in ep) + ' ' * 24 + 'EPOCH OF CURRENT MAP')
                for j, la in enumerate(self.lats):
                    t.append('  %6.1f%6.1f%6.1f%6.1f%6.1f' % (la, self.lngs[0], self.lngs[-1], self.lngs[1] - self.lngs[0], 450.0) + ' ' * 28 + 'LAT/LON1/LON2/DLON/H')
                    row = [9999 if np.isnan(x) else int(round(x * 10)) for x in v[i, j]]
                    for a in range(0, len(row), 16):
                        t.append(''.join('%5d' % x for x in row[a:a + 16]))
                t.append('%6d%s' % (i + 1, ' ' * 54) + 'END OF %s MAP' % kind)
        t.append(' ' * 60 + 'END OF FILE')
        return ('\n'.join(t) + '\n').encode()

    def errors(self):
        return self.tec * 0.05 if self.rms is None else self.rms

    def at(self, v, mjd):
        import numpy as np
        d = self.dates
        if mjd <= d[0]:
            return v[0]
        if mjd >= d[-1]:
            return v[-1]
        i = int(np.searchsorted(d, mjd, side='right')) - 1
        w = (mjd - d[i]) / (d[i + 1] - d[i])
        if abs(mjd - d[i]) < 1e-9:
            return v[i]
        return v[i] * (1 - w) + v[i + 1] * w

    def spot(self, v, mjd, lat, lng):
        import numpy as np
        f = self.at(v, mjd)
        la, f = self.lats[::-1], f[::-1]
        lat = min(max(lat, la[0]), la[-1])
        i = int(np.clip(np.searchsorted(la, lat, side='right') - 1, 0, len(la) - 2))
        j = int(np.clip(np.searchsorted(self.lngs, lng, side='right') - 1, 0, len(self.lngs) - 2))
        u, w = (lat - la[i]) / (la[i + 1] - la[i]), (lng - self.lngs[j]) / (self.lngs[j + 1] - self.lngs[j])
        return f[i, j] * (1 - u) * (1 - w) + f[i + 1, j] * u * (1 - w) + f[i, j + 1] * (1 - u) * w + f[i + 1, j + 1] * u * w


def _ask(m, I, rng, mp, kind, tag, missing=False):
    import numpy as np
    d = mp.dates
    lo, hi = max(mp.day, d[0] - 0.003), min(mp.day + 1 - 1e-6, d[-1] + 0.003)
    for q in range(6):
        k = rng.randrange(len(d))
        mjd = rng.choice([d[k], (d[k] + d[k - 1]) / 2, rng.uniform(lo, hi), rng.uniform(lo, hi), d[k] + 1e-5, d[k] - 1e-5])
        mjd = float(min(max(mjd, lo), hi))
        with m.case({'type': kind, 'mjd': mjd, 'day': mp.day, 'maps': len(d), 'case': tag}):
            E = mp.errors()
            at = d[np.argmin(np.abs(d - mjd))]
            # a request within a rounding error of a map may see the map alone
            name = rng.choice([kind, kind.lower()])
            kw = {} if kind == 'IGS' and rng.random() < 0.3 else {'type': name}
            if missing or rng.random() < 0.3:
                r = I.get_tec_value(mjd, include_rms=True, **kw)
                want, werr = mp.at(mp.tec, mjd), mp.at(E, mjd)
                if missing and abs(at - mjd) < 1e-6 and at != mjd:
                    continue
                m.close(r[0], want, 'tec-map', rtol=1e-4, scale=120.0)
                m.close(r[1], werr, 'rms-map', rtol=1e-4, scale=120.0)
            else:
                lat = rng.choice([0.0, 34.07, float(rng.choice(list(mp.lats))), rng.uniform(float(mp.lats[-1]), float(mp.lats[0])), float(mp.lats[0])])
                lat = min(max(lat, float(mp.lats[-1])), float(mp.lats[0]))
                lng = rng.choice([-107.63, float(rng.choice(list(mp.lngs))), rng.uniform(float(mp.lngs[0]), float(mp.lngs[-1]))])
                lng = min(max(lng, float(mp.lngs[0])), float(mp.lngs[-1]))
                if rng.random() < 0.5:
                    r = I.get_tec_value(mjd, lat=lat, lng=lng, include_rms=True, **kw)
                    m.close(np.ravel(r[1]), [mp.spot(E, mjd, lat, lng)], 'rms-value', rtol=1e-4, scale=120.0)
                    r = r[0]
                else:
                    r = I.get_tec_value(mjd, lat=lat, lng=lng, **kw)
                m.close(np.ravel(r), [mp.spot(mp.tec, mjd, lat, lng)], 'tec-value', rtol=1e-4, scale=120.0)
            m.event('tec')


NAMES = {'IGS': (('igsg', 'igrg'), ('IGS0OPSFIN', 'IGS0OPSRAP'), '02H', 120), 'JPL': (('jplg', 'jprg'), None, '', 120), 'EMR': (('emrg', 'ehrg'), ('EMR0OPSFIN', 'EMR0OPSRAP'), '01H', 60),
         'UQR': (('uqrg', 'uqrg'), None, '', 15), 'CODE': (('codg', 'codg'), ('COD0OPSFIN', 'COD0OPSFIN'), '01H', 60)}


def _config(s):
    from lsl.config import LSL_CONFIG
    for t in ('igs', 'jpl', 'emr', 'uqr', 'code', 'ustec', 'glotec'):
        LSL_CONFIG.set('ionosphere.%s_url' % t, 'http://127.0.0.1:%d/a/iono' % s.port)
        LSL_CONFIG.set('ionosphere.%s_mirror' % t, 'http://127.0.0.1:%d/b/iono' % s.port)


def ionex(m, n):
    import datetime
    import gzip
    from lsl.misc import ionosphere as I
    from vf.checks.c16 import Site
    s = Site(m)
    try:
        _config(s)
        used = set()
        for k in range(m.n(n)):
            rng, nr = m.rng(k), m.nprng(k)
            kind = sorted(NAMES)[k % len(NAMES)]
            (short, long, step, minutes) = NAMES[kind]
            minutes = rng.choice([minutes, minutes, 120, 60, 30])
            y = rng.choice([2003, 2012, 2020, 2022, 1999])
            day = _mjd(y) + rng.choice([0, 58, 59, 364, rng.randrange(365)])
            if any((kind, day + q) in used for q in (-1, 0, 1)):
                continue
            used |= {(kind, day)}
            missing = rng.random() < 0.2
            first = 0 if rng.random() < 0.8 else minutes // 2
            mp = Maps(rng, nr, day, minutes, first, missing)
            dt = datetime.date(1858, 11, 17) + datetime.timedelta(days=day)
            yy, doy = dt.year, dt.timetuple().tm_yday
            decoy = Maps(rng, nr, day, 120, 0, False)

            def files(p, dd=0):
                """long (gz) and short (Z) names of the final (0) or rapid (1) product"""
                dx = dt + datetime.timedelta(days=dd)
                Y, D = dx.year, dx.timetuple().tm_yday
                out = ['iono/%04d/%03d/%s%03d0.%02di.Z' % (Y, D, short[p], D, Y % 100)]
                if long:
                    out.append('iono/%04d/%03d/%s_%04d%03d0000_01D_%s_GIM.INX.gz' % (Y, D, long[p], Y, D, step))
                return out
            data = gzip.compress(mp.text(rng))
            other = gzip.compress(decoy.text(rng))
            for dd in (-1, 1):
                for p in (0, 1):
                    for f in files(p, dd):
                        s.put(f, data=other, a='full', b='full')
            scen = ['final', 'mirror', 'rapid', 'broken', 'late', 'mirror'][k // len(NAMES) % 6]
            if short[0] == short[1] and scen == 'rapid':
                scen = 'final'
            bad = rng.choice(['404', '500', 'trunc', 'empty', 'reset'])
            final, rapid = files(0), files(1)
            for f in rapid + final:
                s.files.pop(f, None)
            s.write()
            if scen in ('final', 'mirror', 'broken', 'late'):
                for f in (rng.sample(final, 1) if rng.random() < 0.6 else final):
                    if scen == 'broken' and f.endswith('.Z'):
                        s.put(f, data=b'this is not compressed' * 5, a='full', b='404')
                    else:
                        s.put(f, data=data, a='full' if scen != 'mirror' else bad, b='full')
                for f in rapid:
                    if f not in final:
                        s.put(f, data=other, a='full', b='full')
                if scen == 'broken':
                    # the final product can be fetched from nowhere; the rapid one, if any, can
                    for f in final:
                        if f in s.files and not f.endswith('.Z'):
                            s.put(f, a=bad, b=rng.choice(['404', bad]))
                    for f in rapid:
                        if f not in final:
                            s.put(f, data=data, a='full', b='full')
            else:
                for f in final:
                    s.put(f, data=other, a=bad, b=bad)
                for f in (rng.sample(rapid, 1) if rng.random() < 0.5 else rapid):
                    s.put(f, data=data, a=rng.choice(['full', '404']), b='full')
            tag = {'scenario': scen, 'bad': bad}
            if scen == 'late' or scen == 'broken' and short[0] == short[1]:
                keep = {f: dict(s.files[f]) for f in final + rapid if f in s.files}
                for f in keep:
                    s.files.pop(f)
                if scen == 'broken':
                    for f in final:
                        if f.endswith('.Z'):
                            s.files[f] = {'data': b'this is not compressed' * 5, 'mtime': 1.6e9, 'a': 'full', 'b': 'full', 'cut': 0.5, 'delay': 0}
                s.write()
                with m.case({'type': kind, 'day': day, 'case': tag, 'what': 'not there yet'}):
                    try:
                        r = I.get_tec_value(day + 0.3, lat=34.0, lng=-107.0, type=kind)
                        m.violation('tec-from-nothing', 'a value for a day without a map: %r' % (r,))
                    except Exception as e:
                        if type(e).__module__.startswith('vf'):
                            raise
                for f in final:
                    s.put(f, data=data, a='full', b='full')
            _ask(m, I, rng, mp, kind, tag, missing)
            m.event('maps')
            if scen in ('rapid', 'mirror'):
                m.event(scen)
            # once there, the server is not needed any more
            for f in final + rapid:
                s.files.pop(f, None)
            s.write()
            if scen not in ('rapid',) and not (scen == 'broken' and short[0] != short[1]):
                open(s.plan + '.log', 'w').close()
                _ask(m, I, rng, mp, kind, dict(tag, cached=True), missing)
                m.check(not s.requests(), 'tec-fetched-again', lambda: 'requests for a map that is in the cache: %r' % s.requests()[:3])
                m.event('cached')
    finally:
        s.close()


def ustec(m, n):
    import datetime
    import io
    import tarfile
    import numpy as np
    from lsl.misc import ionosphere as I
    from vf.checks.c16 import Site
    s = Site(m)
    try:
        _config(s)
        used = set()
        for k in range(m.n(n)):
            rng, nr = m.rng(k), m.nprng(k)
            day = _mjd(rng.choice([2012, 2016, 2021])) + rng.randrange(364)
            if day in used:
                continue
            used.add(day)
            mp = Maps(rng, nr, day, 15, 0, False)
            mp.min = mp.min[:-1]
            q = sorted(rng.sample(range(96), 40)) if rng.random() < 0.3 else list(range(96))
            q = list(range(q[0], q[0] + len(q))) if q[0] + len(q) <= 96 else list(range(96))
            mp.min = [15 * i for i in q]
            mp.dates = np.array([day + x / 1440.0 for x in mp.min])
            nla, nln = rng.choice([(6, 9), (9, 6), (7, 7)])
            mp.lats = np.linspace(10, 60, nla)[::-1].round(1)
            mp.lngs = np.linspace(-150, -50, nln).round(1)
            mp.tec = nr.integers(0, 900, (len(mp.min), nla, nln)) / 10.0
            dt = datetime.date(1858, 11, 17) + datetime.timedelta(days=day)
            rl, rg = np.linspace(10, 60, 3), np.linspace(-150, -50, 4).round(1)
            with_err = rng.random() < 0.7
            err = nr.integers(0, 90, (len(mp.min), 3, 4)) / 10.0
            buf = io.BytesIO()

            def grid(las, lns, v):
                t = ['# comment', ':Product: x', '    0' + ''.join('%7d' % round(10 * x) for x in lns)]
                t += ['%5d' % round(10 * la) + ''.join('%7d' % round(10 * x) for x in row) for la, row in zip(las, v)]
                return '\n'.join(t + ['999    1    2    3', '  1 2 3 4']) + '\n'
            mp.rms = None
            rms = np.zeros_like(mp.tec)
            with tarfile.open(fileobj=buf, mode='w:gz') as tf:
                def add(name, text):
                    ti = tarfile.TarInfo('d/' + name)
                    ti.size = len(text)
                    tf.addfile(ti, io.BytesIO(text.encode()))
                order = list(range(len(mp.min)))
                rng.shuffle(order)
                for i in order:
                    st = dt.strftime('%Y%m%d') + '%02d%02d' % divmod(mp.min[i], 60)
                    add(st + '_TEC.txt', grid(mp.lats[::-1], mp.lngs, mp.tec[i, ::-1]))
                    if with_err:
                        add(st + '_ERR.txt', grid(rl, rg, err[i]))
                        for a in range(nla):
                            u = np.array([np.interp(mp.lats[a], rl, err[i][:, c]) for c in range(4)])
                            rms[i, a] = np.interp(mp.lngs, rg, u)
                add(dt.strftime('%Y%m%d') + '0000_EOF.txt', '# c\n 1 2 6471 100\n 1.0\n 2.0\n 3.0\n')
                add('README', 'x')
            if with_err:
                mp.rms = rms
            f = rng.choice(['iono/%04d/%02d/ustec_%s.tar.gz' % (dt.year, dt.month, dt.strftime('%Y_%m_%d')), 'iono/%04d/%02d/%s_ustec.tar.gz' % (dt.year, dt.month, dt.strftime('%Y%m%d'))])
            s.put(f, data=buf.getvalue(), a=rng.choice(['full', '404', 'trunc']), b='full')
            _ask(m, I, rng, mp, 'USTEC', {'file': f})
            s.files.pop(f)
            s.write()
            _ask(m, I, rng, mp, 'USTEC', {'file': f, 'cached': True})
            m.event('maps')
        with m.case({'what': 'after the last map'}):
            m.raises(ValueError, lambda: I.get_tec_value(_mjd(2023, 11, 16) + 0.5, type='USTEC'), 'ustec-cutoff')
            m.raises(ValueError, lambda: I.get_tec_value(60000.5, type='NONE'), 'tec-type')
    finally:
        s.close()


def glotec(m, n):
    import datetime
    import io
    import tarfile
    import h5py
    import numpy as np
    from lsl.misc import ionosphere as I
    from vf.checks.c16 import Site
    s = Site(m)
    try:
        _config(s)
        used = set()
        for k in range(m.n(n)):
            rng, nr = m.rng(k), m.nprng(k)
            day = _mjd(2025, 2, 24) + rng.choice([0, 1, 310, 311, rng.randrange(900)])
            if day in used:
                continue
            used.add(day)
            mp = Maps(rng, nr, day, 10, 5, False)
            q = nr.integers(0, 6, mp.tec.shape)
            mp.rms = (6 - q) / 100.0 * mp.tec
            dt = datetime.date(1858, 11, 17) + datetime.timedelta(days=day)
            p = os.path.join(m.scratch, 'g.nc')
            with h5py.File(p, 'w') as h:
                h['time'] = np.array([(day - 40587) * 86400.0 + 60 * x for x in mp.min])
                h['latitude'], h['longitude'] = mp.lats[::-1], mp.lngs
                h['TEC'] = mp.tec[:, ::-1, :]
                h['quality_flag'] = q[:, ::-1, :]
            buf = io.BytesIO()
            st = dt.strftime('%Y_%m_%d')
            with tarfile.open(fileobj=buf, mode='w:gz') as tf:
                tf.add(p, 'glotec_%s/GloTEC_TEC_%s.nc' % (st, st))
            os.unlink(p)
            f = 'iono/%04d/%02d/glotec_%s.tar.gz' % (dt.year, dt.month, st)
            s.put(f, data=buf.getvalue(), a=rng.choice(['full', '404', 'trunc']), b='full')
            _ask(m, I, rng, mp, 'GLOTEC', {'file': f})
            s.files.pop(f)
            s.write()
            _ask(m, I, rng, mp, 'GLOTEC', {'file': f, 'cached': True})
            m.event('maps')
        with m.case({'what': 'before the first map'}):
            m.raises(ValueError, lambda: I.get_tec_value(_mjd(2025, 2, 23) + 0.5, type='GLOTEC'), 'glotec-start')
    finally:
        s.close()


JOBS = {'field': (field, 'plain', 50), 'pierce': (pierce, 'plain', 60), 'ionex0': (ionex, 'plain', 12), 'ionex1': (ionex, 'plain', 12), 'ustec': (ustec, 'plain', 4), 'glotec': (glotec, 'plain', 4)}
