"""C32 - a source looked up in a catalog is that source, where the catalog puts it."""
import os
import re

RULE = ('every entry of the catalogs shipped with LSL, parsed again by an independent reader, and synthetic Fermi catalogs served over the loopback network; every name, every alias and many names that are not there are looked up; distinct = distinct entries')
OPTS = {'scale': 1}
NEED = {'entries': 17000, 'aliases': 3000, 'absent': 300, 'fermi': 1000}


def _sexa(sign, a, b, c=0.0):
    v = float(a) + float(b) / 60 + float(c) / 3600
    return -v if sign == '-' else v


def _lines(name):
    from vf.common import REPO
    with open(os.path.join(REPO, 'lsl/data/catalog', name)) as fh:
        return [l.rstrip('\n') for l in fh if l.strip()]


def read_lwa():
    for l in _lines('lwa_catalog.dat'):
        if l.startswith('#'):
            continue
        f = l.split()
        sg = '-' if f[4].startswith('-') else '+'
        yield f[0], 15 * _sexa('+', *f[1:4]), _sexa(sg, f[4].lstrip('+-'), f[5], f[6]), 2000, f[7:]


def read_psr():
    rec = {}
    for l in _lines('psrcat.db'):
        if l.startswith('@-'):
            ra, dec = [rec.get(q, '').split(':') for q in ('RAJ', 'DECJ')]
            if len(ra) in (2, 3) and len(dec) in (2, 3):
                sg = '-' if dec[0].startswith('-') else '+'
                r, d = 15 * _sexa('+', *ra), _sexa(sg, dec[0].lstrip('+-'), *dec[1:])
                # minutes and seconds out of range are refused by the catalog
                if all(float(x) < 60 for x in ra[1:] + dec[1:]) and 0 <= r < 360 and abs(d) <= 90:
                    if 'PSRB' in rec:
                        yield rec['PSRB'], r, d, 2000, [rec['PSRJ']]
                    else:
                        yield rec['PSRJ'], r, d, 2000, []
            rec = {}
        else:
            f = l.split()
            if f[0] in ('PSRB', 'PSRJ', 'RAJ', 'DECJ'):
                rec[f[0]] = f[1]


def read_pks():
    for l in _lines('pkscat.txt'):
        g = re.match(r'(?P<n>\d{4}[+-]\d{3}).(?P<pad>...)(?P<a>.{7}).{3}(?P<h>..).(?P<m>..).(?P<s>....).(?P<g>.)(?P<d>..).(?P<dm>..).(?P<ds>..)', l)
        yield g['n'], 15 * _sexa('+', g['h'], g['m'], g['s']), _sexa(g['g'], g['d'], g['dm'], g['ds']), 1950, [g['a'].rstrip()] if g['a'].strip() else []


def read_pks90():
    for l in _lines('PKS90.txt'):
        l = l.ljust(180)
        g = re.match(r'(?P<n>J\d{4}[+-]\d{4})(?P<h>..).(?P<m>..).(?P<s>[\d.]+)\s+(?P<g>[+-])(?P<d>..).(?P<dm>..).(?P<ds>[\d.]+)', l)
        yield g['n'], 15 * _sexa('+', g['h'], g['m'], g['s']), _sexa(g['g'], g['d'], g['dm'], g['ds']), 2000, [a.rstrip() for a in (l[139:148], l[168:175]) if a.strip()]


def read_3c():
    for l in _lines('3c.dat'):
        yield '3C' + l[:3].strip(), 15 * _sexa('+', l[12:14], l[15:17], l[18:22]), _sexa(l[27], l[28:30], l[31:35]), 1950, []


def read_4c():
    for l in _lines('4c.dat'):
        a = l[64:].strip().rstrip('*').strip()
        yield '4C' + l[:8].strip(), 15 * _sexa('+', l[10:12], l[13:15], l[16:20]), _sexa(l[22], l[23:25], l[26:30]), 1950, [a] if a else []


READ = {'LWA': read_lwa, 'PSR': read_psr, 'PKS': read_pks, 'PKS90': read_pks90, '3C': read_3c, '4C': read_4c}


def _sep(a, b):
    import numpy as np
    (r1, d1), (r2, d2) = np.radians(a), np.radians(b)
    h = np.sin((d2 - d1) / 2) ** 2 + np.cos(d1) * np.cos(d2) * np.sin((r2 - r1) / 2) ** 2
    return np.degrees(2 * np.arcsin(min(1.0, np.sqrt(h))))


def judge(m, C, cat, name, table):
    """table: list of (name, ra, dec, epoch, aliases) in the order of the file"""
    import ephem
    import numpy as np
    by, alias = {}, {}
    for t in table:
        by.setdefault(t[0], []).append(t)
        for a in t[4]:
            alias.setdefault(a, []).append(t)
    with m.case({'catalog': name, 'what': 'names'}):
        m.equal(len(cat), len(by), 'catalog-size:' + name)
        m.equal(sorted(cat), sorted(by), 'catalog-names:' + name)
        m.equal(sorted(cat.keys()), sorted(by), 'catalog-names:' + name)
        m.equal(cat.name, name, 'catalog-name')
    tol = 2e-5
    rng = m.rng('b1950', name)
    for n, ts in by.items():
        with m.case({'catalog': name, 'source': n}):
            e = cat.lookup(n)
            m.check(e is not None and e.name == n, 'lookup:' + name, lambda: 'lookup(%r) gave %r' % (n, e))
            if e is None:
                continue
            m.check(cat[n] is e and cat.get(n) is e and n in cat, 'mapping:' + name)
            p = e.position.j2000_equ
            ok = []
            for t in ts:
                if t[3] == 2000:
                    ok.append(_sep((p.ra, p.dec), t[1:3]) < tol)
                else:
                    q = e.position.b1950_equ if rng.random() < 0.1 else None
                    j = ephem.Equatorial(ephem.Equatorial(np.radians(t[1]), np.radians(t[2]), epoch=ephem.B1950), epoch=ephem.J2000)
                    ok.append(_sep((p.ra, p.dec), np.degrees([float(j.ra), float(j.dec)])) < 0.015 and (q is None or _sep((q.ra, q.dec), t[1:3]) < 1e-3))
            m.check(any(ok), 'position:' + name, lambda: '%s: J2000 %r %r; the file has %r' % (n, p.ra, p.dec, ts))
            i = ok.index(True) if any(ok) else 0
            m.equal(list(e.alias_list), list(ts[i][4]) if len(ts) == 1 else list(e.alias_list), 'aliases:' + name)
            m.event('entries')
    for a, ts in alias.items():
        if a in by:
            continue
        with m.case({'catalog': name, 'alias': a}):
            e = cat.lookup(a)
            m.check(e is not None and e.name in [t[0] for t in ts], 'alias:' + name, lambda: 'alias %r gave %r; the file has it for %r' % (a, e, [t[0] for t in ts]))
            m.check(a in cat and cat[a] is e, 'mapping:' + name)
            m.event('aliases')
    rng = m.rng('absent', name)
    known = set(by) | set(alias)
    names = sorted(known)
    for k in range(60):
        b = rng.choice(names)
        n = rng.choice([b + ' ', b + '0', ' ' + b, b[:-1], b.swapcase(), '', '3C' + b, b[::-1]])
        if n in known:
            continue
        with m.case({'catalog': name, 'absent': n}):
            m.check(cat.lookup(n) is None and n not in cat and cat.get(n, 5) == 5, 'absent-found:' + name, lambda: 'found %r' % n)
            m.raises(KeyError, lambda: cat[n], 'absent-found:' + name)
            m.event('absent')


def shipped(m, *names):
    from lsl import catalog as C
    for n in names:
        cat = C.CatalogFactory.get_catalog(n)
        m.check(C.CatalogFactory.get_catalog(n) is cat, 'factory-cache')
        judge(m, C, cat, n, list(READ[n]()))


def _fermi_rows(rows, names):
    out = []
    names = [f.upper() for f in names]
    for r in rows:
        al = [str(r[f]).replace(' ', '_') for f in ('0FGL_NAME', '1FGL_NAME', '2FGL_NAME', 'ASSOC_FGL', 'ASSOC_GAM1', 'ASSOC_GAM2', 'ASSOC_GAM3', 'ASSOC1', 'ASSOC2') if f in names and str(r[f])]
        out.append((str(r['Source_Name']).replace(' ', '_'), float(r['RAJ2000']), float(r['DEJ2000']), 2000, al))
    return out


def fermi(m):
    import numpy as np
    from astropy.io import fits
    from lsl import catalog as C
    from vf.common import REPO
    from vf.checks.c16 import Site
    with fits.open(os.path.join(REPO, 'lsl/data/catalog/gll_psc_v08.fit')) as h:
        d = h['LAT_POINT_SOURCE_CATALOG'].data
        table = _fermi_rows(d, d.names)
    judge(m, C, C.CatalogFactory.get_catalog('2FGL'), '2FGL', table)
    m.event('fermi', len(table))
    s = Site(m)
    try:
        for name, f in (('3FGL', 'gll_psc_v16.fit'), ('4FGL', 'gll_psc_v22.fit'), ('4FGL-DR4', 'gll_psc_v33.fit')):
            rng, nr = m.rng(name), m.nprng(name)
            n = 200
            ra, dec = nr.uniform(0, 360, n).astype('f4'), np.degrees(np.arcsin(nr.uniform(-1, 1, n))).astype('f4')
            fields = rng.sample(['0FGL_NAME', '1FGL_NAME', '2FGL_NAME', 'ASSOC_FGL', 'ASSOC_GAM1', 'ASSOC_GAM2', 'ASSOC_GAM3'], 4) + ['ASSOC1', 'ASSOC2', 'FLAGS']
            own = ['%s J%06.1f%+05d%s' % (name[:4], 1000 + i, i - 100, rng.choice(['', 'c', 'e'])) for i in range(n)]
            cols = [fits.Column('Source_Name', '18A', array=np.array(own)),
                    fits.Column('DEJ2000', 'E', array=dec), fits.Column('RAJ2000', 'E', array=ra)]
            for q in fields:
                cols.append(fits.Column(q, '20A', array=np.array([rng.choice(['', '%s %s %d' % (q[:5], rng.choice(['Crab', 'PSR J0', 'X']), i), '' if rng.random() < 0.9 or q == 'FLAGS' else rng.choice(own)]) for i in range(n)])))
            p = os.path.join(m.scratch, f)
            fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns([fits.Column('x', 'E', array=[1.0])], name='OTHER'), fits.BinTableHDU.from_columns(cols, name='LAT_POINT_SOURCE_CATALOG')]).writeto(p)
            s.put('catalog/' + f, data=open(p, 'rb').read(), mtime=1.6e9)
            with fits.open(p) as h:
                d = h['LAT_POINT_SOURCE_CATALOG'].data
                table = _fermi_rows(d, d.names)
            judge(m, C, C.CatalogFactory.get_catalog(name), name, table)
            m.event('fermi', n)
        with m.case({'what': 'factory'}):
            for n in ('LWA', 'PSR', 'PKS', 'PKS90', '3C', '4C', '2FGL', '3FGL', '4FGL', '4FGL-DR4'):
                m.check(n in C.CatalogFactory.get_names(), 'factory-names')
            for n in ('lwa', '', '5C', 'NONSENSE'):
                m.raises(ValueError, lambda: C.CatalogFactory.get_catalog(n), 'factory-unknown')
            m.check(C.CatalogFactory.get_catalog('3FGL') is C.CatalogFactory.get_catalog('3FGL'), 'factory-cache')
            m.check(C.CatalogFactory.get_catalog('4FGL') is not C.CatalogFactory.get_catalog('4FGL-DR4'), 'factory-cache')
    finally:
        s.close()


JOBS = {'lwa': (shipped, 'plain', 'LWA', '3C'), 'psr': (shipped, 'plain', 'PSR'), 'pks': (shipped, 'plain', 'PKS'), 'pks90': (shipped, 'plain', 'PKS90'), '4c': (shipped, 'plain', '4C'), 'fermi': (fermi, 'plain')}
