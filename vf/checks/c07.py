"""C07 - a recording split over several files reads like the one file."""
RULE = ('random byte strings cut at random places (including empty parts) into files; random read/seek/tell sequences run '
        'against the wrapper and against io.BytesIO of the concatenation; distinct = distinct (cut, operation) sequences with more than one part')
OPTS = {'scale': 30}
NEED = {'reads': 5000, 'seeks': 5000, 'parts_crossed': 1000}


def ops(m, n):
    import io, os
    from lsl.reader.utils import SplitFileWrapper, FilePositionSaver
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        size = rng.choice([0, 1, 10, 100, 5000, 20000])
        raw = rng.randbytes(size)
        nparts = rng.choice([1, 2, 3, 5, 11])
        cuts = sorted(rng.randrange(size + 1) for _ in range(nparts - 1))
        cuts = [0] + cuts + [size]
        d = os.path.join(m.scratch, 's%d' % i)
        os.makedirs(d)
        names = []
        for k in range(nparts):
            p = os.path.join(d, 'part_%03d' % k)
            open(p, 'wb').write(raw[cuts[k]:cuts[k + 1]])
            names.append(p)
        given = list(names)
        srt = rng.random() < 0.5
        if srt:
            rng.shuffle(given)
        buffering = rng.choice([-1, -1, 0, 4096])
        log = []
        with m.case({'i': i, 'size': size, 'cuts': cuts, 'sorted': srt, 'buffering': buffering}, nontrivial=nparts > 1):
            ref = io.BytesIO(raw)
            fh = SplitFileWrapper(given, sort=srt, buffering=buffering)
            m.equal(fh.size, size, 'size')
            for _ in range(40):
                op = rng.choice(['read', 'read', 'seek0', 'seek1', 'seek2', 'tell', 'saver'])
                if op == 'read':
                    k = rng.choice([0, 1, 2, 16, size // 3, size, size + 5, rng.randrange(size + 1)])
                    a, b = fh.read(k), ref.read(k)
                    log.append((op, k))
                    m.event('reads')
                    m.event('parts_crossed', sum(ref.tell() - len(b) < c < ref.tell() for c in cuts[1:-1]))
                    if not m.check(a == b, 'read', 'read(%d) gave %d bytes, expected %d (same prefix: %s) after %s' % (k, len(a), len(b), b.startswith(a), log[-5:])):
                        break
                elif op == 'tell':
                    pass
                elif op == 'saver':
                    with FilePositionSaver(fh):
                        p = rng.randrange(size + 1)
                        fh.seek(p)
                        a = fh.read(rng.randrange(50))
                        m.check(raw[p:p + len(a)] == a, 'read', 'after seek(%d)' % p)
                        if rng.random() < 0.2:
                            try:
                                with FilePositionSaver(fh):
                                    fh.seek(0)
                                    raise KeyError
                            except KeyError:
                                pass
                    log.append((op,))
                else:
                    w = int(op[-1])
                    here = {0: 0, 1: ref.tell(), 2: size}[w]
                    target = rng.choice([0, size, rng.randrange(size + 1), rng.randrange(size + 1), rng.choice(cuts), max(0, rng.choice(cuts) - 1), size + 10, -3])
                    log.append((op, target - here))
                    m.event('seeks')
                    if target < 0:
                        try:
                            fh.seek(target - here, w)
                            m.violation('seek-negative', 'a seek to before the start succeeded')
                        except (OSError, ValueError):
                            pass
                    else:
                        fh.seek(target - here, w)
                        ref.seek(target - here, w)
                if not m.check(fh.tell() == ref.tell(), 'tell', 'at %d, expected %d after %s' % (fh.tell(), ref.tell(), log[-5:])):
                    break
            fh.close()
            m.check(fh.closed, 'closed')
            for f in (lambda: fh.read(1), lambda: fh.seek(0), lambda: fh.tell()):
                m.raises((ValueError,), f, 'closed-handle')


JOBS = {'ops%d' % k: (ops, 'plain', 400) for k in range(4)}
