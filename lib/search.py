"""Directed generation of inputs for one property, evaluated against lib/oracle.py on the real crate.
A case = (command line for the driver, judge(result) -> None | error text)."""
import os, random, subprocess, sys, threading, time, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import oracle as O

EDGE = [0, 1, 9, 10, 99, 100, 999, 1000, 4999, 5000, 5001, 9989, 9990, 9998, 9999]

class Gen:
    def __init__(s, seed): s.r = random.Random(seed)
    def digit(s, style):
        r = s.r
        if style == 0: return r.randrange(10000)
        if style == 1: return r.choice(EDGE)
        if style == 2: return 9999
        if style == 3: return 0 if r.random() < .7 else r.choice(EDGE)
        if style == 4: return 9999 if r.random() < .8 else r.choice(EDGE)
        return r.choice((0, 5000, 4999, 9999, 1))
    def seq(s, n):
        st = s.r.randrange(6)
        d = [s.digit(st) for _ in range(n)]
        if d[0] == 0: d[0] = s.r.choice((1, 9, 10, 99, 999, 1000, 4999, 5000, 9999, s.r.randrange(1, 10000)))
        if d[-1] == 0: d[-1] = s.r.choice((1, 10, 100, 1000, 9, 90, 900, 9000, 5000, 5, 50, 500, s.r.randrange(1, 10000)))
        return d
    def length(s, big=False):
        r = s.r.random()
        if r < .72: return s.r.randrange(1, 6)
        if r < .93: return s.r.randrange(6, 14)
        return s.r.randrange(14, 90 if big else 40)
    def weight(s, n):
        r = s.r.random()
        if r < .6: return s.r.randrange(-3, n + 3)
        if r < .8: return s.r.randrange(-n - 4, n + 9)
        if r < .9: return s.r.choice((-66, -65, -64, -63, 62, 63, 64, 65, 130))
        if r < .985: return s.r.choice((-260, -251, -250, -249, 248, 249, 250, 251, 255, -1000))
        return s.r.choice((32767, 32766, 32765, -4090, -4095, -4096, 16384, 4000, 20000))
    def fin(s, huge=True, big=False, zero=.05):
        """canonical finite numeric as Num"""
        r = s.r
        if r.random() < zero:
            return O.dec(O.enc(False, 0, r.choice((0, 0, 1, 2, 5, 62, 63, 64, 100, 1000, 16383)) if huge else r.randrange(0, 9), []))
        while True:
            n = s.length(big); ds = s.seq(n); w = s.weight(n)
            if not huge and abs(w) > 300: continue
            # decimal digits needed after the point
            last = ds[-1]; tz = 0
            while last % 10 == 0: last //= 10; tz += 1
            need = max(0, 4 * (n - 1 - w) - tz)
            if need > O.DSMAX: continue
            q = r.random()
            sc = need if q < .55 else min(O.DSMAX, need + r.randrange(1, 6)) if q < .85 else min(O.DSMAX, max(need, r.choice((62, 63, 64, 65, 127, 128, 1000, 16383 if huge and r.random() < .3 else 70))))
            x = O.dec(O.enc(r.random() < .45, w, sc, ds))
            if O.canon_err(x): continue
            return x
    def any(s, nan=.03, **k):
        return O.dec(O.NANB) if s.r.random() < nan else s.fin(**k)
    def near(s, x):
        """a value close to x (same digits, small edits)"""
        r = s.r
        if x.nan: return x
        k = r.randrange(5)
        if k == 0: d = 0; sc = x.dscale
        elif k == 1: d = r.choice((-1, 1)); sc = x.dscale
        elif k == 2: d = r.choice((-1, 1)) * O.p10(r.randrange(0, 12)); sc = x.dscale
        else: sc = min(O.DSMAX, x.dscale + r.randrange(0, 9)); d = r.choice((-1, 0, 1))
        b = O.mkb(x.n * O.p10(sc - x.dscale) + d, sc)
        y = O.dec(b) if b else x
        if r.random() < .4:
            b = O.mkb(-y.n, y.dscale); y = O.dec(b)
        return y
    def pair(s, **k):
        a = s.any(**k)
        b = s.near(a) if s.r.random() < .3 else s.any(**k)
        if s.r.random() < .05 and not (a.nan or b.nan): b = O.dec(O.mkb(0, b.dscale))
        return (a, b) if s.r.random() < .5 else (b, a)
    def knuth(s):
        """operands that make the quotient digit estimate wrong / remainders extreme"""
        r = s.r; n = r.randrange(2, 6)
        d = [r.choice((5000, 5001, 4999, 9999, 1, 2, 4000, r.randrange(1, 10000)))] + [r.choice((0, 0, 1, 9999, 9998, 5000, r.randrange(10000))) for _ in range(n - 1)]
        D = O.digits_to_int(d)
        q = O.digits_to_int([r.choice((0, 1, 9999, 9998, 5000, r.randrange(10000))) for _ in range(r.randrange(1, 5))])
        rem = r.choice((0, 1, D - 1, D - 2, D // 2, D // 2 + 1, r.randrange(D)))
        N = q * D + max(0, min(D - 1, rem))
        k = r.randrange(0, 9); j = r.randrange(0, 9)
        sg = r.choice((1, -1)); sh = r.choice((1, -1))
        a, b = O.mkb(sg * N, k), O.mkb(sh * D, j)
        return O.dec(a), O.dec(b)
    def dec(s):
        """human-like decimal"""
        r = s.r; k = r.randrange(0, 9)
        return O.dec(O.mkb(r.choice((1, -1)) * r.choice((r.randrange(0, 100), r.randrange(0, 10 ** 6), r.randrange(0, 10 ** 12), 10 ** r.randrange(0, 14), 10 ** r.randrange(0, 14) - 1, 5 * 10 ** r.randrange(0, 9))), k))

def A(x): return 'b:' + x.raw.hex()
def desc(x):
    s = O.e_show(x)
    return s if len(s) < 200 else s[:90] + '...(%d chars)' % len(s)

def num_judge(exp, canon=False):
    """expected canonical bytes or None"""
    def j(res):
        if exp is None: return None if res == 'none' else 'expected no result, got %s' % show(res)
        if not res.startswith('v:'): return 'expected %s, got %s' % (show('v:' + exp.hex()), show(res))
        got = bytes.fromhex(res[2:])
        if got == exp: return None
        try: g = O.dec(got)
        except ValueError as e: return 'malformed bytes: %s' % e
        return 'expected %s, got %s%s' % (show('v:' + exp.hex()), show(res), '' if O.canon_err(g) is None else ' [not canonical: %s]' % O.canon_err(g))
    return j
def show(res):
    if res.startswith('v:'):
        try:
            x = O.dec(bytes.fromhex(res[2:]))
            if not x.nan and x.n is None: return 'digits=%s weight=%d scale=%d' % (x.digits[:8], x.weight, x.dscale)
            t = O.e_show(x); return t if len(t) < 160 else t[:70] + '...(%d chars, scale %d)' % (len(t), x.dscale)
        except ValueError as e: return 'malformed %s' % res[:60]
    return res if len(res) < 160 else res[:160] + '...'

def val_judge(exp):
    """expected value and scale only (used where canonical form is another property)"""
    def j(res):
        if exp is None: return None if res == 'none' else 'expected no result, got %s' % show(res)
        if not res.startswith('v:'): return 'expected %s, got %s' % (show('v:' + exp.hex()), show(res))
        try: g = O.dec(bytes.fromhex(res[2:]))
        except ValueError as e: return 'malformed bytes: %s' % e
        e = O.dec(exp)
        if g.nan != e.nan: return 'expected %s, got %s' % (show('v:' + exp.hex()), show(res))
        if g.nan: return None
        if (g.n, g.dscale) != (e.n, e.dscale): return 'expected %s (scale %d), got %s (scale %d)' % (show('v:' + exp.hex()), e.dscale, show(res), g.dscale)
        return None
    return j
def panics_or(exp, msg):
    """operator form: panics exactly when there is no result"""
    vj = val_judge(exp) if exp is not None else None
    def j(res):
        if exp is None: return None if res.startswith('panic:') and any(m in res for m in msg) else 'expected a panic (%s), got %s' % (msg[0], show(res))
        return vj(res)
    return j
OVF = ('value overflows numeric format',); DZ = ('attempt to divide by zero',)
def eq_judge(exp):
    return lambda res: None if res == exp else 'expected %s, got %s' % (exp[:200], res[:200])

# ---------------------------------------------------------------- generators per property
def g_addsub(g, judge=val_judge):
    while 1:
        a, b = g.pair(big=True) if g.r.random() < .8 else (g.dec(), g.dec())
        yield 'add\t%s\t%s' % (A(a), A(b)), judge(O.e_add(a, b))
        yield 'sub\t%s\t%s' % (A(a), A(b)), judge(O.e_sub(a, b))
def g_mul(g, judge=val_judge):
    while 1:
        k = g.r.random()
        if k < .06:
            n = g.r.randrange(20, 120); m = g.r.randrange(20, 120)
            a = O.dec(O.enc(False, g.r.randrange(0, n), 4 * n, [9999 if g.r.random() < .97 else g.r.randrange(10000) for _ in range(n - 1)] + [9999]))
            b = O.dec(O.enc(True, g.r.randrange(0, m), 4 * m, [9999 if g.r.random() < .97 else g.r.randrange(10000) for _ in range(m - 1)] + [9999]))
            if O.canon_err(a) or O.canon_err(b): continue
        else: a, b = g.pair(big=True)
        yield 'mul\t%s\t%s' % (A(a), A(b)), judge(O.e_mul(a, b))
def dpairs(g):
    k = g.r.random()
    if k < .4: return g.knuth()
    if k < .55: return g.dec(), g.dec()
    return g.pair()
def g_div(g, judge=val_judge):
    while 1:
        a, b = dpairs(g)
        yield 'div\t%s\t%s' % (A(a), A(b)), judge(O.e_div(a, b))
def g_rem(g, judge=val_judge):
    while 1:
        a, b = dpairs(g)
        yield 'divt\t%s\t%s' % (A(a), A(b)), judge(O.e_divt(a, b))
        yield 'rem\t%s\t%s' % (A(a), A(b)), judge(O.e_rem(a, b))
def scales(g, x):
    r = g.r; k = r.random()
    if x.nan: return r.randrange(-5, 5)
    if k < .5: return r.randrange(-6, max(2, min(x.dscale, 60)) + 2)
    if k < .8: return -4 * (x.weight + 1) + r.randrange(-6, 10)
    if k < .9: return r.choice((-1001, -1000, -999, 999, 1000, 1001, 1023))
    return r.choice((-2**31, 2**31 - 1, 0, -1, 1, 4, -4))
def carry9(g):
    """9999.. values whose rounding carries out of the top digit"""
    r = g.r; n = r.randrange(1, 7); w = r.choice((0, 1, n - 1, n, -1, -2, 63, -64)) if r.random() > .025 else r.choice((32766, 32767))
    ds = [r.choice((9999, 9999, 999, 99, 9, 9990))] + [9999] * (n - 1)
    if r.random() < .5: ds[-1] = r.choice((5000, 9995, 9950, 9500, 4999, 9994, 5001, 9996))
    sc = max(0, 4 * (n - 1 - w))
    x = O.dec(O.enc(r.random() < .5, w, sc, ds))
    return x if O.canon_err(x) is None else carry9(g)
def g_round(g, judge=val_judge):
    while 1:
        x = carry9(g) if g.r.random() < .35 else g.any() if g.r.random() < .85 else g.dec()
        s = scales(g, x)
        e = O.e_round(x, s)
        yield 'round\t%s\t%d' % (A(x), s), (judge(e) if e else panics_or(None, OVF))
        yield 'trunc\t%s\t%d' % (A(x), s), judge(O.e_trunc(x, s))
        e = O.e_ceil(x); yield 'ceil\t%s' % A(x), (judge(e) if e else panics_or(None, OVF))
        e = O.e_floor(x); yield 'floor\t%s' % A(x), (judge(e) if e else panics_or(None, OVF))
CF = {-1: '<' * 12, 0: '=' * 12, 1: '>' * 12}
def g_cmp(g):
    while 1:
        a, b = g.pair()
        if g.r.random() < .2 and not a.nan:
            b = O.dec(O.mkb(a.n * O.p10(k := g.r.randrange(0, 9)), a.dscale + k) or a.raw)
        c = O.cmp3(a, b)
        rel = {-1: '11001100', 0: '01010101', 1: '00110011'}[c]
        yield 'cmp\t%s\t%s' % (A(a), A(b)), eq_judge('%s %s %s' % (CF[c], ('1' if c == 0 else '0') * 10, rel))
def rescaled(g, x):
    if x.nan: return x
    k = g.r.choice((0, 1, 2, 3, 4, 5, 60, 64))
    b = O.mkb(x.n * O.p10(k), x.dscale + k)
    return O.dec(b) if b else x
class Hashes:
    def __init__(s): s.m = {}
def g_hash(g):
    while 1:
        x = g.any(); box = {}
        def j1(res, box=box):
            p = res.split('\t')
            if len(p) != 2: return 'hash failed: %s' % res
            box['h'] = p[0]
            return None if p[0] == p[1] else 'owned and borrowed forms feed different writes: %s / %s' % (p[0], p[1])
        yield 'hash\t%s' % A(x), j1
        for _ in range(2):
            y = rescaled(g, x)
            def j2(res, box=box, x=x, y=y):
                p = res.split('\t')
                if len(p) != 2: return 'hash failed: %s' % res
                if p[0] == box.get('h') and p[1] == box.get('h'): return None
                return '%s and %s compare equal but feed different writes: %s / %s' % (desc(x), desc(y), box.get('h'), res)
            yield 'hash\t%s' % A(y), j2
def g_parse(g, judge=val_judge):
    r = g.r
    def digs(n, st): return ''.join(r.choice('0123456789') if st == 0 else r.choice('09') if st == 1 else '9' if st == 2 else '0' for _ in range(n))
    while 1:
        k = r.random()
        if k < .75:
            i = digs(r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, r.randrange(0, 40))), r.randrange(4)); f = digs(r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, r.randrange(0, 40))), r.randrange(4))
            s = r.choice(('', '', '+', '-')) + i + ('.' + f if r.random() < .6 else '')
            if r.random() < .6: s += r.choice('eE') + r.choice(('', '+', '-', '-')) + r.choice((str(r.randrange(0, 12)), str(r.randrange(0, 400)), '0' * r.randrange(0, 14) + str(r.randrange(0, 30)), '16383', '16384', '131071', '131072', '131070', '200000', '1073741822', '1073741823', '99999999999', '4294967296', '2147483648', ''))
            if r.random() < .2: s = r.choice(' \t\n\r\x0c') * r.randrange(1, 3) + s
            if r.random() < .2: s = s + r.choice(' \t\n\r\x0c') * r.randrange(1, 3)
        elif k < .80: s = r.choice(('NaN', 'nan', 'NAN', 'nAn', ' NaN', 'NaN ', 'nana', 'na', 'N', 'NaN x', '+NaN', '-nan', 'nan1', ' \tnaN\n', 'NaN\x0b', 'naN\x0c'))
        elif k < .82:
            s = '0' * r.choice((131072, 131080, 140000)) + r.choice(('1', '12.5', '0')); 
        elif k < .84: s = '9' * r.choice((131071, 131072, 131073)) + r.choice(('', '.4', '.5'))
        elif k < .86: s = '.' + '0' * r.choice((16380, 16382, 16383)) + r.choice(('1', '', '5'))
        else: s = ''.join(r.choice('0123456789+-.eE nNaA \t\x0b\x00xé_,') for _ in range(r.randrange(0, 9)))
        e = O.e_parse(s)
        if isinstance(e, bytes): j = judge(e)
        else:
            txt = {'empty': ['err:cannot parse numeric from empty string'], 'invalid': ['err:invalid numeric literal'], 'overflow': ['err:value overflows numeric format']}
            ok = sum((txt[q] for q in e.split('|')), [])
            j = (lambda res, ok=ok: None if res in ok else 'expected %s, got %s' % (' or '.join(ok), show(res)))
        yield 'parse\t%s' % s.encode().hex(), j
def g_show(g):
    while 1:
        x = g.any() if g.r.random() < .9 else g.dec()
        t = O.e_show(x)
        yield 'show\t%s' % A(x), eq_judge(t + '\tsame')
        yield 'norm\t%s' % A(x), eq_judge(O.e_norm(x))
        yield 'parse\t%s' % t.encode().hex(), val_judge(x.raw)
def ints(g, t):
    lo, hi = O.ITY[t]; r = g.r
    v = r.choice((lo, hi, lo + 1, hi - 1, 0, 1, -1, r.randrange(lo, hi + 1), r.choice((1, -1)) * 10 ** r.randrange(0, 39), r.choice((1, -1)) * 10000 ** r.randrange(0, 10) * r.randrange(0, 10000), r.choice((1, -1)) * (10000 ** r.randrange(0, 10) - 1), r.choice((1, -1)) * r.randrange(0, 20000)))
    return max(lo, min(hi, v))
def g_fromint(g, judge=val_judge):
    for b in (0, 1): yield 'from\tbool\t%d' % b, judge(O.mkb(b, 0))
    for t in ('i8', 'u8'):
        for v in range(O.ITY[t][0], O.ITY[t][1] + 1): yield 'from\t%s\t%d' % (t, v), judge(O.mkb(v, 0))
    while 1:
        for t in O.ITY:
            v = ints(g, t)
            yield 'from\t%s\t%d' % (t, v), judge(O.mkb(v, 0))
def g_toint(g):
    r = g.r
    while 1:
        for t in O.ITY:
            k = r.random()
            if k < .35:
                sc = r.randrange(0, 9)
                lo, hi = O.ITY[t]
                v = r.choice((lo, hi, 0)) * O.p10(sc) + r.choice((-1, 1)) * r.choice((0, O.p10(sc), O.p10(sc) // 2, max(0, O.p10(sc) // 2 - 1), O.p10(sc) // 2 + 1, r.randrange(0, 3)))
                x = O.dec(O.mkb(v, sc))
            elif k < .6:
                sc = r.randrange(0, 9); x = O.dec(O.mkb(ints(g, t) * O.p10(sc) + r.randrange(0, O.p10(sc)) * r.choice((0, 1, -1)), sc))
            elif k < .75:
                x = O.dec(O.mkb(r.choice((1, -1)) * r.randrange(1, 10000) * 10000 ** r.randrange(0, 12), 0))
            else: x = g.any()
            yield 'to\t%s\t%s' % (t, A(x)), eq_judge(O.e_to(t, x))
def bytes_judge(x):
    def j(res):
        p = res.split('\t')
        if len(p) != 4: return 'got %s' % res[:200]
        raw = bytes.fromhex(p[0])
        try: y = O.dec(raw)
        except ValueError as e: return 'malformed: %s' % e
        e = O.layout_err(y)
        if e: return e
        if p[1] != 'true': return 're-read bytes differ'
        if p[2] != O.e_show(x): return 're-read value shows %s, expected %s' % (p[2][:80], O.e_show(x)[:80])
        if p[3] != ('nan' if x.nan else str(x.dscale)): return 'scale %s, expected %d' % (p[3], x.dscale)
        if raw != x.raw: return 'bytes %s, expected %s' % (p[0][:80], x.raw.hex()[:80])
        return None
    return j
def g_bytes(g):
    yield 'const', eq_judge('v:1800000000c0 v:180000000080 1800000000c0 180000000080')
    for w in (-66, -65, -64, -63, -1, 0, 1, 62, 63, 64, 65, 127, 128, 32767, -4096, -300):
        for sc in (0, 1, 62, 63, 64, 65, 127, 128, 16382, 16383):
            for neg in (False, True):
                x = O.dec(O.enc(neg, w, sc, [r for r in ([1], [9999])[sc % 2]]))
                if O.canon_err(x): continue
                yield 'bytes\t%s' % A(x), bytes_judge(x)
    for sc in (0, 63, 64, 16383):
        x = O.dec(O.enc(False, 0, sc, [])); yield 'bytes\t%s' % A(x), bytes_judge(x)
    while 1:
        x = g.any()
        yield 'bytes\t%s' % A(x), bytes_judge(x)
        yield 'bytes\t%s' % O.e_show(x), bytes_judge(x)
def g_canon(g):
    """all producers, judged on exact bytes (value, scale and canonical encoding)"""
    gens = [g_addsub(g, num_judge), g_mul(g, num_judge), g_div(g, num_judge), g_rem(g, num_judge), g_round(g, num_judge), g_parse(g, num_judge), g_fromint(g, num_judge), g_sign(g, num_judge), g_apply(g, num_judge), g_hist(g, num_judge)]
    while 1:
        for q in gens:
            yield next(q)
def applyj(ov, b, jf):
    vj = jf(b)
    def j(res):
        p = res.split(' ')
        if len(p) != 2: return 'expected overflow=%s, got %s' % (ov, res[:200])
        if p[0] != str(ov).lower(): return 'overflow reported %s, expected %s' % (p[0], ov)
        return vj(p[1])
    return j
def g_apply(g, judge=val_judge):
    r = g.r
    for p in (1, 2, 999, 1000):
        for s in (0, 1, p - 1, p):
            pass
    while 1:
        p = r.choice((r.randrange(1, 12), r.randrange(1, 40), 1000, 999)); s = min(p, r.choice((0, 1, 2, 3, 4, 5, p, p - 1, r.randrange(0, p + 1))))
        k = r.random()
        if k < .35:
            e = r.choice((0, 1, -1, -5, 5, -4, 4, -10, r.randrange(-100, 100))); 
            x = O.dec(O.mkb(r.choice((1, -1)) * (O.p10(p) * 10 + e), s + 1))
        elif k < .6: x = O.dec(O.mkb(r.choice((1, -1)) * r.randrange(0, O.p10(min(p + 2, 40))), s + r.randrange(0, 3)))
        elif k < .7: x = carry9(g)
        else: x = g.any()
        if r.random() < .05: yield 'apply\t%s\tdefault' % A(x), applyj(False, x.raw, judge)
        else:
            ov, b = O.e_apply(x, p, s); yield 'apply\t%s\t%d\t%d' % (A(x), p, s), applyj(ov, b, judge)
def g_typmod(g):
    r = g.r
    def tm(p, s):
        if 1 <= p <= 1000 and 0 <= s <= p: return '%d %d %d (%d, %d)' % (p, s, (p << 16 | s) + 4, p, s)
        return 'none'
    pts = [-2**31, -1000, -1, 0, 1, 2, 3, 255, 256, 999, 1000, 1001, 65535, 65536, 2**31 - 1]
    for p in pts:
        for s in pts: yield 'typmod\t%d\t%d' % (p, s), eq_judge(tm(p, s))
        yield 'typmod1\t%d' % p, eq_judge('%d 0 %d' % (p, (p << 16) + 4) if 1 <= p <= 1000 else 'none')
    a = g_apply(g)
    while 1:
        p = r.randrange(-3, 1005); s = r.randrange(-3, max(1, p + 4))
        yield 'typmod\t%d\t%d' % (p, s), eq_judge(tm(p, s))
        for _ in range(12): yield next(a)
def g_sign(g, judge=val_judge):
    while 1:
        x = g.any()
        yield 'neg\t%s' % A(x), judge(O.e_neg(x))
        yield 'abs\t%s' % A(x), judge(O.e_abs(x))
        yield 'sgn\t%s' % A(x), judge(O.e_sgn(x))
        e = O.e_inc(x)
        yield 'inc\t%s' % A(x), (judge(e) if e else panics_or(None, OVF))
        if judge is val_judge:
            yield 'isneg\t%s' % A(x), eq_judge('true false false None' if x.nan else 'false %s %s Some(%d)' % (str(x.n < 0).lower(), str(x.n >= 0).lower(), x.dscale))
def g_fact(g, judge=val_judge):
    yield from (('fact\t%d' % n, judge(O.e_fact(n))) for n in (-2**63, -5, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 32178, 32179, 2**31, 2**63 - 1, 20, 25, 50, 100, 333, 1000, 2000))
    while 1:
        n = g.r.choice((g.r.randrange(0, 200), g.r.randrange(0, 1500), g.r.randrange(32178, 10**6), g.r.randrange(-100, 3)))
        yield 'fact\t%d' % n, judge(O.e_fact(n))
def g_sci(g):
    def cases():
        for d in range(1, 10000): yield O.dec(O.enc(False, 0, 0, [d]))
        while 1: yield g.any() if g.r.random() < .85 else g.dec()
    for x in cases():
        yield 'sci\t%s' % A(x), eq_judge('%s\t%s\t%s' % (O.e_sci(x), O.e_sci(x), O.e_sci(x, 'E')))
def g_ops(g):
    """every operator form against the checked operation of the same build"""
    while 1:
        for op, gen in (('+', g.pair), ('-', g.pair), ('*', g.pair), ('/', lambda: dpairs(g)), ('%', lambda: dpairs(g))):
            a, b = gen()
            msg = DZ if op in '/%' and not (a.nan or b.nan) and b.n == 0 else OVF
            def j(res, msg=msg):
                o, c = (res.split('\t') + [''])[:2]
                if c == 'none': return None if o.startswith('panic:') and any(m in o for m in msg) else 'the checked operation has no result: expected a panic (%s), got %s' % (msg[0], show(o))
                return None if o == c else 'the checked operation gives %s, the operator %s' % (show(c), show(o))
            for i in range(12): yield 'opx\t%s\t%s\t%s\t%d' % (op, A(a), A(b), i), j
        def jn(res):
            p = res.split('\t'); return None if len(p) == 4 and len(set(p)) == 1 else 'negate and the three operator forms differ: %s' % res[:200]
        yield 'negopx\t%s' % A(g.any()), jn
def g_hist(g, judge=None):
    """histories of in-place operations on one value, each step against the pure operation of the same build (or against judge)"""
    r = g.r
    while 1:
        x = carry9(g) if r.random() < .4 else g.any() if r.random() < .7 else g.dec()
        cur = x; hist = []; exp = []
        for _ in range(r.randrange(1, 7)):
            k = r.randrange(8)
            if k == 0: hist.append('neg'); n = O.e_neg(cur)
            elif k == 1: hist.append('abs'); n = O.e_abs(cur)
            elif k in (2, 3): s = scales(g, cur); hist.append('round %d' % s); n = O.e_round(cur, s) or cur.raw
            elif k == 4: s = scales(g, cur); hist.append('trunc %d' % s); n = O.e_trunc(cur, s)
            elif k == 5: p = r.randrange(1, 30); s = r.randrange(0, p + 1); hist.append('apply %d %d' % (p, s)); ov, n = O.e_apply(cur, p, s)
            elif k == 6: b = g.any(); hist.append('addassign ' + A(b)); n = O.e_add(cur, b) or cur.raw
            else: hist.append(r.choice(('clone', 'id', 'apply default'))); n = cur.raw
            exp.append(judge(n) if judge else None); cur = O.dec(n)
        def j(res, exp=exp, hist=hist):
            p = res.split('\t')
            if len(p) != len(exp): return 'history aborted: %s' % res[:200]
            for i, (q, jj) in enumerate(zip(p, exp)):
                w = q.split(' ')
                if jj:
                    e = jj(w[1])
                    if e: return 'step %d (%s): %s' % (i, hist[i][:60], e)
                    continue
                if w[1] != w[3]: return 'step %d (%s): in place %s, pure %s' % (i, hist[i][:60], show(w[1]), show(w[3]))
                k = hist[i].split(' ')[0]
                if (w[0] == 'panic') != (w[2] != 'some') and k != 'apply': return 'step %d (%s): in place %s, pure %s' % (i, hist[i][:60], w[0], w[2])
                if w[0] == 'panic' and k == 'apply': return 'step %d (%s) panicked' % (i, hist[i][:60])
            return None
        yield 'hist\t%s\t%s' % (A(x), '\t'.join(hist)), j
def g_serde(g):
    r = g.r
    while 1:
        x = g.any()
        t = O.e_show(x); h = x.raw.hex(); bh = (len(x.raw)).to_bytes(8, 'little').hex() + h
        yield 'serde\t%s' % A(x), eq_judge('"%s"\ttrue\tv:%s\t%s\ttrue\tv:%s\t%s\tbytes:%s bytes:%s str:%s str:%s' % (t, h, bh, h, h, h, h, t, t))
        raw = bytearray(x.raw); k = r.randrange(7)
        if k == 0: raw = raw[:r.randrange(0, len(raw) + 1)]
        elif k == 1 and raw: raw[r.randrange(len(raw))] ^= 1 << r.randrange(8)
        elif k == 2: raw += bytes(r.randrange(1, 4))
        elif k == 3: raw = bytearray(r.randrange(256) for _ in range(r.randrange(0, 14)))
        elif k == 4:
            raw = bytearray(O.enc(r.random() < .5, r.randrange(-70, 70), r.randrange(0, 70), [r.choice((0, 1, 10, 100, 1000, 9999, 10000, -1)) for _ in range(r.randrange(0, 4))]))
        elif k == 5:     # a length word that agrees, and any header
            n = r.choice((4, 5, 6, 6, 7, 7, 8, 9, 10, 12)); raw = bytearray((n << 2).to_bytes(4, 'little') + (r.choice((0, 0x4000, 0x8000, 0xC000, 0xA000, 0x8040)) | r.choice((0, 0, 1, r.randrange(0x4000)))).to_bytes(2, 'little') + bytes(r.choice((0, 1, r.randrange(256))) for _ in range(n)))[:n]
        raw = bytes(raw); ok = O.e_valid(raw)
        def j(res, raw=raw, ok=ok):
            p = res.split('\t')
            if len(p) != 2: return 'got %s' % res[:200]
            for q in p:
                if ok is not None and (q == 'err') == ok: return 'bytes %s are %s but deserialization gave %s' % (raw.hex(), 'valid' if ok else 'malformed', q[:100])
            if ok:
                x = None
                try: x = O.dec(raw)
                except ValueError: pass
                if x is not None:
                    for q in p:
                        w = q.split(' ')
                        e = val_judge(raw)(w[0])
                        if e: return e
                        if w[1] != O.e_show(x): return 'deserialized value shows %s' % w[1][:80]
            return None
        yield 'de\t%s' % raw.hex(), j
def sqrt_judge(x):
    """NaN for NaN, the documented panic below zero, else the documented scale and less than 0.50000005 units of error"""
    def j(res):
        if x.nan: return None if res == 'v:' + O.NANB.hex() else 'expected NaN, got %s' % show(res)
        if x.n < 0: return None if res.startswith('panic:') and 'cannot take square root of a negative number' in res else 'expected the documented panic, got %s' % show(res)
        if not res.startswith('v:'): return 'expected a result, got %s' % show(res)
        try: y = O.dec(bytes.fromhex(res[2:]))
        except ValueError as e: return 'malformed bytes: %s' % e
        if y.nan: return 'got NaN'
        if O.canon_err(y): return 'not canonical: %s' % O.canon_err(y)
        ds = min(1000, max(15 - 2 * (x.weight if x.digits else 0), x.dscale, 0))
        if y.dscale != ds: return 'expected scale %d, got %d' % (ds, y.dscale)
        if y.n < 0: return 'the result is negative'
        q = x.n * O.p10(2 * ds) * 10**16; k = O.p10(x.dscale); a = 10**8 * y.n - 50000005; b = 10**8 * y.n + 50000005
        if (a > 0 and a * a * k > q) or b * b * k < q: return 'square root of %s: %s is more than 0.50000005 units off' % (desc(x), show(res))
        return None
    return j
def g_sqrt(g):
    r = g.r
    def c(x): return 'sqrt\t%s' % A(x), sqrt_judge(x)
    for n, s in ((60989241600000000000002099160, 0), (93539975070321373799964360258777, 0), (277965146176000000000004481404, 0), (0, 0), (0, 7), (0, 1000), (1, 3000), (1, 2000), (1, 2001), (2, 0), (1, 1000), (-1, 0), (99999999, 4), (10**16 - 1, 0)):
        yield c(O.dec(O.mkb(n, s)))
    yield c(O.dec(O.NANB))
    yield c(O.dec(O.enc(False, 99, 0, [9999] * 100)))
    yield c(O.dec(O.enc(False, 450, 0, [9999] * 451)))
    while 1:
        k = r.random()
        if k < .3: x = g.dec()
        elif k < .6:      # around squares and around the midpoint between two results
            m = r.choice((r.randrange(1, 10**6), r.randrange(1, 10**17), 10**r.randrange(0, 20), r.randrange(1, 10**40))); s = r.randrange(0, 14)
            n = r.choice((m * m, m * m + 1, m * m - 1, m * m + m, m * m + m + 1, m * m + r.randrange(-m, m + 1) // 10**r.randrange(0, 8)))
            x = O.dec(O.mkb(n * r.choice((1, 1, 1, 10**r.randrange(0, 30))), 2 * s) or O.mkb(n, 0))
        elif k < .7: x = O.dec(O.mkb(r.randrange(1, 10**r.randrange(1, 40)), r.randrange(0, 900)))
        else:
            x = g.any(huge=False)
        if not x.nan and x.n < 0 and r.random() < .9: x = O.dec(O.e_neg(x))
        yield c(x)
import decimal, math
PCTX = decimal.Context(prec=200, Emax=decimal.MAX_EMAX, Emin=decimal.MIN_EMIN, traps=[])
def pow_lg(x, n):
    """decimal logarithm of |x|^n, to about 20 digits"""
    PCTX.prec = 40
    m = abs(x.n); k = max(0, len(str(m)) - 60); d = PCTX.log10(decimal.Decimal(m // O.p10(k) if k else m))
    return (d + k - x.dscale) * n if k else PCTX.multiply(PCTX.subtract(d, decimal.Decimal(x.dscale)), decimal.Decimal(n))
def pow_judge(x, y):
    """the NaN rules, the documented panics, and |r - x^n| <= 0.501 units (+ ndigits/10000 for a square); None (nothing promised) outside the domain"""
    one = O.mkb(1, 0); nan = 'v:' + O.NANB.hex()
    if x.nan or y.nan:
        e = one if (x.nan and not y.nan and y.n == 0) or (y.nan and not x.nan and x.n == O.p10(x.dscale)) else O.NANB
        return lambda res: None if res == 'v:' + e.hex() else 'expected %s, got %s' % (show('v:' + e.hex()), show(res))
    def pan(m): return lambda res: None if res.startswith('panic:') and m in res else 'expected the documented panic (%s), got %s' % (m, show(res))
    if x.n == 0 and y.n < 0: return pan('zero raised to a negative power is undefined')
    isint = y.n % O.p10(y.dscale) == 0; n = y.n // O.p10(y.dscale)
    if x.n < 0 and not isint: return pan('a negative number raised to a non-integer power yields a complex result')
    if x.n == 0:
        def jz(res):
            if not res.startswith('v:'): return 'expected a result, got %s' % show(res)
            r = O.dec(bytes.fromhex(res[2:]))
            if r.nan or r.n != (O.p10(r.dscale) if y.n == 0 else 0) or not 16 <= r.dscale <= 1000: return 'zero to the power %s: got %s' % (desc(y), show(res))
        return jz
    if not isint or not -2**31 <= n < 2**31: return None
    lg = pow_lg(x, n)
    if lg > 29999: return None
    rs = min(1000, max(16, x.dscale)); neg = x.neg and n % 2 != 0
    def j(res):
        if not res.startswith('v:'): return 'expected a result, got %s' % show(res)
        try: r = O.dec(bytes.fromhex(res[2:]))
        except ValueError as e: return 'malformed bytes: %s' % e
        if r.nan: return 'got NaN'
        if O.canon_err(r): return 'not canonical: %s' % O.canon_err(r)
        if r.dscale != rs: return 'expected scale %d, got %d' % (rs, r.dscale)
        if r.n != 0 and (r.n < 0) != neg: return 'wrong sign: %s to the power %d gave %s' % (desc(x), n, show(res))
        tol = 5010 + (len(x.digits) if n == 2 else 0)   # in units of the last place / 10000
        if lg < -rs - 2: ok = r.n == 0
        elif abs(n) * len(str(x.n)) <= 4000:
            a = abs(x.n)**abs(n); b = O.p10(x.dscale * abs(n)); num, den = (a, b) if n >= 0 else (b, a)
            if n in (0, 1, -1): ok = abs(r.n) == (2 * num * O.p10(rs) + den) // (2 * den)
            else: ok = 10000 * abs(abs(r.n) * den - num * O.p10(rs)) <= tol * den
        else:
            PCTX.prec = int(max(lg, 0)) + rs + 40
            m = PCTX.power(PCTX.scaleb(decimal.Decimal(abs(x.n)), -x.dscale), n)
            ok = abs(decimal.Context(prec=60, Emax=decimal.MAX_EMAX, Emin=decimal.MIN_EMIN).create_decimal(PCTX.subtract(decimal.Decimal(abs(r.n)), PCTX.scaleb(m, rs)))) * 10000 <= tol + decimal.Decimal('0.001')
        return None if ok else '%s to the power %d: %s is more than %s units of the last place off' % (desc(x), n, show(res), tol / 10000)
    return j
def g_pow(g):
    r = g.r
    def c(x, y):
        j = pow_judge(x, y)
        return ('pow\t%s\t%s' % (A(x), A(y)), j) if j else None
    D = lambda n, s=0: O.dec(O.mkb(n, s)); nan = O.dec(O.NANB)
    fx = [(nan, D(0)), (nan, D(0, 5)), (D(1), nan), (D(10, 1), nan), (D(1000, 3), nan), (D(-1), nan), (nan, nan), (D(0), nan), (nan, D(1)), (D(0), D(0)), (D(0, 30), D(0)), (D(0), D(-1)), (D(0), D(-5, 1)), (D(0), D(5, 1)), (D(0), D(10**12)), (D(0, 20), D(3)),
          (D(-1), D(2**31 - 1)), (D(-1), D(-2**31)), (D(1), D(-2**31)), (D(1), D(2**31 - 1)), (D(-15, 1), D(25, 1)), (D(-2), D(35, 1)), (D(-2), D(10, 1)), (D(-2), D(-3)), (D(1, 7), D(2**31 - 1)), (D(10**7 + 1, 7), D(10**9)), (D(10**9 - 1, 9), D(-2**31)), (D(2), D(100)), (D(7, 3), D(-9)),
          (D(199999, 4), D(17)), (D(10**9 - 1, 9), D(2**31 - 1)), (D(123456789), D(-7)), (D(5, 1), D(60)), (D(15, 1), D(-3)), (D(1, 3), D(6)), (D(1, 1), D(16)), (D(1, 1), D(17)), (D(2), D(-54)), (D(2), D(-53)), (D(2), D(-57))]
    for x, y in fx:
        t = c(x, y)
        if t: yield t
    while 1:
        k = r.random()
        if k < .4: x = g.dec()
        elif k < .7:
            d = r.randint(1, 40); x = D(r.choice((1, 1, -1)) * r.choice((r.randint(1, 10**d), int(str(r.choice((1, 19999, 1999, 199999, 9999))) + '9' * r.randint(0, 20)), 10**d, 10**d + 1)), r.randint(0, d + 6))
        elif k < .8: q = r.randint(1, 14); x = D(10**q + r.choice((1, -1, 2, -3, r.randint(1, 10**q))), q)     # near one
        elif k < .85: x = D(r.choice((1, -1)) * r.randint(1, 10**r.randint(1, 12)), r.choice((900, 999, 1000, 1001, 1200)))
        else: x = g.any(huge=False)
        k = r.random()
        if k < .35: n = r.choice((0, 1, 2, -1, -2, 3))
        elif k < .75: n = r.choice((1, -1)) * r.randint(2, 40)
        elif k < .97 and not x.nan and x.n and abs(pow_lg(x, 1)) > decimal.Decimal('0.000001'):  # aim at a size of result
            n = int(r.choice((r.uniform(-30, 60), r.uniform(-1010, 100), r.uniform(0, 1500), r.uniform(-17, 1))) / float(pow_lg(x, 1)))
        else: n = r.choice((1, -1)) * r.randint(2, 2**31 - 1)
        n = max(-2**31, min(2**31 - 1, n))
        if not x.nan and x.n and pow_lg(x, n) > (3000 if r.random() > .01 else 12000): continue
        k = r.random()
        y = D(n) if k < .8 else D(n * 10**(q := r.randint(1, 9)), q) if k < .92 else nan if k < .95 else g.dec()
        t = c(x, y)
        if t: yield t
def ln_judge(x):
    """NaN for NaN, the documented panics at and below zero, else a documented scale and |r - ln x| <= 1/2 + (1 + 25|ln x|)(scale + 15)/10^8 units"""
    def j(res):
        if x.nan: return None if res == 'v:' + O.NANB.hex() else 'expected NaN, got %s' % show(res)
        if x.n <= 0:
            m = 'cannot take logarithm of ' + ('zero' if x.n == 0 else 'a negative number')
            return None if res.startswith('panic:') and m in res else 'expected the documented panic, got %s' % show(res)
        if not res.startswith('v:'): return 'expected a result, got %s' % show(res)
        try: y = O.dec(bytes.fromhex(res[2:]))
        except ValueError as e: return 'malformed bytes: %s' % e
        if y.nan: return 'got NaN'
        if O.canon_err(y): return 'not canonical: %s' % O.canon_err(y)
        D = decimal.Decimal; PCTX.prec = max(40, y.dscale + 40)
        a = PCTX.ln(decimal.Context(prec=200000, Emax=decimal.MAX_EMAX, Emin=decimal.MIN_EMIN, traps=[]).scaleb(D(x.n), -x.dscale)); m = abs(a)
        if m == 0: ds = {max(16, x.dscale)}
        else: ds = {16 - d for d in range(m.adjusted() - 3, m.adjusted() + 4) if 10 * m >= D(9).scaleb(d - 1, PCTX) and 100 * m <= D(112).scaleb(d + 1, PCTX)}
        ds = {min(1000, max(d, x.dscale, 0)) for d in ds}
        if y.dscale not in ds: return 'ln of %s: scale %d, expected one of %s' % (desc(x), y.dscale, sorted(ds))
        e = abs(PCTX.subtract(D(y.n), PCTX.scaleb(a, y.dscale)))
        if e > D('0.5') + (1 + 25 * m) * (y.dscale + 15) / D(10**8) + D('1e-12'): return 'ln of %s: %s is %s units of the last place off' % (desc(x), show(res), decimal.Context(prec=8).plus(e))
        return None
    return j
def g_ln(g):
    r = g.r; D = lambda n, s=0: O.dec(O.mkb(n, s))
    def c(x): return 'ln\t%s' % A(x), ln_judge(x)
    for x in [O.dec(O.NANB), D(0), D(0, 9), D(-1), D(-1, 900), D(1), D(1, 0), D(10**20, 20), D(10**400, 400), D(2), D(9, 1), D(11, 1), D(89, 2), D(111, 2), D(899999999999999999999, 21), D(1100000000000000000001, 21), D(8999, 4), D(9001, 4), D(10999, 4), D(11001, 4), D(10), D(100), D(12345678), D(1, 1), D(1, 30), D(5, 200), D(1, 900),
              D(10**16 + 1, 16), D(10**16 - 1, 16), D(10**60 + 1, 60), D(10**200 - 3, 200), D(10**700 + 7, 700), D(10**990 + 7, 990), D(27182818284590452, 16), D(22255409284924675, 1), D(10**300), D(7, 0), D(81, 2), D(121, 2), D(656, 3), D(14641, 4), D(9999), D(10001, 4), D(10002, 4), D(9998, 4), D(10009, 4), D(99995, 5), D(3, 500), O.dec(O.enc(False, 99, 0, [9999] * 100)), O.dec(O.enc(False, 3000, 0, [1])), O.dec(O.enc(False, 32767, 0, [9999] * 3))]: yield c(x)
    while 1:
        k = r.random(); q = r.randint(1, 60)
        if k < .2: x = g.dec()
        elif k < .4: q = r.choice((r.randint(1, 25), r.randint(1, 120))); x = D(10**q + r.choice((1, -1)) * r.choice((1, 2, 9, 10, r.randint(1, 10**r.randint(1, q)))), q)   # near one
        elif k < .5: x = D(r.choice((9, 11, 9**2, 11**2, 9**4, 11**4, 1, 101)) * 10**q + r.randint(-3, 3), q + r.choice((0, 1, 2, 4)))      # near the edges of the reduction
        elif k < .65: x = D(r.randint(1, 10**r.randint(1, 40)), r.randint(0, 60))
        elif k < .75: x = D(r.randint(1, 10**r.randint(1, 12)) * 10**r.randint(0, 120))
        elif k < .8: x = D(r.randint(1, 10**r.randint(1, 12)), r.choice((200, 300, 333, 400)))
        elif k < .84: x = D(int(str(r.choice((1, 3, 7, 22))) + '0' * r.randint(0, 9) + str(r.randint(0, 99))), r.randint(0, 30))
        elif k < .88: x = O.dec(O.enc(False, r.choice((r.randint(5, 200), r.randint(5, 4000))), 0, [r.randint(1, 9999)] + [r.randint(0, 9999) for _ in range(r.randint(0, 3))] + [1]))
        else: x = g.any(huge=False)
        if x.nan or x.n > 0 or r.random() < .05: pass
        elif x.n < 0: x = O.dec(O.e_neg(x))
        else: continue
        if x.dscale > 400 and r.random() > .02: continue
        yield c(x)
DOMAIN = {'ln': ('cannot take logarithm of zero', 'cannot take logarithm of a negative number'), 'sqrt': ('cannot take square root of a negative number',), 'pow': ('zero raised to a negative power is undefined', 'a negative number raised to a non-integer power yields a complex result')}
def no_panic(gen):
    for c, j in gen:
        ok = DOMAIN.get(c.split('\t')[0], OVF + DZ)
        yield c, (lambda res, ok=ok: ('undocumented panic: ' + res) if res.startswith('panic:') and not any(m in res for m in ok) else None)
def g_safe(g):
    gens = [no_panic(q) for q in (g_addsub(g), g_mul(g), g_div(g), g_rem(g), g_round(g), g_parse(g), g_fromint(g), g_toint(g), g_sign(g), g_apply(g), g_cmp(g), g_hash(g), g_show(g), g_sci(g), g_bytes(g), g_sqrt(g), g_pow(g), g_ln(g))]
    while 1:
        for q in gens: yield next(q)

GENS = {'C19': g_sqrt, 'C25': g_pow, 'C26': g_ln, 'C01': g_addsub, 'C02': g_mul, 'C03': g_div, 'C04': g_rem, 'C05': g_round, 'C06': g_cmp, 'C07': g_hash, 'C08': g_parse, 'C09': g_show, 'C10': g_fromint, 'C11': g_toint, 'C12': g_bytes, 'C13': g_canon, 'C14': g_typmod, 'C15': g_safe, 'C16': g_sign, 'C17': g_fact, 'C18': g_sci, 'C22': g_ops, 'C23': g_hist, 'C24': g_serde}

class Driver:
    def __init__(s, exe):
        s.exe = exe; s.start()
    def start(s): s.p = subprocess.Popen([s.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1 << 16)
    def batch(s, cmds):
        """results in order; a crash of the driver gives 'crash:...' for the command that was running"""
        out = []
        i = 0
        while i < len(cmds):
            part = cmds[i:]
            def feed(p=s.p, part=part):
                try:
                    for c in part: p.stdin.write(c + '\n')
                    p.stdin.flush()
                except (BrokenPipeError, ValueError): pass
            t = threading.Thread(target=feed, daemon=True); t.start()
            n = 0
            for _ in part:
                l = s.p.stdout.readline()
                if not l: break
                out.append(l.rstrip('\n')); n += 1
            t.join(5)
            i += n
            if n < len(part):
                rc = s.p.wait(); out.append('crash: driver ended with status %s' % rc); i += 1; s.start()
        return out
    def close(s):
        try: s.p.stdin.close(); s.p.wait(5)
        except Exception: s.p.kill()

def confirm(exe, prop_cmd, judge, limit=30):
    """run one command alone in a fresh driver: -> (error or None, result)"""
    try:
        o = subprocess.run([exe], input=prop_cmd + '\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=limit)
    except subprocess.TimeoutExpired: return 'no result within %d s' % limit, 'timeout'
    l = o.stdout.split('\n')[0]
    if not l: return 'driver crashed with status %s' % o.returncode, 'crash'
    return judge(l), l
def run(prop, exe, seconds, seed, maxfail=1, mincases=200, samples=3):
    """-> dict(evaluations, distinct, failures=[(cmd, error, result)], samples)"""
    g = Gen(seed); it = GENS[prop](g); d = Driver(exe); t0 = time.time()
    n = 0; seen = set(); fails = []; smp = []
    while (time.time() - t0 < seconds or n < mincases) and len(fails) < maxfail:
        if time.time() - t0 > seconds * 2 + 30: break
        cs = [next(it) for _ in range(64)]
        # a watchdog per batch: a command that gives no result is examined on its own
        wd = threading.Timer(60, lambda: d.p.kill()); wd.daemon = True; wd.start()
        rs = d.batch([c for c, _ in cs]); wd.cancel()
        for (c, j), r in zip(cs, rs):
            n += 1; seen.add(hash(c))
            e = ('driver crashed: ' + r) if r.startswith('crash:') else j(r)
            if e:
                e, r = confirm(exe, c, j)
                if e is None: continue
                fails.append((c, e, r))
                if len(fails) >= maxfail: break
        if len(smp) < samples: smp.append({'input': cs[0][0][:160], 'result': rs[0][:160]})
    d.close()
    return dict(evaluations=n, distinct=len(seen), failures=fails, samples=smp, seconds=round(time.time() - t0, 2))

if __name__ == '__main__':
    if sys.argv[1] == '--json':      # EXE PROP SECONDS SEED
        print(json.dumps(run(sys.argv[3], sys.argv[2], float(sys.argv[4]), int(sys.argv[5])))); sys.exit(0)
    for p in (sys.argv[3:] or GENS):
        r = run(p, sys.argv[1], float(sys.argv[2]), int(os.environ.get('VERIF_SEED', '1')), maxfail=3)
        print(p, r['evaluations'], r['distinct'], r['seconds'])
        for c, e, res in r['failures']: print('   FAIL', c[:150], '|', e[:300])
