"""Executable form of the property statements (exact integer arithmetic, independent of the crate).

Used to (1) replay / search for a concrete failing input when the verifier rejects an obligation and
(2) as the labelled, bounded stand-in for code outside the verifier's reach.  It never decides a
property that is claimed as proved."""
import sys, struct
sys.set_int_max_str_digits(0)

NB = 10000
WMAX, DSMAX = 32767, 16383
POS, NEG, NAN = 0x0000, 0x4000, 0xC000

P10 = [1]
def p10(k):
    if k < 4096:
        while len(P10) <= k: P10.append(P10[-1] * 10)
        return P10[k]
    return 10 ** k

def digits_to_int(ds):
    return int(''.join('%04d' % d for d in ds)) if ds else 0

class Num:
    """decoded on-disk numeric"""
    __slots__ = ('nan', 'neg', 'weight', 'dscale', 'digits', 'short', 'raw', '_n')
    def __init__(s): s._n = None
    @property
    def n(s):
        """signed integer N with value == N / 10^dscale exactly, or None if digits hide beyond dscale"""
        if s._n is None:
            m = digits_to_int(s.digits)
            e = 4 * (s.weight + 1 - len(s.digits)) + s.dscale   # m * 10^e
            if e >= 0: v = m * p10(e)
            else:
                v, r = divmod(m, p10(-e))
                if r: return None
            s._n = -v if s.neg else v
        return s._n

def enc(neg, weight, dscale, digits, nan=False):
    if nan: hdr = struct.pack('<H', NAN)
    elif dscale <= 63 and -64 <= weight <= 63:
        hdr = struct.pack('<H', 0x8000 | (0x2000 if neg else 0) | (dscale << 7) | (0x40 if weight < 0 else 0) | (weight & 0x3f))
    else: hdr = struct.pack('<Hh', (NEG if neg else POS) | dscale, weight)
    body = b''.join(struct.pack('<h', d) for d in digits)
    return struct.pack('<I', (4 + len(hdr) + len(body)) << 2) + hdr + body

def dec(raw):
    """decode; raises ValueError on malformed layout"""
    x = Num(); x.raw = raw
    if len(raw) < 6: raise ValueError('too short')
    (l,) = struct.unpack('<I', raw[:4])
    if l & 3 or (l >> 2) != len(raw): raise ValueError('length word')
    (h,) = struct.unpack('<H', raw[4:6])
    x.nan = (h & 0xC000) == NAN
    if x.nan:
        if len(raw) != 6 or h != NAN: raise ValueError('NaN form')
        x.neg = False; x.weight = 0; x.dscale = 0; x.digits = []; x.short = True
        return x
    x.short = (h & 0x8000) != 0
    if x.short:
        x.neg = bool(h & 0x2000); x.dscale = (h >> 7) & 63
        x.weight = (h & 0x3f) - (64 if h & 0x40 else 0); off = 6
    else:
        x.neg = (h & 0xC000) == NEG; x.dscale = h & 0x3fff
        if len(raw) < 8: raise ValueError('too short')
        (x.weight,) = struct.unpack('<h', raw[6:8]); off = 8
    if (len(raw) - off) % 2: raise ValueError('odd length')
    x.digits = list(struct.unpack('<%dh' % ((len(raw) - off) // 2), raw[off:]))
    return x

def canon_err(x):
    """None if x is canonical, else what is wrong"""
    if x.nan: return None
    if any(d < 0 or d >= NB for d in x.digits): return 'digit out of 0..9999'
    if not x.digits:
        if x.weight != 0: return 'zero with weight %d' % x.weight
        if x.neg: return 'minus zero'
    else:
        if x.digits[0] == 0: return 'leading zero digit'
        if x.digits[-1] == 0: return 'trailing zero digit'
    if not (-WMAX <= x.weight <= WMAX): return 'weight range'
    if not (0 <= x.dscale <= DSMAX): return 'scale range'
    if x.n is None: return 'nonzero digit beyond the scale'
    return None

def layout_err(x):
    if x.nan: return None
    can = x.dscale <= 63 and -64 <= x.weight <= 63
    if can != x.short: return 'short header used=%s but should be %s' % (x.short, can)
    if enc(x.neg, x.weight, x.dscale, x.digits) != x.raw: return 'bytes are not the canonical encoding'
    return None

def mk(n, scale):
    """canonical (neg, weight, dscale, digits) of n/10^scale, or None if it does not fit the format"""
    if scale > DSMAX or scale < 0: return None
    neg = n < 0; m = abs(n)
    if m == 0: return (False, 0, scale, [])
    pad = (-scale) % 4
    s = str(m * p10(pad)); frac = (scale + pad) // 4
    s = s.zfill((len(s) + 3) // 4 * 4)
    ds = [int(s[i:i+4]) for i in range(0, len(s), 4)]
    w = len(ds) - frac - 1
    while ds and ds[-1] == 0: ds.pop()
    if w > WMAX or w < -WMAX: return None
    return (neg, w, scale, ds)

def mkb(n, scale):
    t = mk(n, scale)
    return None if t is None else enc(*t)

NANB = enc(False, 0, 0, [], nan=True)

def half_away(num, den):
    """round num/den (den>0) half away from zero"""
    q = (2 * abs(num) + den) // (2 * den)
    return -q if num < 0 else q
def tzero(num, den):
    q = abs(num) // den
    return -q if num < 0 else q

def first(x):
    return (x.weight, x.digits[0]) if x.digits else (0, 0)

def div_scale(a, b):
    """PostgreSQL's select_div_scale, from its documentation: >= 16 significant digits"""
    w1, f1 = first(a); w2, f2 = first(b)
    q = w1 - w2 - (1 if f1 <= f2 else 0)
    return min(max(16 - q * 4, a.dscale, b.dscale, 0), 1000)

def e_add(a, b, sgn=1):
    if a.nan or b.nan: return NANB
    s = max(a.dscale, b.dscale)
    return mkb(a.n * p10(s - a.dscale) + sgn * b.n * p10(s - b.dscale), s)
def e_sub(a, b): return e_add(a, b, -1)
def e_mul(a, b):
    if a.nan or b.nan: return NANB
    return mkb(a.n * b.n, a.dscale + b.dscale)
def e_div(a, b):
    if a.nan or b.nan: return NANB
    if b.n == 0: return None
    s = div_scale(a, b)
    num = a.n * p10(s + b.dscale); den = b.n * p10(a.dscale)
    if den < 0: num, den = -num, -den
    return mkb(half_away(num, den), s)
def e_divt(a, b):
    if a.nan or b.nan: return NANB
    if b.n == 0: return None
    num = a.n * p10(b.dscale); den = b.n * p10(a.dscale)
    if den < 0: num, den = -num, -den
    return mkb(tzero(num, den), 0)
def e_rem(a, b):
    if a.nan or b.nan: return NANB
    if b.n == 0: return None
    s = max(a.dscale, b.dscale)
    x = a.n * p10(s - a.dscale); y = b.n * p10(s - b.dscale)
    r = abs(x) % abs(y)
    return mkb(-r if x < 0 else r, s)
def clamp(s): return max(-1000, min(1000, s))
def rescale(x, s, f):
    """f-rounded integer of x.n/10^dscale at scale s (s may be negative); returns n at scale max(s,0)"""
    d = s - x.dscale
    v = x.n * p10(d) if d >= 0 else f(x.n, p10(-d))
    return (v * p10(-s), 0) if s < 0 else (v, s)
def e_round(x, s):
    if x.nan: return NANB
    return mkb(*rescale(x, clamp(s), half_away))
def e_trunc(x, s):
    if x.nan: return NANB
    return mkb(*rescale(x, clamp(s), tzero))
def e_ceil(x):
    if x.nan: return NANB
    return mkb(-((-x.n) // p10(x.dscale)), 0)
def e_floor(x):
    if x.nan: return NANB
    return mkb(x.n // p10(x.dscale), 0)
def e_neg(x): return NANB if x.nan else mkb(-x.n, x.dscale)
def e_abs(x): return NANB if x.nan else mkb(abs(x.n), x.dscale)
def e_sgn(x): return NANB if x.nan else mkb((x.n > 0) - (x.n < 0), 0)
def e_inc(x): return NANB if x.nan else mkb(x.n + p10(x.dscale), x.dscale)
def cmp3(a, b):
    if a.nan or b.nan: return (a.nan > b.nan) - (a.nan < b.nan)
    x = a.n * p10(b.dscale); y = b.n * p10(a.dscale)
    return (x > y) - (x < y)
def e_show(x):
    if x.nan: return 'NaN'
    s = str(abs(x.n)).zfill(x.dscale + 1)
    if x.dscale: s = s[:-x.dscale] + '.' + s[-x.dscale:]
    return ('-' if x.n < 0 else '') + s
def e_norm(x):
    s = e_show(x)
    if '.' in s: s = s.rstrip('0').rstrip('.')
    return s
def e_sci(x, e='e'):
    if x.nan: return 'NaN'
    if x.n == 0: return '0%s+00' % e
    s = str(abs(x.n)); ex = len(s) - 1 - x.dscale
    s = s.rstrip('0')
    return ('-' if x.n < 0 else '') + s[0] + ('.' + s[1:] if len(s) > 1 else '') + '%s%s%02d' % (e, '-' if ex < 0 else '+', abs(ex))

import re
WS = '[ \t\n\x0c\r]'
G_NAN = re.compile(WS + '*nan' + WS + r'*\Z', re.I)
G_NUM = re.compile(WS + r'*([+-]?)(?:([0-9]+)(?:\.([0-9]*))?|\.([0-9]+))(?:[eE]([+-]?[0-9]+))?' + WS + r'*\Z')
def e_parse(s):
    """-> bytes, or 'empty' / 'invalid' / 'overflow' / 'invalid|overflow'"""
    if not s.strip(' \t\n\x0c\r'): return 'empty'
    if G_NAN.match(s): return NANB
    m = G_NUM.match(s)
    if not m:
        # a malformed string whose exponent is out of range may be reported either way
        if re.search(r'[eE][+-]?[0-9]{9,}', s): return 'invalid|overflow'
        return 'invalid'
    sg, i, f1, f2, ex = m.groups()
    i = i or ''; f = f1 or f2 or ''; ex = ex or '0'
    e = int(ex)
    if abs(e) >= 1073741823: return 'overflow'
    mant = int(i + f) if (i + f) else 0
    sc = max(len(f) - e, 0)
    if sc > DSMAX: return 'overflow'
    if mant == 0: return mkb(0, sc)
    if len((i + f).lstrip('0')) + e - len(f) > 4 * (WMAX + 1): return 'overflow'
    n = mant * p10(sc - len(f) + e)
    if sg == '-': n = -n
    b = mkb(n, sc)
    return 'overflow' if b is None else b

ITY = {t: (-(1 << (b - 1)), (1 << (b - 1)) - 1) for t, b in (('i8', 8), ('i16', 16), ('i32', 32), ('i64', 64), ('i128', 128), ('isize', 64))}
ITY.update({t: (0, (1 << b) - 1) for t, b in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('u128', 128), ('usize', 64))})
def e_to(t, x):
    if x.nan: return 'err:cannot convert to numeric'
    v = half_away(x.n, p10(x.dscale))
    lo, hi = ITY[t]
    return 'i:%d' % v if lo <= v <= hi else 'err:value is out of range'
def e_apply(x, p, s):
    """-> (overflow flag, bytes) ; p None = default typmod.  bytes None: rounded value unrepresentable"""
    if x.nan or p is None: return False, x.raw
    v, sc = rescale(x, s, half_away)
    ov = abs(v) >= p10(p)
    b = mkb(v, sc)
    if b is None: return True, x.raw
    return ov, b
def e_fact(n):
    if n <= 1: return mkb(1, 0)
    if n > 32177: return None
    import math
    return mkb(math.factorial(n), 0)
def e_valid(raw):
    """is raw the complete byte form of a valid numeric (4-byte NaN of old releases allowed)?
    None = unspecified: only the two flag bits of the length word deviate (either outcome is fine)"""
    if len(raw) >= 4 and raw[0] & 3:
        v = e_valid(bytes([raw[0] & 0xfc]) + raw[1:])
        return None if v else False
    try:
        if len(raw) == 8 and struct.unpack('<I', raw[:4])[0] == 32 and struct.unpack('<H', raw[4:6])[0] & 0xC000 == NAN: return True
        if len(raw) == 6 and struct.unpack('<I', raw[:4])[0] == 24 and struct.unpack('<H', raw[4:6])[0] & 0xC000 == NAN: return True
        x = dec(raw)
    except (ValueError, struct.error): return False
    return canon_err(x) is None
