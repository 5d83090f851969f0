"""C semantics of SPVM's numeric types, in Python."""
import struct, math

INTS = ['byte', 'short', 'int', 'long']
FLTS = ['float', 'double']
TYPES = INTS + FLTS
BITS = {'byte': 8, 'short': 16, 'int': 32, 'long': 64}
LOG = {'byte': 'i', 'short': 'i', 'int': 'i', 'long': 'l', 'float': 'f', 'double': 'd', 'string': 's', 'object': 'o'}


def wrap(t, v):
    b = BITS[t]
    v &= (1 << b) - 1
    return v - (1 << b) if v >> (b - 1) else v


def f32(v):
    try:
        return struct.unpack('f', struct.pack('f', v))[0]
    except OverflowError:
        return math.copysign(math.inf, v)


def int_to_f32(v):
    """int to float with one rounding (a long does not pass through double)."""
    s = -1 if v < 0 else 1
    a = abs(v)
    n = a.bit_length()
    if n <= 24:
        return float(v)
    sh = n - 24
    q, r = a >> sh, a & ((1 << sh) - 1)
    half = 1 << (sh - 1)
    if r > half or (r == half and q & 1):
        q += 1
    return s * float(q << sh)


def conv(v, src, dst):
    """C conversion; None when C leaves it undefined."""
    if src in INTS:
        if dst in INTS: return wrap(dst, v)
        return int_to_f32(v) if dst == 'float' else float(v)
    if dst == 'double': return v
    if dst == 'float': return f32(v)
    if math.isnan(v) or math.isinf(v): return None
    i = math.trunc(v)
    if not (-(1 << (BITS[dst] - 1)) <= i < (1 << (BITS[dst] - 1))): return None
    return i


def binary_type(a, b):
    t = TYPES[max(TYPES.index(a), TYPES.index(b))]
    return 'int' if TYPES.index(t) < 2 else t


def widen(t):
    return 'int' if t in ('byte', 'short') else t


def fmt(t, v):
    """What MCLog writes for a value of the type."""
    if t in INTS: return '%d;' % v
    if math.isnan(v): return 'fnan;' if t == 'float' else 'dnan;'
    if t == 'float': return 'f%08x;' % struct.unpack('I', struct.pack('f', v))[0]
    return 'd%016x;' % struct.unpack('Q', struct.pack('d', v))[0]


def raw(t, v):
    """Inside an array shown by MCLog->o."""
    if t in INTS: return '%d' % v
    return 'nan' if math.isnan(v) else fmt(t, v)[1:-1]


def lit(t, v):
    """A literal expression of the type."""
    if t in ('byte', 'short'): return '(%s)%d' % (t, v)
    if t == 'int': return '%d' % v
    if t == 'long': return '%dL' % v
    s = 'f' if t == 'float' else ''
    if math.isnan(v): return '(0.0%s/0.0%s)' % (s, s)
    if math.isinf(v): return '(%s1.0%s/0.0%s)' % ('-' if v < 0 else '', s, s)
    r = '%.9g' % v if t == 'float' else '%.17g' % v
    if '.' not in r and 'e' not in r: r += '.0'
    if 'e' in r and '.' not in r: r = r.replace('e', '.0e')
    return r + s


class Undefined(Exception):
    pass


class Thrown(Exception):
    pass


def fdiv(a, b):
    if b == 0 or math.isnan(b):
        if math.isnan(a) or a == 0 or math.isnan(b): return math.nan
        return math.copysign(math.inf, math.copysign(1, a) * math.copysign(1, b))
    return a / b


def arith(op, t, a, b):
    """a op b, both already of type t (int, long, float, double)."""
    if t in INTS:
        if op == '+': return wrap(t, a + b)
        if op == '-': return wrap(t, a - b)
        if op == '*': return wrap(t, a * b)
        if op in ('/', '%'):
            if b == 0: raise Thrown('Integral type values cannot be divided by 0.')
            q = abs(a) // abs(b)
            q = -q if (a < 0) != (b < 0) else q
            if op == '/': return wrap(t, q)
            r = a - q * b
            if (a < 0) != (b < 0) and r: r += b
            return wrap(t, r)
        if op == '&': return a & b
        if op == '|': return a | b
        if op == '^': return a ^ b
        m = (1 << BITS[t]) - 1
        if op in ('div_uint', 'div_ulong', 'mod_uint', 'mod_ulong'):
            if b == 0: raise Thrown('Integral type values cannot be divided by 0.')
            x, y = a & m, b & m
            return wrap(t, x // y if op[0] == 'd' else x % y)
    else:
        r = f32 if t == 'float' else (lambda v: v)
        try:
            if op == '+': return r(a + b)
            if op == '-': return r(a - b)
            if op == '*': return r(a * b)
            if op == '/': return r(fdiv(a, b))
        except OverflowError:
            raise Undefined()
    raise KeyError(op)


def compare(op, a, b):
    if op == '==': return int(a == b)
    if op == '!=': return int(a != b)
    if op == '>': return int(a > b)
    if op == '>=': return int(a >= b)
    if op == '<': return int(a < b)
    if op == '<=': return int(a <= b)
    if op == '<=>': return 1 if a > b else -1 if a < b else 0
    raise KeyError(op)


def shift(op, t, a, n):
    if not 0 <= n < BITS[t]: raise Undefined()
    if op == '<<': return wrap(t, a << n)
    if op == '>>': return a >> n
    if op == '>>>': return wrap(t, (a & ((1 << BITS[t]) - 1)) >> n)
    raise KeyError(op)


BOUND = {
    'byte': [-128, -127, -2, -1, 0, 1, 2, 3, 126, 127],
    'short': [-32768, -32767, -129, -1, 0, 1, 2, 128, 255, 32766, 32767],
    'int': [-2147483648, -2147483647, -65537, -32769, -129, -8, -7, -3, -2, -1, 0, 1, 2, 3, 7, 8, 31, 127, 128, 255, 256, 65535, 65536, 16777217, 2147483646, 2147483647],
    'long': [-9223372036854775808, -9223372036854775807, -4294967297, -2147483649, -2147483648, -7, -3, -2, -1, 0, 1, 2, 3, 7, 63, 255,
             2147483647, 2147483648, 4294967295, 4294967296, 9007199254740993, 16777217, 9223372036854775806, 9223372036854775807],
    'float': [math.nan, -math.inf, -3.4028234663852886e38, -16777216.0, -1.5, -1.0, -1.401298464324817e-45, -0.0, 0.0, 1.401298464324817e-45, 0.5, 0.10000000149011612, 1.0, 2.5, 127.0, 16777216.0, 2147483648.0, 3.4028234663852886e38, math.inf],
    'double': [math.nan, -math.inf, -1.7976931348623157e308, -9007199254740992.0, -2.5, -1.0, -5e-324, -0.0, 0.0, 5e-324, 0.1, 0.5, 1.0, 3.0, 127.9, 2147483647.0, 4294967296.0, 9007199254740991.0, 1.7976931348623157e308, math.inf],
}
