"""Writes native/midpoints.inc: decimal texts of up to 19 digits next to a rounding midpoint of double (D) or float (F).
For every decimal exponent and binade the smallest significands whose value lies within 2^-dlog ulp above (or below) a midpoint are found
with a modular Euclid search; run by hand, the result is committed."""
import os, sys
from fractions import Fraction
def first(a, m, l, r):
    """smallest x >= 0 with l <= a*x mod m <= r"""
    st = []
    while True:
        if l == 0: x = 0; break
        if a == 0: return None
        c = -(-l // a)
        if a * c <= r: x = c; break
        st.append((a, m, l)); a, m, l, r = m % a, a, (-r) % a, (-l) % a
    while st:
        a, m, l = st.pop(); x = (l + m * x + a - 1) // a
    return x
def first_from(a, m, l, r, s0):
    o = a * s0 % m; l2 = (l - o) % m; r2 = (r - o) % m
    x = first(a % m, m, l2, r2) if l2 <= r2 else 0
    return None if x is None else s0 + x
def gen(N, dlog, limit, mant, emin, erange, kmax):
    out = []
    for e in erange:
        P = Fraction(10) ** e; lo = 10 ** (N - 1); hi = 10 ** N; s = lo
        while s < hi:
            v = P * s; k = v.numerator.bit_length() - v.denominator.bit_length()
            if Fraction(2) ** k > v: k -= 1
            send = min(hi, int(Fraction(2) ** (k + 1) / P) + 1); q = max(k - mant, emin); al = P / Fraction(2) ** q; a, m = al.numerator, al.denominator
            if m > 1 and emin - 2 <= k <= kmax:
                w = m >> dlog
                for l, r in ((-(-m // 2), min(m - 1, -(-m // 2) + w)), (max(0, m // 2 - w), m // 2)):
                    x = s
                    for _ in range(limit):
                        x = first_from(a % m, m, l, r, x)
                        if x is None or x >= send: break
                        out.append('%de%d' % (x, e)); x += 1
            s = max(send, s + 1)
    return out
def thin(l, n): return l if len(l) <= n else [l[i * len(l) // n] for i in range(n)]
if __name__ == '__main__':
    D = []; F = []
    for N, dl in ((16, 55), (17, 58), (18, 60), (19, 61), (19, 66)): D += thin(gen(N, dl, 2, 52, -1074, range(-342, 309), 1024), 2500)
    for N, dl in ((9, 28), (12, 38), (17, 54), (19, 60)): F += thin(gen(N, dl, 1, 23, -149, range(-65, 40), 128), 1200)
    D += ['8392591456304476166e-327', '97338774138954421e-289']; F += ['3402823567797336616e20', '7006492321624085355e-64']
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'native', 'midpoints.inc'), 'w') as f:
        for n, l in (('MID_D', D), ('MID_F', F)):
            f.write('static const char *const %s[] = {\n' % n)
            for i in range(0, len(l), 8): f.write(' '.join('"%s",' % x for x in l[i:i + 8]) + '\n')
            f.write('};\n')
    print(len(D), len(F))
