"""smallest element of an arithmetic progression in a residue window (exact, big integers)"""
def first(a, m, l, r):
    """smallest x >= 0 with l <= a*x mod m <= r"""
    st = []
    while True:
        if l == 0: x = 0; break
        if a == 0: return None
        c = -(-l // a)
        if a * c <= r: x = c; break
        st.append((a, m, l)); a, m, l, r = m % a, a, (-r) % a, (-l) % a
    while st:
        a, m, l = st.pop(); x = (l + m * x + a - 1) // a
    return x
def first_from(a, m, l, r, s0):
    """smallest x >= s0 with l <= a*x mod m <= r"""
    o = a * s0 % m; l2 = (l - o) % m; r2 = (r - o) % m
    x = first(a % m, m, l2, r2) if l2 <= r2 else 0
    return None if x is None else s0 + x
