"""Fermionic and qubit operators as sparse matrices, by definition.

A matrix is a dict {(row, column): entry}; basis state k of n modes has mode 0
as its most significant bit."""


def bit(k, q, n):
    return (k >> (n - 1 - q)) & 1


def ladder_term(term, n):
    """{column: (row, sign)} of a product of ladder operators, rightmost first."""
    out = {}
    for col in range(2 ** n):
        k, s = col, 1
        for q, dag in reversed(term):
            if bit(k, q, n) == dag:
                k = None
                break
            for i in range(q):
                if bit(k, i, n):
                    s = -s
            k ^= 1 << (n - 1 - q)
        if k is not None:
            out[col] = (k, s)
    return out


def pauli_term(term, n):
    out = {}
    for col in range(2 ** n):
        k, s = col, 1
        for q, p in reversed(term):
            b = bit(k, q, n)
            if p == "Z":
                s = s * (-1 if b else 1)
            else:
                if p == "Y":
                    s = s * (-1j if b else 1j)
                k ^= 1 << (n - 1 - q)
        out[col] = (k, s)
    return out


def matrix(h, terms, n, of):
    m = {}
    for t, c in terms.items():
        c = h.value(c)
        for col, (row, s) in of(t, n).items():
            m[row, col] = m.get((row, col), 0) + s * c
    return m


def fermion(h, op, n):
    return matrix(h, op.terms, n, ladder_term)


def qubit(h, op, n):
    return matrix(h, op.terms, n, pauli_term)


def bk_encode(k, n):
    """The Bravyi-Kitaev (Fenwick tree) encoding of occupation state k: bit j
    holds the parity of the occupations of the block that ends at j."""
    out = 0
    for j in range(n):
        low = (j + 1) & -(j + 1)
        p = sum(bit(k, i, n) for i in range(j + 1 - low, j + 1)) % 2
        out |= p << (n - 1 - j)
    return out


def relabel(m, f):
    return {(f(r), f(c)): v for (r, c), v in m.items()}


def dagger(h, m):
    return {(c, r): h.num(v).conjugate() for (r, c), v in m.items()}


def mul(a, b):
    rows = {}
    for (i, j), v in b.items():
        rows.setdefault(i, []).append((j, v))
    out = {}
    for (i, k), u in a.items():
        for j, v in rows.get(k, ()):
            out[i, j] = out.get((i, j), 0) + u * v
    return out


def add(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
    return out


def equal(h, a, b, label, tol=1e-6):
    keys = sorted(set(a) | set(b))
    h.close([a.get(k, 0) for k in keys], [b.get(k, 0) for k in keys], label, tol)


def normal(term):
    """{normal-ordered term: integer} equal to a product of ladder operators."""
    for i in range(len(term) - 1):
        (p, a), (q, b) = term[i], term[i + 1]
        if (a, p) == (b, q):
            return {}
        if (b, q) > (a, p):
            out = {t: -c for t, c in normal(term[:i] + ((q, b), (p, a)) + term[i + 2:]).items()}
            if p == q:
                for t, c in normal(term[:i] + term[i + 2:]).items():
                    out[t] = out.get(t, 0) + c
            return out
    return {term: 1}


def canonical(h, terms):
    out = {}
    for t, c in terms.items():
        for u, s in normal(tuple(t)).items():
            out[u] = out.get(u, 0) + s * h.value(c)
    return out
