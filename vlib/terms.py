"""Concrete, many-patterns-at-a-time evaluation of the emitted terms and of the specification."""
import re
K = 128                                  # patterns evaluated at once
LANES = int.from_bytes(b"\x01" * K, "little")
FULL, LOW7, HIGH = LANES * 0xFF, LANES * 0x7F, LANES * 0x80
TOK = re.compile(r"\|[^|]*\||[()]|[^\s()|]+")

def parse(t):
    """one s-expression -> nested lists"""
    stack, cur = [], []
    for k in TOK.findall(t):
        if k == "(": stack.append(cur); cur = []
        elif k == ")": stack[-1].append(cur); cur = stack.pop()
        else: cur.append(k)
    return cur[0]

# ---- implementation terms: Bool = 0x00/0xFF lanes, BV8 = 8-bit lanes
def add8(a, b): return ((a & LOW7) + (b & LOW7)) ^ ((a ^ b) & HIGH)
def neg8(a): return add8(a ^ FULL, LANES)

def term(e, env):
    if isinstance(e, str):
        if e == "true": return FULL
        if e == "false": return 0
        if e.startswith("#x"): return LANES * int(e[2:], 16)
        return env[e]
    f = e[0]
    if f == "ite":
        s = term(e[1], env)
        return (s & term(e[2], env)) | (~s & FULL & term(e[3], env))
    if f == "bvneg": return neg8(term(e[1], env))
    if f == "bvadd": return add8(term(e[1], env), term(e[2], env))
    if f == "bvsub": return add8(term(e[1], env), neg8(term(e[2], env)))
    if f == "bvmul":
        x, r = term(e[2], env), 0
        for _ in range(int(e[1][2:], 16)): r = add8(r, x)
        return r
    if f == "=":                         # of BV8
        x = term(e[1], env) ^ term(e[2], env)
        x |= x >> 4 & LANES * 0x0F; x |= x >> 2 & LANES * 3; x |= x >> 1
        return (LANES ^ (x & LANES)) * 0xFF
    raise ValueError(f)

# ---- specification: one pattern, 32-bit words
def sgn(v, n=32): return v - (1 << n) if v >> (n - 1) & 1 else v
M = (1 << 32) - 1
def word(e, env):
    """value of a 32-bit (or Bool / extracted) specification term"""
    if isinstance(e, str): return env[e] if not e.startswith("#b") else int(e[2:], 2)
    f = e[0]
    if f == "_": return int(e[1][2:])
    if isinstance(f, list):
        v = word(e[1], env)
        if f[1] == "extract": return v >> int(f[3]) & ((1 << (int(f[2]) - int(f[3]) + 1)) - 1)
        n = 32 - int(f[2])
        return v if f[1] == "zero_extend" else sgn(v, n) & M
    if f == "ite": return word(e[2], env) if word(e[1], env) else word(e[3], env)
    a = [word(x, env) for x in e[1:]]
    if f == "=": return a[0] == a[1]
    if f == "not": return not a[0]
    if f == "bvnot": return ~a[0] & M
    x, y = a[0], a[1]
    return {"bvadd": lambda: (x + y) & M, "bvsub": lambda: (x - y) & M, "bvand": lambda: x & y, "bvor": lambda: x | y,
            "bvxor": lambda: x ^ y, "bvshl": lambda: (x << y) & M if y < 32 else 0, "bvlshr": lambda: x >> y if y < 32 else 0,
            "bvashr": lambda: (sgn(x) >> min(y, 31)) & M, "bvslt": lambda: sgn(x) < sgn(y), "bvsge": lambda: sgn(x) >= sgn(y),
            "bvult": lambda: x < y, "bvuge": lambda: x >= y}[f]()
