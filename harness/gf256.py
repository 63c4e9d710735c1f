"""GF(256) arithmetic (x^8+x^4+x^3+x^2+1) and a systematic 255x32 generator
matrix of a Reed-Solomon code, independent of the code under test."""
import numpy as np
EXP = [0]*512
LOG = [0]*256
x = 1
for i in range(255):
    EXP[i] = x
    LOG[x] = i
    x <<= 1
    if x & 256:
        x ^= 0x11d
for i in range(255, 512):
    EXP[i] = EXP[i-255]


def mul(a, b):
    return 0 if a == 0 or b == 0 else EXP[LOG[a]+LOG[b]]


def generator(n=255, k=32):
    """parity = remainder of m(x) x^(n-k) by g(x); rows are code symbols"""
    g = [1]
    for i in range(1, n-k+1):
        g2 = [0]*(len(g)+1)
        for j, c in enumerate(g):
            g2[j] ^= c
            g2[j+1] ^= mul(c, EXP[i])
        g = g2
    G = np.zeros((n, k), dtype=np.uint8)
    for col in range(k):
        m = [0]*k
        m[col] = 1
        rem = m+[0]*(n-k)
        for i in range(k):
            c = rem[i]
            if c:
                for j in range(1, len(g)):
                    if g[j]:
                        rem[i+j] ^= mul(g[j], c)
        G[col, col] = 1
        for i in range(k, n):
            G[i, col] = rem[i]
    return G


def encode(G, msg):
    """msg: (ms,53) array -> (255,53) pages"""
    ms, w = msg.shape
    E = np.array(EXP)
    L = np.array(LOG)
    out = np.zeros((G.shape[0], w), dtype=np.uint8)
    for j in range(ms):
        col = G[:, j].astype(int)[:, None]
        row = msg[j].astype(int)[None, :]
        prod = np.where((col == 0) | (row == 0), 0, E[(L[col]+L[row])])
        out ^= prod.astype(np.uint8)
    return out
