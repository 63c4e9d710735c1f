"""P17: RTCM 3 frames: acceptance, scanning of a stream, encoding."""
from cssrlib.rtcm import rtcm, rtcme


def frame(run, n, rng, zero=False):
    e = rtcme()
    body = [0 if zero else rng.randrange(256) for _ in range(n)]
    msg = bytearray(n+6)
    msg[3:3+n] = bytes(body)
    e.set_sync(msg, 0)
    e.set_len(msg, 0, n)
    e.set_checksum(msg, 0)
    return list(msg)


def crc(b):
    r = 0
    for x in b:
        r ^= x << 16
        for _ in range(8):
            r = (r << 1) ^ (0x1864CFB if r & 0x800000 else 0)
    return r


def build(n, rng, body=None):
    """independent frame construction"""
    b = [0xd3, n >> 8, n & 255]
    b += body if body is not None else [rng.randrange(256) for _ in range(n)]
    c = crc(b)
    return b+[c >> 16, (c >> 8) & 255, c & 255]


def check(run, buf, k=0, maxlen=0):
    d = rtcm()

    def f():
        if k >= len(buf) or not d.sync(bytes(buf), k):
            return False
        return d.checksum(bytes(buf), k, maxlen)
    r, exc = run.call(f)
    out = dict(ok=int(bool(r)))
    if r:
        out.update(len=int(d.len), dlen=int(d.dlen))
    run.ev("check", out=out, exc=exc, buf=buf, k=k, maxlen=maxlen)


def scan(run, buf, sent, maxlen=True):
    d = rtcm()
    b = bytes(buf)

    def f():
        k = 0
        res = []
        while k < len(b):
            if not d.sync(b, k) or \
                    not d.checksum(b, k, len(b) if maxlen else 0):
                k += 1
                continue
            res.append([k, int(d.len)])
            k += int(d.dlen)
        return res
    r, exc = run.call(f)
    run.ev("scan", out=dict(frames=r, lost=[]), exc=exc, buf=buf, sent=sent)


def encode(run, body, k=0):
    e = rtcme()
    n = len(body)
    msg = bytearray(k+n+6)
    src = bytearray([0, 0, 0]+body)

    def f():
        e.set_sync(msg, k)
        e.set_len(msg, k, n)
        e.set_body(msg, src, k, n+3)
        return e.set_checksum(msg, k)
    _, exc = run.call(f)
    d = rtcm()
    r, exc2 = run.call(lambda: d.sync(msg, k) and d.checksum(msg, k))
    run.ev("enc", out=dict(buf=list(msg[k:]), ok=int(bool(r))),
           exc=exc or exc2, body=body)


def flip(buf, bits):
    b = list(buf)
    for x in bits:
        b[x >> 3] ^= 0x80 >> (x & 7)
    return b


def main(run):
    rng = run.rng
    run.model_check("Frame_MC")
    lens = [0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 63, 255, 256, 257, 511,
            512, 513, 767, 1021, 1022, 1023]
    run.hist(x=0)
    for n in lens:
        check(run, build(n, rng))
        check(run, build(n, rng, [0]*n))
        if n >= 6:
            encode(run, [rng.randrange(256) for _ in range(n)])
    # position, limits and trailing bytes
    for n in (6, 7, 20, 300):
        f = build(n, rng)
        run.hist(x=0)
        for pre in (0, 1, 5):
            for post in (0, 1, 3):
                b = [rng.randrange(256) for _ in range(pre)]+f + \
                    [rng.randrange(256) for _ in range(post)]
                check(run, b, pre)
                for mx in range(max(1, pre), len(b)+1,
                                1 if n < 30 else 37):
                    check(run, b, pre, mx)
                check(run, b, pre, len(b))
                check(run, b, pre, len(b)-post)
        # every truncation
        for m in list(range(0, min(n, 12)))+list(range(max(0, n-3), n+6)):
            check(run, f[:m])
            check(run, f[:m], 0, m)
        # a shorter valid frame behind a longer length field
        for d in (1, 2, 3, 5):
            g = [0xd3, (n+d) >> 8, (n+d) & 255]+f[3:3+n]
            c = crc(g)
            check(run, g+[c >> 16, (c >> 8) & 255, c & 255])
            check(run, g+[c >> 16, (c >> 8) & 255, c & 255], 0, len(g)+3)
    # corruption of one, two, three bits anywhere; and arbitrary corruption
    for _ in range(40 if run.quick else 400):
        run.hist(x=0)
        n = rng.choice([6, 7, 12, 25, 40, 80]+([1023] if rng.random() < .1
                                               else []))
        f = build(n, rng)
        for w in (1, 2, 3, 3, 3, 4, 8):
            bits = rng.sample(range(len(f)*8), w)
            if rng.random() < .3:
                s = rng.randrange(len(f)*8-24)
                bits = rng.sample(range(s, s+24), w)
            check(run, flip(f, bits)+[rng.randrange(256)
                                      for _ in range(rng.choice([0, 0, 9]))])
        # reserved bits are covered by the CRC, not by the length
        g = [0xd3, (rng.randrange(64) << 2) | (n >> 8), n & 255]+f[3:3+n]
        c = crc(g)
        check(run, g+[c >> 16, (c >> 8) & 255, c & 255])
        # every single bit of a short frame
    run.hist(x=0)
    f = build(9, rng)
    for x in range(len(f)*8):
        check(run, flip(f, [x]))
    # streams
    for _ in range(60 if run.quick else 600):
        run.hist(x=0)
        buf = []
        sent = []
        for _ in range(rng.randint(1, 6)):
            x = rng.random()
            if x < .3:
                buf += [rng.choice([0xd3, 0xd3, 0, rng.randrange(256)])
                        for _ in range(rng.randint(1, 9))]
            elif x < .45:
                f = build(rng.randint(6, 40), rng)
                buf += flip(f, rng.sample(range(len(f)*8),
                                          rng.randint(1, 3)))
            elif x < .55:
                f = build(rng.randint(6, 40), rng)
                buf += f[:rng.randint(1, len(f)-1)]
            else:
                n = rng.choice([0, 1, 5, 6, 6, 19, 40, 40, 120])
                f = build(n, rng)
                if n >= 12 and rng.random() < .3:      # frame within a frame
                    g = build(6, rng)
                    f = build(n, rng, g+[rng.randrange(256)
                                         for _ in range(n-12)])
                if n >= 6:
                    sent.append([len(buf), n])
                buf += f
        scan(run, buf, sent, rng.random() < .7)
    # encoder
    for _ in range(20 if run.quick else 200):
        run.hist(x=0)
        n = rng.choice([6, 7, 30, 100, 254, 255, 256, 300, 1000, 1023])
        encode(run, [rng.randrange(256) for _ in range(n)],
               rng.choice([0, 0, 3, 10]))
    run.validate("Frame_Trace")
    run.assumptions += [
        "the error detection of the check is decided on the polynomial "
        "arithmetic of Frame.tla for the longest frame; the code is bound to "
        "it by evaluating both on the same bytes"]
