"""The recorded choice streams: one integer decides everything.

Three streams (w: workload, f: faults, s: schedule) live in a shared mapping, so
that the driver and the simulated process draw from the same record.  Value i of
a stream is a pure function of (seed, stream, i); a replay supplies the recorded
values as a prefix and 0 afterwards.  0 is always the simplest choice.
"""
import mmap
import os
import struct

M = (1 << 64) - 1
CAP = {"w": 6000, "f": 600, "s": 120000}
NAMES = ("w", "f", "s")
HDR = 256


def mix(z):
    z = (z + 0x9E3779B97F4A7C15) & M
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M
    return z ^ (z >> 31)


def derive(*parts):
    h = 0x1234567
    for p in parts:
        if isinstance(p, str):
            for b in p.encode():
                h = mix(h ^ b)
        else:
            h = mix(h ^ (p & M))
    return h


class Stream:
    def __init__(self, buf, idx, name, off):
        self.buf, self.idx, self.name = buf, idx, name
        self.cap = CAP[name]
        self.hoff = 16 + idx * 24
        self.rec = off
        self.pre = off + 4 * self.cap

    def _get(self, k):
        return struct.unpack_from("<Q", self.buf, self.hoff + 8 * k)[0]

    def _set(self, k, v):
        struct.pack_into("<Q", self.buf, self.hoff + 8 * k, v)

    def reset(self, seed, prefix, generate):
        self._set(0, 0)
        self._set(1, 0 if prefix is None else len(prefix))
        self._set(2, (derive(seed, self.name) | 1) if generate else 0)
        if prefix:
            struct.pack_into("<%dI" % len(prefix), self.buf, self.pre, *prefix)

    def draw(self, n):
        """an integer in [0, n)"""
        i, npre, key = struct.unpack_from("<QQQ", self.buf, self.hoff)
        if i >= self.cap:
            return 0
        if n <= 1:
            v = 0
        elif i < npre:
            v = struct.unpack_from("<I", self.buf, self.pre + 4 * i)[0] % n
        elif key:
            v = mix(key + i) % n
        else:
            v = 0
        struct.pack_into("<I", self.buf, self.rec + 4 * i, v)
        self._set(0, i + 1)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def chance(self, num, den):
        """true with probability num/den; the simplest answer is no"""
        return self.draw(den) >= den - num

    def record(self):
        n = min(self._get(0), self.cap)
        return list(struct.unpack_from("<%dI" % n, self.buf, self.rec))

    def bits(self):
        return (self.draw(1 << 31) << 31) | self.draw(1 << 31)


class Choices:
    def __init__(self, fd=None):
        size = HDR + sum(8 * CAP[n] for n in NAMES)
        if fd is None:
            fd = os.memfd_create("choices", 0)
            os.ftruncate(fd, size)
        self.fd = fd
        self.buf = mmap.mmap(fd, size)
        off = HDR
        for i, n in enumerate(NAMES):
            setattr(self, n, Stream(self.buf, i, n, off))
            off += 8 * CAP[n]

    def reset(self, seed=0, prefix=None):
        for n in NAMES:
            p = None if prefix is None else prefix.get(n, [])
            getattr(self, n).reset(seed, p, prefix is None)

    def record(self):
        out = {}
        for n in NAMES:
            r = getattr(self, n).record()
            while r and r[-1] == 0:
                r.pop()
            out[n] = r
        return out
