#!/usr/bin/env python3-vt
# numpy-written records for C02: SCRATCH SEED TIER
import os, sys, itertools
try:
    import numpy as np
except ImportError:
    sys.exit(0)
scratch, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
out = os.path.join(scratch, "numpy")
os.makedirs(out, exist_ok=True)
rng = np.random.RandomState(seed)
n = 0
shapes = [(1,), (7,), (300,), (3, 4), (1, 9), (9, 1), (0, 3), (3, 0), (0,), (2, 3, 4), (2, 1, 3, 2), (5, 5), (101, 7)]
for dt, e, order in itertools.product("i1 i2 i4 i8 u1 u2 u4 u8 f4 f8".split(), "<>", "CF"):
    for rep in range(4 if tier == "quick" else 12):
        shape = shapes[rng.randint(len(shapes))] if rng.rand() < .7 else tuple(rng.randint(1, 12, size=rng.randint(1, 5)))
        k = int(np.prod(shape)) * int(dt[1])
        a = np.frombuffer(rng.bytes(k), dtype=e + dt).reshape(shape)
        a = np.array(a, order=order)
        name = os.path.join(out, "a%04d" % n)
        n += 1
        np.lib.format.write_array(open(name + ".npy", "wb"), a, version=(1, 0))
        hdr = open(name + ".npy", "rb").read(200)
        fort = b"'fortran_order': True" in hdr
        pay = a.astype(dt.replace(dt, "<" + dt)).tobytes(order="F" if fort else "C")
        with open(name + ".exp", "wb") as f:
            f.write(("%s %d %d %s\n" % (dt, fort, len(shape), " ".join(map(str, shape)))).encode())
            f.write(pay)
