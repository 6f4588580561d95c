import importlib.util, os
from vt import Part
s = importlib.util.spec_from_file_location("c24", os.path.join(os.path.dirname(__file__), "C24.py"))
c24 = importlib.util.module_from_spec(s)
s.loader.exec_module(c24)

KW = {0: 1, 1: 2, 2: 4, 3: 3, 4: 4, 6: 300}


def gen(rng, thorough):
    out = []
    for _ in range(600 if thorough else 130):
        kt, st = rng.choice([(0, 1), (0, -1), (1, 2), (3, 1), (2, 2), (0, 8), (4, 2), (1, 4)])
        sw = abs(st)
        sc = [("new", [kt, st])]
        for _ in range(40):
            keys = [[rng.choice([0, 1, 97, 98, 255]) for _ in range(KW[kt])] for _ in range(3)]
            blob = []
            for _ in range(rng.choice([0, 1, 2, 3, 6])):
                n = rng.choice([0, 1, 2, 3, 4, 8, 5])
                k = list(rng.choice(keys))
                if kt in (2, 3) and 0 in k and rng.random() < .5:
                    k = k[:k.index(0) + 1]
                    k += [rng.randint(0, 255) for _ in range(KW[kt] - len(k))]
                blob += k + [n] + [0] * (sw - 1) + [rng.randint(0, 255) for _ in range(n)]
            x = rng.random()
            if x < .3 and blob:
                blob = blob[:rng.randint(0, len(blob))]
            elif x < .5 and blob:
                blob[rng.randrange(len(blob))] = rng.choice([0, 1, 127, 128, 255, rng.randint(0, 255)])
            elif x < .6:
                blob = [rng.randint(0, 255) for _ in range(rng.randint(0, 12))]
            elif x < .7:
                # a size that makes offset + size wrap around
                # ... or that is small once cut down to fewer bytes
                v = (1 << (8 * sw)) - rng.randint(1, 30)
                if sw > 1 and rng.random() < .5:
                    v = (1 << (8 * rng.randrange(1, sw))) + rng.randint(0, 12)
                blob += list(keys[2]) + [(v >> (8 * i)) & 255 for i in range(sw)] + [rng.randint(0, 255) for _ in range(rng.randint(0, 9))]
            sc.append(("q", rng.choice(keys) + blob))
        out.append(sc)
    # long blobs: a first entry of any size, and a tail that may be incomplete
    for _ in range(150 if thorough else 40):
        kt, st = rng.choice([(1, 2), (0, 8), (4, 2), (1, 4), (6, 2)])
        w, sw = KW[kt], abs(st)
        sc = [("new", [kt, st])]
        for _ in range(6 if kt == 6 else 14):
            if kt == 6:
                base = [97 + i % 7 for i in range(300)]
                keys = []
                for i in (rng.randrange(40), 299, rng.choice([44, 255, 256])):
                    k = list(base)
                    k[i] = rng.choice([0, 1])
                    keys.append(k)
                keys.append(base)
            else:
                keys = [[i + 1] * w for i in range(4)]
            rng.shuffle(keys)
            m = rng.choice([0, 1, 247, 255, 256, 300, 65535, 40000] + [65536, 70000, 131072] * (sw > 2))
            tail = []
            for k in keys[1:rng.randint(1, 3)] + [keys[0]] + keys[3:4]:
                n = rng.choice([0, 1, 3, 8, 44, 300, 300, 256])
                z = n
                if rng.random() < .3:
                    z = rng.choice([n + 1, n + 255, n + 256, n + 300, n + 65535 if n == 0 else n + 1, n + m % 65000 + 1])
                tail += k + [(z >> (8 * i)) & 255 for i in range(sw)] + [rng.randint(0, 255) for _ in range(n)]
            if rng.random() < .3:
                tail = tail[:len(tail) - rng.randint(0, min(len(tail), 20))]
            sc.append(("qbig", keys[0] + keys[3 if rng.random() < .5 else 1] + [m] + tail))
        out.append(sc)
    return out


PARTS = [Part("parser", "Parser", "parser.cc", gen), c24.BIG]
