from vt import Part


def text(rng):
    n = rng.choice([0, 1, 2, 3, 3, 3, 4])
    parts = []
    for _ in range(n):
        p = rng.choice([str(rng.randint(0, 300)), str(rng.randint(0, 5)), "", "00" + str(rng.randint(0, 99)), "4294967297", " 7", "\t7", "\n7", "\v7", "\f7", "\r7", "\x0e7", "\x087", " \r\n12", "\x1f1", "+3", "-2", "1a", "x"])
        if rng.random() < .15:
            p += rng.choice(["-dev", "-", "-1", " ", "beta"])
        parts.append(p)
    t = ".".join(parts)
    if rng.random() < .1:
        t += rng.choice([".", "-", " -rc1", "\t", "\x00" + "9"])
    return [ord(c) for c in t]


def gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 80):
        sc = [("new", [0])]
        for _ in range(50):
            if rng.random() < .4:
                sc.append(("parse", text(rng)))
            else:
                x = text(rng)
                y = list(x) if rng.random() < .3 else text(rng)
                sc.append(("cmp", [len(x)] + x + y))
        for _ in range(10):
            sc.append(("set", [rng.randint(0, 255) for _ in range(3)] + [rng.choice([0, 1, 2, 3, 4, 255, 256, 257, 258, 65536, 70000]), rng.choice([0, 9, 255, 256, 257, 300, 65536 + 7, rng.randint(0, 255)])]))
            v = [rng.choice([0, 1, 255, rng.randint(0, 255)]) for _ in range(3)]
            sc.append(("cmpn", v + [rng.choice([c, rng.randint(0, 255)]) for c in v]))
        out.append(sc)
    for n in (255, 256, 257, 258):          # components beyond the third are of no account
        t = [ord(c) for c in "1.2.3" + ".0" * (n - 3) + ".7.8.9"]
        out.append([("new", [0]), ("parse", t)])
    return out


PARTS = [Part("version", "Version", "version.cc", gen)]
