from vt import Part


def number(rng, unsigned=False):
    x = rng.random()
    top = 2 ** 32 - 1 if unsigned else 2 ** 31 - 1
    if x < .4:
        v = rng.randint(0, top)
    elif x < .7:
        v = rng.randint(0, 10 ** rng.randint(1, 9))
    else:
        v = min(top, max(0, 10 ** rng.randint(0, 9) * rng.randint(1, 9) + rng.choice([-1, 0, 1])))
    neg = 0 if unsigned or v == 0 else rng.randint(0, 1)
    if neg and rng.random() < .05:
        v = 2 ** 31
    return neg, v // 100000, v % 100000


def room(rng):
    return rng.randint(0, 14) if rng.random() < .8 else rng.choice([64, 255, 65535, 131071]) + rng.randint(0, 13)


def item(rng):
    k = rng.randint(0, 5)
    if k == 5:
        v = rng.choice([rng.randint(0, 9), rng.randint(0, 70000), rng.randint(0, 1000000)])
        return [5, rng.randint(0, 1), v // 100000, v % 100000]
    if k == 0:
        return [0] + list(number(rng))
    if k == 3:
        z = rng.randint(0, 7)
        return [3] + [0] * z + [rng.randint(0, 15) for _ in range(8 - z)]
    n = rng.choice([0, 1, 2, 7])
    return [k, n] + [rng.choice([0, 37, 65, 122, 128, 255]) if rng.random() < .5 else rng.randint(1, 127) for _ in range(n)]


def gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 80):
        sc = [("new", [0])]
        for _ in range(60):
            x = rng.random()
            if x < .35:
                sc.append(("i2s", list(number(rng)) + [room(rng)]))
            elif x < .7:
                sc.append(("chop", list(number(rng)) + [room(rng)]))
            elif x < .75:
                sc.append(("numdig", list(number(rng, True)[1:])))
            elif x < .8:
                i = sum((item(rng) for _ in range(rng.randint(1, 3))), [])
                sc.append(("printin", [rng.randint(1, 12), len(i)] + i + item(rng)))
            else:
                sc.append(("print", sum((item(rng) for _ in range(rng.randint(1, 6))), [])))
        out.append(sc)
    return out


PARTS = [Part("text", "Text", "text.cc", gen, extra_src=["$REPO/util/int_to_str.cc"])]
