from vt import Part


def t(rng, al, n):
    return [rng.choice(al) for _ in range(rng.randint(0, n))]


def pack(*ts):
    return sum(([len(x)] + list(x) for x in ts), [])


def gen(rng, thorough):
    out = []
    for _ in range(300 if thorough else 60):
        sc = [("new", [0])]
        for _ in range(60):
            x = rng.random()
            if x < .3:
                al = [97, 98, 32]
                w = t(rng, al, 4)
                v = rng.choice([t(rng, al, 5), w + [97], [97] + w, w])
                text = t(rng, al, 12) + (w * rng.randint(0, 3)) + t(rng, al, 5)
                sc.append(rng.choice([("replace", pack(text, w, v))] * 3 + [("replace_own", pack(text, w)), ("replaces", pack(text, w, v, rng.choice([v, w, t(rng, al, 2)]), t(rng, al, 3)))]))
            elif x < .55:
                sc.append(("tokens", pack(t(rng, [44, 44, 59, 97, 98, 32, 200, 0], 16), rng.choice([[44], [44, 59], [59], [32, 44], []])) + [rng.choice([0, 0, 1, 3])]))
            elif x < .8:
                w = t(rng, [97, 98, 65, 32], 3)
                text = t(rng, [97, 98, 65, 66, 32, 32, 49], 6) + rng.choice([[], [32]]) + w + rng.choice([[], [32], [49]]) + t(rng, [97, 32, 98], 5)
                text = [c - 32 if 97 <= c <= 122 and rng.random() < .3 else c for c in text]
                sc.append(("word", pack(text, w)))
            else:
                al = list(range(1, 256)) if rng.random() < .5 else [65, 97, 66, 98, 90, 122, 91, 64, 96, 123, 95, 48, 0, 127, 90]
                a = t(rng, al, 6)
                b = [c ^ 32 if rng.random() < (.4 if 65 <= (c & ~32) <= 90 else .05) else c for c in a]
                if rng.random() < .5:
                    b = b[:rng.randint(0, len(b))] + t(rng, [65, 97, 95, 48, 122, 90], 2)
                sc.append(("cmp", pack(a, b)))
        out.append(sc)
    # long texts
    sc = [("new", [0])]
    for n in (100, 255, 256, 257, 300, 600, 1500):
        w = t(rng, [97, 66, 98], 40) + [97]
        body = [rng.choice([97, 98, 32, 66]) for _ in range(n)]
        sc.append(("word", pack(body + [32] + w + [32, 97], w)))
        sc.append(("word", pack(body + [32] + [c ^ 32 for c in w], w)))
        sc.append(("word", pack(w[:-1] + [99], w)))
        sc.append(("word", pack([c ^ 32 for c in body], body)))
        sc.append(("word", pack([c ^ 32 if c != 32 else c for c in body], body)))
        sc.append(("cmp", pack(body, body)))
        sc.append(("cmp", pack(body, body[:-1] + [99])))
        sc.append(("cmp", pack(body, body + [97] * 256)))
        sc.append(("cmp", pack(body[:n % 256], body)))
        sc.append(("tokens", pack([44 if c == 32 else c for c in body], [44], ) + [0]))
        sc.append(("tokens", pack([97] * n + [44] + [98] * n, [44]) + [1]))
        sc.append(("replace", pack(body, [97], [98, 98])))
        sc.append(("replace", pack(body, [97], [])))
    sc.append(("replace", pack([97] * 5200 + [98], [97], [98])))
    sc.append(("replace", pack([98] * 5200 + [97], [97], [98, 99])))
    sc.append(("tokens", pack([97, 44] * 700, [44]) + [0]))
    out.append(sc)
    return out


PARTS = [Part("strings", "Strings", "strings.cc", gen)]
