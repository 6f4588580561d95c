from vt import Part


def gen_color(rng, thorough):
    def b():
        return rng.choice([0, 1, 127, 128, 254, 255, rng.randint(0, 255), rng.randint(0, 255)])

    def c():
        return [b(), b(), b()]
    out = []
    for _ in range(300 if thorough else 50):
        sc = [("new", [0])]
        for _ in range(80):
            op = rng.choice(["add", "combine", "half", "eq", "adjust", "blend8", "blend32", "blendf", "times", "from565", "raw565",
                             "to565", "s565", "u565", "f565", "slow565", "blend565f", "blend565", "hsv", "hsv"])
            if op in ("add", "combine", "half", "adjust"):
                a = c() + c()
            elif op == "eq":
                a = c()
                d = list(a)
                if rng.random() < .7:
                    d[rng.randrange(3)] = b()
                a = a + d
            elif op == "blend8":
                a = c() + c() + [b()]
            elif op == "blend32":
                a = c() + c() + [rng.choice([0, 1, 65535, rng.randint(0, 65535)]), rng.randint(0, 65535)]
            elif op == "blendf":
                a = c() + c() + [rng.randint(0, 64)]
            elif op == "times":
                a = c() + [rng.randint(0, 64)]
            elif op in ("from565", "raw565"):
                a = [rng.randint(0, 65535)]
            elif op in ("to565", "s565", "u565", "hsv"):
                a = c()
            elif op == "f565":
                a = [rng.choice([rng.randint(0, 64), rng.randint(-20, 90), rng.randint(-100000, 100000)]) for _ in range(3)]
            else:
                a = [rng.randint(0, 65535), rng.randint(0, 65535), b() if op == "blend565" else rng.randint(0, 64)]
            sc.append((op, a))
        out.append(sc)
    out.append([("new", [0])] + [("named", [i]) for i in range(8)])
    return out


def gen_audio(rng, thorough):
    out = []
    for _ in range(400 if thorough else 80):
        c = rng.choice([[32, 24, 2], [32, 24, 4], [16, 16, 2], [32, 32, 2], [32, 16, 2], [32, 20, 2], [32, 30, 2], [16, 12, 1], [8, 8, 3],
                        [-16, 16, 2], [-8, 8, 2], [-16, 12, 2], [-32, 32, 2]])
        sc = [("new", c)]
        n = c[2]
        for _ in range(40):
            i = rng.randrange(n)
            x = rng.random()
            if c[0] < 0:
                if c[1] == 32:
                    m, e = rng.choice([-1, 1]) * rng.choice([4, 5, 100, 16777215]), -2
                elif rng.random() < .6:
                    e = -rng.randint(1, 10)
                    m = rng.randint(-(2 ** -e), 2 ** -e)
                else:
                    m, e = rng.randint(-16777215, 16777215), rng.randint(-3, 60)
                sc.append(("out", [i, m, e]))
            elif x < .5:
                e = rng.choice([-c[1] + 1, -c[1], -23, -20, -3, 0, 10, 60])
                m = rng.choice([rng.randint(-16777215, 16777215), rng.randint(-9, 9), rng.choice([-1, 1]) * (2 ** min(23, c[1] - 1) + rng.randint(-1, 1))])
                sc.append(("out", [i, m, e]))
            elif x < .7:
                sc.append(("raw", [i, rng.randint(-32768, 32767), rng.randint(0, 65535)]))
                if c[1] > 25:
                    sc[-1][1][2] &= 0xff00      # what a float holds exactly
                    sc[-1][1][1] &= ~0xff
            elif x < .85:
                sc.append(("in", [i]))
            else:
                sc.append(("loop", [i, rng.randrange(n)]))
        if c[1] > 25:       # outputs of many bits are not exact in a float: read back only raw ones
            ok, keep = set(range(n)), []
            for o, a in sc:
                if o == "raw":
                    ok.add(a[0])
                elif o == "out":
                    ok.discard(a[0])
                elif o in ("in", "loop"):
                    if a[0] not in ok:
                        continue
                    if o == "loop":
                        ok.add(a[1])
                keep.append((o, a))
            sc = keep
        out.append(sc)
    return out


PARTS = [Part("color", "Color", "color.cc", gen_color), Part("audio", "Audio", "audio.cc", gen_audio)]
