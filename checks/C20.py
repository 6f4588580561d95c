from vt import Part

FWD = [1, 0, 2, 3]
BWD = [2, 0, 1, 3]


def gen(rng, thorough):
    out = []
    for k in range(60 if thorough else 16):
        inv = k % 2
        sc = [("new", [inv])]
        while len(sc) < 300:
            path = rng.choice([FWD, BWD]) * rng.randint(1, 3)
            for v in path:
                y = 3 - v if inv else v
                for _ in range(rng.choice([1, 1, 2, 3])):
                    sc.append(("motion", [y & 1, y >> 1]))
                if rng.random() < .15:      # bounce on one input and back
                    z = y ^ rng.choice([1, 2])
                    sc += [("motion", [z & 1, z >> 1]), ("motion", [y & 1, y >> 1])]
                if rng.random() < .05:
                    break
        out.append(sc)
    return out


def gen_rot(rng, thorough):
    out = []
    for _ in range(60 if thorough else 20):
        sc = [("new", [])]
        budget = 0
        for _ in range(60):
            op = rng.choice(["step", "step", "use", "add", "transfer", "double", "copy"])
            if op in ("add", "double"):
                budget += 1
                if budget > 12:
                    op = "transfer"
            sc.append((op, [rng.randint(1, 2)] + ([rng.choice([-1, 1, 5, -1000, 30000])] if op == "step" else [])))
        out.append(sc)
    return out


PARTS = [Part("quad", "Quad", "quad.cc", gen, dup=True), Part("rotary", "Rotary", "rotary.cc", gen_rot, names={"Menu": "MenuB"}, dup=True)]
