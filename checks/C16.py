from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 80):
        kind = rng.randint(0, 2)
        sc = [("new", [kind])]
        for _ in range(80):
            i = rng.randint(1, 2)
            x = rng.random()
            if x < .02:
                sc.append(("regs", [i, rng.randint(0, 1), rng.choice([1, 100, 256, 257, 65535, 65536, 70000])]))
            elif x < .4:
                sc.append((rng.choice(["reg", "process"]), [i, rng.randint(0, 1)]))
            elif x < .7:
                sc.append((rng.choice(["just_pressed", "just_released", "went_high", "went_low"]), [i]))
            elif kind == 2:
                sc.append((rng.choice(["reset_count", "clear", "assign"]), [i]))
            elif x < .78:
                sc.append(("set", [i, rng.choice([0, 1, 2, 255, 4294967295 if False else 65536])]))
            else:
                sc.append((rng.choice(["clear", "reset", "rise", "fall", "copy", "assign", "construct", "update", "transfer"]), [i]))
        out.append(sc)
    return out


def gen_edge(rng, thorough):
    out = []
    for kind in range(4):
        sc = [("new", [kind])]
        for _ in range(400):
            x = rng.random()
            sc.append(("changed", []) if kind == 3 and x < .3 else ("reset", []) if kind == 0 and x < .05
                      else ("update", [rng.randint(0, 1)]))
        out.append(sc)
    return out


PARTS = [Part("toggler", "Toggler", "toggler.cc", gen, dup=True), Part("edge", "Edge", "edge.cc", gen_edge, dup=True)]
