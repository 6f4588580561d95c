from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(500 if thorough else 90):
        n = rng.choice([1, 2, 3, 4, 5, 8, 16])
        init = []
        if rng.random() < .5:
            init = [rng.choice([-1, 0, rng.randint(1, 900)]) for _ in range(n)]
        sc = [("new", [rng.randint(0, 1), n] + init)]
        v = 1000
        pw, pe = rng.choice([0, .2, .5]), rng.choice([.1, .5, .9])
        for _ in range(40):
            v += 1
            x = rng.random()
            if x < .55:
                sc.append(("write", [v if rng.random() < .9 else 0, rng.randint(1, 4) if rng.random() < pw else 0,
                                     rng.randint(1, 5) if rng.random() < pe else 0]))
            elif x < .63:
                sc.append(("restart", []))
            elif x < .85:
                sc.append(("read", []))
            elif x < .92:
                sc.append(("crash", [v, rng.randint(1, 3), rng.randint(0, 2)]))
            else:
                sc.append(("unread", sorted(rng.sample(range(n), rng.randint(0, min(n, 3))))))
        out.append(sc)
    return out


PARTS = [Part("wear_fault", "WearLevel", "wear_level.cc", gen, twin=False, configs="ConfigsFault", big="BigConfigsFault",
              names={"Menu": "MenuFault", "Inv": "InvFault"})]
