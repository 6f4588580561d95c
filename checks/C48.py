import os
from vt import Part

STUB = "-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "stub")
SIZE = [4, 300, 70000, 1000, 5, 1]


def gen(rng, thorough):
    out = []
    for _ in range(500 if thorough else 90):
        kind = rng.randint(0, 5)
        n = SIZE[kind]
        sc = [("new", [kind, n])]
        on = set()
        used = {0, n - 1}
        for _ in range(rng.choice([10, 60, 120])):
            x = rng.random()
            off = [i for i in range(3) if i not in on]
            if off and (not on or x < .1):
                i = rng.choice(off)
                on.add(i)
                sc.append(("mk", [i]))
            elif x < .18:
                i = rng.choice(sorted(on))
                on.discard(i)
                sc.append(("del", [i]))
            elif x < .3 and off:
                # (on only if the class offers it, so what is used next is there either way)
                i, j = rng.choice(off), rng.choice(sorted(on))
                sc += [("mk", [i]), ("cpy", [i, j])]
                on.add(i)
            elif x < .4:
                sc.append((rng.choice(["asg", "cpy"]), [rng.choice(sorted(on)), rng.choice(sorted(on))]))
            elif x < .7:
                k = rng.choice([0, n - 1, n // 2, rng.randrange(n), min(n - 1, 255), min(n - 1, 256), min(n - 1, 65536)])
                used.add(k)
                v = rng.choice([1, 100, 127]) if kind == 4 else rng.choice([1, 200, 65536, 16777217, 2147483646, -5])
                sc.append((rng.choice(["set", "poke"]), [rng.choice(sorted(on)), k, v]))
            else:
                sc.append(("get", [rng.choice(sorted(on)), rng.choice(sorted(used | {k % 65536 for k in used}))]))
        for i in sorted(on):
            for k in sorted(used):
                sc.append(("get", [i, k]))
        out.append(sc)
    return out


PARTS = [Part("bigbuf", "BigBuf", "bigbuf.cc", gen, flags=(STUB,))]
