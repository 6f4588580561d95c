from vt import Part

BIG = {8: (0, 0, 12, 0x001, 0xFFE, 0xFFF), 9: (0, 1, 12, 0x001, 0xFFE, 0xFFF), 10: (1, 0, 8, 0b111, 0b11111000, 0b11000111),
       7: (1, 0, 6, 0b000111, 0b111000, 0b110011), 11: (1, 0, 32, 0x80000001, 0x7FFFFFFE, 0xFFFFFFFF),
       12: (1, 1, 32, 0x80000001, 0x7FFFFFFE, 0xFFFFFFFF), 13: (1, 0, 12, 0x001, 0xFFE, 0xFFF), 14: (0, 1, 32, 0x00FF0001, 0x00FF0000, 0x00FFFF01)}


def bits(v, w):
    return [(v >> i) & 1 for i in range(w)]


def cfg(idx):
    raw, cnt, w, up, dn, mask = BIG[idx]
    return [idx, raw, cnt, w] + bits(up, w) + bits(dn, w) + bits(mask, w)


def gen(rng, thorough):
    out = []
    for k in range(400 if thorough else 60):
        idx = rng.choice(sorted(BIG))
        w = BIG[idx][2]
        sc = [("new", cfg(idx))]
        v = 0
        while len(sc) < 200:
            x = rng.random()
            if x < .5:          # a pattern, possibly spoiled by one bit
                pat = rng.choice([BIG[idx][3], BIG[idx][4]])
                if rng.random() < .4:
                    pat ^= 1 << rng.randrange(w)
                for i in range(w - 1, -1, -1):
                    sc.append(("reg", [(pat >> i) & 1]))
                    if rng.random() < .1:
                        sc.append((rng.choice(["just_pressed", "just_released"]), []))
            elif x < .8:        # a run
                v = rng.randint(0, 1)
                if rng.random() < .1:
                    sc.append(("regs", [v, rng.choice([5, 40, 255, 256, 300, 65535, 65536, 70001])]))
                sc += [("reg", [v])] * rng.randint(1, w + 3)
            else:
                sc += [("reg", [rng.randint(0, 1)]) for _ in range(rng.randint(1, 9))]
            sc.append((rng.choice(["just_pressed", "just_released"]), []))
        out.append(sc)
    return out


PARTS = [Part("debounce", "Debounce", "debounce.cc", gen, dup=True)]
