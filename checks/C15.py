from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(500 if thorough else 90):
        n, m = rng.choice([(8, 20), (20, 8), (31, 31), (3, 3), (0, 1), (2, 0), (4, 2)])
        sc = [("new", [n, m])]
        for _ in range(60):
            x = rng.random()
            k = rng.choice([0, 1, n - 1, n, n + 1, m, m + 1, rng.randint(0, 40)])
            t = [rng.choice([65, 66, 67, 32, 127, 128, 200, 255, 97]) for _ in range(max(k, 0))]
            if x < .25:
                sc.append((rng.choice(["copy_c", "ctor_c", "vcopy_c", "bcopy_c"]), t))
            elif x < .55:
                if t and rng.random() < .2:
                    t[rng.randrange(len(t))] = 0
                sc.append((rng.choice(["copy_sv", "ctor_sv", "bcopy_sv"]), t))
            elif x < .8:
                sc.append((rng.choice(["copy_b", "vcopy_b", "vcopy_vb", "bcopy_a"]), []))
            elif x < .85:
                sc.append(("clear", []))
            else:
                sc.append(("is_equal", t))
        out.append(sc)
    for n, m, ks in ((300, 260, (254, 255, 256, 257, 259, 260, 261, 299, 300, 301, 400)),) + ((70000, 66000, (65535, 65536, 70001) if thorough else (65536,)),):
        sc = [("new", [n, m])]
        for k in ks:
            t = [97 + (i * 7 + k) % 25 for i in range(k)]
            sc.append((rng.choice(["copy_c", "ctor_c", "vcopy_c", "copy_sv", "ctor_sv"]), t))
            sc.append(("is_equal", t[:n]))
            sc.append((rng.choice(["own_c", "own_sv"]), [rng.choice([0, 0, 1, 2])]))
            sc.append(("bcopy_a", []))
            sc.append(("is_equal", t[:-1] + [t[-1] ^ 1]))
            sc.append(("is_equal", t[:m - 1] + [65] + t[m:]))
            sc.append((rng.choice(["bcopy_c", "bcopy_sv"]), t[:-1] + [65]))
            sc.append((rng.choice(["copy_b", "vcopy_b", "vcopy_vb"]), []))
        out.append(sc)
    return out


PARTS = [Part("stat_str", "StatStr", "stat_str.cc", gen, dup=True),
         Part("stat_str_std", "StatStr", "stat_str.cc", lambda rng, th: gen(rng, th)[::3], flags=["-DCPPUTIL_STATIC_STRING_USE_STD_STRING"], dup=True)]
