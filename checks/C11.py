from vt import Part


def gen_for(big):
    def gen(rng, thorough):
        out = []
        for _ in range(300 if thorough else 60):
            b = rng.randint(0, 2)
            n = rng.choice([1, 2, 3, 4, 7, 16]) if b == 0 else rng.choice([1, 2, 3, 5, 6, 9, 30])
            sc = [("new", [b, n, rng.randint(0, n - 1)])]
            exact = True      # memory holds only multiples of 256 (phases below full stay exact)

            def v():
                return rng.choice([rng.randint(-100, 100) * 256, rng.choice([big, -big, big - 1])]) if exact and rng.random() < .1 \
                    else rng.randint(-100, 100) * 256
            for _ in range(25):
                x = rng.random()
                k = rng.choice([0, 1, 1, 2, n // 2, n - 1, n, n, n + 1, 2 * n + 1])
                kc, m = min(k, n), rng.randint(0, n - 1)
                if x < .15:
                    sc.append(("read", [k]))
                elif x < .3:
                    sc.append(("read_rev", [k]))
                elif x < .4:
                    sc.append(("read_chk", [kc, m]))
                elif x < .5:
                    sc.append(("read_rev_chk", [kc, m]))
                elif x < .6:
                    sc.append(("write_chk", [m] + [v() for _ in range(kc)]))
                elif x < .75:
                    sc.append((rng.choice(["write", "write_rev"]), [4] + [v() for _ in range(k)]))
                elif x < .87:
                    # partial phase: clear first so that all products are exact
                    sc.append(("clear", []))
                    sc.append((rng.choice(["write", "write_rev"]), [4] + [rng.randint(-60, 60) * 256 for _ in range(kc)]))
                    sc.append((rng.choice(["write", "write_rev"]), [rng.choice([0, 1, 2, 3, 101, 355, 354, 340, 228])] + [rng.randint(-60, 60) * 256 for _ in range(min(k, n))]))
                    sc.append(("clear", []))
                elif x < .9:
                    sc.append(("clear", []))
                else:
                    sc.append((rng.choice(["rd_pos", "wr_pos"]), [m]))
            out.append(sc)
        for b, n in ((0, 300), (1, 300), (2, 260)):
            val = [(i % 100 + 1) * 256 for i in range(300)]
            out.append([("new", [b, n, 3]), ("write", [4] + val[:254]), ("write", [4] + val[:5]), ("write_rev", [4] + val[:290][:n]), ("read", [255]), ("read", [1]), ("read", [2]), ("read", [100]), ("rd_pos", [n - 2]), ("read", [3]),
                        ("read_rev", [258]), ("read_chk", [200, 257]), ("read_chk", [n, 256]), ("rd_pos", [257]), ("read_rev_chk", [3, 255]), ("read_rev_chk", [2, 255]), ("wr_pos", [254]), ("write_chk", [257] + val[:2]), ("write_chk", [257] + val[:2]),
                        ("write", [4] + val[:3]), ("wr_pos", [n - 1]), ("write", [4] + val[:1]), ("read", [n])])
        # large memories (sample counts of delay lines in external RAM)
        val = [(i % 100 + 1) * 256 for i in range(40)]
        for b in (0, 1, 2):
            out.append([("new", [b, 70000, rng.choice([65530, 65536, 69990])])] + [("write", [4] + val[:9]), ("rd_pos", [65529]), ("read", [9]), ("read_rev", [12]), ("read_chk", [20, 65536]), ("read_rev_chk", [30, 65535]), ("write_rev", [4] + val[:7]),
                        ("wr_pos", [69998]), ("write", [4] + val[:6]), ("write_rev", [4] + val[:6]), ("wr_pos", [65535]), ("write_chk", [65537] + val[:4]), ("rd_pos", [69999]), ("read", [3]), ("read_rev", [4]), ("clear", []), ("read", [1])])
        return out
    return gen


def gen_block(rng, thorough):
    out = []
    for _ in range(100 if thorough else 30):
        n = rng.choice([1, 2, 4, 8, 32])
        sc = [("new", [n])]
        for _ in range(30):
            k = rng.choice([0, 1, n, rng.randint(0, n)])
            sc.append(("write", [rng.choice([0, n - 1, n, rng.randint(-5, 200), 2 ** 31 - 1 - rng.randint(70, 140), -rng.randint(1, 40)])] +
                       [rng.randint(1, 120) for _ in range(k)]))
        out.append(sc)
    w = lambda k: [1 + i % 120 for i in range(k)]
    out.append([("new", [512]), ("write", [255] + w(3)), ("write", [256] + w(260)), ("write", [300] + w(300)), ("write", [511] + w(257)), ("write", [1000] + w(5)), ("write", [65536 + 250] + w(512)), ("write", [-1] + w(2))])
    out.append([("new", [131072]), ("pat", [91072, 40009, 3]), ("pat", [65530, 65550, 7]), ("pat", [1, 131072, 50])])
    out.append([("new", [131072]), ("write", [65534] + w(4)), ("write", [131070] + w(5)), ("write", [131072 * 3 + 65535] + w(3)), ("write", [65536] + w(1)), ("write", [-2] + w(4)), ("write", [0] + w(2))])
    return out


PARTS = [Part("access_i32", "CircAccess", "circ_access.cc", gen_for(2 ** 30 + 1), dup=True),
         Part("access_i16", "CircAccess", "circ_access.cc", gen_for(32767), flags=["-DELEM=1"], explore=False, dup=True),
         Part("access_f", "CircAccess", "circ_access.cc", gen_for(1000), flags=["-DELEM=2"], explore=False, dup=True),
         Part("block_int", "Block", "block.cc", gen_block, dup=True),
         Part("block_byte", "Block", "block.cc", gen_block, flags=["-DELEM=1"], explore=False, dup=True),
         Part("block_struct", "Block", "block.cc", gen_block, flags=["-DELEM=2"], explore=False, dup=True)]
