from vt import Part


def gen(rng, thorough):
    out = []
    for _ in range(400 if thorough else 60):
        cap = rng.choice([1, 2, 3, 4, 5])
        sc = [("new", [cap])]
        m = []      # mirrors the keys only to keep keys unique (see spec)
        for i in range(rng.choice([15, 60])):
            k = rng.randint(0, 5)
            op = rng.choices(["overwrite", "insert", "remove", "remove_last"], [5, 3, 3, 1])[0]
            if op == "insert" and k in m and len(m) < cap:
                op = "overwrite"
            if op == "overwrite":
                sc.append((op, [k, i]))
                if m and rng.random() < .3:
                    sc[-1] = ("overwrite_own", [k, rng.choice(m)])
                if k not in m:
                    m = (m if len(m) < cap else m[1:]) + [k]
            elif op == "insert":
                sc.append((op, [k, i]))
                if len(m) < cap:
                    m.append(k)
            elif op == "remove":
                sc.append((rng.choice(["remove", "remove_own"]), [k]))
                m = [x for x in m if x != k]
            else:
                sc.append((op, [0]))
                m = m[:-1]
        out.append(sc)
    return out


def gen_large(rng, thorough, big=False):
    sc = [("new", [300]), ("overwrites", [1000, 1, 299]), ("overwrite", [3, 7]), ("insert", [4, 7]), ("overwrite", [1256, 9]), ("get", [1257]), ("overwrite", [4, 1]), ("get", [1000]), ("get", [1001]),
          ("overwrites", [2000, 50, 258]), ("get", [1257]), ("get", [1258]), ("get", [2000]), ("remove", [2257]), ("remove", [1290]), ("get", [2256]), ("insert", [5, 5]), ("remove_last", [0]), ("get", [2256]),
          ("insert", [1, 1]), ("insert", [2, 2]), ("overwrites", [3000, 9, 41]), ("get", [3]), ("get", [4]), ("get", [2000]), ("overwrite", [2, 9]), ("overwrites", [5000, 9, 260]), ("get", [3000]), ("get", [3001]), ("get", [3002])]
    out = [sc]
    if big:     # positions beyond 16 bits
        out.append([("new", [65540]), ("overwrites", [1000, 1, 65539]), ("overwrite", [3, 7]), ("get", [66537]), ("insert", [4, 7]), ("get", [66538]), ("overwrite", [66537, 9]), ("overwrite", [4, 1]),
                    ("get", [1000]), ("get", [1001]), ("remove", [66536]), ("get", [66538]), ("insert", [5, 5]), ("remove_last", [0]), ("get", [66538]), ("remove", [66538]), ("overwrite", [5, 5])])
    return out


PARTS = [Part("seq_map_int", "SeqMap", "seq_map.cc", lambda r, t: gen(r, t) + gen_large(r, t, True), dup=True),
         Part("seq_map_str", "SeqMap", "seq_map.cc", gen, flags=["-DSTRKEY"], explore=False, dup=True),
         Part("seq_map_owner", "SeqMap", "seq_map.cc", gen, flags=["-DELEM=4"], explore=False, dup=True)]
