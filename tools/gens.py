"""Program generators for the sequential driver (harness/kv.cpp)."""

KS = [1, 2, 3, 4, 4, 4, 8, 16, 20, 31, 32, 33, 64, 255, 300]
BS = [104, 110, 122, 128, 128, 140, 158, 194, 256, 256, 512, 1024, 4096, 65535]
LF = [10, 20000, 100000, 333333, 500000, 500000, 500000, 750000, 900000, 990000, 999999]


def cap(bs):
    return (bs - 8) // 18


class Cfg:
    pass


def config(rng, small=False, **over):
    c = Cfg()
    c.ks = rng.choice(KS)
    c.bs = rng.choice(BS[:8] if small else BS)
    c.lf = rng.choice(LF)
    c.hm = rng.choice([0, 0, 1, 2, 3, 3, 4, 5])
    c.kl = rng.choice([0, 1, 2])
    c.salt = rng.choice([1, 0, 2 ** 64 - 1, rng.getrandbits(64)])
    c.app = rng.choice([0, 1, 2 ** 64 - 1, rng.getrandbits(64)])
    c.uid = rng.choice([0, 2 ** 64 - 1, rng.getrandbits(64)])
    for k, v in over.items():
        setattr(c, k, v)
    if c.ks == 1 and c.kl == 1:
        c.kl = 0
    return c


def head(id, c, obs):
    return "id=%s ks=%d bs=%d lf=%d hm=%d kl=%d salt=%d app=%d uid=%d obs=%s |" % (
        id, c.ks, c.bs, c.lf, c.hm, c.kl, c.salt, c.app, c.uid, obs)


def vsize(rng, c, big=0.03):
    x = rng.random()
    if x < 0.55:
        return rng.randint(1, 40)
    if x < 0.7:
        return rng.choice([1, 1, 2, 7, 8, 9, 15, 16, 17, 255, 256, 257])
    if x < 1 - big:
        return rng.choice([rng.randint(1, 400), rng.randint(1, 6000)])
    b = 131072 - 6 - c.ks
    return rng.choice([65535, 65536, b - 1, b, b + 1, 131072, 200000, 262144 - rng.randint(0, 40)])


def ids(rng, c, n):
    """n distinct key ids"""
    m = min(1 << (8 * min(c.ks, 6)), 1 << 31)
    if c.hm == 2 and m > 256:
        m = 256
    n = min(n, m // 2 - 1 if m > 4 else m)
    s = set()
    while len(s) < n:
        s.add(rng.choice([rng.randrange(m), rng.randrange(min(m, 64)), (rng.randrange(min(m, 256)) << 0)]))
    r = list(s)
    rng.shuffle(r)
    return r


def body(rng, c, n_ops, n_keys, w=None, big=0.03, vid0=0):
    """create, open, random operations; returns tokens and the inserted ids"""
    w = w or {"i": 6, "dup": 1, "g": 2, "miss": 1, "f": 1, "r": 0.5}
    names = list(w)
    wt = [w[x] for x in names]
    pool = ids(rng, c, n_keys)
    ins = []
    t = []
    vid = vid0
    for _ in range(n_ops):
        o = rng.choices(names, wt)[0]
        if o == "i" and pool:
            k = pool.pop()
            vid += 1
            ins.append(k)
            t.append("i:%d:%d:%d" % (k, vid, vsize(rng, c, big)))
        elif o == "dup" and ins:
            vid += 1
            t.append("i:%d:%d:%d" % (rng.choice(ins), vid, vsize(rng, c, 0)))
        elif o == "g" and ins:
            t.append("g:%d" % rng.choice(ins))
        elif o == "miss" and pool:
            t.append("g:%d" % rng.choice(pool))
        elif o == "f":
            t.append("f")
        elif o == "r":
            t += [rng.choice(["c", "c", "D"]), rng.choice(["o", "P o"])]
        elif o in ("V", "W", "R"):
            pass
    return t, ins, pool


def tail(rng, ins, pool, limit=60):
    t = []
    x = list(ins)
    rng.shuffle(x)
    for k in x[:limit]:
        t.append("g:%d" % k)
    for k in pool[:4]:
        t.append("g:%d" % k)
    return t


def kv_random(rng, id, obs, n_ops=40, n_keys=30, small=False, w=None, big=0.03, end=True, **over):
    c = config(rng, small, **over)
    t, ins, pool = body(rng, c, n_ops, n_keys, w, big)
    t = ["C", "o"] + t
    if end:
        t += [rng.choice(["f", "c o", "c P o", "D o", ""])] + tail(rng, ins, pool) + [rng.choice(["c", "D"])]
    return head(id, c, obs) + " " + " ".join(x for x in t if x), c, ins, pool


def kv_dense(rng, id, obs, **over):
    """many small commits with collisions: long overflow chains, many splits"""
    over.setdefault("bs", rng.choice([104, 110, 122, 128]))
    over.setdefault("hm", rng.choice([2, 3, 3, 4, 1, 5]))
    over.setdefault("lf", rng.choice([333333, 500000, 900000, 100000]))
    over.setdefault("ks", rng.choice([2, 4, 8, 33]))
    c = config(rng, True, **over)
    t, ins, pool = [], [], []
    pool = ids(rng, c, 44)
    miss = [pool.pop() for _ in range(min(4, len(pool) // 4))]
    vid = 0
    batch = rng.choice([1, 2, 3, 7, 20])
    while pool:
        for _ in range(batch):
            if pool:
                k = pool.pop()
                vid += 1
                ins.append(k)
                t.append("i:%d:%d:%d" % (k, vid, rng.randint(1, 60)))
        x = rng.random()
        t.append("f" if x < 0.7 else "c o" if x < 0.9 else "")
        if rng.random() < 0.5:
            t.append("g:%d" % rng.choice(ins))
        if rng.random() < 0.2 and miss:
            t.append("g:%d" % rng.choice(miss))
        if rng.random() < 0.3:
            t.append("i:%d:9999:5" % rng.choice(ins))
    return head(id, c, obs) + " " + " ".join(["C", "o"] + [x for x in t if x] + tail(rng, ins, miss) + ["c"]), c, ins, miss


def kv_chain(rng, id, obs, verify=False):
    """one bucket with a chain of many overflow records, longer than the histogram of verify"""
    c = config(rng, True, bs=rng.choice([104, 110, 128]), hm=rng.choice([2, 4, 4]), ks=rng.choice([2, 4, 8]), lf=rng.choice([500000, 900000, 990000]))
    n = rng.choice([30, 52, 60, 66, 90, 120])
    pool = ids(rng, c, n + 6)
    ins, miss, t = pool[:n], pool[n:], []
    every = rng.choice([1, 5, 17, n])
    for j, k in enumerate(ins):
        t.append("i:%d:%d:%d" % (k, j + 1, rng.randint(1, 60)))
        if j % every == every - 1:
            t.append("f" if rng.random() < 0.7 else "c o")
    vs = ["V:0", "V:%d" % rng.choice([300, 1000, 3000]), "V:2000000"]
    t = ["C", "o"] + t + ["c"] + (vs if verify else []) + ["o"] + tail(rng, ins, miss, 20) + ["c"]
    if verify:
        t += ["R:%d:500000:%d:%d" % (rng.choice([104, 128, 256]), rng.choice([0, n, 4 * n]), rng.choice([128, 1000, 100000]))] + vs
    return head(id, c, obs) + " " + " ".join(t)


def kv_seq(hist, id, obs, prefix, c):
    """a history generated by TLC from GenKV"""
    t = []
    ks = set()
    for o, k, v in hist:
        if o == "i":
            t.append("i:%d:%d:%d" % (k, v, 3 + 5 * v))
            ks.add(k)
        elif o == "g":
            t.append("g:%d" % k)
        elif o == "f":
            t.append("f")
        else:
            t.append("c o")
    return head(id, c, obs) + " C o " + prefix + " " + " ".join(t) + " c o " + " ".join("g:%d" % k for k in range(1, 4)) + " c"


def kv_giant(rng, id, obs):
    """offsets beyond 4 GiB (and beyond 2^40)"""
    c = config(rng, True, ks=rng.choice([4, 8, 33]))
    t, ins, pool = body(rng, c, 30, 20, big=0.0)
    n = rng.choice([(1 << 32) - 200, (1 << 32) + 5, (1 << 31) - 150, (1 << 31), 5 * (1 << 30), 1 << 40])
    pre = ["C"]
    if rng.random() < 0.5:
        pre += ["o", "i:201:201:20", "i:202:202:5", "c"]
    pre += ["B:%d" % n, "o"]
    return head(id, c, obs) + " " + " ".join(pre + t + ["c o"] + tail(rng, ins, pool) + ["c"])


def kv_wide(rng, id, obs, small=False):
    """very many buckets: key file offsets beyond 4 GiB, bucket numbers beyond 2^16 and near 2^31"""
    c = config(rng, False, bs=rng.choice([128, 4096, 65535, 1024]), ks=rng.choice([4, 8]), hm=rng.choice([0, 1, 5]))
    nb = rng.choice([65535, 65536, 65537, (1 << 20), (1 << 20) + 7, (1 << 22) - 1, 1 << 24, (1 << 26) + 3])
    if small:   # the size of the key file fits in 31 bits
        c.bs, c.lf, nb = rng.choice([104, 128]), rng.choice([100000, 300000, 500000]), rng.choice([32767, 65530, 65535, 65536, 131070, (1 << 20) - 1])
    t, ins, pool = body(rng, c, 30, 20, big=0.0)
    return head(id, c, obs) + " " + " ".join(["C", "N:%d" % nb, "o"] + t + ["c o"] + tail(rng, ins, pool) + ["c"])


def kv_huge(rng, id, obs):
    """values larger than every internal buffer"""
    c = config(rng, False, ks=rng.choice([4, 32]), bs=rng.choice([512, 4096]))
    sz = rng.choice([(1 << 20) + 13, 4 * (1 << 20) + 1, (1 << 24) - 10, (1 << 24) + 9])
    t = ["C", "o", "i:1:1:40", "i:2:2:%d" % sz, "g:2", "i:3:3:70", "f", "g:1", "g:2", "g:3", "i:2:5:9", "i:4:4:%d" % (sz // 3),
         "c", "o", "g:2", "g:4", "g:3", "g:5", "c"]
    return head(id, c, obs) + " " + " ".join(t)


def kv_verify(rng, id, obs="s"):
    c = config(rng, True, bs=rng.choice([104, 110, 122, 128, 256, 512]), ks=rng.choice([2, 4, 8, 20, 33]))
    vs = ["V:0", "V:%d" % rng.choice([1, 100, 128, 300, 1000, 2000]), "V:%d" % rng.choice([5000, 100000]), "V:2000000"]
    t, ins, pool = body(rng, c, rng.randint(1, 45), 40, w={"i": 8, "f": 1, "r": 0.4})
    t = ["C", "V:0", "V:1000000", "o"] + t + ["c"] + vs
    for _ in range(rng.choice([0, 1, 1, 2])):
        nbs = rng.choice([104, 110, 128, 256, 300, 1024])
        t += ["R:%d:%d:%d:%d" % (nbs, rng.choice(LF[2:]), rng.choice([0, 1, len(ins), 3 * len(ins)]), rng.choice([1, 128, 600, 5000, 100000]))]
        t += vs
        c2 = config(rng, True, ks=c.ks, bs=nbs, hm=c.hm, kl=c.kl)
        if rng.random() < 0.6 and len(pool) > 2:
            t += ["o"]
            for q in range(rng.randint(1, 12)):
                if pool:
                    k = pool.pop()
                    ins.append(k)
                    t += ["i:%d:%d:%d" % (k, 5000 + q, vsize(rng, c, 0))]
                    if rng.random() < 0.3:
                        t += ["f"]
            t += ["c"] + vs[:2]
    return head(id, c, obs) + " " + " ".join(t)


def kv_rekey(rng, id, obs="sd"):
    c = config(rng, True, ks=rng.choice([2, 4, 8, 20, 33]))
    t, ins, pool = body(rng, c, rng.randint(1, 45), 40, w={"i": 8, "f": 1, "r": 0.4})
    t = ["C", "o"] + t + ["c", "S"]
    for _ in range(rng.choice([1, 1, 2, 3])):
        nbs = rng.choice(BS)
        cnt = rng.choice([0, 1, len(ins), len(ins) + 1, 3 * len(ins), 100])
        t += ["R:%d:%d:%d:%d" % (nbs, rng.choice(LF[1:]), cnt, rng.choice([0, 1, 104, 128, 600, 5000, 100000, 1000000]))]
        t += ["o"] + tail(rng, ins, pool, 12)
        for q in range(rng.randint(0, 8)):
            if len(pool) > 4:
                k = pool.pop()
                ins.append(k)
                t += ["i:%d:%d:%d" % (k, 6000 + q, vsize(rng, c, 0))]
                if rng.random() < 0.3:
                    t += ["f"]
        t += ["c"]
    t += ["o"] + tail(rng, ins, pool, 40) + ["c"]
    return head(id, c, obs) + " " + " ".join(t)


def kv_visit(rng, id, obs="s"):
    c = config(rng, True, ks=rng.choice([1, 2, 4, 8, 20, 33, 300]), bs=rng.choice([104, 110, 128, 256]),
               hm=rng.choice([0, 2, 2, 3, 4]))
    n = rng.randint(0, 24)
    t, ins, pool = body(rng, c, n, 30, w={"i": 8, "f": 1.5, "r": 0.4}, big=0.02)
    t = ["C", "o"] + t + ["c", "S", "W"]
    if rng.random() < 0.3:
        t += ["R:%d:500000:%d:1000" % (rng.choice([104, 256]), len(ins)), "W"]
    t += ["WC:%d:12" % rng.randrange(1 << 30)]
    t += ["W:%d" % rng.randint(1, max(1, len(ins) + 1)) for _ in range(3)]
    return head(id, c, obs) + " " + " ".join(t), len(ins)


def big_values(rng, c, limit=14 << 20):
    """inserts whose records exceed the read buffers (4 MiB) or make the next one straddle them"""
    t, ins, tot = [], [], 0
    for k in range(1, rng.randint(3, 9)):
        x = rng.random()
        if x < 0.3:
            n = rng.randint(1, 300)
        elif x < 0.5:
            n = rng.choice([(1 << 22) - rng.randint(0, 60), (1 << 22) + rng.randint(0, 60), (1 << 22) - c.ks - 6])
        elif x < 0.8:
            n = rng.randint(1 << 20, 3 << 20)
        else:
            n = rng.randint((4 << 20) + 1, 6 << 20)
        if tot + n > limit:
            n = rng.randint(1, 300)
        tot += n
        ins.append(k)
        t.append("i:%d:%d:%d" % (k, k, n))
        if rng.random() < 0.3:
            t.append("f")
        elif rng.random() < 0.3:
            t += ["c", "o"]
    return t, ins


def kv_visit_big(rng, id, obs="s"):
    c = config(rng, False, ks=rng.choice([1, 4, 33]), bs=rng.choice([104, 128, 4096]), hm=rng.choice([0, 2, 3]))
    t, ins = big_values(rng, c)
    t = ["C", "o"] + t + ["c", "W"] + ["W:%d" % rng.randint(1, len(ins) + 1)]
    if rng.random() < 0.3:
        t += ["R:%d:500000:%d:%d" % (rng.choice([104, 256]), len(ins), rng.choice([1000, 5000000])), "W"]
    return head(id, c, obs) + " " + " ".join(t)


def kv_rekey_big(rng, id, obs="sd"):
    c = config(rng, False, ks=rng.choice([4, 33]), bs=rng.choice([104, 128, 4096]), hm=rng.choice([0, 2, 3]))
    t, ins = big_values(rng, c)
    t = ["C", "o"] + t + ["c", "R:%d:%d:%d:%d" % (rng.choice([104, 256, 4096]), rng.choice(LF[1:]), rng.choice([0, len(ins), 100]),
                                                   rng.choice([0, 128, 5000, 5000000])), "o"]
    t += ["g:%d" % k for k in ins + [77]] + ["i:%d:9:9" % k for k in ins[:3]] + ["i:78:78:40", "f", "g:78", "c"]
    return head(id, c, obs) + " " + " ".join(t)


def kv_tool(rng, id, obs="s"):
    """runs of the command line tool on databases of every kind, and after kills"""
    c = config(rng, True, hm=0, ks=rng.choice([2, 4, 8, 20, 33, 300]))
    if c.lf < 1000:
        c.lf = 500000
    t, ins, pool = body(rng, c, rng.choice([0, 3, 25, 60]), 60, w={"i": 8, "f": 1.5, "r": 0.4}, big=0.01)
    vid = [9000]

    def put(n):
        r = []
        for _ in range(n):
            if len(pool) > 4:
                k = pool.pop()
                ins.append(k)
                vid[0] += 1
                r.append("i:%d:%d:%d" % (k, vid[0], rng.choice([vsize(rng, c, 0), (1 << rng.randint(0, 14 if rng.random() < 0.93 else 20)) - rng.choice([0, 0, 1]) or 1])))
        return r

    def looks(n):
        r = []
        for _ in range(n):
            x = rng.random()
            if x < 0.35:
                b = rng.choice(["", ":--buffer=%d" % rng.choice([0, 1, 300, 5000, 100000, 10000000])])
                r.append("T:verify:d:k" + b)
            elif x < 0.6:
                r.append("T:visit:d")
            elif x < 0.85:
                r.append("T:info:" + rng.choice(["d", "d:k", "d:k:l"]))
            elif x < 0.93:
                r.append("T:recover:d:k:l")
            else:
                r.append(rng.choice(["T:help", "T:info", "T:verify", "T:verify:d", "T:visit", "T:recover", "T:visit:n", "T:verify:n:k", "T:verify:d:n", "T:info:n", "T:info:d:n", "T:recover:n:k:l",
                                     "T:rekey:n:k:l:--count=5:--buffer=5000", "T:recover:d", "T:recover:d:k", "T:nosuch:d:k:l",
                                     "T:rekey:d:k:l", "T:rekey:d:k:l:--count=5", "T:rekey:d:k:l:--buffer=5000", "T:rekey:d:k:--count=5:--buffer=5000",
                                     "T:rekey:d:k:l:--count=10:--buffer=5000"]))
        return r
    p = ["C", "o"] + t + put(rng.randint(0, 9)) + ["c"] + looks(rng.randint(1, 4))
    for _ in range(rng.randint(1, 3)):
        x = rng.random()
        cnt = rng.choice([0, 1, len(ins), 3 * len(ins), 500])
        rk = "T:rekey:d:k:l:--count=%d:--buffer=%d" % (cnt, rng.choice([1, 5000, 100000, 1000000]))
        if x < 0.35:
            p += ["o"] + put(rng.randint(1, 12)) + ["KF:%d" % rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20])]
            if rng.random() < 0.6:
                p.append("T:info:d:k:l")
            p.append("T:recover:d:k:l")
        elif x < 0.7:
            p += ["KR:%d:%d:%d:%d:%d" % (rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 40]), rng.choice([104, 256, 1024]), rng.choice(LF[2:]), cnt, rng.choice([128, 5000, 100000]))]
            if rng.random() < 0.6:
                p.append("T:info:d:k:l")
            p += ["T:recover:d:k:l", "RK"] + looks(1) + [rk]
        elif x < 0.85:
            p += ["CK:%d" % rng.choice([0, 1, 8, 60, 103, 104])] + [y for y in looks(3) if not y.startswith("T:recover")] + ["T:recover:d:k:l"] + looks(1) + [rk]
        else:
            p += ["RK"] + looks(1) + [rk]
        p += looks(rng.randint(1, 3)) + ["o"] + put(rng.randint(0, 5)) + tail(rng, ins, pool, 6) + ["c"]
    p += looks(2)
    if rng.random() < 0.3:
        p += ["CUT:%d" % rng.choice([1, rng.randint(1, 40), rng.randint(1, 3000), 1 << 24])] + [x for x in looks(3) if x.startswith(("T:verify", "T:visit"))]
    elif rng.random() < 0.3:
        p += ["S", "V:0"] + ["T:verify:d:k", "V:100000", "T:verify:d:k:--buffer=100000"]
    if rng.random() < 0.2:      # options in place of positional arguments
        p = [":".join("@" + y if y in ("d", "k", "l") else y for y in x.split(":")) if x.startswith("T:") and ":n" not in x else x for x in p]
    return head(id, c, obs) + " " + " ".join(p)


def kv_far(rng, id, obs="sd", what="RVW"):
    """a data file of more than 4 GiB, for rekey, verify and visit"""
    c = config(rng, False, ks=rng.choice([4, 8, 33]), bs=rng.choice([128, 512, 4096]), hm=rng.choice([0, 0, 3]))
    t, ins, pool = body(rng, c, 12, 20, big=0.0)
    n = rng.choice([62, 63])
    p = ["C", "o"] + t + ["c", "B:70000000:%d" % n, "S",
         "R:%d:500000:%d:%d" % (rng.choice([104, 512, 4096]), rng.choice([n, 100, 0]), rng.choice([104, 5000, 1000000])), "o"]
    for q in range(8):
        k = pool.pop()
        ins.append(k)
        p.append("i:%d:%d:%d" % (k, 5000 + q, rng.randint(1, 90)))
    p += ["g:%d" % k for k in ins] + ["f"] + ["g:%d" % k for k in ins] + ["i:%d:9:9" % k for k in ins[-4:]] + ["c"]
    if "R" in what:
        p += ["R:%d:900000:%d:%d" % (rng.choice([128, 256]), rng.choice([0, 200]), rng.choice([128, 5000, 1000000])), "o"]
        p += ["g:%d" % k for k in ins] + ["c"]
    if "V" in what:
        p += ["V:0", "V:%d" % rng.choice([100000, 5000000])]
    if "W" in what:
        p += ["W", "W:%d" % (len(ins) + n)]
    return head(id, c, obs) + " " + " ".join(p)


def kv_verify_big(rng, id, obs="s"):
    c = config(rng, False, ks=rng.choice([4, 33]), bs=rng.choice([104, 128, 4096]), hm=rng.choice([0, 2, 3]))
    t, ins = big_values(rng, c, 10 << 20)
    vs = ["V:0", "V:%d" % rng.choice([100, 1000, 100000]), "V:%d" % rng.choice([5000000, 9000000])]
    return head(id, c, obs) + " " + " ".join(["C", "o"] + t + ["c"] + vs + ["R:%d:500000:%d:1000" % (rng.choice([104, 256]), len(ins))] + vs[:2])


def crash_prog(rng, id, mode, kind="commit", **kw):
    """base history || recorded history, for harness/crash.cpp"""
    c = config(rng, True, bs=rng.choice([104, 104, 110, 122, 128, 140, 256, 512]), ks=rng.choice([2, 4, 4, 8, 20, 33]),
               hm=rng.choice([0, 1, 2, 2, 3, 3, 4, 5]), lf=rng.choice([100000, 333333, 500000, 500000, 750000, 900000, 999999]))
    pool = ids(rng, c, 60)
    vid = [0]
    ins = []

    def put(n, big=0.0):
        t = []
        for _ in range(n):
            if not pool:
                break
            k = pool.pop()
            ins.append(k)
            vid[0] += 1
            t.append("i:%d:%d:%d" % (k, vid[0], vsize(rng, c, 0) if rng.random() >= big else rng.choice([70000, 131072, 140000])))
        return t
    base = ["C"]
    n0 = rng.choice([0, 0, 1, 3, 6, 10, 16])
    if n0:
        base += ["o"]
        while n0 > 0:
            m = rng.randint(1, n0)
            base += put(m) + ([] if rng.random() < 0.4 else ["f"])
            n0 -= m
        base += ["c"]
    rec = []
    if kind == "commit" and rng.random() < 0.12:
        # far into a large data file
        base.insert(1, "B:%d" % rng.choice([(1 << 32) - 150, (1 << 32) + 5, (1 << 31) - 150, 5 << 30, 1 << 40]))
    if kind == "commit" and rng.random() < 0.1:
        # very many buckets: key file offsets beyond 4 GiB, large numbers in the log
        base.insert(1, "N:%d" % rng.choice([65535, 65536, (1 << 20) + 7, (1 << 24) - 1, 1 << 24, (1 << 26) + 3, 1 << 27]))
    if kind == "commit":
        for s in range(rng.choice([1, 1, 1, 2])):
            rec += ["o"]
            for _ in range(rng.choice([1, 1, 2, 3])):
                rec += put(rng.choice([1, 1, 2, 3, 5, 8]), 0.03)
                if mode == "fault" and ins:
                    rec += ["g:%d" % rng.choice(ins), "i:%d:999:7" % rng.choice(ins)]
                rec += ["f"] if rng.random() < 0.75 else []
                if mode == "fault" and ins:
                    rec += ["g:%d" % rng.choice(ins)]
            rec += put(rng.choice([0, 1, 3]))
            rec += ["c" if rng.random() < 0.7 else "D"]
    elif kind == "rekey":
        if len(ins) < 6:
            base += ["o"] + put(rng.choice([4, 9, 14])) + ["c"]
        base += ["E"]
        nbs = rng.choice([104, 104, 110, 122, 128, 256])
        rlf, items, buf = rng.choice([100000, 500000, 900000]), rng.choice([0, 1, len(ins), 2 * len(ins)]), rng.choice([1, 128, 400, 2000, 100000])
        if items * 1000000 > 12 * rlf * ((nbs - 8) // 18):    # one pass over the data file, with a large buffer, for each bucket: costly
            buf = max(buf, nbs * 8)
        rec += ["R:%d:%d:%d:%d" % (nbs, rlf, items, buf)]
        if mode == "crash" and rng.random() < 0.5:
            rec += ["o"] + put(3) + ["c"]
    elif kind == "create":
        base = []
        rec = ["C"]
        if mode == "crash":
            rec += ["o"] + put(2) + ["c"]
    opts = " ".join("%s=%s" % x for x in kw.items())
    h = head(id, c, "-")[:-1]
    return h + "mode=%s seed=%d %s | %s || %s" % (mode, rng.randrange(1 << 30), opts, " ".join(base), " ".join(rec))


def kv_close(rng, id, obs="hd"):
    """sessions that end in every way: with and without inserts, by close or destruction, followed by a power failure"""
    c = config(rng, True, ks=rng.choice([1, 2, 4, 8, 20, 33]))
    pool = ids(rng, c, 40)
    rng.shuffle(pool)
    t, ins, vid = ["C"], [], 0
    for s in range(rng.randint(2, 7)):
        t.append("o")
        kind = rng.random()
        n = 0 if kind < 0.35 else rng.randint(1, 9)
        for q in range(n):
            x = rng.random()
            if x < 0.75 and len(pool) > 3:
                k = pool.pop()
                ins.append(k)
                vid += 1
                t.append("i:%d:%d:%d" % (k, vid, vsize(rng, c, 0.02)))
            elif x < 0.85 and ins:
                t.append("i:%d:%d:%d" % (rng.choice(ins), 8000 + vid, 5))
            else:
                t.append("f")
        for q in range(rng.randint(0, 4)):
            t.append("g:%d" % rng.choice(ins + pool[:3] + [pool[0]]))
        if n == 0 and ins and rng.random() < 0.4:
            t.append("i:%d:%d:%d" % (rng.choice(ins), 8000 + vid, 5))
        t.append(rng.choice(["c", "c", "D"]))
        if rng.random() < 0.5:
            t.append("P")
        if rng.random() < 0.15:
            t.append("R:%d:%d:%d:%d" % (rng.choice([104, 128, 256]), rng.choice(LF[1:]), len(ins), rng.choice([1, 1000])))
    t += ["o"] + tail(rng, ins, pool[:4], 50) + ["c"]
    return head(id, c, obs) + " " + " ".join(t)


def kv_corrupt(rng, id, n=40):
    c = config(rng, True, ks=rng.choice([1, 2, 4, 8, 20, 33]), bs=rng.choice([104, 110, 122, 128, 256]), hm=rng.choice([0, 0, 2, 2, 3, 3, 4, 1]))
    t, ins, pool = body(rng, c, rng.randint(1, 30), 30, w={"i": 8, "f": 1.5, "r": 0.3}, big=0)
    t = ["C", "o"] + t + ["c"]
    if rng.random() < 0.2:
        t += ["R:%d:500000:%d:1000" % (rng.choice([104, 256]), len(ins))]
    return head(id, c, "") + " " + " ".join(t + ["XC:%d:%d" % (rng.randrange(1 << 30), n)])


def misc_create(rng, id, faults=0, **over):
    ks = rng.choice([0, 1, 2, 3, 4, 8, 32, 33, 255, 256, 4096, 65534, 65535, 65536, 65537, 1 << 20, (1 << 32) + 4, (1 << 64) - 1])
    bs = rng.choice([0, 1, 7, 8, 25, 26, 27, 44, 103, 104, 105, 121, 122, 128, 255, 256, 512, 4096, 65534, 65535, 65536, 65537, 1 << 20, (1 << 32) + 256])
    lf = rng.choice(["0", "-0", "1", "nan", "inf", "-inf", "-0.5", "2", "1e-30", "0.000001", "0.00001526", "0.0000153", "0.1", "0.25", "0.5", "0.5", "0.75", "0.9",
                     "0.999984", "0.99999", "0.99999994", "1.0000001", "1e-40"])
    v = dict(ks=ks, bs=bs, lf=lf, pre=rng.choice(["", "", "", "d", "k", "l", "dk", "dl", "kl", "dkl"]), faults=faults,
             app=rng.choice([0, 1, 2 ** 64 - 1]), uid=rng.choice([0, 5, 2 ** 64 - 1]), salt=rng.choice([0, 1, 2 ** 64 - 1]), hm=rng.choice([0, 1, 2]))
    v.update(over)
    v["nouid"] = int(rng.random() < 0.25)
    return "id=%s mode=create %s" % (id, " ".join("%s=%s" % x for x in v.items()))


def muts(rng):
    f = {"d": ["type", "ver", "uid", "app", "ks"], "k": ["type", "ver", "uid", "app", "ks", "salt", "pep", "lf"],
         "l": ["type", "ver", "uid", "app", "ks", "salt", "pep", "bs"]}
    res = []
    for x in f:
        for y in f[x]:
            n = {"type": 8, "ver": 2, "uid": 8, "app": 8, "ks": 2, "salt": 8, "pep": 8, "bs": 2, "lf": 2}[y]
            for q in sorted({0, n - 1, rng.randrange(n)}):
                if y in ("lf",):
                    continue
                res.append("%s.%s:%d:%d" % (x, y, q, rng.choice([1, 128, rng.randint(1, 255)])))
            if y == "ks":
                res += ["%s.ks:set:0" % x]
            if y == "ver":
                res += ["%s.ver:set:0" % x, "%s.ver:set:1" % x, "%s.ver:set:3" % x]
    res += ["k.lf:set:0", "k.bs:set:0", "k.bs:set:25", "k.bs:set:103", "k.bs:set:65535", "l.bs:set:0",
            "k.salt:0:1:x", "l.salt:7:1:x", "l.salt:0:255:x",
            "d.rm", "k.rm", "d.cut:0", "d.cut:91", "d.cut:10", "k.cut:0", "k.cut:1", "k.cut:103", "k.cut:104", "k.cut:105", "k.cut:128", "k.cut:200", "k.cut:255",
            "d.swap", "k.swap", "l.swap", "hash:1", "hash:4",
            "d.other", "k.other", "l.other", "d.other:99", "k.other:99", "l.other:99", "k.other:99:8", "d.other:99:8", "l.other:99:8",
            "k.other:99:7:3:5", "d.other:99:7:3:5", "l.other:99:7:3:4:256", "l.other:99:7:3:5", "k.other:99:7:4", "l.other:99:7:4", "l.other:100:7:3",
            "l.idx:99999", "l.idx:4294967295", "l.spill:99999999", "l.spill:281474976710655", "l.cnt:7", "l.cnt:65535", ""]
    return res


def misc_open(rng, limit):
    """every alteration with every operation and every kind of log, and random pairs"""
    res = []
    n = 0
    ops = ["open", "recover", "verify", "visit", "rekey"]
    ms = muts(rng)
    for op in ops:
        for lg in ["none", "commit", "rekey", "short"]:
            if op in ("verify", "visit") and lg != "none":
                continue
            for m in ms:
                if m.startswith("l.") and lg == "none":
                    continue
                if op == "verify" and m.startswith("k.bs"):
                    continue
                if op == "visit" and (m.startswith("d.ks") or (m.startswith("d.other") and m.endswith(":5"))):
                    m = m if m == "d.ks:set:0" or m.startswith("d.other") else ""
                res.append((op, lg, m))
    single = len(res)
    while len(res) < single + limit:
        op, lg = rng.choice(["open", "recover", "open", "recover", "rekey"]), rng.choice(["none", "commit", "rekey"])
        a, b = rng.choice(ms), rng.choice(ms)
        if a and b:
            res.append((op, lg, a + "," + b))
    out = []
    for op, lg, m in res:
        if m.count("l.idx") + m.count("l.spill") + m.count("l.cnt") and lg != "commit":
            continue
        n += 1
        kk = " keepkey=1" if op == "rekey" and rng.random() < 0.15 else ""
        out.append("id=t%d mode=open op=%s log=%s mut=%s uid=99 app=7 salt=3 ks=4 bs=128 hm=%d n=%d logcut=%d buf=%d%s" % (
            n, op, lg, m, rng.choice([0, 0, 3]), rng.choice([1, 5, 9]), rng.choice([0, 1, 30, 61]), rng.choice([0, 100000]), kk))
    return out


# ------------------------------------------------------------------ concurrency

def conc_cfg(rng, **o):
    c = dict(ks=rng.choice([1, 2, 4, 8]), bs=rng.choice([104, 128, 128, 256]), lf=rng.choice(["0.2", "0.5", "0.9"]), hm=rng.choice([0, 1, 1, 2, 3]),
             pre=rng.choice([0, 0, 3, 5, 6, 9, 14]))
    c.update(o)
    return c


def conc_line(id, c, n, seed, threads, extra=""):
    return "id=%s %s seed=%d n=%d %sT=%s" % (id, " ".join("%s=%s" % x for x in c.items()), seed, n, extra + " " if extra else "",
                                             ";".join(",".join(x) for x in threads))


def conc_client(rng, ops, keys, nv, s=0, ins=0.5):
    r = []
    for _ in range(ops):
        k = rng.choice(keys)
        if k < 100 and rng.random() < ins:
            nv[0] += 1
            r.append("i:%d:%d:%d:%d" % (s, k, nv[0], rng.choice([1, 10, 10, 10, 40, 300])))
        elif k >= 100 and rng.random() < 0.3:
            nv[0] += 1
            r.append("i:%d:%d:%d:%d" % (s, k, nv[0], 10))
        else:
            r.append("f:%d:%d" % (s, k))
    return r


def conc_lin(rng, id, n, seed, **o):
    """clients on a few keys of one store while its data is committed"""
    c = conc_cfg(rng, **o)
    nv = [0]
    nk = rng.choice([1, 2, 2, 3, 6])
    keys = list(range(1, nk + 1)) + ([100 + rng.randrange(c["pre"]) for _ in range(2)] if c["pre"] else [])
    nt = rng.choice([2, 2, 3])
    threads = [conc_client(rng, rng.choice([2, 3, 4, 6]), keys, nv) for _ in range(nt)]
    mode = rng.choice(["X", "X", "X", "S", "R"])
    extra = ""
    burst = ["B:0:%d" % rng.choice([1, 100])] if rng.random() < 0.2 else []
    if mode == "X":
        threads.append(["X"] * rng.choice([1, 2, 3]))
        main = ["o:0"] + burst + ["|", "&", "c:0"]
    else:
        if rng.random() < 0.5:
            extra = "spur=20"
        main = ["o:0"] + burst + (["S"] if mode == "S" else ["R", "R", "w:10"]) + ["E:1", "|", "&"] + (["P", "J", "c:0"] if rng.random() < 0.5 or mode == "R" else ["c:0", "P"])
    return conc_line(id, c, n, seed, [main] + threads, extra)


def conc_hold(rng, id, n, seed, kind, at, **o):
    c = conc_cfg(rng, **o)
    if kind == "k":
        c["pre"] = max(c["pre"], 3)
    nv = [0]
    keys = list(range(1, rng.choice([3, 6, 12]))) + ([100 + rng.randrange(c["pre"]) for _ in range(3)] if c["pre"] else [])
    warm = ["i:0:%d:%d:10" % (50 + j, 150 + j) for j in range(rng.choice([1, 3, 6]))]
    main = ["o:0"] + warm + ["|", "&", "c:0"]
    threads = [conc_client(rng, rng.choice([3, 5]), keys + [50], nv) for _ in range(rng.choice([1, 2, 3]))]
    extra = "hold=%s:%d" % (kind, at)
    if rng.random() < 0.5:
        threads.append(["X", "X"])
    else:
        main = ["o:0"] + warm + ["S", "|", "&", "P", "c:0"]
        extra += " eager=1"
    return conc_line(id, c, n, seed, [main] + threads, extra)


def conc_dup(rng, id, n, seed, **o):
    """inserts of keys that are stored already, many of them in overflow records, while their bucket is being changed"""
    c = conc_cfg(rng, **dict(dict(hm=rng.choice([1, 1, 2, 3]), bs=rng.choice([104, 128]), pre=rng.choice([6, 9, 14, 18])), **o))
    nv = [0]
    threads = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        t = []
        for _ in range(rng.choice([2, 3, 5])):
            nv[0] += 1
            k = 100 + rng.randrange(c["pre"]) if rng.random() < 0.7 else rng.choice([1, 2, 40, 41, 42])
            t.append("i:0:%d:%d:10" % (k, nv[0]) if rng.random() < 0.85 else "f:0:%d" % k)
        threads.append(t)
    warm = ["i:0:%d:%d:10" % (40 + j, 140 + j) for j in range(rng.choice([1, 2, 4, 8]))]
    if rng.random() < 0.6:
        threads.append(["X"] * rng.choice([1, 2]))
        return conc_line(id, c, n, seed, [["o:0"] + warm + ["|", "&", "c:0"]] + threads)
    return conc_line(id, c, n, seed, [["o:0"] + warm + ["S", "|", "&", "c:0", "P"]] + threads, "eager=1")


def conc_close(rng, id, n, seed, **o):
    """sessions of one store, closed while the context is committing it"""
    c = conc_cfg(rng, **dict(dict(pre=rng.choice([0, 3, 9])), **o))
    nv = [0]

    def put(m):
        r = []
        for _ in range(m):
            nv[0] += 1
            r.append("i:0:%d:%d:%d" % (nv[0], nv[0], rng.choice([1, 10, 10, 300])))
        return r
    main = []
    for _ in range(rng.choice([1, 2, 3])):
        main += ["o:0"] + put(rng.choice([0, 1, 2, 4])) + (["f:0:%d" % rng.randint(1, max(1, nv[0]))] if nv[0] else [])
        main += put(rng.choice([0, 1, 2])) + ["c:0"] + (["D:0"] if rng.random() < 0.2 else [])
    threads = []
    extra = ""
    x = rng.random()
    if x < 0.5:
        threads = [["X"] * rng.choice([1, 2, 4])]
        if rng.random() < 0.3:
            threads.append(["X"] * 2)
        main = ["|"] + main + ["&"]
    else:
        main = ["S"] + main + ["|", "&", "P"]
        extra = "eager=1"
    return conc_line(id, c, n, seed, [main] + threads, extra)


def conc_fault(rng, id, n, seed):
    """the same with a file operation that fails somewhere while the threads run"""
    f = rng.choice([conc_lin, conc_lin, conc_dup, conc_close])
    l = f(rng, id, n, seed)
    return l.replace(" T=", " fault=%d T=" % rng.choice([12, 30, 60, 100, 160]) if rng.random() < 0.4 else " fw=1 fault=%d T=" % rng.choice([15, 30, 60]))


def conc_ctx(rng, id, n, seed, **o):
    """stores opened, filled and closed by their clients while the context is started, run by threads and stopped"""
    ns = rng.choice([1, 2, 2, 3])
    c = conc_cfg(rng, stores=ns, pre=rng.choice([0, 3]), **o)
    nv = [0]
    kind = rng.choice(["steady", "steady", "churn", "churn", "flush", "restart"])
    threads = []
    extra = "spur=20" if rng.random() < 0.3 else ""
    idle = kind == "steady"

    def client(s):
        r = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            r.append("o:%d" % s)
            for _ in range(rng.choice([0, 1, 2, 3])):
                nv[0] += 1
                r.append("i:%d:%d:%d:10" % (s, nv[0] % 40 + 1, nv[0]))
            x = rng.random()
            if idle and x < 0.6:
                r.append("q:%d:%d" % (s, rng.choice([3000, 3500, 5000])))
            elif x < 0.8:
                r.append("w:%d" % rng.choice([1, 500, 999, 1000, 1001, 2500]))
            if rng.random() < 0.3 and kind != "steady":
                nv[0] += 1
                r.append("i:%d:%d:%d:10" % (s, nv[0] % 40 + 1, nv[0]))
            r.append("c:%d" % s)
            if rng.random() < 0.3:
                r.append("D:%d" % s)
        return r
    clients = [client(s) for s in range(ns)]
    if kind == "steady":
        w = rng.choice([["S"], ["R", "w:1"], ["R", "R", "w:1"], ["S", "R", "w:1"], ["R", "R", "R", "w:1"]])
        main = w + ["|", "&", "P", "J"]
        if rng.random() < 0.5:      # again
            main += ["S", "w:1500", "P"]
    elif kind == "churn":
        w = rng.choice([["S"], ["S"], ["R", "w:1"], ["R", "R", "w:1"], ["S", "R", "w:1"]])
        extra += " eager=1"
        main = w + ["|", "&", "w:1", "P", "J"]
    elif kind == "flush":
        main = ["|", "X", "&"]
        clients.append(["X"] * rng.choice([1, 2, 3]))
        if rng.random() < 0.5:
            clients.append(["X"] * 2)
        if rng.random() < 0.5:
            s = 0
            clients = []
            main = ["o:0", "i:0:1:1:10", "i:0:2:2:10", "X", "q:0:0", "i:0:3:3:10", "|", "&", "X", "q:0:0", "c:0"]
    else:
        ctl = []
        for _ in range(rng.choice([1, 2, 3])):
            ctl += rng.choice([["S"], ["S", "w:1"], ["S", "w:1000"], ["R", "w:1"], ["R", "R", "w:1001"], ["S", "R", "w:1"]])
            ctl += rng.choice([[], ["X"], ["w:1200"]])
            ctl += ["P"] + (["J"] if any(x == "R" for x in ctl) else [])
            ctl += rng.choice([[], ["w:1"], ["X"], ["P"]])
        if rng.random() < 0.5:
            extra += " eager=1"
            ctl = [x if x != "R" else "S" for x in ctl]
        clients.append(ctl)
        main = ["|", "&"]
    return conc_line(id, c, n, seed, [main] + clients, extra.strip())


def conc_small(rng, id, n, seed):
    """tiny programs, explored breadth first over the preemptions"""
    a = rng.choice([
        ["i:0:1:1:10", "f:0:1"], ["f:0:1", "f:0:1"], ["i:0:1:1:10"], ["f:0:100", "f:0:1"]])
    b = rng.choice([["i:0:1:2:10"], ["i:0:2:2:10", "f:0:2"], ["i:0:1:2:300", "f:0:1"]])
    c = conc_cfg(rng, ks=4, hm=rng.choice([1, 2]))
    main = ["o:0", "i:0:9:9:10", "|", "&", "c:0"]
    return conc_line(id, c, n, seed, [main, a, b, ["X"] * rng.choice([1, 2])], "dfs=2")


# ------------------------------------------------------------------ format

def fmt_write(rng, id):
    ks = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 16, 33, rng.randrange(9, 70), rng.choice([255, 256, 257, 300])])
    bs = rng.choice([104, 105, 116, 128, 200, 256])
    hm = rng.choice([0, 0, 1, 1, 2, 3, 4, 5])
    nk = min(rng.choice([3, 8, 20, 30]), 200 if ks == 1 else 10 ** 6)
    ops, vid = [], 0
    for _ in range(rng.choice([6, 15, 30])):
        x = rng.random()
        if x < 0.75:
            vid += 1
            ops.append("i:%d:%d:%d" % (rng.randrange(1, nk + 1), vid, rng.choice([1, 2, 5, 9, 17, 40, 255, 256])))
        elif x < 0.87:
            ops.append("f")
        elif x < 0.95:
            ops += ["c", "o"]
        else:
            ops += ["c", "K:%d:%s:%d" % (rng.choice([104, 128, 130, 256]), rng.choice(["0.3", "0.5", "0.9"]), rng.choice([1, 300, 10000])), "o"]
    if rng.random() < 0.05:
        ops.append("i:%d:%d:%d" % (nk + 1, vid + 1, rng.choice([65535, 65536, 70000])))
    return "id=%s mode=write ks=%d bs=%d lf=%s hm=%d kl=%d salt=%d app=%d uid=%d T=%s" % (
        id, ks, bs, rng.choice(["0.2", "0.5", "0.75", "0.999"]), hm, rng.choice([0, 0, 1]), rng.choice([0, 1, 2 ** 63, 2 ** 64 - 1, rng.getrandbits(64)]),
        rng.choice([0, 1, 258, 2 ** 64 - 1]), rng.choice([0, 5, 2 ** 64 - 2]), ",".join(ops))


def fmt_hash(rng, id, lengths):
    return "id=%s mode=hash seed=%d n=%s off=%s" % (
        id, rng.choice([0, 1, 2 ** 63, 2 ** 64 - 1, 2654435761] + [rng.getrandbits(64)] * 4), ",".join(map(str, lengths)),
        rng.choice(["0,1", "0,3", "0,4", "0,7", "2,5"]))


def fmt_cases(rng, n, ks):
    cs = []
    for j in range(n):
        m = rng.choice([0, 1, 2, 3, 5, 6, 7, 11, 16])
        keys = rng.sample(range(0, 199), m) if ks == 1 else rng.sample(range(0, rng.choice([40, 199, 2000])), m)
        order = list(range(1, m + 1))
        rng.shuffle(order)
        cs.append(dict(id="g%d" % j, keys=keys, sizes=[rng.choice([1, 2, 7, 30, 100]) for _ in keys], nb=rng.choice([1, 1, 2, 3, 4, 5, 7, 8]),
                       first=rng.choice([1, 2, 5, 9]), order=order, junk=rng.choice([0, 1]), log=rng.choice([0, 0, 1, 2, 3])))
    return cs


# ------------------------------------------------------------------ native file

def posix_script(id, op, off, n, ans):
    o = {"rd": "rd:0:%s:%s" % (off, n), "wr": "wr:0:%s:%s:7" % (off, n), "sy": "sy:0", "tr": "tr:0:%s" % off}[op]
    return "id=%s mode=file unit=1 pre=5 | op:0:w:a sc:%s %s sc: sz:0 cl:0" % (id, ans, o)


def posix_random(rng, id):
    """several handles on two files, with answers of every kind"""
    pre = rng.choice([-1, 0, 1, 20, 60])
    ops, v = [], 0
    for _ in range(rng.choice([4, 10, 25])):
        h = rng.randrange(3)
        x = rng.random()
        if x < 0.12:
            ops.append("cr:%d:%s:%s" % (h, rng.choice("wwr"), rng.choice("ab")))
        elif x < 0.3:
            ops.append("op:%d:%s:%s" % (h, rng.choice("srwww"), rng.choice("aab")))
        elif x < 0.38:
            ops.append("cl:%d" % h)
        elif x < 0.56:
            ops.append("rd:%d:%d:%d" % (h, rng.choice([0, 0, 1, 5, 19, 20, 30, 59, 60, 61, 90]), rng.choice([0, 1, 2, 5, 19, 20, 40, 60, 61])))
        elif x < 0.74:
            v += 1
            ops.append("wr:%d:%s:%d:%d" % (h, rng.choice(["0", "1", "7", "20", "60", "63"]), rng.choice([0, 1, 2, 9, 30, 50]), v))
        elif x < 0.8:
            ops.append("sy:%d" % h)
        elif x < 0.85:
            ops.append("tr:%d:%d" % (h, rng.choice([0, 1, 10, 20, 60, 75])))
        elif x < 0.89:
            ops.append("sz:%d" % h)
        elif x < 0.92:
            ops.append("un:%s" % rng.choice("ab"))
        elif x < 0.96:
            ops.append("mv:%d:%d" % (h, rng.randrange(3)))
        else:
            ops.append("ma:%d:%d" % (h, rng.randrange(3)))
    return "id=%s mode=file unit=1 pre=%d seed=%d rnd=%d rnde=%d | %s" % (
        id, pre, rng.randrange(1 << 30), rng.choice([0, 20, 50, 90]), rng.choice([0, 0, 30, 120]), " ".join(ops))


def posix_refuse(rng, id):
    """create and open while each of their calls fails"""
    ans = rng.choice(["e5", "f,e5", "f,e28", "f,f", "i", "f,i", "f,i,i", "e13", "f,e29", "e24"])
    ops = [rng.choice(["cr:0:a:b", "cr:0:w:a", "op:0:w:a", "op:0:s:a", "op:0:r:b", "op:0:a:a"]), "sc:", "sz:0", "op:1:w:a", "sz:1",
           rng.choice(["mv:0:1", "ma:0:1", "cl:1"]), "op:0:r:a", "rd:0:0:4", "cr:2:w:b", "un:b"]
    return "id=%s mode=file unit=1 pre=%d | sc:%s %s" % (id, rng.choice([-1, 6]), ans, " ".join(ops))


def posix_append(rng, id):
    ops = ["cr:0:a:a"]
    for v in range(rng.randint(1, 6)):
        ops.append("wr:0:E:%d:%d:a" % (rng.choice([1, 2, 9, 40]), v))
        if rng.random() < 0.3:
            ops += ["sy:0", "rd:0:0:%d" % rng.choice([1, 5, 30])]
        if rng.random() < 0.2:
            ops += ["cl:0", "op:0:a:a"]
    return "id=%s mode=file unit=1 pre=-1 seed=%d rnd=%d rnde=%d | %s" % (id, rng.randrange(1 << 30), rng.choice([0, 50, 90]), rng.choice([0, 0, 60]), " ".join(ops))


def posix_giant(rng, id):
    """transfers and offsets beyond 2 and 4 GiB, in units of 4 KiB"""
    sz = rng.choice([524287, 524288, 600000, 1048576, 1100000, 2000000])
    ops = ["op:0:w:a"]
    for v in range(3):
        ops.append(rng.choice(["rd:0:%d:%d" % (rng.choice([0, 1, 524287, 524288]), rng.choice([1, 524287, 524288, 524289, 1048575, 1500000])),
                               "wr:0:%d:%d:1" % (rng.choice([0, 1, 524288, 1048576, 1500000]), rng.choice([1, 524288, 1048576, 1200000])), "sz:0",
                               "tr:0:%d" % rng.choice([0, 524288, 1048577, 2000000])]))
    return "id=%s mode=file unit=4096 pre=%d seed=%d rnd=%d | %s" % (id, sz, rng.randrange(1 << 30), rng.choice([0, 20, 40]), " ".join(ops))


def posix_store(rng, id):
    ops, v = ["o"], 0
    for _ in range(rng.choice([8, 20, 40])):
        x = rng.random()
        k = rng.randint(1, 25)
        if x < 0.5:
            v += 1
            ops.append("i:%d:%d:%d" % (k, v, rng.choice([1, 9, 60, 400, 5000, 70000])))
        elif x < 0.85:
            ops.append("f:%d" % k)
        elif x < 0.97:
            ops += ["c"] + (["Q"] if rng.random() < 0.3 else []) + ["o"]
        else:
            ops += ["c", "R:%d:%d:%d:%d" % (rng.choice([104, 128, 256]), rng.choice(LF[1:]), 10, rng.choice([1, 1000])), "o"]
    ops += ["c", "o"] + ["f:%d" % k for k in range(1, 27)] + ["c"]
    return "id=%s mode=store ks=%d bs=%d lf=%d hm=%d seed=%d rnd=%d | %s" % (
        id, rng.choice([1, 4, 8, 33]), rng.choice([104, 128, 256]), rng.choice([333333, 500000, 900000]), rng.choice([0, 0, 1, 3]), rng.randrange(1 << 30),
        rng.choice([10, 40, 80]), " ".join(ops))


def pace(rng, id):
    """histories with the passing of time: writers that outrun the disk or do not"""
    bs = rng.choice([104, 104, 128, 256, 4096])
    ks = rng.choice([4, 8, 33, 500])
    lf = rng.choice(LF[2:])
    p, nk = ["C"], [0]
    big = rng.random() < 0.15
    unit = (400000 if big else rng.choice([200, 1000, 5000]))

    def ins(n, size):
        r = []
        for _ in range(n):
            nk[0] += 1
            r.append("i:%d:%d" % (nk[0], max(1, int(size * rng.uniform(0.5, 1.5)))))
        return r

    def small(x):
        r = []
        for _ in range(rng.randint(0, x)):
            q = rng.random()
            if q < 0.3:
                r.append("g:%d" % rng.randint(1, nk[0] + 2))
            elif q < 0.5 and nk[0]:
                r.append("x:%d" % rng.randint(1, nk[0]))
            elif q < 0.7:
                r.append("f")
            else:
                r.append("A:%d" % rng.choice([1, 5, 100, 600, 5000]))
        return r
    for _ in range(rng.randint(1, 2)):
        p.append("o")
        burst = 4194304
        if not big:
            burst = rng.choice([unit, 3 * unit, 10 * unit, 0, 1])
            p.append("b:%d" % burst)
        p.append("M:%d" % rng.choice([0, 1, 2]))
        for _ in range(rng.randint(2, 5)):
            p.append("w:%d" % rng.choice([0, 1, 1, 5, 50]))
            n = rng.randint(1, 8) if not big else rng.randint(6, 12)
            p += ins(n, unit)
            if rng.random() < 0.3:
                p += ["A:%d" % rng.choice([1, 10, 1000])]
            p += small(3) + ["f"] + small(1)
            if rng.random() < 0.3:
                burst = max(0, burst + rng.choice([-unit, unit, 5 * unit]))
                if not big:
                    p.append("b:%d" % burst)
            gap = rng.choice([0, 1, 1, 3, 20])
            for _ in range(rng.randint(1, 14)):
                p += ins(1, unit)
                if gap:
                    p.append("A:%d" % gap)
            # around the burst
            if not big and rng.random() < 0.6 and burst > unit:
                per = 3 * bs
                p += ["f"]
                k = rng.randint(1, 3)
                left = burst - k * per + rng.choice([-1, 0, 1, 1])
                if left > k:
                    for z in range(k):
                        nk[0] += 1
                        p.append("i:%d:%d" % (nk[0], left // k if z else left - (left // k) * (k - 1)))
                    p += ins(1, 5)
        if rng.random() < 0.5:
            p += ["f"]
        p.append("c")
    return "id=%s ks=%d bs=%d lf=%d | %s" % (id, ks, bs, lf, " ".join(p))


def contract(rng, id):
    """histories with faults and kills, in which every call to what the user supplies is recorded"""
    ks = rng.choice([1, 2, 4, 7, 9, 9, 33, 300])
    bs = rng.choice([104, 104, 128, 256, 4096])
    lf = rng.choice([333333, 500000, 900000, 999000])
    p, nk, cur = [], [0], [bs]
    top = 200 if ks == 1 else 10 ** 6

    def fault():
        return "X:%d:%d" % (rng.randint(0, rng.choice([3, 12, 40])), rng.choice([0, 1, 2, 3]))

    def offline():
        q = rng.random()
        if q < 0.3:
            return "V:%d" % rng.choice([0, 100000, 2 * cur[0] + 8, 3 * cur[0], 4 * cur[0] + 4, 9 * cur[0]])
        if q < 0.45:
            return "W"
        if q < 0.6:
            return "W:%d" % rng.randint(1, nk[0] + 1)
        if q < 0.8:
            cur[0] = rng.choice([104, 128, 256, 4096])
            return "R:%d:%d:%d:%d" % (cur[0], rng.choice([333333, 500000, 900000]), max(1, nk[0] + rng.randint(-2, 3)), rng.choice([1, 300, 5000]))
        return "E"
    if rng.random() < 0.15:
        p += [fault(), "C", "Y"]
    p.append("C")
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.12:
            p += [fault(), "o", "Y"]
        p.append("o")
        f = rng.random() < 0.25
        k = not f and rng.random() < 0.2
        for _ in range(rng.randint(0, 12)):
            if rng.random() < 0.75 and nk[0] < top:
                nk[0] += 1
                p.append("i:%d:%d" % (nk[0], rng.choice([1, 2, 9, 200, 1000, rng.randint(1, 3000)])))
            elif rng.random() < 0.3 and nk[0]:
                p.append("i:%d:5" % rng.randint(1, nk[0]))
            elif rng.random() < 0.4:
                if f and rng.random() < 0.5:
                    p.append(fault())
                if k and rng.random() < 0.5:
                    p.append("K:%d" % rng.randint(0, 8))
                p.append("f")
            else:
                p.append("g:%d" % min(top, rng.randint(1, nk[0] + 2)))
        if f:
            p.append(fault())
        elif rng.random() < 0.25:
            p.append("K:%d" % rng.randint(0, 12))
        p += ["c", "Y"]
        for _ in range(rng.randint(0, 3)):
            x = offline()
            q = rng.random()
            if q < 0.2 and x[0] in "RE":
                p += [fault(), x, "Y"]
            elif q < 0.4 and x[0] in "RE":
                p += ["K:%d" % rng.randint(0, 15), x]
            else:
                p.append(x)
        if rng.random() < 0.5:
            p.append("E")
    return "id=%s ks=%d bs=%d lf=%d salt=%d | %s" % (id, ks, bs, lf, rng.choice([1, 0, 2 ** 64 - 1, rng.getrandbits(64)]), " ".join(p))
