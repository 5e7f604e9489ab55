"""Histories generated from the model ART.tla, for being replayed in the real code.

TLC prints the shortest history that leads to each kind of situation of the model. Here the keys of the model become real
ones: a byte of the model becomes some byte (an order is not kept, it does not matter to the history) followed by some
padding, which is the same everywhere, so that the prefixes of nodes get longer; a byte that stands for many becomes as
many different bytes."""
import base64
import json
import random
import re


def parse(out):
    """universes: {number: keys}, scripts: [(universe, history)]"""
    uni, scripts = {}, []
    flat = re.sub(r"\s+", " ", out)
    for m in re.finditer(r'<< ?"UNIVERSE", (\d+), ([<>\d, ]*)>>', flat):
        uni[int(m.group(1))] = seqs(m.group(2))
    for m in re.finditer(r'<< ?"SCRIPT", (\d+), <<([^<>]*)>> ?>>', flat):
        scripts.append((int(m.group(1)), [int(x) for x in m.group(2).split(",") if x.strip()]))
    return uni, scripts


def seqs(s):
    return json.loads(s.replace("<<", "[").replace(">>", "]"))


def realize(keys, r, pad, monotone):
    """model keys -> lists of real keys"""
    children = {}
    for k in keys:
        for i in range(len(k)):
            children.setdefault(tuple(k[:i]), set()).add(k[i])
    assign = {}
    for p, cs in children.items():
        cs = sorted(cs)
        need = [max(1, c // 1000) for c in cs]
        special = [b for b in (0, 255, 1, 127, 128, 254) if r.random() < 0.5]
        rest = [b for b in range(256) if b not in special]
        r.shuffle(rest)
        pool = (special + rest)[:sum(need)]
        if monotone:
            pool.sort()
        else:
            r.shuffle(pool)
        for c, n in zip(cs, need):
            assign[p + (c,)] = pool[:n]
            pool = pool[n:]
    res = []
    for k in keys:
        group = [b""]
        for i in range(len(k)):
            b = assign[tuple(k[:i + 1])]
            group = [g + bytes([x]) + pad for g in group for x in (b if i == len(k) - 1 else b[:1])]
        res.append(group)
    return res


PADS = [b""] * 6 + [b"\0" * 3, b"p" * 6, b"q" * 7, b"r" * 8, b"\xff" * 9, b"s" * 126, b"t" * 127, b"u" * 128, b"v" * 253, b"w" * 254,
                    b"x" * 255, b"y" * 256, b"z" * 600]


def b64(b):
    return base64.b64encode(b).decode()


def script(keys, hist, prop, r):
    pad = r.choice(PADS)
    if len(pad) > 8 and any(c >= 1000 for k in keys for c in k) and r.random() < 0.6:
        pad = r.choice(PADS[:10])
    used = sorted({abs(h) for h in hist})
    others = [i for i in range(1, len(keys) + 1) if i not in used]
    # keys of the universe that are not part of the history are asked for nevertheless
    keep = used + [i for i in others if r.random() < 0.3 and all(c < 1000 for c in keys[i - 1])]
    groups = realize(keys, r, pad, r.random() < 0.5)
    real = sorted(x for i in keep for x in groups[i - 1])
    number = {k: n + 1 for n, k in enumerate(real)}
    allocs = r.choice([1, 1, 2, 3])
    ops = []

    def a():
        return r.randint(0, allocs - 1) if allocs > 1 else 0

    def change(h, name=None, some=False):
        ks = list(groups[abs(h) - 1])
        r.shuffle(ks)
        if some:
            ks = ks[:1]
        for k in ks:
            ops.append({"o": name or ("put" if h > 0 else "del"), "k": number[k], "a": a()})

    stems = sorted({k[:n] for i in used for k in groups[i - 1][:2] for n in {0, 1, len(k), len(k) // 2, r.randint(0, len(k)), max(0, len(k) - len(pad) - 1)}}
                   | {k + b"\1" for i in used for k in groups[i - 1][:1]})
    r.shuffle(stems)

    def few(n):
        return stems[:n] + [b""]

    def audit(full):
        if prop in ("C01", "C05") or full:
            ops.append({"o": "gets"})
        if prop == "C02":
            for p in few(30):
                ops.append({"o": "probe", "p": b64(p), "n": r.randint(0, 1), "a": a()})
            ops.append({"o": "gets"})
        if prop == "C06":
            for p in few(12):
                ops.append({"o": "iter", "p": b64(p), "b": r.randint(0, 1)})
        if prop == "C08":
            for p in few(16):
                ops.append({"o": r.choice(["min", "max"]), "p": b64(p)})
        if prop in ("C09", "C05"):
            ops.append({"o": "release"})
            ops.append({"o": "len"})
        if prop == "C09":
            for p in few(12):
                ops.append({"o": "leaves", "p": b64(p)})
        if prop in ("C10", "C05"):
            for p in few(8 if prop == "C10" else 1):
                ops.append({"o": "cnt", "p": b64(p), "b": r.randint(0, 1)})

    for h in hist[:-1]:
        change(h)
    audit(False)
    if prop == "C05":
        # whatever can be prepared here, aborted
        present = set()
        for h in hist[:-1]:
            present.add(h) if h > 0 else present.discard(-h)
        change(hist[-1], "puta" if hist[-1] > 0 else "dela", True)
        for i in present:
            change(i, "puta", True)
            change(-i, "dela", True)
        audit(False)
    change(hist[-1])
    audit(True)
    # and back
    if r.random() < 0.5:
        if hist[-1] > 0 and hist[-1] not in hist[:-1] or hist[-1] < 0:
            change(-hist[-1])
            audit(False)
    pf = any(y.startswith(x) for x, y in zip(real, real[1:]))
    return {"Keys": [b64(k) for k in real], "Allocs": allocs, "Ops": ops, "Tag": "model", "Big": r.random() < 0.2 and prop == "C01", "Pf": pf}


def files(out, prop, seed, n, limit, stem):
    """Writes n files of scripts for drv replay."""
    uni, scripts = parse(out)
    r = random.Random(seed)
    r.shuffle(scripts)
    if limit:
        scripts = scripts[:limit]
    parts = [[] for _ in range(n)]
    for i, (u, hist) in enumerate(scripts):
        parts[i % n].append(script(uni[u], hist, prop, r))
    names = []
    for i, p in enumerate(parts):
        name = "%s-%d.json" % (stem, i)
        with open(name, "w") as f:
            json.dump(p, f)
        names.append(name)
    return names, len(scripts)


# ---------------------------------------------------------------- scenes of the concurrent model

def parse_scenes(out):
    """[(keys there at the beginning, [operations of each thread])]"""
    flat = re.sub(r"\s+", "", out)
    res, seen = [], set()
    for m in re.finditer(r'<<"SCENE",<<(\{[\d,]*\}),(<<.*?>>)>>>>(?=<<"SCENE"|[^>,]|$)', flat):
        there = [int(x) for x in m.group(1).strip("{}").split(",") if x]
        todo = json.loads(m.group(2).replace("<<", "[").replace(">>", "]"))
        k = json.dumps([there, todo])
        if k not in seen:
            seen.add(k)
            res.append((there, todo))
    return res


def scene(keys, there, todo, r, level=0, small=False):
    """A scene for drv scenes (small: no node of more than 128 words)."""
    pad = r.choice(PADS[:16])
    groups = realize(keys, r, pad, r.random() < 0.5)
    real = {i + 1: groups[i][0] for i in range(len(keys))}
    ballast, temps = [], []
    # one of the nodes has some more children, near to where its kind or size changes
    nodes = sorted({tuple(k[:n]) for k in keys for n in range(len(k)) if len({tuple(x[:n + 1]) for x in keys if x[:n] == k[:n] and len(x) > n}) > 1})
    total = r.choice([0, 0, 0, 3, 64, 65] if small and len(pad) < 20 else [0] if small else [0, 0, 0, 0, 3, 64, 65, 126, 127, 128, -65, -66])
    if total and nodes:
        p = r.choice(nodes)
        i = next(i for i, k in enumerate(keys) if tuple(k[:len(p)]) == p)
        stem = real[i + 1][:len(p) * (1 + len(pad))]
        used = {real[j + 1][len(stem)] for j, k in enumerate(keys) if tuple(k[:len(p)]) == p}
        have = len({keys[j - 1][len(p)] for j in there if tuple(keys[j - 1][:len(p)]) == p})
        free = [b for b in range(256) if b not in used]
        r.shuffle(free)
        n = max(0, abs(total) - have)
        ballast = [stem + bytes([b]) + pad for b in free[:n]]
        if total < 0:
            temps = [stem + bytes([b]) + pad for b in free[n:130]]
    allk = sorted(set(real.values()) | set(ballast) | set(temps))
    number = {k: n + 1 for n, k in enumerate(allk)}
    pre = [number[real[i]] for i in there] + [number[k] for k in ballast] + [number[k] for k in temps]
    r.shuffle(pre)
    pre += [-number[k] for k in temps]
    threads = []
    for ops in todo:
        th = []
        for o, k in ops:
            if o in ("put", "del") and r.random() < 0.12:
                o += "a"
            th.append({"o": o, "k": number[real[k]]})
        threads.append(th)
    return {"Keys": [b64(k) for k in allk], "Pre": pre, "Threads": threads, "Own": r.random() < 0.3, "Level": level, "Hot": [number[real[i]] for i in real],
            "Tag": "model"}


def scene_files(out, seed, n, limit, stem, level=1, small=False):
    """Writes n files of scenes for drv scenes."""
    scs = parse_scenes(out)
    keys = seqs(re.search(r'<< ?"KEYS", ([<>\d, ]*)>>', re.sub(r"\s+", " ", out)).group(1))
    r = random.Random(seed)
    r.shuffle(scs)
    if limit:
        scs = scs[:limit]
    n = min(n, len(scs))
    names = []
    for i in range(n):
        name = "%s-%d.json" % (stem, i)
        with open(name, "w") as f:
            json.dump([scene(keys, a, b, r, level, small) for a, b in scs[i::n]], f)
        names.append(name)
    return names, len(scs)


# ---------------------------------------------------------------- histories with an iteration

def iter_script(keys, hist, r):
    """1000 p 1000 in a history begins an iteration with prefix p; 0 is a step of it."""
    i = hist.index(1000)
    j = hist.index(1000, i + 1)
    build, p, rest = hist[:i], hist[i + 1:j], hist[j + 1:]
    pad = r.choice(PADS[:16])
    used = {abs(h) for h in build + rest if h}
    for x in range(1, len(keys) + 1):
        if x not in used and r.random() < 0.1 and not any(keys[x - 1] == keys[y - 1][:len(keys[x - 1])] or keys[y - 1] == keys[x - 1][:len(keys[y - 1])] for y in used):
            used.add(x)
    groups = realize(keys, r, pad, True)      # the order matters
    real = sorted(groups[x - 1][0] for x in used)
    number = {k: n + 1 for n, k in enumerate(real)}
    # the prefix belongs to some key, or goes on after it
    q = b""
    for n in range(len(p), -1, -1):
        k = next((k for k in range(len(keys)) if list(keys[k][:n]) == p[:n]), None)
        if k is not None:
            q = groups[k][0][:n * (1 + len(pad))] + bytes(p[n:])
            break
    if pad and r.random() < 0.3:
        q = q[:max(0, len(q) - r.randint(1, len(pad)))]
    ops = [{"o": "put" if h > 0 else "del", "k": number[groups[abs(h) - 1][0]]} for h in build]
    ops.append({"o": "inew", "b": 1, "p": b64(q)})
    for h in rest:
        ops.append({"o": "inext", "b": 1} if h == 0 else {"o": "put" if h > 0 else "del", "k": number[groups[abs(h) - 1][0]]})
    ops.append({"o": "inext", "b": 1, "n": len(real) * 2 + 2})
    pf = any(y.startswith(x) for x, y in zip(real, real[1:]))
    return {"Keys": [b64(k) for k in real], "Allocs": 2, "NI": 2, "Ops": ops, "Tag": "model iteration", "Pf": pf}


def iter_files(out, seed, n, stem):
    uni, scripts = parse(out)
    r = random.Random(seed)
    r.shuffle(scripts)
    names = []
    for i in range(n):
        name = "%s-%d.json" % (stem, i)
        with open(name, "w") as f:
            json.dump([iter_script(uni[u], h, r) for u, h in scripts[i::n]], f)
        names.append(name)
    return names, len(scripts)
