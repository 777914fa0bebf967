"""Independent compressor for the block format of HUS/VIP streams (LZ77 + canonical Huffman, as in LHA/Greenleaf archives).

pack(data, rng, ...) chooses a random parse, block split, code assignment and header spelling; unpacking must give data back."""

END_CHAR = 510


class Bits:
    def __init__(self):
        self.v = []

    def put(self, n, value):
        assert 0 <= value < (1 << n) or n == 0 and value == 0, (n, value)
        for k in range(n - 1, -1, -1):
            self.v.append((value >> k) & 1)

    def bytes(self, pad=0):
        v = self.v + [pad] * (-len(self.v) % 8)
        return bytes(int("".join(map(str, v[i:i + 8])), 2) for i in range(0, len(v), 8))


def random_lengths(rng, n, limit, skew):
    """lengths of a complete prefix code with n >= 2 words"""
    leaves = [0]
    while len(leaves) < n:
        room = [k for k, d in enumerate(leaves) if d < limit]
        if rng.random() < skew:
            k = max(room, key=lambda j: leaves[j])
        else:
            k = min(rng.sample(room, min(len(room), 3)), key=lambda j: leaves[j])
        d = leaves.pop(k)
        leaves += [d + 1, d + 1]
    rng.shuffle(leaves)
    return leaves


def canonical(lengths):
    """{symbol: (code, length)}; shorter first, equal lengths in order of the symbol"""
    code = 0
    out = {}
    last = 0
    for n, s in sorted((n, s) for s, n in enumerate(lengths) if n):
        code <<= n - last
        out[s] = (code, n)
        code += 1
        last = n
    return out


class Tree:
    """a code over the used symbols; mode 'single' spends no bits"""

    def __init__(self, rng, used, space, limit):
        used = sorted(set(used))
        self.single = None
        if len(used) <= 1 and (rng.random() < 0.8 or not used):
            self.single = used[0] if used else rng.randrange(space)
            return
        extra = [s for s in range(space) if s not in used]
        rng.shuffle(extra)
        members = sorted(used + extra[: rng.choice((0, 0, 1, 3, 17, 200))])
        if len(members) < 2:
            members = sorted(members + extra[:1])
        need = 1
        while (1 << need) < len(members):
            need += 1
        lens = random_lengths(rng, len(members), rng.randint(max(need, min(limit, need + 1)), limit), rng.choice((0.0, 0.3, 0.9)))
        self.lengths = [0] * (members[-1] + 1)
        for s, n in zip(members, lens):
            self.lengths[s] = n
        self.lengths += [0] * rng.choice((0, 0, 1, 2)) if len(self.lengths) + 2 <= space else []
        self.codes = canonical(self.lengths)

    def put(self, bits, s):
        if self.single is not None:
            assert s == self.single
            return
        code, n = self.codes[s]
        bits.put(n, code)


def put_varlen(bits, n):
    if n < 7:
        bits.put(3, n)
        return
    bits.put(3, 7)
    for _ in range(n - 7):
        bits.put(1, 1)
    if n - 7 < 13:
        bits.put(1, 0)


def put_char_tree(bits, rng, tree):
    if tree.single is not None:
        # the tree that codes the lengths is then unused, any will do
        bits.put(5, 0)
        bits.put(5, rng.randrange(19))
        bits.put(9, 0)
        bits.put(9, tree.single)
        return
    # spell the lengths as symbols of the length tree
    L = tree.lengths
    syms = []
    i = 0
    while i < len(L):
        if L[i]:
            syms.append((L[i] + 2, 0, 0))
            i += 1
            continue
        run = 0
        while i + run < len(L) and L[i + run] == 0:
            run += 1
        while run:
            r = rng.random()
            if run >= 20 and r < 0.8:
                k = min(run, 20 + 511) if r < 0.6 else rng.randint(20, min(run, 531))
                syms.append((2, 9, k - 20))
            elif run >= 3 and r < 0.9:
                k = min(run, 18) if r < 0.7 else rng.randint(3, min(run, 18))
                syms.append((1, 4, k - 3))
            else:
                k = 1
                syms.append((0, 0, 0))
            run -= k
            i += k
    pre = Tree(rng, [s for s, _, _ in syms], 19, 16)
    if pre.single is not None:
        bits.put(5, 0)
        bits.put(5, pre.single)
    else:
        P = list(pre.lengths)
        while P[-1] == 0:
            P.pop()
        while len(P) < 4:
            P.append(0)  # never shorter than the special place
        if len(P) > 4 or P[-1]:
            pass
        bits.put(5, len(P))
        k = 0
        while k < len(P):
            if k == 3:
                skip = 0
                while skip < 3 and k + skip < len(P) - 1 and P[k + skip] == 0:
                    skip += 1
                if rng.random() < 0.2:
                    skip = rng.randint(0, skip)
                bits.put(2, skip)
                k += skip
            put_varlen(bits, P[k])
            k += 1
    bits.put(9, len(L))
    for s, n, v in syms:
        pre.put(bits, s)
        bits.put(n, v)


def put_dist_tree(bits, tree):
    if tree.single is not None:
        bits.put(5, 0)
        bits.put(5, tree.single)
        return
    bits.put(5, len(tree.lengths))
    for n in tree.lengths:
        put_varlen(bits, n)


def parse(data, rng, copies):
    """random sequence of literals and copies that spells data"""
    out = []
    i = 0
    n = len(data)
    where = {}
    while i < n:
        best = None
        if i >= 1 and i + 3 <= n and rng.random() < copies:
            cand = []
            key = bytes(data[i:i + 3])
            cand += where.get(key, [])[-4:]
            if data[i - 1] == data[i]:
                cand.append(i - 1)
            if i >= 2:
                cand.append(i - 2)
            rng.shuffle(cand)
            for j in cand:
                k = 0
                while k < 256 and i + k < n and data[j + k] == data[i + k]:
                    k += 1
                if k >= 3:
                    best = (k if rng.random() < 0.6 else rng.randint(3, k), i - j)
                    break
        step = 1
        if best:
            out.append(best)
            step = best[0]
        else:
            out.append(data[i])
        for q in range(i, i + step):
            if q + 3 <= n:
                where.setdefault(bytes(data[q:q + 3]), []).append(q)
        i += step
    return out


def dist_code(back):
    """back >= 1 -> (symbol, extra bits, value)"""
    v = back - 1
    if v == 0:
        return 0, 0, 0
    k = v.bit_length()
    return k, k - 1, v - (1 << (k - 1))


def pack(data, rng, end=True, copies=None, blocks=None, pad=None):
    """returns (bytes, description)"""
    copies = rng.choice((0.0, 0.3, 0.9, 1.0)) if copies is None else copies
    tokens = parse(data, rng, copies)
    items = [(t, None) if not isinstance(t, tuple) else (t[0] + 253, t[1]) for t in tokens]
    if end:
        items.append((END_CHAR, None))
    sizes = []
    left = len(items)
    per = blocks or rng.choice((1, 3, 20, 200, 65535, 65535))
    while left:
        k = min(left, per if rng.random() < 0.5 else rng.randint(1, per))
        if len(sizes) > 60:
            k = min(left, 65535)
        sizes.append(k)
        left -= k
    bits = Bits()
    at = 0
    widths = set()
    ends = []  # (bits, elements) after each token
    done = 0
    for k in sizes:
        part = items[at:at + k]
        at += k
        chars = Tree(rng, [c for c, _ in part], 511, 16)
        dists = Tree(rng, [dist_code(b)[0] for _, b in part if b], 17 if rng.random() < 0.5 else 31, 16)
        bits.put(16, k)
        put_char_tree(bits, rng, chars)
        put_dist_tree(bits, dists)
        widths.add(0 if chars.single is not None else max(chars.lengths))
        for c, b in part:
            chars.put(bits, c)
            if b:
                s, n, v = dist_code(b)
                dists.put(bits, s)
                bits.put(n, v)
            done += c - 253 if b else c < 256
            ends.append((len(bits.v), done))
    return bits.bytes(rng.randint(0, 1) if pad is None else pad), {
        "tokens": len(items), "copies": sum(1 for _, b in items if b), "blocks": len(sizes), "widths": sorted(widths), "ends": ends}
