"""T01: the balanced tree behind the iterators (src/avltree.cc).

Shape analysis.  A heap is abstracted by the few nodes the live variables
point at; everything else is summarised: a *subtree* (any tree of a certain
height, possibly none), and a *segment* (any downward path with its side
subtrees and one hole).  Following a link out of the known part splits the
summary into its cases (none / a node of each balance factor); at every loop
head the heap is checked and folded back, so the set of heaps is finite and
stands for every tree.  Heights are offsets from unknowns, with which the
balance factors can be decided exactly.  The expected in-order sequence is
carried along, with marks for the position of the key looked for; what the
code builds is compared with it."""
from ..core import Result

CAP = 4
NULL = ("0",)
JUNK = ("x",)


class Bad(Exception):
    def __init__(self, what, msg):
        self.what, self.msg = what, msg


class Unknown(Exception):
    """The code uses something this analysis does not model."""


class Heap:
    def __init__(self):
        self.nodes = {}     # id -> (left, right, parent, low)
        self.segs = {}      # id -> (pre, post, hole, exp, top, par, ne, ver)
        self.toks = {}      # id -> (height, par, balance of its root if known)
        self.res = {}       # summary value -> what it turned out to be
        self.sub = {}       # height unknown -> (unknown | None, offset)
        self.mins = {}      # height unknown -> lower bound
        self.seq = ()       # in-order: ('n',id) ('s',tok) ('p',k), marks as strings
        self.trees = {}     # k -> (root, aux)
        self.env = {}       # (depth, variable) -> value
        self.ctr = 0
        self.eq = None      # the node that compared equal to the key
        self.flags = frozenset()

    def copy(self):
        h = Heap.__new__(Heap)
        for k in ("nodes", "segs", "toks", "res", "sub", "mins", "trees", "env"):
            setattr(h, k, dict(getattr(self, k)))
        h.seq, h.ctr, h.eq, h.flags = self.seq, self.ctr, self.eq, self.flags
        return h

    def new(self):
        self.ctr += 1
        return self.ctr

    # -- heights -------------------------------------------------------------
    def ht(self, x):
        s, o = x
        while s is not None and s in self.sub:
            s2, o2 = self.sub[s]
            s, o = s2, o + o2
        return s, o

    def low(self, x):
        s, o = self.ht(x)
        return o if s is None else self.mins.get(s, 0) + o

    def atleast(self, x, m):
        """Constrain x >= m; False when impossible."""
        s, o = self.ht(x)
        if s is None:
            return o >= m
        self.mins[s] = max(self.mins.get(s, 0), m - o)
        return True

    def unify(self, x, y):
        (s, o), (t, q) = self.ht(x), self.ht(y)
        if s == t:
            return o == q
        if s is None:
            (s, o), (t, q) = (t, q), (s, o)
        # s + o == t + q
        m = self.mins.get(s, 0)
        self.sub[s] = (t, q - o)
        if not self.atleast((t, q - o), m):
            return False
        return self.sane()

    def sane(self):
        for hh, _, _ in self.toks.values():
            if not self.atleast(hh, 0):
                return False
        for g in self.segs.values():
            if not self.atleast(g[3], 0) or not self.atleast(g[4], 0):
                return False
            e, t = self.ht(g[3]), self.ht(g[4])
            if e[0] == t[0] and t[1] < e[1] + (1 if g[6] else 0):
                return False
        return True

    # -- values --------------------------------------------------------------
    def norm(self, v):
        while v in self.res:
            v = self.res[v]
        return v

    def put(self, item, by):
        i = self.seq.index(item)
        self.seq = self.seq[:i] + tuple(by) + self.seq[i + 1:]

    def resolve(self, v):
        """[(heap, node or null)]"""
        v = self.norm(v)
        if v[0] == "s":
            return [y for h, x in self.subtree(v) for y in h.resolve(x)]
        if v[0] == "g":
            return [y for h, x in self.top(v[1]) for y in h.resolve(x)]
        if v[0] == "b":
            return [y for h, x in self.bottom(v[1]) for y in h.resolve(x)]
        return [(self, v)]

    def subtree(self, v):
        hh, par, rb = self.toks[v[1]]
        out = []
        if self.low(hh) <= 0:
            h = self.copy()
            del h.toks[v[1]]
            if h.unify(hh, (None, 0)):
                h.res[v] = NULL
                h.put(v, ())
                out.append((h, NULL))
        for bf in (-1, 0, 1) if rb is None else (rb,):
            h = self.copy()
            del h.toks[v[1]]
            s, o = h.ht(hh)
            lo = (s, o - (2 if bf > 0 else 1))
            ro = (s, o - (2 if bf < 0 else 1))
            if not h.atleast(lo, 0) or not h.atleast(ro, 0):
                continue
            n = ("n", h.new())
            l, r = ("s", h.new()), ("s", h.new())
            h.toks[l[1]] = (lo, n, None)
            h.toks[r[1]] = (ro, n, None)
            h.nodes[n[1]] = (l, r, par, bf + 1)
            h.res[v] = n
            h.put(v, (l, n, r))
            if h.sane():
                out.append((h, n))
        return out

    def empty(self, g):
        pre, post, hole, exp, top, par, ne, ver = self.segs[g]
        if ne:
            return []
        h = self.copy()
        del h.segs[g]
        if not h.unify(exp, top):
            return []
        for t in pre + post:
            h.put(t, ())
        h.res[("g", g)] = hole
        h.res[("b", g, ver)] = par
        return [h]

    def bottom(self, g):
        pre, post, hole, exp, top, par, ne, ver = self.segs[g]
        out = [(h, h.norm(par)) for h in self.empty(g)]
        for left in (True, False):
            if not (post if left else pre):
                continue
            for bf in (-1, 0, 1):
                h = self.copy()
                s, o = h.ht(exp)
                so = o + bf if left else o - bf
                if not h.atleast((s, so), 0):
                    continue
                q, t = ("n", h.new()), ("s", h.new())
                h.toks[t[1]] = ((s, so), q, None)
                h.nodes[q[1]] = (hole, t, ("b", g, ver + 1), bf + 1) if left else \
                    (t, hole, ("b", g, ver + 1), bf + 1)
                h.segs[g] = (pre, post, q, (s, 1 + max(o, so)), top, par, False, ver + 1)
                h.res[("b", g, ver)] = q
                if left:
                    h.put(post[0], (q, t) + post)
                else:
                    h.put(pre[0], pre + (t, q))
                if h.sane():
                    out.append((h, q))
        return out

    def top(self, g):
        pre, post, hole, exp, top, par, ne, ver = self.segs[g]
        out = [(h, h.norm(hole)) for h in self.empty(g)]
        for left in (True, False):
            if not (post if left else pre):
                continue
            for bf in (-1, 0, 1):
                h = self.copy()
                s, o = h.ht(top)
                lo, ro = o - (2 if bf > 0 else 1), o - (2 if bf < 0 else 1)
                if not h.atleast((s, lo), 0) or not h.atleast((s, ro), 0):
                    continue
                q, t, g2 = ("n", h.new()), ("s", h.new()), h.new()
                h.toks[t[1]] = ((s, ro if left else lo), q, None)
                h.nodes[q[1]] = (("g", g2), t, par, bf + 1) if left else (t, ("g", g2), par, bf + 1)
                del h.segs[g]
                h.segs[g2] = (pre, post, hole, exp, (s, lo if left else ro), q, False, 0)
                h.res[("g", g)] = q
                h.res[("b", g, ver)] = ("b", g2, 0)
                if left:
                    h.put(post[0], post + (q, t))
                else:
                    h.put(pre[0], (t, q) + pre)
                if h.sane():
                    out.append((h, q))
        return out

    # -- checking ------------------------------------------------------------
    def walk(self, link, holder, seen, out):
        v = self.norm(link)
        if v == NULL:
            return
        if v[0] == "s":
            if v in seen:
                raise Bad("twice", "links the same subtree twice")
            seen.add(v)
            if v[1] not in self.toks:
                raise Bad("lost", "keeps a link to nothing")
            if self.norm(self.toks[v[1]][1]) != holder:
                raise Bad("parent", "leaves a subtree whose parent link names another node")
            out.append(v)
        elif v[0] == "n":
            if v in seen:
                raise Bad("twice", "links the same node twice: the tree has a cycle or shares a node")
            seen.add(v)
            l, r, p, _ = self.nodes[v[1]]
            if self.norm(p) != holder:
                raise Bad("parent", "leaves a node whose parent link names another node")
            self.walk(l, v, seen, out)
            out.append(v)
            self.walk(r, v, seen, out)
        elif v[0] == "g":
            if v in seen:
                raise Bad("twice", "links the same part of the tree twice")
            seen.add(v)
            pre, post, hole, exp, top, par, ne, ver = self.segs[v[1]]
            if self.norm(par) != holder:
                raise Bad("parent", "leaves a subtree whose parent link names another node")
            out.extend(pre)
            self.walk(hole, ("b", v[1], ver), seen, out)
            out.extend(post)
        else:
            raise Bad("link", "leaves a link that was never set")

    def check(self, special):
        """The tree holds exactly the expected sequence; special is the node
        being inserted or removed, which may be in or out."""
        out = []
        self.walk(self.trees[0][0], NULL, set(), out)
        want = [x for x in self.seq if not isinstance(x, str)]
        if out != want and special:
            alt = [x for x in want if x != special]
            ins = []
            for x in self.seq:
                if x == "<":
                    ins.append(special)
                elif not isinstance(x, str):
                    ins.append(x)
            if "<" in self.seq and out == ins and self.key_fixed():
                return "in"
            if "<" not in self.seq and out == alt:
                return "out"
        if out != want:
            lost = [x for x in want if x not in out]
            more = [x for x in out if x not in want]
            raise Bad("order", "leaves a tree %s" % (
                "that lost nodes" if lost else "with a node in the wrong place or that should not be there" if more
                else "whose nodes are out of order"))
        return "same"

    def key_fixed(self):
        i, j = self.seq.index("<"), self.seq.index(">")
        return all(isinstance(x, str) for x in self.seq[i:j])

    def height(self, link, strict=True):
        """Actual height of a link, every node's balance factor checked."""
        v = self.norm(link)
        if v == NULL:
            return (None, 0)
        if v[0] == "s":
            return self.ht(self.toks[v[1]][0])
        if v[0] == "n":
            l, r, _, low = self.nodes[v[1]]
            a, b = self.height(l), self.height(r)
            return self.node_height(a, b, low)
        if v[0] == "g":
            s = self.segs[v[1]]
            a = self.height(s[2])
            if self.ht(a) != self.ht(s[3]):
                raise Bad("balance", "leaves a subtree whose height its ancestors do not know")
            return self.ht(s[4])
        raise Bad("link", "leaves a link that was never set")

    def node_height(self, a, b, low):
        a, b = self.ht(a), self.ht(b)
        if a[0] != b[0]:
            raise Bad("balance", "leaves a node whose two sides no longer have related heights")
        if low is None or b[1] - a[1] != low - 1:
            raise Bad("balance", "leaves a node whose balance factor is not the difference of its sides")
        if abs(b[1] - a[1]) > 1:
            raise Bad("balance", "leaves an unbalanced node")
        return a[0], 1 + max(a[1], b[1])


# -- folding ------------------------------------------------------------------
def fold(h, keep, special):
    """Fold everything but the nodes and subtrees in keep."""
    state = h.check(special)

    def struct(link):
        v = h.norm(link)
        if v == NULL:
            return ("null",)
        if v[0] == "s":
            return ("tok", h.ht(h.toks[v[1]][0]), [v], v if v in keep else None, h.toks[v[1]][2])
        if v[0] == "n":
            l, r, p, low = h.nodes[v[1]]
            a, b = struct(l), struct(r)
            if v in keep or (has(a) and has(b)):
                return ("node", v, a, b, low)
            if not has(a) and not has(b):
                hh = h.node_height(hof(a), hof(b), low)
                return ("tok", hh, items(a) + [v] + items(b), None, low - 1)
            sib = hof(b) if has(a) else hof(a)
            if low is None or not 0 <= low <= 2:
                raise Bad("balance", "leaves a node with an impossible balance factor")
            e = (sib[0], sib[1] - (low - 1) if has(a) else sib[1] + (low - 1))
            tot = (sib[0], 1 + max(e[1], sib[1]))
            if has(a):
                return path([], [v] + items(b), a, e, tot, True)
            return path(items(a) + [v], [], b, e, tot, True)
        if v[0] == "g":
            pre, post, hole, exp, top, par, ne, ver = h.segs[v[1]]
            a = struct(hole)
            if not has(a):
                if h.ht(hof(a)) != h.ht(exp):
                    raise Bad("balance", "leaves a subtree whose height its ancestors do not know")
                return ("tok", h.ht(top), list(pre) + items(a) + list(post), None, None)
            return path(list(pre), list(post), a, h.ht(exp), h.ht(top), ne)
        raise Bad("link", "leaves a link that was never set")

    def path(pre, post, sub, exp, tot, ne):
        if sub[0] == "path":
            _, pre2, post2, sub2, exp2, tot2, ne2 = sub
            if tot2 != exp:
                raise Bad("balance", "leaves a subtree whose height its ancestors do not know")
            return ("path", pre + pre2, post2 + post, sub2, exp2, tot, ne or ne2)
        return ("path", pre, post, sub, exp, tot, ne)

    def has(s):
        return s[0] in ("node", "path") or s[0] == "tok" and s[3] is not None

    def hof(s):
        return (None, 0) if s[0] == "null" else s[1]

    def items(s):
        return [] if s[0] == "null" else s[2]

    st = struct(h.trees[0][0])
    order = {}
    marks = {}
    n = 0
    for x in h.seq:
        if isinstance(x, str):
            marks.setdefault(n, []).append(x)
        elif state == "out" and x == special:
            continue
        else:
            order[x] = n
            n += 1
    if state == "in":           # the key is now a node like any other
        seq = []
        for x in h.seq:
            if x == "<":
                seq.append(special)
            elif not isinstance(x, str) or x not in ("<", ">"):
                seq.append(x)
        order, marks, n = {}, {}, 0
        for x in seq:
            if isinstance(x, str):
                marks.setdefault(n, []).append(x)
            else:
                order[x] = n
                n += 1
    g = Heap()
    g.ctr = h.ctr
    g.eq, g.flags, g.env = h.eq, h.flags, dict(h.env)
    if state != "same":
        g.flags = g.flags | {state}
    seq = []
    regions = [0]
    used = {}

    def height(x, r):
        used.setdefault(r, set()).add(h.ht(x))
        return (r, h.ht(x))

    def emit(its, name):
        """One summary token for a run of the old sequence."""
        if not its:
            return ()
        lo, hi = order[its[0]], order[its[-1]]
        if hi - lo + 1 != len(its):
            raise Unknown("fold of a run that is not contiguous")
        for k in marks:
            if lo < k <= hi:
                raise Bad("past", "moves past the place it looks for")
        put_marks(lo)
        seq.append(name)
        return (name,)

    done = set()

    def put_marks(k):
        if k in marks and k not in done:
            done.add(k)
            seq.extend(marks[k])

    def build(s, holder, r):
        if s[0] == "null":
            return NULL
        if s[0] == "tok":
            name = s[3] or ("s", g.new())
            rb = s[4] if holder[0] == "n" and g.flags & {"in", "out"} else None
            g.toks[name[1]] = (height(s[1], r), holder, rb)
            emit(s[2], name)
            return name
        if s[0] == "node":
            _, v, a, b, low = s
            l = build(a, v, r)
            put_marks(order[v])
            seq.append(v)
            rr = build(b, v, r)
            g.nodes[v[1]] = (l, rr, holder, low)
            return v
        _, pre, post, sub, exp, tot, ne = s
        k = g.new()
        p = emit(pre, ("p", g.new()))
        wide = holder == NULL and g.flags & {"in", "out"}
        if wide:                # what is above no longer matters in detail
            ne = False
            if not p:
                p = (("p", g.new()),)
                seq.append(p[0])
        regions[0] += 1
        r2 = regions[0]
        e2 = height(exp, r2)
        hole = build(sub, ("b", k, 0), r2)
        q = emit(post, ("p", g.new()))
        if wide and not q:
            q = (("p", g.new()),)
            seq.append(q[0])
        if holder == NULL:
            u = "h%d" % g.new()
            g.mins[u] = 0
            top = None, (u, 0)
        else:
            top = height(tot, r)
        g.segs[k] = (p, q, hole, e2, top, holder, ne, 0)
        return ("g", k)

    root = build(st, NULL, 0)
    put_marks(n)
    g.seq = tuple(seq)
    g.trees = dict(h.trees)
    g.trees[0] = (root, h.trees[0][1])
    # heights: per region, fresh unknowns, offsets counted from the largest
    ren = {}
    for r, hs in used.items():
        by = {}
        for s, o in hs:
            by.setdefault(s, []).append(o)
        for s, os in by.items():
            mx = max(os)
            if s is None and mx <= CAP:
                for o in os:
                    ren[(r, (s, o))] = (None, o)
                continue
            if mx - min(os) > 6:
                raise Bad("balance", "lets heights drift apart: the tree does not stay balanced")
            u = "h%d" % g.new()
            g.mins[u] = min(CAP, mx if s is None else h.mins.get(s, 0) + mx)
            for o in os:
                ren[(r, (s, o))] = (u, o - mx)
    for t, (hh, p, rb) in list(g.toks.items()):
        g.toks[t] = (ren[hh], p, rb)
    for k, sg in list(g.segs.items()):
        g.segs[k] = sg[:3] + (ren[sg[3]], sg[4][1] if sg[4][0] is None else ren[sg[4]]) + sg[5:]
    # nodes outside the tree
    for v in keep:
        if v[0] == "n" and v[1] not in g.nodes:
            l, r, p, low = h.nodes[v[1]]
            def stay(x):
                x = h.norm(x)
                return x if x == NULL or x in keep else JUNK
            g.nodes[v[1]] = (stay(l), stay(r), stay(p), low)
    for k in list(g.trees):
        if k:
            x = h.norm(g.trees[k][0])
            g.trees[k] = (x if x == NULL or x in keep else JUNK, g.trees[k][1])
    return g


def canon(h, frames):
    """Hashable form of a folded state, names numbered in order of meeting."""
    num = {}

    def nm(v):
        if isinstance(v, tuple) and len(v) >= 2 and v[0] in ("n", "s", "g", "p", "b"):
            k = (("g",) + v[1:2]) if v[0] == "b" else v
            if k not in num:
                num[k] = len(num)
            return (v[0], num[k])
        if isinstance(v, tuple) and v and v[0] in ("tag", "place"):
            return tuple(nm(x) for x in v)
        if isinstance(v, tuple) and v and v[0] == "fld":
            return ("fld", nm(v[1]), v[2])
        return v

    hn = {}

    def hh(x):
        s, o = x
        if s is None:
            return x
        if s not in hn:
            hn[s] = len(hn)
        return (hn[s], o, h.mins.get(s, 0))

    out = []

    def rec(v):
        v = h.norm(v)
        out.append(nm(v))
        if v[0] == "s":
            out.append((hh(h.toks[v[1]][0]), h.toks[v[1]][2]))
        elif v[0] == "n":
            l, r, p, low = h.nodes[v[1]]
            out.append(low)
            rec(l)
            rec(r)
        elif v[0] == "g":
            s = h.segs[v[1]]
            out.extend([nm(x) for x in s[0]] + ["|"] + [nm(x) for x in s[1]])
            out.append((hh(s[3]), hh(s[4]), s[6]))
            rec(s[2])

    rec(h.trees[0][0])
    for k in sorted(h.trees):
        if k:
            out.append((k, nm(h.norm(h.trees[k][0]))))
    out.append(tuple(nm(x) for x in h.seq))
    env = tuple(sorted(((k, nm(v)) for k, v in h.env.items()), key=repr))
    for n in sorted(h.nodes):
        if ("n", n) not in num or True:
            l, r, p, low = h.nodes[n]
            out.append((nm(("n", n)), nm(h.norm(l)), nm(h.norm(r)), nm(h.norm(p)), low))
    out.append(nm(h.eq) if h.eq else None)
    out.append(h.flags)
    return (tuple(frames), env, tuple(out))


# -- interpreter ----------------------------------------------------------------
class Interp:
    def __init__(self, P, files, limit=3000000):
        self.P = P
        self.files = files
        self.limit = limit
        self.fns = set()
        self.heads = {}
        self.lives = {}

    def loop_heads(self, fn):
        if fn.id in self.heads:
            return self.heads[fn.id]
        heads, state = set(), {}
        stack = [(fn.entry, iter(fn.blocks[fn.entry]["s"]))]
        state[fn.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s < 0:
                    continue
                if state.get(s) == 1:
                    heads.add(s)
                elif s not in state:
                    state[s] = 1
                    stack.append((s, iter(fn.blocks[s]["s"])))
                    break
            else:
                state[b] = 2
                stack.pop()
        self.heads[fn.id] = heads
        return heads

    def live(self, fn):
        if fn.id not in self.lives:
            from .. import cwalk
            self.lives[fn.id] = cwalk.Walk(self.P, None).live(fn)
        return self.lives[fn.id]

    # frames: tuple of (fid, block, index, nv tuple)
    def run(self, fid, h, args, special, spec):
        """Explore everything from a call; spec(heap, value) at each end.
        Returns (number of states, findings)."""
        fn = self.P.fns[fid]
        for p, v in zip(fn.params, args):
            h.env[(0, p["v"])] = v
        work = [(((fid, fn.entry, 0, ()),), h)]
        seen = set()
        finds = {}
        steps = ends = 0
        while work:
            frames, h = work.pop()
            steps += 1
            if steps > self.limit:
                raise Unknown("too many states in %s" % fn.name)
            fid2, bid, idx, nv = frames[-1]
            f = self.P.fns[fid2]
            self.fns.add(fid2)
            try:
                if idx == 0 and bid in self.loop_heads(f):
                    h = self.at_head(frames, h, special)
                    frames = frames[:-1] + ((fid2, bid, 0, ()),)
                    key = canon(h, frames)
                    if key in seen:
                        continue
                    seen.add(key)
                for nx in self.step(frames, h):
                    if nx[0] == "end":
                        ends += 1
                        self.line = f.line
                        spec(nx[1], nx[2])
                    else:
                        work.append(nx)
            except Bad as e:
                where = "%s:%s" % (f.file, getattr(self, "line", f.line))
                finds.setdefault((f.name, e.what, e.msg), where)
        return steps, ends, finds

    def at_head(self, frames, h, special):
        """Forget dead variables, fold the rest."""
        h = h.copy()
        for d, fr in enumerate(frames):
            f = self.P.fns[fr[0]]
            lv = self.live(f)
            if d == len(frames) - 1:
                ok = lv[fr[1]]
            else:
                ok = self.live_in(f, fr[1], fr[2])
            addr = self.addressed(f)
            for k in [k for k in h.env if k[0] == d and k[1] not in ok and not (k[1] in addr and k[1] in self.later(f, fr[1]))]:
                del h.env[k]
        keep = set()

        def note(v):
            v = h.norm(v) if isinstance(v, tuple) else v
            if not isinstance(v, tuple):
                return v
            if v[0] in ("n", "s"):
                keep.add(v)
            elif v[0] == "tag":
                return (v[0], note(v[1]), v[2])
            elif v[0] == "place" and v[1][0] == "fld":
                keep.add(v[1][1])
            return v
        used = set()
        for k, v in list(h.env.items()):
            if v == special and "in" in self.state(h, special) and \
                    k[1] in self.only_returned(self.P.fns[frames[k[0]][0]], frames[k[0]][1]):
                continue
            h.env[k] = note(v)
            if isinstance(v, tuple) and v[0] == "tree":
                used.add(v[1])
        if special and special in h.seq and special[1] in h.nodes and not self.state(h, special) & {"in", "out"}:
            keep.add(special)
        if h.eq:
            keep.add(h.eq)
        for k in list(h.trees):
            if k and k not in used:
                del h.trees[k]
            elif k:
                note(h.trees[k][0])
        # other values a frame still holds
        return fold(h, keep, special)

    def state(self, h, special):
        return h.flags | {h.check(special)}

    def only_returned(self, f, bid):
        """Variables that from here on are only returned."""
        c = f._extra.setdefault("onlyret", {})
        if bid not in c:
            rets = set(n["v"] for n in f.nodes if n and n["k"] == "ret" and isinstance(n.get("v"), int))
            seen, st, other, ret = set(), [bid], set(), set()
            while st:
                b = st.pop()
                if b in seen or b < 0:
                    continue
                seen.add(b)
                for i in f.blocks[b]["e"]:
                    n = f.nodes[i]
                    if n["k"] == "ref" and n.get("v"):
                        (ret if i in rets else other).add(n["v"])
                st += f.blocks[b]["s"]
            c[bid] = ret - other
        return c[bid]

    def later(self, f, bid):
        """Variables named anywhere reachable from a block."""
        c = f._extra.setdefault("later", {})
        if bid not in c:
            seen, st, out = set(), [bid], set()
            while st:
                b = st.pop()
                if b in seen or b < 0:
                    continue
                seen.add(b)
                for i in f.blocks[b]["e"]:
                    n = f.nodes[i]
                    if n["k"] == "ref" and n.get("v"):
                        out.add(n["v"])
                st += f.blocks[b]["s"]
            c[bid] = out
        return c[bid]

    def addressed(self, f):
        c = f._extra.get("addressed")
        if c is None:
            c = set()
            for n in f.nodes:
                if n and n["k"] == "un" and n["op"] == "&":
                    t = f.nodes[n["a"]]
                    while t and t["k"] == "mem":
                        t = f.nodes[t["b"]]
                    if t and t["k"] == "ref" and t.get("v"):
                        c.add(t["v"])
            f._extra["addressed"] = c
        return c

    def live_in(self, f, bid, idx):
        """Variables read after element idx of a block."""
        lv = self.live(f)
        out = set()
        for s in f.blocks[bid]["s"]:
            if s >= 0:
                out |= lv[s]
        # what is still to be evaluated in this block, whose operands are read late
        done = set(f.blocks[bid]["e"][:idx])
        todo = [i for i in f.blocks[bid]["e"][idx:]]
        if f.blocks[bid].get("tc") is not None:
            todo.append(f.blocks[bid]["tc"])
        seen = set()
        while todo:
            i = todo.pop()
            if i is None or i < 0 or i in seen:
                continue
            seen.add(i)
            n = f.nodes[i]
            if i in done and n["k"] in ("call", "asn", "incdec", "decl"):
                continue
            if n["k"] == "ref" and n.get("v"):
                out.add(n["v"])
            todo += [n[k] for k in ("a", "b", "c", "obj", "i", "v") if isinstance(n.get(k), int)]
            todo += [x for x in n.get("args", ()) if isinstance(x, int)]
        return out

    # -- one block (or the rest of it)
    def step(self, frames, h):
        fid, bid, idx, nv = frames[-1]
        f = self.P.fns[fid]
        b = f.blocks[bid]
        depth = len(frames) - 1
        if bid == f.exit:
            return self.pop(frames, h, None)
        states = [(h, dict(nv))]
        els = b["e"]
        for pos in range(idx, len(els)):
            i = els[pos]
            n = f.nodes[i]
            self.line = n["l"]
            k = n["k"]
            if k == "call":
                t = self.callee(n)
                if t:
                    out = []
                    for hh, nn in states:
                        for h2, vals in self.evs(f, n["args"], hh, nn, depth):
                            g = self.P.fns[t]
                            if len(frames) > 12:
                                raise Unknown("recursion")
                            h3 = h2.copy()
                            for p, v in zip(g.params, vals):
                                h3.env[(depth + 1, p["v"])] = v
                            fr = frames[:-1] + ((fid, bid, pos + 1, tuple(sorted(nn.items(), key=repr))),
                                                (t, g.entry, 0, ()))
                            out.append((fr, h3))
                    return out
                nxt = []
                for hh, nn in states:
                    for h2, v in self.compare(f, n, hh, nn, depth):
                        nxt.append((h2, {**nn, i: v}))
                states = nxt
            elif k == "ret":
                out = []
                for hh, nn in states:
                    if n.get("v") is not None and n.get("v", -1) >= 0:
                        for h2, v in self.ev(f, n["v"], hh, nn, depth):
                            out += self.pop(frames, h2, v)
                    else:
                        out += self.pop(frames, hh, None)
                return out
            elif k in ("asn", "decl", "incdec"):
                nxt = []
                for hh, nn in states:
                    for h2, v in self.effect(f, n, hh, nn, depth):
                        nxt.append((h2, {**nn, i: v} if k != "decl" else nn))
                states = nxt
        out = []
        if b.get("noret"):
            return []
        tc = b.get("tc")
        for hh, nn in states:
            if tc is None or len(b["s"]) != 2:
                if b.get("tk") == "SwitchStmt":
                    raise Unknown("switch")
                for s in b["s"]:
                    if s >= 0:
                        out.append((frames[:-1] + ((fid, s, 0, tuple(sorted(nn.items(), key=repr))),), hh))
                continue
            self.line = f.nodes[tc]["l"]
            for h2, v in self.ev(f, tc, hh, nn, depth):
                for h3, t in self.truth(h2, v):
                    s = b["s"][0 if t else 1]
                    if s >= 0:
                        out.append((frames[:-1] + ((fid, s, 0, tuple(sorted({**nn, tc: int(t)}.items(), key=repr))),), h3))
        return out

    def pop(self, frames, h, v):
        d = len(frames) - 1
        h = h.copy()
        if isinstance(v, tuple):
            v = h.norm(v)
        for k in [k for k in h.env if k[0] == d]:
            del h.env[k]
        if d == 0:
            return [("end", h, v)]
        fid, bid, idx, nv = frames[-2]
        f = self.P.fns[fid]
        i = f.blocks[bid]["e"][idx - 1]
        nv = dict(nv)
        nv[i] = v
        return [(frames[:-2] + ((fid, bid, idx, tuple(sorted(nv.items(), key=repr))),), h)]

    def callee(self, n):
        if not n.get("fn") or (n.get("n") or "").rsplit("::", 1)[-1] in ("max", "min", "abs"):
            return None
        ids = [x for x in self.P.targets(n) if x in self.P.fns]
        if len(ids) != 1:
            raise Unknown("call of %s" % n.get("n"))
        return ids[0]

    def compare(self, f, n, h, nv, d):
        """Call of the comparison function."""
        short = (n.get("n") or "").rsplit("::", 1)[-1]
        if n.get("callee") is None and short in ("max", "min", "abs"):
            res = []
            for h2, vals in self.evs(f, n["args"], h, nv, d):
                if any(isinstance(v, tuple) for v in vals):
                    raise Unknown("call of " + short)
                res.append((h2, None if None in vals else {"max": max, "min": min, "abs": lambda *x: abs(x[0])}[short](*vals)))
            return res
        if n.get("callee") is None:
            raise Unknown("call of %s" % n.get("n"))
        out = []
        for h1, fv in self.ev(f, n["callee"], h, nv, d):
            if fv != ("cmp",):
                raise Unknown("call through a pointer")
            for h2, vals in self.evs(f, n["args"], h1, nv, d):
                if len(vals) != 3:
                    raise Unknown("comparison of other arity")
                if vals[2] != ("aux", 0):
                    raise Bad("aux", "does not hand the context of the tree to the comparison")
                h2, a = self.one(h2, vals[0])
                h2, b = self.one(h2, vals[1])
                key = ("n", 0)
                if (a == key) == (b == key) or a == NULL or b == NULL:
                    raise Bad("compare", "does not compare the key with a node")
                x, sign = (b, -1) if a == key else (a, 1)
                if x not in h2.seq:
                    raise Bad("compare", "compares the key with a node that is not in the tree")
                p, i, j = h2.seq.index(x), h2.seq.index("<"), h2.seq.index(">")
                if h2.eq == x:
                    out.append((h2, 0))
                    continue
                if p < i:
                    out.append((h2, -7 * sign))
                    continue
                if p > j:
                    out.append((h2, 7 * sign))
                    continue
                h3 = h2.copy()          # x > key
                h3.seq = h2.seq[:j] + h2.seq[j + 1:]
                q = h3.seq.index(x)
                h3.seq = h3.seq[:q] + (">",) + h3.seq[q:]
                out.append((h3, 7 * sign))
                h3 = h2.copy()
                h3.seq = h2.seq[:p + 1] + ("<",) + h2.seq[p + 1:]
                q = h3.seq.index("<")
                h3.seq = h3.seq[:q] + h3.seq[q + 1:]
                out.append((h3, -7 * sign))
                h3 = h2.copy()
                h3.eq = x
                h3.seq = tuple(y for s in h2.seq if s not in ("<", ">") for y in (("<", x, ">") if s == x else (s,)))
                out.append((h3, 0))
        return out

    def one(self, h, v):
        if not isinstance(v, tuple):
            raise Unknown("number as a node")
        v = h.norm(v)
        if v[0] not in ("n", "0"):
            raise Unknown("unresolved argument")
        return h, v

    def truth(self, h, v):
        if v is None:
            return [(h, True), (h, False)]
        if isinstance(v, int):
            return [(h, v != 0)]
        if v[0] == "tag":
            return [y for h2, p in h.resolve(v[1]) for y in
                    ([(h2, True)] if p != NULL or v[2] else [(h2, False)] if v[2] == 0 else [(h2, True), (h2, False)])]
        if v[0] in ("s", "g", "b"):
            return [(h2, x != NULL) for h2, x in h.resolve(v)]
        return [(h, v != NULL)]

    def evs(self, f, ids, h, nv, d):
        out = [(h, ())]
        for x in ids:
            out = [(h2, vs + (v,)) for h1, vs in out for h2, v in self.ev(f, x, h1, nv, d)]
        # later arguments may have settled what earlier ones are
        res = [(h1, tuple(h1.norm(v) if isinstance(v, tuple) else v for v in vs)) for h1, vs in out]
        fin = []
        for h1, vs in res:
            st = [(h1, ())]
            for v in vs:
                st = [(h3, w + (x,)) for h2, w in st for h3, x in
                      (h2.resolve(v) if isinstance(v, tuple) and v[0] in ("s", "g", "b") else [(h2, v)])]
            fin += [(h2, tuple(h2.norm(v) if isinstance(v, tuple) else v for v in w)) for h2, w in st]
        return fin

    # -- places and values
    def place(self, f, i, h, nv, d):
        """[(heap, place)] of an lvalue."""
        n = f.nodes[i]
        k = n["k"]
        if k == "ref" and n.get("v"):
            v = h.env.get((d, n["v"]))
            if isinstance(v, tuple) and v[0] == "refto":
                return [(h, v[1])]
            return [(h, ("var", d, n["v"]))]
        if k == "mem":
            fld = n["f"].rsplit("::", 1)[-1]
            cls = n["f"].rsplit("::", 2)[-2] if "::" in n["f"] else ""
            if cls == "avl_tree":
                if not n.get("ar"):
                    return [(h2, ("tree", self.local_tree(h2, p), fld)) for h2, p in self.place(f, n["b"], h, nv, d)]
                out = []
                for h2, v in self.ev(f, n["b"], h, nv, d):
                    if not (isinstance(v, tuple) and v[0] == "tree"):
                        raise Unknown("tree value")
                    out.append((h2, ("tree", v[1], fld)))
                return out
            if cls != "avl_node" or fld not in ("left", "right", "parent"):
                raise Unknown("field " + n["f"])
            if not n.get("ar"):
                out = []
                for h2, p in self.place(f, n["b"], h, nv, d):
                    if p[0] != "star":
                        raise Unknown("node by value")
                    out.append((h2, ("fld", p[1], fld)))
                return out
            out = []
            for h2, v in self.ev(f, n["b"], h, nv, d):
                out += self.deref(h2, v, fld)
            return out
        if k == "un" and n["op"] == "*":
            out = []
            for h2, v in self.ev(f, n["a"], h, nv, d):
                if isinstance(v, tuple) and v[0] == "place":
                    out.append((h2, v[1]))
                elif isinstance(v, tuple) and v[0] in ("n", "s"):
                    out += [(h3, ("star", p[1])) for h3, p in self.deref(h2, v, "left")]
                elif v == NULL or v == 0:
                    raise Bad("null", "follows a null pointer")
                else:
                    raise Unknown("dereference")
            return out
        raise Unknown("lvalue " + k)

    def deref(self, h, v, fld):
        if not isinstance(v, tuple):
            raise Bad("null", "follows a null pointer") if v == 0 else Unknown("dereference of a number")
        if v[0] == "tag":
            raise Bad("mask", "follows the parent word without masking the balance bits")
        out = []
        for h2, x in h.resolve(v) if v[0] in ("n", "s", "g", "b", "0", "x") else ():
            if x == NULL:
                raise Bad("null", "follows a link that may be null")
            if x == JUNK:
                raise Bad("stale", "follows a link that was never set or is out of date")
            if x[0] != "n":
                raise Unknown("dereference")
            if x[1] not in h2.nodes:
                raise Unknown("node dropped")
            out.append((h2, ("fld", x, fld)))
        if v[0] not in ("n", "s", "g", "b", "0", "x"):
            raise Unknown("dereference of " + v[0])
        return out

    def local_tree(self, h, p):
        if p[0] != "var":
            raise Unknown("tree by value")
        v = h.env.get((p[1], p[2]))
        if isinstance(v, tuple) and v[0] == "treeval":
            return v[1]
        k = max(h.trees) + 1
        h.trees[k] = (JUNK, JUNK)
        h.env[(p[1], p[2])] = ("treeval", k)
        return k

    def read(self, h, p):
        if p[0] == "var":
            v = h.env.get((p[1], p[2]))
            return [(h, h.norm(v) if isinstance(v, tuple) else v)]
        if p[0] == "tree":
            if p[2] == "aux":
                return [(h, h.trees[p[1]][1])]
            if p[2] != "root":
                raise Unknown("field of the tree")
            v = h.norm(h.trees[p[1]][0])
            if v[0] == "s":
                return [(h, v)]
            return h.resolve(v)
        if p[0] == "fld":
            if p[1][1] not in h.nodes:
                raise Unknown("node dropped")
            l, r, par, low = h.nodes[p[1][1]]
            if p[2] == "parent":
                return [(h, ("tag", h.norm(par), low))]
            v = h.norm(l if p[2] == "left" else r)
            if v[0] == "g":
                return h.resolve(v)
            return [(h, v)]
        raise Unknown("read")

    def write(self, h, p, v):
        h = h.copy()
        if isinstance(v, tuple):
            v = h.norm(v)
        if p[0] == "var":
            h.env[(p[1], p[2])] = v
            return h
        if v == 0:
            v = NULL
        if p[0] == "tree":
            root, aux = h.trees[p[1]]
            if p[2] == "aux":
                h.trees[p[1]] = (root, v)
            elif isinstance(v, tuple) and v[0] in ("n", "s", "0", "x"):
                h.trees[p[1]] = (v, aux)
            else:
                raise Unknown("root value")
            return h
        if p[0] == "fld":
            if p[1][1] not in h.nodes:
                raise Unknown("node dropped")
            l, r, par, low = h.nodes[p[1][1]]
            if p[2] == "parent":
                if v is None:
                    raise Unknown("parent word")
                if isinstance(v, int):
                    v = ("tag", NULL, v)
                if v[0] != "tag":
                    v = ("tag", v, 0)
                if v[2] is not None and not 0 <= v[2] <= 3:
                    raise Bad("bits", "stores a balance factor that does not fit and corrupts the parent link")
                if v[2] is None and low is not None:
                    raise Unknown("balance bits")
                h.nodes[p[1][1]] = (l, r, v[1], v[2])
                return h
            if not isinstance(v, tuple):
                raise Unknown("link value")
            if v[0] == "tag":
                raise Bad("mask", "stores the parent word with its balance bits as a link")
            if v[0] not in ("n", "s", "0", "x"):
                raise Unknown("link value")
            h.nodes[p[1][1]] = (v, r, par, low) if p[2] == "left" else (l, v, par, low)
            return h
        raise Unknown("write")

    def effect(self, f, n, h, nv, d):
        k = n["k"]
        if k == "decl":
            if "avl_tree" in n.get("t", "") and "*" not in n["t"]:
                h = h.copy()
                h.env.pop((d, n["v"]), None)
                self.local_tree(h, ("var", d, n["v"]))
                return [(h, None)]
            if "i" not in n or n["i"] is None or n["i"] < 0:
                h = h.copy()
                h.env.pop((d, n["v"]), None)
                return [(h, None)]
            if n.get("t", "").endswith("&"):
                out = []
                for h2, p in self.place(f, n["i"], h, nv, d):
                    h2 = h2.copy()
                    h2.env[(d, n["v"])] = ("refto", p)
                    out.append((h2, None))
                return out
            return [(self.write(h2, ("var", d, n["v"]), self.ptr(n.get("t", ""), v)), None)
                    for h2, v in self.ev(f, n["i"], h, nv, d)]
        if k == "incdec":
            out = []
            for h2, p in self.place(f, n["a"], h, nv, d):
                for h3, v in self.read(h2, p):
                    if v is not None and not isinstance(v, int):
                        raise Unknown("pointer arithmetic")
                    w = None if v is None else v + (1 if n["op"] == "++" else -1)
                    out.append((self.write(h3, p, w), v if n.get("post") else w))
            return out
        out = []
        for h2, v in self.ev(f, n["b"], h, nv, d):
            for h3, p in self.place(f, n["a"], h2, nv, d):
                if n["op"] == "=":
                    w = h3.norm(v) if isinstance(v, tuple) else v
                    out.append((self.write(h3, p, self.ptr(n.get("t", ""), w)), w))
                else:
                    for h4, old in self.read(h3, p):
                        for h5, w in self.binop(n["op"][:-1], old, v, h4):
                            out.append((self.write(h5, p, w), w))
        return out

    def ptr(self, t, v):
        return NULL if v == 0 and isinstance(v, int) and t.rstrip().endswith("*") else v

    def ev(self, f, i, h, nv, d):
        """[(heap, value)] of expression i."""
        if i is None or i < 0:
            return [(h, None)]
        if i in nv and f.nodes[i]["k"] in ("call", "asn", "incdec"):
            v = nv[i]
            return [(h, h.norm(v) if isinstance(v, tuple) else v)]
        n = f.nodes[i]
        k = n["k"]
        if n.get("null"):
            return [(h, NULL)]
        if "cv" in n:
            return [(h, n["cv"])]
        if k == "fnref":
            return [(h, None)]
        if k in ("ref", "mem"):
            if k == "ref" and not n.get("v"):
                raise Unknown("global " + str(n.get("n")))
            out = []
            for h2, p in self.place(f, i, h, nv, d):
                out += self.read(h2, p)
            return out
        if k == "un":
            if n["op"] == "&":
                out = []
                for h2, p in self.place(f, n["a"], h, nv, d):
                    if p[0] == "star":
                        out.append((h2, p[1]))
                    elif p[0] == "var" and self.is_tree(f, n["a"]):
                        h2 = h2.copy()
                        out.append((h2, ("tree", self.local_tree(h2, p))))
                    else:
                        out.append((h2, ("place", p)))
                return out
            if n["op"] == "*":
                out = []
                for h2, p in self.place(f, i, h, nv, d):
                    if p[0] == "star":
                        raise Unknown("node by value")
                    out += self.read(h2, p)
                return out
            out = []
            for h2, v in self.ev(f, n["a"], h, nv, d):
                if n["op"] == "!":
                    out += [(h3, int(not t)) for h3, t in self.truth(h2, v)]
                elif v is None:
                    out.append((h2, None))
                elif isinstance(v, int):
                    out.append((h2, {"-": -v, "~": ~v, "+": v}.get(n["op"])))
                else:
                    raise Unknown("operator on a pointer")
            return out
        if k == "bin":
            if n["op"] in ("&&", "||"):
                out = []
                stop = n["op"] == "||"
                for h2, v in self.ev(f, n["a"], h, nv, d):
                    for h3, t in self.truth(h2, v):
                        if t == stop:
                            out.append((h3, int(t)))
                        else:
                            for h4, w in self.ev(f, n["b"], h3, nv, d):
                                out += [(h5, int(t2)) for h5, t2 in self.truth(h4, w)]
                return out
            if n["op"] == ",":
                return [y for h2, _ in self.ev(f, n["a"], h, nv, d) for y in self.ev(f, n["b"], h2, nv, d)]
            out = []
            for h2, a in self.ev(f, n["a"], h, nv, d):
                for h3, b in self.ev(f, n["b"], h2, nv, d):
                    out += self.binop(n["op"], h3.norm(a) if isinstance(a, tuple) else a, b, h3)
            return out
        if k == "cond":
            out = []
            for h2, v in self.ev(f, n["c"], h, nv, d):
                for h3, t in self.truth(h2, v):
                    out += self.ev(f, n["a" if t else "b"], h3, nv, d)
            return out
        if k in ("x", "cast", "paren") and len(n.get("args", ())) == 1:
            return self.ev(f, n["args"][0], h, nv, d)
        raise Unknown("expression " + k)

    def is_tree(self, f, i):
        n = f.nodes[i]
        return n["k"] == "ref" and "avl_tree" in n.get("t", "") and "*" not in n.get("t", "")

    def binop(self, op, a, b, h):
        ip = lambda x: isinstance(x, tuple)
        if op in ("==", "!="):
            if a is None or b is None:
                return [(h, None)]
            if not ip(a) and not ip(b):
                return [(h, int((a == b) == (op == "==")))]
            if a == 0 and not ip(a):
                a = NULL
            if b == 0 and not ip(b):
                b = NULL
            if not ip(a) or not ip(b):
                raise Unknown("pointer against number")
            out = []
            for x, y in ((a, b), (b, a)):
                if x[0] == "tag":
                    raise Unknown("comparison of a parent word")
            if a == b:
                return [(h, int(op == "=="))]
            st = [(h, a, b)]
            if a == NULL or b == NULL or a[0] in ("g", "b") or b[0] in ("g", "b") or a[0] == b[0] == "s":
                st = [(h3, h3.norm(x), y) for h2, x in h.resolve(a) for h3, y in h2.resolve(b)]
            for h2, x, y in st:
                # an unknown subtree's root is none of the known nodes
                out.append((h2, int((x == y) == (op == "=="))))
            return out
        if op == "&" and ip(a) != ip(b):
            p, m = (a, b) if ip(a) else (b, a)
            if m is None:
                raise Unknown("mask")
            if m == 3:
                return [(h, p[2] if p[0] == "tag" else 0)]
            if m in (-4, (1 << 64) - 4):
                return [(h2, v) for h2, v in (h.resolve(p[1]) if p[0] == "tag" else [(h, p)])]
            raise Bad("mask", "masks the parent word with something else than its two balance bits")
        if op in ("|", "+") and ip(a) != ip(b):
            p, m = (a, b) if ip(a) else (b, a)
            if p[0] == "tag":
                if op == "|" and m is not None and p[2] is not None:
                    return [(h, ("tag", p[1], p[2] | m))]
                raise Unknown("bits of the parent word")
            if m is not None and not 0 <= m <= 3:
                raise Bad("bits", "stores a balance factor that does not fit and corrupts the parent link")
            return [(h2, ("tag", x, m)) for h2, x in h.resolve(p)]
        if ip(a) or ip(b):
            raise Unknown("operator %s on pointers" % op)
        if a is None or b is None:
            if op == "|" and (a is None) != (b is None):
                raise Unknown("bits")
            return [(h, None)]
        r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<": lambda: int(a < b), ">": lambda: int(a > b),
             "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "&": lambda: a & b, "|": lambda: a | b,
             "^": lambda: a ^ b, ">>": lambda: a >> b, "<<": lambda: a << b}.get(op)
        if r is None:
            raise Unknown("operator " + op)
        r = r()
        if abs(r) > 1 << 40 and not r == (1 << 64) - 4:
            return [(h, None)]
        return [(h, r)]


# -- the operations and what each must do -----------------------------------------
def whole(marks):
    """A tree of unknown shape: everything is one subtree."""
    h = Heap()
    h.toks[1] = (("h0", 0), NULL, None)
    h.ctr = 10
    h.mins["h0"] = 0
    h.trees[0] = (("s", 1), ("aux", 0))
    h.seq = (("s", 1),)
    if marks:
        h.seq = ("<",) + h.seq + (">",)
    h.nodes[0] = (JUNK, JUNK, JUNK, None)
    return h


def within(bf):
    """A tree of unknown shape with a known node (1) in it."""
    h = Heap()
    h.ctr = 10
    n = ("n", 1)
    lo, ro = (-2 if bf > 0 else -1), (-2 if bf < 0 else -1)
    h.mins = {"h0": max(0, -min(lo, ro)), "h1": 0}
    h.toks[2] = (("h0", lo), n, None)
    h.toks[3] = (("h0", ro), n, None)
    h.segs[4] = ((("p", 5),), (("p", 6),), n, ("h0", 0), ("h1", 0), NULL, False, 0)
    h.nodes[1] = (("s", 2), ("s", 3), ("b", 4, 0), bf + 1)
    h.trees[0] = (("g", 4), ("aux", 0))
    h.seq = (("p", 5), ("s", 2), n, ("s", 3), ("p", 6))
    return h


def neighbours(h, at, step):
    """The next item from a position of the sequence: a node, None at the
    end, or an item that may or may not be there."""
    i = at
    while 0 <= i < len(h.seq) and isinstance(h.seq[i], str):
        i += step
    return h.seq[i] if 0 <= i < len(h.seq) else None


def same(h, key):
    if h.check(None) != "same":
        raise Bad("order", "changes the tree")
    h.height(h.trees[0][0])


def expect(h, v, at, step, what):
    x = neighbours(h, at, step)
    if v == 0 or v is None:
        v = NULL
    if x is None:
        if v != NULL:
            raise Bad("result", "returns a node although there is no %s one" % what)
        return
    if v != x:
        raise Bad("result", "does not return the %s node%s" % (what, " (returns none)" if v == NULL else ""))


def tree_rule(P, pid, quick):
    R = Result()
    R.rules.append("shape analysis of the balanced tree: subtree and segment summaries with relative heights, split on "
                   "access and folded at loop heads; after each operation the in-order sequence, the parent links, the "
                   "balance factors and the result are those the operation promises")
    one = {}
    for n in ("avl_init", "avl_insert", "avl_search", "avl_search_greater", "avl_search_smaller", "avl_remove",
              "avl_first", "avl_last", "avl_next", "avl_prev", "avl_set_aux"):
        fs = [f for f in P.fns.values() if f.short == n]
        if fs:
            one[n] = fs[0]
    T, KEY, CMP = ("tree", 0), ("n", 0), ("cmp",)
    states = paths = 0
    skipped = []

    def go(name, make, args, special, spec):
        nonlocal states, paths
        if name not in one:
            R.add("%s|%s|missing" % (pid, name), "src/avltree.cc", "%s is gone" % name)
            return
        I = Interp(P, None)
        try:
            st, ends, finds = I.run(one[name].id, make, args, special, spec)
        except Unknown as e:
            skipped.append("%s: %s" % (name, e))
            return
        states += st
        paths += ends
        R.functions |= set(P.fns[x].name for x in I.fns)
        R.obligations += max(ends, 1)
        R.discharged += max(ends, 1) - min(max(ends, 1), len(finds))
        if not ends and not finds:
            R.add("%s|%s|end" % (pid, name), one[name].where(), "%s: never returns" % name)
        for (fn, what, msg), where in finds.items():
            R.add("%s|%s|%s" % (pid, name, what), where, "%s (in %s): %s" % (name, fn, msg))

    def s_search(h, v):
        same(h, KEY)
        if h.eq:
            if v != h.eq:
                raise Bad("result", "does not return the node equal to the key")
        elif v not in (NULL, 0) or not h.key_fixed():
            raise Bad("result", "returns a node that is not equal to the key" if v not in (NULL, 0) else
                      "gives up before every place of the key was looked at")

    def s_near(step, what):
        def spec(h, v):
            same(h, KEY)
            if h.eq:
                if v != h.eq:
                    raise Bad("result", "does not return the node equal to the key")
                return
            if not h.key_fixed():
                raise Bad("result", "gives up before every place of the key was looked at")
            expect(h, v, h.seq.index(">" if step > 0 else "<"), step, what)
        return spec

    def s_insert(h, v):
        if h.eq:
            same(h, KEY)
            if v != h.eq:
                raise Bad("result", "does not return the node already there")
            return
        st = h.check(KEY)
        if st != "in" and not ("in" in h.flags and st == "same"):
            raise Bad("order", "does not link the new node")
        h.height(h.trees[0][0])
        if v != KEY:
            raise Bad("result", "does not return the new node")

    N = ("n", 1)

    def s_remove(h, v):
        st = h.check(N)
        if st != "out" and not ("out" in h.flags and st == "same"):
            raise Bad("order", "leaves the removed node in the tree")
        h.height(h.trees[0][0])

    def s_first(h, v):
        same(h, None)
        expect(h, v, 0, 1, "first")

    def s_last(h, v):
        same(h, None)
        expect(h, v, len(h.seq) - 1, -1, "last")

    def s_next(h, v):
        same(h, None)
        expect(h, v, h.seq.index("|"), 1, "next")

    def s_prev(h, v):
        same(h, None)
        expect(h, v, h.seq.index("|"), -1, "previous")

    def s_none(h, v):
        if v not in (NULL, 0, None):
            raise Bad("result", "returns a node for no node")

    def s_init(h, v):
        if h.norm(h.trees[0][0]) != NULL:
            raise Bad("root", "does not start with an empty tree")
        if h.trees[0][1] != ("aux", 0):
            raise Bad("aux", "does not keep the context")

    go("avl_search", whole(True), [T, KEY, CMP], None, s_search)
    go("avl_search_greater", whole(True), [T, KEY, CMP], None, s_near(1, "smallest greater"))
    go("avl_search_smaller", whole(True), [T, KEY, CMP], None, s_near(-1, "greatest smaller"))
    go("avl_insert", whole(True), [T, KEY, CMP], KEY, s_insert)
    go("avl_first", whole(False), [T], None, s_first)
    go("avl_last", whole(False), [T], None, s_last)
    for bf in (-1, 0, 1):
        go("avl_remove", within(bf), [T, N], N, s_remove)
        for name, spec, after in (("avl_next", s_next, 1), ("avl_prev", s_prev, 0)):
            h = within(bf)
            i = h.seq.index(N) + after
            h.seq = h.seq[:i] + ("|",) + h.seq[i:]
            go(name, h, [N], None, spec)
    go("avl_next", whole(False), [NULL], None, s_none)
    go("avl_prev", whole(False), [NULL], None, s_none)
    h = whole(False)
    h.trees[0] = (JUNK, JUNK)
    go("avl_init", h, [T, ("aux", 0)], None, s_init)
    R.coverage = {**(R.coverage or {}), "states": states, "ends": paths}
    if skipped:
        R.coverage["undecided"] = skipped
        R.rules.append("UNDECIDED: " + "; ".join(skipped))
    return R
