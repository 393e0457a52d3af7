"""P01: splitting work over processes is exact, ordered and balanced."""

from vp.harness import Harness

ASSUMPTIONS = [
    "split: any length 0..10**9 (kept symbolic) over 1..M pieces (M=8 quick, 16 thorough)",
    "list partitioning: lists of length 0..L with opaque distinct elements (L=17/40), 1..8 pieces",
    "the 'rand' partition method is outside the claim",
    "negative lengths and zero pieces are outside the claim",
]


class _C:
    """Stands for a communicator of which only size and rank matter."""

    def __init__(self, size, rank):
        self.size, self.rank = size, rank

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank


def split(ctx):
    from caput.util import arraytools, mpitools

    m = ctx.int("m", ctx.params["mlo"], ctx.params["mhi"])
    n = ctx.int("n", 0, 10**9)
    m = ctx.concretize(m)
    s = arraytools.split_m(n, m)
    a = mpitools.split_all(n, comm=_C(m, 0))
    ctx.check(len(s) == 3 and len(s[0]) == m, "split has one column per piece")
    prev = 0
    for i in range(m):
        num, lo, hi = s[0][i], s[1][i], s[2][i]
        ctx.check(lo == prev, "each piece starts where the previous one ended", piece=i)
        ctx.check(hi - lo == num, "length of a piece is end minus start", piece=i)
        ctx.check(num >= 0, "no negative piece", piece=i)
        ctx.check(ctx.And(num * m <= n + m - 1, num * m >= n - m + 1), "balanced within one", piece=i)
        for k in range(3):
            ctx.check(a[k][i] == s[k][i], "all-process split equals the split")
        prev = hi
    ctx.check(prev == n, "pieces cover the whole range")
    # per-process view
    r = ctx.concretize(ctx.int("rank", 0, m - 1))
    l = mpitools.split_local(n, comm=_C(m, r))
    for k in range(3):
        ctx.check(l[k] == s[k][r], "local split equals this process's column")
    ctx.reach("split")


def plist(ctx):
    from caput.util import arraytools, mpitools

    N = ctx.concretize(ctx.int("N", 0, ctx.params["L"]))
    n = ctx.concretize(ctx.int("n", 1, 8))
    method = ctx.choose("method", ["con", "alt"])
    full = [object() for _ in range(N)]
    idx = {id(o): k for k, o in enumerate(full)}
    owner = {}
    parts = []
    for i in range(n):
        via = ctx.params["via"]
        if via == "direct":
            p = arraytools.partition_list(full, i, n, method=method)
        else:
            p = mpitools.partition_list_mpi(full, method=method, comm=_C(n, i))
        ks = [idx[id(o)] for o in p]
        ctx.check(ks == sorted(ks), "order kept inside a piece", pieces=ks)
        for k in ks:
            ctx.check(k not in owner, "no element given twice", element=k)
            owner[k] = i
        parts.append(ks)
    ctx.check(len(owner) == N, "every element given to some piece")
    sizes = [len(p) for p in parts]
    ctx.check(max(sizes) - min(sizes) <= 1, "balanced within one", sizes=sizes)
    if method == "con":
        flat = [k for p in parts for k in p]
        ctx.check(flat == list(range(N)), "contiguous pieces concatenate to the list")
    ctx.reach(method)


def mrange(ctx):
    from caput.util import mpitools

    start = ctx.int("start", -4, 4)
    stop = ctx.int("stop", -4, 10)
    step = ctx.int("step", 1, 3)
    n = ctx.concretize(ctx.int("n", 1, 5))
    start, stop, step = map(ctx.concretize, (start, stop, step))
    got = []
    for i in range(n):
        got += list(mpitools.mpirange(start, stop, step, comm=_C(n, i)))
    ctx.check(got == list(range(start, stop, step)), "pieces of a range concatenate to it")
    ctx.reach("mpirange")


def harnesses(tier):
    big = tier == "thorough"
    hs = []
    for lo, hi in [(1, 4), (5, 6), (7, 8)] + ([(k, k) for k in range(9, 17)] if big else []):
        hs.append(Harness(f"split_{lo}_{hi}", split, params=dict(mlo=lo, mhi=hi),
                          reach=["split"], bounds=f"n in [0,1e9] symbolic, pieces {lo}..{hi}",
                          weight=hi))
    L = 40 if big else 17
    for via in ("direct", "mpi"):
        hs.append(Harness(f"list_{via}", plist, params=dict(L=L, via=via),
                          reach=["con", "alt"], bounds=f"len 0..{L}, pieces 1..8"))
    hs.append(Harness("mpirange", mrange, reach=["mpirange"],
                      bounds="start -4..4, stop -4..10, step 1..3, 1..5 ranks"))
    return hs
