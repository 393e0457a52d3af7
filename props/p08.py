"""P08: groups behave as one hierarchical namespace, whichever handle or path spelling is used."""

import numpy as np

from vp import engine
from vp.harness import Harness

ASSUMPTIONS = [
    "histories of up to 3 (thorough: 4) operations over the listed paths and handles, on "
    "in-memory groups and on containers wrapping them",
    "creating a dataset over an existing group is not part of the claim; creating one over an "
    "existing dataset replaces it (the conversions rely on that)",
    "path normalisation is decided separately for every string of up to 6 (thorough: 8) "
    "characters over the alphabet '/', 'a', 'b', '.'",
]

# paths as spelled by the caller
PATHS = ["a", "a/b", "/a/b/", "b", "a//b/c", "/b/a", "c/"]
QUICK = ["a", "a//b/c", "/a/b/", "b", "c/"]
SMALL = ["a", "a/b", "/b", "a/b/"]


def parts(base, path):
    """Reference path resolution: absolute paths restart at the root."""
    p = [x for x in path.split("/") if x]
    return p if path.startswith("/") else list(base) + p


class Node(dict):
    """Reference group."""


class Leaf:
    def __init__(self, token):
        self.token = token


def lookup(root, ps):
    n = root
    for p in ps:
        if not isinstance(n, Node) or p not in n:
            raise KeyError(p)
        n = n[p]
    return n


def through_leaf(root, ps):
    n = root
    for p in ps:
        if isinstance(n, Leaf):
            return True
        if p not in n:
            return False
        n = n[p]
    return False


def mkgroup(root, ps):
    n = root
    for p in ps:
        if p not in n:
            n[p] = Node()
        n = n[p]
    return n


class Restricted:
    """Mixed into a container: names with a component 'b' at the top level are refused."""

    @staticmethod
    def group_name_allowed(name):
        return name != "/b"

    @staticmethod
    def dataset_name_allowed(name):
        return name not in ("/b", "/a/b")


def make_root(kind):
    from caput import memdata

    if kind == "mem":
        return memdata.MemGroup()
    if kind == "disk":
        return memdata.MemDiskGroup()
    cls = type("RestrictedGroup", (Restricted, memdata.MemDiskGroup), {})
    return cls()


def attempt(f):
    try:
        return "ok", f()
    except (KeyError, ValueError, TypeError) as e:
        return type(e).__name__, e


def compare(ctx, g, model, path, allowed, is_group):
    """The whole observable tree equals the model."""
    want = [k for k, v in model.items() if allowed(path + k, isinstance(v, Node))]
    got = list(g)
    ctx.check(sorted(got) == sorted(want), "iteration lists exactly the entries", got=got,
              want=want, at=path)
    ctx.check(len(g) == len(want), "len counts the entries", at=path)
    for k, v in model.items():
        full = path + k
        if not allowed(full, isinstance(v, Node)):
            ctx.check(k not in g, "an entry that is not allowed is not visible", name=full)
            continue
        ctx.check(k in g, "an existing entry is a member", name=full)
        e = g[k]
        ctx.check(e.name == full, "an entry knows its full path", got=e.name, want=full)
        if isinstance(v, Node):
            ctx.check(is_group(e), "a group is returned as a group", name=full)
            compare(ctx, e, v, full + "/", allowed, is_group)
        else:
            ctx.check(not is_group(e), "a dataset is returned as a dataset", name=full)
            ctx.check(e[:].tolist() == [v.token], "a dataset keeps its data", name=full,
                      got=e[:].tolist(), want=v.token)
            ctx.check(e.attrs.get("t") == v.token, "a dataset keeps its attributes", name=full)


def history(ctx):
    from caput import memdata

    is_group = memdata.is_group
    kind = ctx.params["kind"]
    nops = ctx.params["nops"]
    paths = ctx.params["paths"]
    if kind == "restricted":
        def allowed(p, isg):
            return Restricted.group_name_allowed(p) if isg else Restricted.dataset_name_allowed(p)
    else:
        def allowed(p, isg):
            return True

    root = make_root(kind)
    model = Node()
    held = {}  # dataset views kept by the caller: token -> view
    handle_a = None
    for i in range(nops):
        op = ctx.params["op0"] if i == 0 and "op0" in ctx.params else ctx.choose(
            f"op{i}", ["cg", "rg", "cd", "rd", "del"])
        path = ctx.choose(f"p{i}", paths)
        # the handle the operation is issued on: the root, or a subgroup handle
        base, h = [], root
        if isinstance(model.get("a"), Node) and allowed("/a", True):
            if ctx.bool(f"sub{i}"):
                base = ["a"]
                if handle_a is None:
                    handle_a = root["a"]
                h = handle_a
        else:
            handle_a = None
        ps = parts(base, path)
        full = "/" + "/".join(ps)
        try:
            cur = lookup(model, ps)
            # access rules apply to the entry asked for
            visible = allowed(full, isinstance(cur, Node))
        except KeyError:
            cur, visible = None, False
        leafway = through_leaf(model, ps)
        tok = i + 1
        if op == "cg":
            r, v = attempt(lambda: h.create_group(path))
            if not allowed(full, True):
                ctx.check(r == "ValueError", "a group name that is not allowed is refused", got=r)
            elif cur is not None or leafway:
                ctx.check(r == "ValueError", "creating a group over an existing entry is refused",
                          got=r, path=full)
            else:
                ctx.check(r == "ok", "a group can be created", got=(r, v), path=full)
                mkgroup(model, ps)
                ctx.check(v.name == full and is_group(v) and len(v) == 0,
                          "a new group is empty and knows its path", got=v.name, want=full)
                ctx.reach("create_group")
        elif op == "rg":
            r, v = attempt(lambda: h.require_group(path))
            if cur is not None and visible:
                if isinstance(cur, Node):
                    ctx.check(r == "ok" and v.name == full, "require_group returns the group",
                              got=r)
                else:
                    ctx.check(r == "TypeError", "require_group over a dataset is refused", got=r)
            elif cur is not None:
                ctx.check(r in ("ValueError", "KeyError"), "an entry that is not allowed is "
                          "refused", got=r)
            elif leafway or not allowed(full, True):
                ctx.check(r == "ValueError", "require_group where no group can be is refused",
                          got=r)
            else:
                ctx.check(r == "ok" and v.name == full, "require_group creates the group", got=r)
                mkgroup(model, ps)
                ctx.reach("require_group")
        elif op in ("cd", "rd"):
            if op == "cd":
                ctx.assume(not isinstance(cur, Node))

                def f():
                    d = h.create_dataset(path, data=np.array([tok]))
                    d.attrs["t"] = tok
                    return d
            else:
                def f():
                    return h.require_dataset(path, (1,), np.int64)
            r, v = attempt(f)
            if op == "rd" and cur is not None and visible:
                if isinstance(cur, Leaf):
                    ctx.check(r == "ok" and v.name == full and v[:].tolist() == [cur.token],
                              "require_dataset returns the dataset", got=r)
                    held[cur.token] = (cur, v)
                    ctx.reach("require_dataset")
                else:
                    ctx.check(r == "TypeError", "require_dataset over a group is refused", got=r)
            elif op == "rd" and isinstance(cur, Node):
                ctx.check(r != "ok", "a group is not returned as a dataset", got=r)
            elif not allowed(full, False):
                ctx.check(r == "ValueError", "a dataset name that is not allowed is refused",
                          got=r, path=full)
            elif leafway:
                ctx.check(r in ("ValueError", "TypeError"),
                          "a dataset cannot be created inside a dataset", got=r)
            else:
                ctx.check(r == "ok" and v.name == full, "a dataset can be created", got=(r, v),
                          path=full)
                if op == "rd":
                    v[:] = tok
                    v.attrs["t"] = tok
                g = mkgroup(model, ps[:-1])
                g[ps[-1]] = leaf = Leaf(tok)
                held[tok] = (leaf, v)
                ctx.reach("create_dataset")
        else:
            def f():
                del h[path]
            r, v = attempt(f)
            if cur is None or not visible:
                ctx.check(r == "KeyError", "deleting what is not there raises KeyError", got=r)
            else:
                ctx.check(r == "ok", "an existing entry can be deleted", got=(r, v), path=full)
                del lookup(model, ps[:-1])[ps[-1]]
                ctx.reach("delete")
        if not isinstance(model.get("a"), Node):
            handle_a = None
    compare(ctx, root, model, "/", allowed, is_group)
    if kind == "mem":
        # the same tree through a container which hides some of its entries
        cls = type("RestrictedGroup", (Restricted, memdata.MemDiskGroup), {})

        def shown(p, isg):
            return Restricted.group_name_allowed(p) if isg else Restricted.dataset_name_allowed(p)

        compare(ctx, cls.from_group(root, detect_subclass=False), model, "/", shown, is_group)
        ctx.reach("wrapped")
    # handles obtained earlier are views of the same entries
    for tok, (leaf, v) in held.items():
        ps = parts([], v.name)
        try:
            now = lookup(model, ps)
        except KeyError:
            now = None
        if now is leaf:
            e = root[v.name]
            v[:] = 100 + tok
            ctx.check(e[:].tolist() == [100 + tok], "a write through one handle is seen by others")
            e.attrs["u"] = tok
            ctx.check(v.attrs.get("u") == tok, "attributes are shared between handles")
            ctx.check(v.parent.name == "/" + "/".join(ps[:-1]) and v.file.name == "/",
                      "a dataset knows its parent and file")
            if kind == "mem":
                ctx.check(v == e, "handles of the same entry are equal")
            ctx.reach("views")
        else:
            ctx.check(v[:].tolist() == [leaf.token], "a held dataset survives its removal")
    # spellings of a path are equivalent
    for p in paths:
        ps = parts([], p)
        spell = ["/".join(ps), "/" + "/".join(ps), "//" + "//".join(ps) + "/"]
        got = []
        for s in spell:
            r, v = attempt(lambda: root[s])
            got.append((r, v.name if r == "ok" else None))
            ctx.check((s in root) == (r == "ok"), "membership agrees with lookup", path=s)
        ctx.check(got[0] == got[1] == got[2], "spellings of a path are equivalent", path=p,
                  got=got)
    ctx.reach("done")


def normal(ctx):
    """format_abs_path on every string over a small alphabet."""
    from caput.memdata import _memh5

    n = ctx.concretize(ctx.int("n", 0, ctx.params["n"]))
    s = "".join(ctx.choose(f"c{i}", "/ab.") for i in range(n))
    r, v = attempt(lambda: _memh5.format_abs_path(s))
    if not s.startswith("/"):
        ctx.check(r == "ValueError", "a relative path is refused", got=r, s=s)
        return
    want = "/" + "/".join(x for x in s.split("/") if x)
    ctx.check(r == "ok" and v == want, "path normalisation", got=v, want=want, s=s)
    ctx.check(_memh5.format_abs_path(v) == v, "normalisation is idempotent", s=s)
    ctx.reach("norm")


def harnesses(tier):
    big = tier == "thorough"
    hs = []
    ops = ["cg", "rg", "cd", "rd", "del"]
    for kind in ("mem", "disk", "restricted"):
        paths = PATHS if big else QUICK if kind == "mem" else SMALL
        for op in ops[:-1]:
            hs.append(Harness(
                f"{kind}_{op}", history, reach=["done"], weight=5,
                params=dict(kind=kind, nops=3, paths=paths, op0=op),
                bounds=f"3 operations, first {op}, paths {paths}"))
            if big:
                hs.append(Harness(
                    f"{kind}_{op}_4", history, reach=["done"], weight=9,
                    params=dict(kind=kind, nops=4, paths=SMALL, op0=op),
                    bounds=f"4 operations, first {op}, paths {SMALL}"))
    hs.append(Harness("empty", history, reach=["done"],
                      params=dict(kind="mem", nops=1, paths=PATHS + ["."], op0="del"),
                      bounds="deletion from an empty tree"))
    hs.append(Harness("normalise", normal, reach=["norm"], params=dict(n=8 if big else 6),
                      bounds=f"all strings up to {8 if big else 6} characters over '/ab.'"))
    return hs
