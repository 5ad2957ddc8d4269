"""C08: loading refuses files of the wrong version, schema or element type.

Analysed: the gate in front of T::load of every serialisable class, the global version check in front of every top-level load, the
element-type, kind and size checks inside load functions, the construction of table views from a table's own schema and version, the
dispatch of native files on their magic number, and the dimension checks of fixed-extent datasets. Conditional constant propagation over
the IR decides which (schema, version, element type, magic number) values can reach the interpreting code: a value is refused when the
interpreting call is unreachable under it. The schema is a concrete string that memcmp-like calls are evaluated on; versions range over
every combination of the constants the code compares with and their neighbours, so every outcome of every comparison is explored."""
import itertools, re
from ..lib import *
from ..content import *
from .. import ir, dyn
from .c07 import saved, key_of, tmpl

GATE = r"""opaque ^svs::(index|data|graphs|distance)::.*::load$
opaque ^svs::lib::BinaryBlobLoader::load$
opaque ^svs::IDTranslator::load$
inline ^svs::lib::Loader::load$
opaque ^svs::lib::SaveTable::SaveTable$
opaque ^svs::lib::(save|load_at)$
opaque ^svs::io::
opaque ^svs::lib::(UUID|read_binary|write_binary|open_read|open_write)
"""
TOP = r"""opaque ^svs::(index|data|graphs|distance)::.*::load$
opaque ^svs::lib::load$
opaque ^svs::lib::(get_version|get_schema|load_at|save|open_read|open_write|read_binary|parse_int)$
opaque ^svs::io::get_magic_number$
opaque ^svs::lib::detail::save_node_to_file
opaque ^svs::io::detail::(get_dims|read_header)$
"""
SUB = r"""opaque ^svs::lib::load_at$
opaque ^svs::toml_helper::get_as
opaque ^svs::lib::.*NodeView
opaque ^svs::io::
opaque ^svs::data::DenseArray::
opaque ^svs::lib::(UUID|read_binary|open_read)
opaque ^svs::lib::.*load_from_(disk|file)
"""
FREE = ["build", "search", "index", "clusterp", "invb", "invs", "l2", "ip", "cos"]
FILES = ["trans", "data", "graph", "clusters", "blob"]
SAVE_OF = {"bdata": "data", "bgraph": "graph"}
USE = re.compile(r"::load$")


class View:
    """Symbolic strings: which expressions are the length or characters of one given string."""

    def __init__(self, fn, s, is_str):
        self.fn, self.s, self.is_str = fn, s, is_str
        self.leafs = {}

    def string_call(self, e, pat):
        if e[0] == "call" and re.search(pat, e[1]):
            i = self.fn.ins[e[2]]
            return bool(i.args) and self.is_str(self.fn.E(i.args[0]), i)
        return False

    def length(self, e):
        e = strip(e)
        if e[0] == "ev" and e[2] == (0,) and self.string_call(e[1], r"basic_string::operator std::basic_string_view"):
            return True
        return self.string_call(e, r"basic_string::(size|length)$")

    def chars(self, e):
        e = strip(e)
        if e[0] == "ev" and e[2] == (1,) and self.string_call(e[1], r"basic_string::operator std::basic_string_view"):
            return True
        return self.string_call(e, r"basic_string::(data|c_str)$")

    def leaf(self, e, K):
        if self.length(e):
            return len(self.s)
        if e[0] == "call" and e[1] in ("bcmp", "memcmp", "strncmp"):
            a = [self.fn.E(x) for x in self.fn.ins[e[2]].args]
            n = K().ev(a[2])
            if n is None:
                return None
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                t = text(self.fn, y)
                if self.chars(x) and t is not None:
                    return int(self.s[:n] != t[:n])
            return None
        if e[0] == "call" and re.search(r"basic_string(_view)?::(compare|operator==)$|^std::operator==$|^std::__cxx11::operator==$", e[1]):
            i = self.fn.ins[e[2]]
            ts = [view_text(self.fn, x, i) for x in i.args]
            # (length, chars) argument pair
            for p, q in zip(i.args, i.args[1:]):
                l, t = self.fn.E(p), text(self.fn, self.fn.E(q))
                if l[0] == "c" and t is not None:
                    ts.append(t[:l[1]])
            t = next((x for x in ts if x is not None), None)
            if t is not None and any(self.is_str(self.fn.E(x), i) for x in i.args):
                return int(self.s != t) if e[1].endswith("compare") else int(self.s == t)
        return None


def run_const(fn, leaf):
    box = []
    class C(Const):
        def __init__(self, f, l):
            box.append(self)
            super().__init__(f, l)
    return C(fn, lambda e: leaf(e, lambda: box[0]))


def member_of(fn, e, suffix):
    """e reads (or is the address of) a member whose path ends with suffix, of an argument."""
    b, o, v = split(e)
    if v or b[0] != "arg":
        return False
    m = fn.memname(e)
    return bool(m and m[0] and re.search(suffix, m[0]))


VER = {"major": 0, "minor": 1, "patch": 2}


def version_part(fn, e):
    if e[0] != "ld":
        return None
    b, o, v = split(e[1])
    if not v and b[0] == "arg":
        m = fn.memname(e[1])
        x = m and re.search(r"version\w*\.(major|minor|patch)$", m[0])
        if x:
            return VER[x.group(1)]
    return None


def consts(fn):
    out = set()
    for i in fn.all():
        if i.op == "icmp":
            for r in i.ops:
                e = fn.E(r)
                if e[0] == "c" and 0 <= e[1] < 200:
                    out.add(e[1])
        if i.op == "switch":
            for c in i.r["cases"]:
                if 0 <= int(c[0]["c"]) < 200:
                    out.add(int(c[0]["c"]))
    return out


def gate_calls(fn):
    return [c for c in fn.calls(USE.pattern) if not c.name.startswith("svs::lib::load")]


def gate(fn, s, ver):
    """Is T::load reachable for a table with schema s and version ver?"""
    def is_str(e, at):
        return member_of(fn, e, r"schema")
    V = View(fn, s, is_str)

    def leaf(e, K):
        k = version_part(fn, e)
        if k is not None:
            return ver[k]
        return V.leaf(e, K)
    K = run_const(fn, leaf)
    return any(c.b in K.blocks for c in gate_calls(fn))


def where(fn):
    cs = gate_calls(fn)
    return cs[0].where if cs else fn.name


def check_gates(ctx, m, ms, saves):
    ctx.rule("schema", "an object whose schema is not the one its class writes is never interpreted")
    ctx.rule("version", "an object is interpreted for exactly the versions its class supports: the one it writes, and older ones only when its load function tells versions apart")
    ctx.rule("accept", "the schema and version a class writes are accepted when loading")
    allschemas = sorted({x[0] for x in saves.values() if x})
    for l in FREE + FILES + list(SAVE_OF):
        fn = ctx.one(m, l + "_ld")
        s, v = saves[SAVE_OF.get(l, l)]
        cs = gate_calls(fn)
        if not ctx.ob("accept", l, cs and gate(fn, s, v), where(fn), f"({s}, v{v}) is refused or load is not reached"):
            continue
        bad = [x for x in variants(s) + [y for y in allschemas if y != s] for w in {v, (0, 0, 0)} if gate(fn, x, w)]
        ctx.ob("schema", l, not bad, where(fn), f"schemas accepted besides '{s}': {bad[:3]}")
        acc = accepted(fn, s, v)
        newer = [w for w in acc if w > v]
        ctx.ob("version", l + "/newer", not newer, where(fn), f"versions newer than {v} accepted: {newer[:3]}")
        older = [w for w in acc if w < v]
        aware = True
        if older:
            aware = version_aware(ctx, ms, SAVE_OF.get(l, l))
        ctx.ob("version", l + "/older", not older or aware, where(fn), f"older versions accepted {older[:3]} although load does not look at the version")
    # state of a mutable index: its own format, or the static index's
    fn = ctx.one(m, "state_ld")
    own, st = saves["dyn"], saves["index"]
    ctx.ob("accept", "state/static", gate(fn, *st), where(fn), "static index parameters refused")
    if own is None:
        return
    ctx.ob("accept", "state/dynamic", gate(fn, *own), where(fn), "dynamic state refused")
    bad = [x for x in variants(own[0]) + variants(st[0]) + [y for y in allschemas if y not in (own[0], st[0])]
           for w in {own[1], st[1], (0, 0, 0)} if gate(fn, x, w)]
    ctx.ob("schema", "state", not bad, where(fn), f"schemas accepted: {bad[:3]}")
    for (s, v), n, aware in ((own, "dynamic", False), (st, "static", True)):
        bad = [w for w in accepted(fn, s, v) if w > v or (w < v and not aware)]
        ctx.ob("version", "state/" + n, not bad, where(fn), f"versions accepted for {s}: {bad[:3]}")


def variants(s):
    return [s[:-1] + "~", "~" + s[1:], s + "x", s[:-1], "", s[:1], s.upper(), s[:8] + "#" + s[9:]]


def accepted(fn, s, v):
    cs = consts(fn) | set(v)
    vals = sorted({y for c in cs if c < 12 for y in (c - 1, c, c + 1) if y >= 0} | {0, 1, 2, 3, 4} | {v[2] + 1, 2 ** 32 + v[2]})
    return [w for w in itertools.product(vals, repeat=3) if w != v and gate(fn, s, w)]


def version_aware(ctx, ms, l):
    f = ms.get(l + "_load")
    if not f:
        return False
    f = f[0]
    return bool(f.calls(r"NodeView::version$")) or any(i.op == "load" and version_part(f, ("ld", f.E(i.ops[0]))) is not None for i in f.all("load"))


# ---- top level -----------------------------------------------------------------------------
def check_top(ctx, m):
    ctx.rule("global", "a file is interpreted only when its own global version is the one the save side writes")
    ctx.rule("keys", "version, schema and object are read from the entries the save side writes them to")
    # what is written
    gver = None
    for l in ("save_dir", "save_file"):
        fn = ctx.one(m, l)
        cs = fn.calls(r"save_node_to_file$")
        ctx.need(len(cs) == 1, "save_node_to_file call in " + l)
        c = cs[0]
        v = ver_at(fn, c.args[-1], c)
        ctx.need(v, "global version written by " + l)
        if gver is None:
            gver = v
        ctx.ob("global", l + " writes one version", v == gver, c.where, f"{v} against {gver}")
    for l in ("disk", "disk_build", "file"):
        fn = ctx.one(m, l)
        gv = fn.calls(r"^svs::lib::get_version$")
        use = fn.calls(r"^svs::lib::load$")
        if not ctx.ob("global", l + "/reads", bool(gv) and bool(use), fn.name, "global version is not read"):
            continue

        parts = version_loads(fn, gv)
        cands = sorted({y for c in consts(fn) | set(gver) if c < 12 for y in (c - 1, c, c + 1) if y >= 0} | {0, 1, 2, 3, 2 ** 32 + gver[2]})
        bad, ok = [], False
        for w in itertools.product(cands, repeat=3):
            K = run_const(fn, lambda e, K: w[parts[e]] if e in parts else None)
            r = [c for c in use if c.b in K.blocks]
            if w == gver:
                ok = len(r) == len(use)
            elif r:
                bad.append(w)
        ctx.ob("global", l + "/accepts", ok, use[0].where, f"version {gver} is refused")
        ctx.ob("global", l + "/refuses", not bad, use[0].where, f"files of versions {bad[:3]} are interpreted")
        # every load lies behind a version read of the table that was parsed
        for c in use:
            ctx.ob("global", f"{l}/behind@{c.where}", fn.path(None, c, avoid=gv) is None, c.where, "reached without reading the version")
        for g in gv:
            ctx.ob("keys", f"{l}/version key", arg_text(fn, g) in (None, "__version__") if len(g.args) <= 2 else arg_text(fn, g) == "__version__", g.where, f"{arg_text(fn, g)}")
    # what is read from a table
    fn = ctx.one(m, "view")
    lay = [l for n, l in m.layouts.items() if re.match(r"^svs::lib::ContextFreeNodeView<toml::(v3::)?table>$", n)]
    ctx.need(len(lay) == 1, "layout of the table view")
    moff = {nm: o for o, sz, nm, ty in lay[0]["members"]}
    for pat, mem in ((r"get_schema$", "schema"), (r"get_version$", "version")):
        cs = fn.calls(pat)
        ok = len(cs) == 1
        if ok:
            es = [fn.E(a) for a in cs[0].args]
            ok = any(mkroot(e) == ("arg", 1) for e in es[1:]) and split(es[0]) == (("arg", 0), moff.get(mem + "_"), ())
        ctx.ob("keys", "view/" + mem, ok, cs[0].where if cs else fn.name, "not taken from the viewed table")
    for l, key in (("get_version", "__version__"), ("get_schema", "__schema__")):
        fn = ctx.one(m, "r_" + l)
        ts = [k for k in (arg_text(fn, c) for c in fn.all() if c.is_call) if k is not None]
        ctx.ob("keys", l, ts and set(ts) == {key}, fn.name, f"reads {ts}")
    fn = ctx.one(m, "savetable")
    ins = [c for c in fn.calls(r"toml::v3::table::insert")]
    got = {}
    for c in ins:
        k = arg_text(fn, c)
        src = [fn.E(a) for a in c.args]
        got[k] = c
    ctx.ob("keys", "save/schema", "__schema__" in got and str_arg(fn, got["__schema__"]), fn.name, f"keys written: {sorted(map(str, got))}")
    fa = fn.calls(r"make_format_args$|format_arg_store")
    ctx.ob("keys", "save/version", "__version__" in got and any(mkroot(fn.E(a)) == ("arg", 3) for c in fa for a in c.args), fn.name, f"keys written: {sorted(map(str, got))}")
    # the parser puts each number into its own part
    ctx.rule("parse", "a version string is parsed part by part into major, minor and patch")
    fn = ctx.one(m, "parse")
    ps = {("call", c.name, c.id): c for c in fn.calls(r"^svs::lib::parse_int$")}
    offs = {}
    for st in [i for i in fn.all("store")]:
        b, o, v = split(fn.E(st.ops[1]))
        if b == ("arg", 0) and not v:
            e = strip(fn.E(st.ops[0]))
            offs.setdefault(o, set()).add(e)
    base = ("arg", 2)
    starts = []
    for k in range(3):
        es = offs.get(8 * k, set())
        es = {e for e in es if e != ("c", 0)}
        c = ps.get(next(iter(es))) if len(es) == 1 else None
        if not ctx.ob("parse", ("major", "minor", "patch")[k], c is not None, fn.name, "not the result of one parsed number"):
            continue
        starts.append((c, fn.lin(fn.E(c.args[-1]))))
    if len(starts) == 3:
        d = [ir.ladd(x[1], {base: Fraction(1)}, -1) for x in starts]
        ctx.ob("parse", "first number follows the prefix", d[0] == {1: Fraction(1)}, starts[0][0].where, "")
        for k in (1, 2):
            ctx.ob("parse", f"number {k + 1} starts after a later separator", d[k] != d[k - 1] and pos_after(fn, starts[k - 1], starts[k], d[k - 1], d[k]), starts[k][0].where, "does not start past the separator that ends the previous number")


def pos_after(fn, a, b, da, db):
    """b starts one past a separator searched for from a's start."""
    one = ir.ladd(db, {1: Fraction(1)}, -1)
    xs = [x for x in one if x != 1]
    if len(xs) != 1 or one[xs[0]] != 1 or one.get(1, 0) != 0:
        return False
    finds = [c for c in fn.calls(r"^memchr$|::find$")]
    ids = deep_calls(fn, xs[0])
    for c in finds:
        if c.id in ids:
            es = [fn.E(q) for q in c.args]
            if fn.lin(es[0]) == a[1] or any(fn.lin(e) == ir.ladd(a[1], {("arg", 2): Fraction(1)}, -1) for e in es):
                return True
    return False


def deep_calls(fn, e):
    """Calls an expression depends on, through phis."""
    ids, seen, work = set(), set(), [e]
    while work:
        for x in ir.walk(work.pop()):
            if isinstance(x, tuple) and x and x not in seen:
                seen.add(x)
                if x[0] == "call":
                    ids.add(x[2])
                if x[0] == "phi":
                    work += [fn.E(v) for v, b in fn.ins[x[1]].r["inc"]]
    return ids


def mkroot(e):
    b, o, v = split(e)
    return b


def str_arg(fn, c):
    """The value inserted is the string passed in."""
    for a in c.args[1:]:
        e = fn.E(a)
        b, o, v = split(e)
        if b == ("arg", 2) or b == ("arg", 1):
            return True
        if b[0] == "alloca":
            cs = content(fn, b, o + 8, c)
            if cs and all(x[0] == "val" and strip(x[1]) == ("arg", 2) for x in cs):
                return True
    return False


def arg_text(fn, c):
    for a, b in zip(c.args, c.args[1:]):
        l, t = fn.E(a), text(fn, fn.E(b))
        if l[0] == "c" and t is not None:
            return t[:l[1]]
    for a in c.args:
        t = None
        try:
            t = view_text(fn, a, c)
        except Exception:
            t = None
        if t is not None and (t.startswith("__") or t == "object"):
            return t
        b, o, v = split(fn.E(a))
        if b[0] == "g" and re.search(r"config_\w+_key", b[1]):
            t = text(fn, fn.E(a))
            if t is not None:
                return t
    return None


def ver_at(fn, ref, at):
    e = fn.E(ref)
    b, o, v = split(e)
    if b[0] == "g":
        ini = (fn.mod.glob.get(b[1]) or {}).get("init")
        return tuple(int(x) for x in ini) if ini and len(ini) == 3 else None
    out = []
    for k in range(3):
        cs = content(fn, b, o + 8 * k, at)
        if len(cs) != 1:
            return None
        c = cs.pop()
        if c[0] == "mem":
            bb, oo, vv = split(c[1])
            if bb[0] == "g":
                ini = (fn.mod.glob.get(bb[1]) or {}).get("init")
                if ini and len(ini) == 3:
                    out.append(int(ini[oo // 8]))
                    continue
            return None
        if c[0] == "val" and c[1][0] == "c":
            out.append(c[1][1])
            continue
        return None
    return tuple(out)


def version_loads(fn, gv):
    """Loads (as expressions) of parts of a version returned by one of the calls gv."""
    ids = {c.id for c in gv}
    out = {}
    for i in fn.all("load"):
        e = ("ld", fn.E(i.ops[0]))
        b, o, v = split(e[1])
        if v or b[0] != "alloca":
            continue
        cs = content(fn, b, o, i)
        if cs and all(c[0] == "res" and c[1] in ids for c in cs):
            ds = {c[2] for c in cs}
            if len(ds) == 1 and next(iter(ds)) in (0, 8, 16):
                out[e] = next(iter(ds)) // 8
    return out


# ---- element types -------------------------------------------------------------------------
KINDS = {"data": ("eltype", "float32"), "graph": ("eltype", "uint32"), "bgraph": ("eltype", "uint32"), "blob": ("element_type", "float32"), "clusters": ("integer_type", "uint32")}
INTERPRET = re.compile(r"^svs::io::(find_uuid|load_dataset|auto_load)$|^svs::lib::(open_read|read_binary|load_from_disk)$|resolve_at$|NodeView::context$|^std::filesystem::file_size$")


def check_elements(ctx, m, sv):
    ctx.rule("element", "stored data is read only when the recorded element type (or kind) is the one the class is instantiated for")
    for l, (key, ty) in KINDS.items():
        fn = ctx.one(m, l + "_load")
        want = written_type(ctx, sv, "graph" if l == "bgraph" else l, key)
        cs = [c for c in fn.calls(r"^svs::lib::load_at$") if key_of(fn, c) == key]
        uses = [c for c in fn.all() if c.is_call and INTERPRET.search(c.name)]
        ctx.need(uses, "reading calls of " + l)
        if not ctx.ob("element", l + "/read", len(cs) >= 1, fn.name, f"'{key}' is not read"):
            continue
        ctx.need(want is not None, f"element type written for {l}")
        bad, ok = [], None
        for v in range(0, 32):
            ids = {c.id for c in cs}

            def leaf(e, K):
                if e[0] == "call" and e[2] in ids:
                    return v
                if e[0] == "ld":
                    b, o, vv = split(e[1])
                    if b[0] == "alloca" and not vv:
                        st = {s.id for s in fn.all("store") if split(fn.E(s.ops[1]))[:2] == (b, o)}
                        es = {fn.E(fn.ins[s].ops[0]) for s in st}
                        if es and all(x[0] == "call" and x[2] in ids for x in es):
                            return v
                return None
            K = run_const(fn, leaf)
            hit = [u for u in uses if u.b in K.blocks]
            if v == want:
                ok = bool(hit)
            elif hit:
                bad.append((v, hit[0].where))
        ctx.ob("element", l + "/refused", not bad, cs[0].where, f"data is read although the recorded type differs: {bad[:2]}")
        ctx.ob("element", l + "/accepted", ok, cs[0].where, "the type written by save is refused")
        for u in uses:
            ctx.ob("element", f"{l}/before@{u.where}", fn.path(None, u, avoid=cs) is None, u.where, "read before the element type is known")
    # textual kinds
    fn = ctx.one(m, "trans_load")
    uses = [c for c in fn.all() if c.is_call and INTERPRET.search(c.name)]
    ctx.need(uses, "reading calls of trans")
    sf = ctx.one(sv, "trans_save")
    rows = {e.key: e.src[1] for e in saved(sf)[0][4] if e.src and e.src[0] == "str"}
    rows.update({k: t for k, t in str_entries(sf).items()})
    rows.update({"external_id_type": "uint64", "internal_id_type": "uint32"})
    textual(ctx, fn, ("kind", "external_id_type", "internal_id_type"), rows, uses, "trans")
    for l in ("l2", "ip", "cos"):
        fn = ctx.one(m, l + "_load")
        rows = {e.key: e.src[1] for e in saved(ctx.one(sv, l + "_save"))[0][4] if e.src and e.src[0] == "str"}
        rows.update(str_entries(ctx.one(sv, l + "_save")))
        textual(ctx, fn, ("name",), rows, [i for i in fn.all("ret")], l)


def str_entries(fn):
    """Keys saved with a constant text through lib::save(string_view)."""
    out = {}
    for i in fn.calls(r"table_init_pair::table_init_pair$"):
        k = text(fn, fn.E(i.args[1])) or view_text(fn, i.args[1], i)
        t = view_text(fn, i.args[2], i)
        if k and t is not None:
            out[k] = t
    ts = saved(fn)
    for e in ts[0][4]:
        if e.src and e.src[0] == "expr" or e.src and e.src[0] == "const":
            t = text(fn, e.src[1])
            if t is not None:
                out[e.key] = t
    for i in fn.calls(r"table_init_pair::table_init_pair$"):
        k = text(fn, fn.E(i.args[1])) or view_text(fn, i.args[1], i)
        b, o, v = split(fn.E(i.args[2]))
        for c in content(fn, b, o, i):
            if c[0] == "res":
                call = fn.ins[c[1]]
                for x, y in zip(call.args[1:], call.args[2:]):
                    l, t = fn.E(x), text(fn, fn.E(y))
                    if l[0] == "c" and t is not None:
                        out[k] = t[:l[1]]
                for x in call.args[1:]:
                    t = view_text(fn, x, call)
                    if t is not None:
                        out.setdefault(k, t)
    return out


def textual(ctx, fn, keys, rows, uses, l):
    calls = [c for c in fn.all() if c.is_call and c.name in ("svs::lib::load_at",) or c.is_call and c.name.startswith("svs::toml_helper::get_as")]
    by = {}
    for c in calls:
        by.setdefault(key_of(fn, c), []).append(c)
    for key in keys:
        want = rows.get(key)
        cs = by.get(key, [])
        if not ctx.ob("element", f"{l}/{key}/read", cs and want is not None, fn.name, f"'{key}' is not read back (written: {want})"):
            continue
        ids = {c.id for c in cs}

        def run(s):
            def is_str(e, at):
                b, o, v = split(e)
                if b[0] == "alloca" and not v:
                    for c in cs:
                        if split(fn.E(c.args[0]))[:2] == (b, o):
                            return True
                    cc = content(fn, b, o, at)
                    if any(x[0] == "res" and x[1] in ids for x in cc):
                        return True
                    for k in fn.calls(r"basic_string::basic_string$"):
                        if split(fn.E(k.args[0]))[:2] == (b, o) and any(is_src(fn, a, ids) for a in k.args[1:]):
                            return True
                return is_src(fn, None, ids, e)
            V = View(fn, s, is_str)
            return run_const(fn, V.leaf)
        K = run(want)
        ctx.ob("element", f"{l}/{key}/accepted", all(u.b in K.blocks for u in uses), cs[0].where, f"'{want}' is refused")
        bad = []
        for s in variants(want):
            if s == want:
                continue
            K = run(s)
            if any(u.b in K.blocks for u in uses):
                bad.append(s)
        ctx.ob("element", f"{l}/{key}/refused", not bad, cs[0].where, f"interpreted with {key} = {bad[:3]} where '{want}' is required")


def is_src(fn, ref, ids, e=None):
    e = fn.E(ref) if e is None else e
    b, o, v = split(e)
    return b[0] == "call" and b[2] in ids or any(x[0] == "call" and x[2] in ids for x in ir.walk(e) if isinstance(x, tuple) and x and len(x) > 2)


def written_type(ctx, sv, l, key):
    """Enumerator saved under key."""
    fn = ctx.one(sv, l + "_save")
    for i in fn.calls(r"table_init_pair::table_init_pair$"):
        k = text(fn, fn.E(i.args[1])) or view_text(fn, i.args[1], i)
        if k != key:
            continue
        b, o, v = split(fn.E(i.args[2]))
        for c in content(fn, b, o, i):
            if c[0] == "res":
                call = fn.ins[c[1]]
                a = fn.E(call.args[1])
                bb, oo, vv = split(a)
                if bb[0] == "g":
                    g = fn.mod.glob.get(bb[1]) or {}
                    ini = g.get("init")
                    if ini is not None and len(ini) == 1:
                        return int(ini[0])
                if bb[0] == "alloca":
                    cs = content(fn, bb, oo, call)
                    vs = {x[1][1] for x in cs if x[0] == "val" and x[1][0] == "c"}
                    if len(vs) == 1:
                        return vs.pop()
                if a[0] == "c":
                    return a[1]
    return None


# ---- native files and dimensions -----------------------------------------------------------
def check_native(ctx, m):
    ctx.rule("magic", "a native file is interpreted with the header layout its magic number names, and refused otherwise")
    ctx.rule("extent", "data of another dimensionality is refused")
    magic = {}
    for l in ("vtest", "v1", "db"):
        fn = ctx.one(m, "hdr_" + l)
        r = fn.rets()[0]
        cs = content(fn, ("arg", 0), 0, r)
        vs = {c[1][1] for c in cs if c[0] == "val" and c[1][0] == "c"}
        if any(c[0] == "clobber" for c in cs):      # a loop over the padding behind the number
            vs |= {fn.E(i.ops[0])[1] for i in fn.all("store") if split(fn.E(i.ops[1])) == (("arg", 0), 0, ()) and fn.E(i.ops[0])[0] == "c"}
        ctx.need(len(vs) == 1, "magic number of " + l)
        magic[l] = vs.pop()
    ctx.ob("magic", "distinct", len(set(magic.values())) == 3, "", str(magic))
    HD = {"vtest": "vtest::Header", "v1": "v1::Header", "db": "database::Header"}
    for l, pat, okset in (("native_dims", r"detail::get_dims$", ("vtest", "v1")), ("native_uuid", r"detail::read_header$", ("vtest", "v1", "db"))):
        fn = ctx.one(m, l)
        src = {c.id for c in fn.calls(r"get_magic_number$")}
        use = fn.calls(pat)
        ctx.need(src and use, "magic number read in " + l)
        for n, v in list(magic.items()) + [("other", 0), ("other2", 1), ("near", magic["v1"] + 1), ("low", magic["v1"] & 0xFFFFFFFF), ("low-vtest", magic["vtest"] & 0xFFFFFFFF)]:
            K = run_const(fn, lambda e, K: v if e[0] == "call" and e[2] in src else None)
            hit = [u for u in use if u.b in K.blocks]
            kinds = {hdr_kind(u) for u in hit}
            want = {HD[n]} if n in okset else set()
            ctx.ob("magic", f"{l}/{n}", kinds == want, use[0].where, f"read as {sorted(map(str, kinds))}, expected {sorted(want)}")
            ret_ok = any(r.b in K.blocks for r in fn.rets())
            if l == "native_dims" and not want:
                ctx.ob("magic", f"{l}/{n}/refused", not ret_ok, fn.name, "no exception for an unknown or unsupported file")
    fn = ctx.one(m, "db_ctor")
    src = {c.id for c in fn.calls(r"read_header$")}
    for v in (magic["db"], magic["v1"], magic["vtest"], 0, magic["db"] + 1):
        def leaf(e, K):
            if e[0] == "ld":
                b, o, vv = split(e[1])
                if not vv and o % 64 == 0:
                    for r in fn.rets()[:1]:
                        cs = content(fn, b, o, r)
                        if cs and all(c[0] == "res" and c[1] in src and c[2] == 0 for c in cs):
                            return v
            return None
        K = run_const(fn, leaf)
        ok = any(r.b in K.blocks for r in fn.rets())
        ctx.ob("magic", f"database file/{v}", ok == (v == magic["db"]), fn.name, "accepted" if ok else "refused")
    # fixed extents: the constructor refuses other dimensions, and so does a store of another length
    for l in ("fixed_ctor", "bfixed_ctor"):
        fn = ctx.one(m, l)
        dim = [("arg", 2)]
        for v in (64, 63, 65, 0, 128, 2 ** 32 + 64):
            K = run_const(fn, lambda e, K: v if e == ("arg", 2) or (e[0] == "ld" and is_dim_copy(fn, e)) else None)
            ok = any(r.b in K.blocks for r in fn.rets())
            ctx.ob("extent", f"{l}/{v}", ok == (v == 64), fn.name, f"{v} dimensions {'accepted' if ok else 'refused'} for 64")
    for l in ("fixed_set", "data_set"):
        fn = ctx.one(m, l)
        writes = [i for i in fn.all() if i.is_call and re.search(r"llvm\.mem(cpy|move)", i.name)] + [i for i in fn.all("store") if split(fn.E(i.ops[1]))[0][0] not in ("alloca",)]
        writes = [w for w in writes if w.b not in fn.cold]
        ctx.need(writes, "copy in " + l)
        for v in (64, 63, 65, 0, 128):
            def leaf(e, K):
                if e == ("arg", 3):
                    return v
                if e[0] == "ld" and is_mem_dim(fn, e):
                    return 64
                if e[0] == "call" and re.search(r"dimensions$|__invoke$|getsize$|std::get$", e[1]):
                    return 64
                return None
            K = run_const(fn, leaf)
            hit = any(w.b in K.blocks for w in writes)
            ctx.ob("extent", f"{l}/{v}", hit == (v == 64), fn.name, f"vector of {v} components {'stored' if hit else 'refused'} for 64 dimensions")


def is_dim_copy(fn, e):
    b, o, v = split(e[1])
    if b[0] != "alloca" or v:
        return False
    es = {fn.E(s.ops[0]) for s in fn.all("store") if split(fn.E(s.ops[1]))[:2] == (b, o)}
    return es == {("arg", 2)}


def is_mem_dim(fn, e):
    b, o, v = split(e[1])
    return b == ("arg", 0) and not v and o > 0


def hdr_kind(u):
    d = u.r.get("d") or ""
    m = re.search(r"(vtest|v1|database)::Header", d)
    return m.group(0) if m else None


def check_matcher(ctx, m):
    ctx.rule("hint", "a dataset description that contradicts a given element type or dimensionality hint is refused")
    fn = ctx.one(m, "match")
    by = {}
    for c in fn.calls(r"^svs::lib::load_at$"):
        by.setdefault(key_of(fn, c), []).append(c.id)
    und = undef_value(fn)
    for key, arg, vals in (("eltype", 1, (1, 2, 5, 9)), ("dims", 2, (1, 64, 65))):
        free = und if key == "eltype" else DYNAMIC        # "no hint"
        ids = by.get(key)
        if not ctx.ob("hint", key + "/read", ids, fn.name, "not read"):
            continue
        for h in vals + ((free,) if free is not None else ()):
            for f in vals:
                def leaf(e, K):
                    if e[0] == "call" and e[2] in ids:
                        return f
                    if e == ("arg", arg):
                        return h
                    if e[0] == "ld":
                        b, o, vv = split(e[1])
                        if b[0] in ("alloca", "arg") and not vv:
                            es = {strip(fn.E(s.ops[0])) for s in fn.all("store") if split(fn.E(s.ops[1]))[:2] == (b, o)}
                            if es and all(x[0] == "call" and x[2] in ids for x in es):
                                return f
                            if es == {("arg", arg)}:
                                return h
                    return None
                K = run_const(fn, leaf)
                ok = any(r.b in K.blocks for r in fn.rets())
                want = h == f or h == free
                ctx.ob("hint", f"{key}: {h} for {f}", ok == want, fn.name, "accepted" if ok else "refused")


DYNAMIC = -1


def undef_value(fn):
    for n, e in (getattr(fn.mod, "enums", {}) or {}).items():
        if n.endswith("svs::DataType"):
            return e.get("undef")
    return None


def check(ctx):
    names = [l + "_ld" for l in FREE + FILES + list(SAVE_OF)] + ["state_ld"] + [l + "_save" for l in FREE + FILES]
    subs = [l + "_load" for l in FREE + FILES + ["bgraph"]]
    top = ["disk", "disk_build", "file", "save_dir", "save_file", "view", "savetable", "parse", "hdr_vtest", "hdr_v1", "hdr_db", "native_dims",
           "native_uuid", "db_ctor", "fixed_ctor", "bfixed_ctor", "fixed_set", "data_set", "match"]
    tp = TOP.replace("opaque ^svs::(index|data|graphs|distance)::.*::load$", "opaque ^svs::(index|graphs|distance)::.*::load$\nopaque ^svs::data::SimpleData::load$")
    raw = "entry r_get_version ^h_get_version\\(((?!\\)::).)*$\n+inline ^svs::lib::get_version$\nentry r_get_schema ^h_get_schema(\\[abi:cxx11\\])?\\(((?!\\)::).)*$\n+inline ^svs::lib::get_schema$\n"
    m, ms, mt, md = ctx.analyse_all([
        ("compat.cpp", GATE + dyn.entries(*names)),
        ("saveload.cpp", SUB + dyn.entries(*subs)),
        ("compat.cpp", tp + dyn.entries(*top) + raw),
        ("saveload.cpp", GATE + "opaque ^svs::index::vamana::MutableVamanaIndex::(consolidate|compact)$\nopaque ^svs::lib::save_to_disk$\n" + r"entry dyn_lambda ^svs::index::vamana::MutableVamanaIndex<.*>::save\(.*\)::'lambda\d*'\([^()]*SaveContext[^()]*\)::operator\(\)" + "\n")])
    saves = {}
    for l in FREE + FILES:
        ts = saved(ctx.one(m, l + "_save"))
        ctx.need(len(ts) == 1 and ts[0][1] and ts[0][2], f"schema and version written by {l}")
        saves[l] = (ts[0][1], ts[0][2])
    ts = [t for f in md.fns for t in saved(f)]
    saves["dyn"] = (ts[0][1], ts[0][2]) if len(ts) == 1 and ts[0][1] and ts[0][2] else None
    if saves["dyn"] is None:
        ctx.notes.append("schema of the mutable index's state not recognised: its gate is checked against the static schema only")
    ctx.notes.append("written schemas and versions: " + "; ".join(f"{l}: {x[0]} v{'.'.join(map(str, x[1]))}" for l, x in saves.items() if x))
    check_gates(ctx, m, ms, saves)
    check_elements(ctx, ms, m)
    check_top(ctx, mt)
    check_native(ctx, mt)
    check_matcher(ctx, mt)
    ctx.minimum("schema", 15)
    ctx.minimum("element", 30)
