"""C07: every saved setting is loaded back into the setting it came from.

Analysed: save() and load() of every serialisable class (build, search and index parameters, clustering and inverted parameters,
id translation, datasets, graphs, clusterings, binary blobs, distances), the binary encoding of clusters and translations, and
the index state written by both Vamana indexes against the code that restores it. Every key written to a table is traced back to
the field it was read from; on the load side the contents of every field of the returned object are traced back to the key they
were loaded from, on the control flow that remains when the stored version is the version save() writes, and separately on all
version paths. Both maps must agree field by field, for all values."""
import re
from ..lib import *
from ..content import *
from .. import ir, dyn

POLICY = r"""opaque ^svs::lib::(load_at|load|save|save_to_disk)$
opaque ^svs::lib::SaveTable::
opaque ^svs::lib::.*NodeView
opaque ^svs::io::
opaque ^svs::data::DenseArray::
opaque ^svs::lib::(UUID|read_binary|write_binary|open_read|open_write)
opaque ^svs::threads::NativeThreadPool
opaque ^svs::index::vamana::MutableVamanaIndex::(consolidate|compact)$
opaque ^svs::lib::.*load_from_(disk|file)
"""
PARAM = {
    "build": r"^svs::index::vamana::VamanaBuildParameters$", "search": r"^svs::index::vamana::VamanaSearchParameters$",
    "index": r"^svs::index::vamana::VamanaIndexParameters$", "clusterp": r"^svs::index::inverted::ClusteringParameters$",
    "invb": r"^svs::index::inverted::InvertedBuildParameters$", "invs": r"^svs::index::inverted::InvertedSearchParameters$",
}
LEGACY = {"index": {"max_out_degree": "graph_max_degree", "construction_window_size": "window_size", "max_candidates": "max_candidate_pool_size"}}
FILES = ["trans", "data", "graph", "clusters", "blob"]
STR = "string"


def key_of(fn, call):
    """Key of a load_at / resolve_at / contains call: the (length, chars) argument pair."""
    for a, b in zip(call.args, call.args[1:]):
        l, t = fn.E(a), text(fn, fn.E(b))
        if l[0] == "c" and t is not None:
            return t[:l[1]]
    for a in call.args:
        t = view_text(fn, a, call)
        if t is not None:
            return t
    return None


def tmpl(d, name):
    """First template argument of the named function in a demangled signature."""
    m = re.search(re.escape(name) + "<", d or "")
    if not m:
        return None
    k, depth, s = m.end(), 0, ""
    while k < len(d):
        c = d[k]
        if c in "<(":
            depth += 1
        elif c in ">)":
            if depth == 0:
                break
            depth -= 1
        elif c == "," and depth == 0:
            break
        s += c
        k += 1
    return s.strip()


INT = {"unsigned long": 8, "long": 8, "unsigned int": 4, "int": 4, "unsigned short": 2, "short": 2, "unsigned char": 1, "signed char": 1, "char": 1}


def fam(t):
    if t is None:
        return None
    t = t.replace("const ", "").strip()
    if t in INT:
        return ("int", INT[t])
    if t in ("float", "double"):
        return ("float", 4 if t == "float" else 8)
    if t == "bool":
        return ("bool",)
    if re.match(r"^std::(__cxx11::)?basic_string", t) or t in ("svs::DataType", "svs::lib::UUID", "svs::DistanceType") or re.match(r"^std::filesystem::.*path$", t):
        return (STR,)
    return ("class", t)


def compatible(s, l):
    """A value saved as s can be read as l without loss."""
    if s is None or l is None or s[0] != l[0]:
        return False
    if s[0] == "int":
        return l[1] >= s[1]
    if s[0] == "float":
        return l[1] >= s[1]
    if s[0] == "class":
        return s[1] == l[1]
    return True


class Saved:
    def __init__(self, key, ins):
        self.key, self.ins = key, ins
        self.src = None      # ("field", base, off) | ("str", text) | ("file", base) | ("uuid", base) | ("expr", e)
        self.fam = None

    def __repr__(self):
        return f"{self.key}<-{self.src}:{self.fam}"


def canon(fn, e, edges=None):
    """A scalar expression as a memory location read, when it is one."""
    vs = expand(fn, e, edges)
    if len(vs) == 1:
        e = vs.pop()
        if e[0] == "ld":
            b, o, v = split(e[1])
            if not v:
                return ("field", b, o)
    return ("expr", e)


def origin(fn, ref, at):
    """Where the object passed by pointer comes from."""
    e = fn.E(ref)
    b, o, v = split(e)
    if b[0] == "alloca" and not v:
        c = content(fn, b, o, at)
        if len(c) == 1:
            c = next(iter(c))
            if c[0] == "val":
                return canon(fn, c[1])
            if c[0] == "mem":
                bb, oo, vv = split(c[1])
                return ("field", bb, oo)
            if c[0] == "res":
                k = fn.ins[c[1]]
                if k.name.endswith("path::filename"):
                    return ("file", fn.E(k.args[1]))
                if re.search(r"^svs::lib::UUID::", k.name):
                    return ("uuid", fn.E(k.args[1]))
                return ("expr", ("call", k.name, k.id))
            if c[0] == "clobber":
                k = fn.ins[c[1]]
                if "UUID::UUID" in k.name:
                    return ("uuid", e)
        return ("obj", b)
    if b[0] == "g":
        return ("const", e)
    return ("field", b, o)


def saved(fn):
    """Entries of the table(s) a save function builds: [(SaveTable call, schema, version, [Saved])]."""
    out = []
    inits = fn.calls(r"table_init_pair::table_init_pair$")
    for t in fn.calls(r"^svs::lib::SaveTable::SaveTable$"):
        # SaveTable(ret, len, schema, &version, array, n)
        es = [fn.E(a) for a in t.args]
        schema = ver = None
        for a, b in zip(es, es[1:]):
            if a[0] == "c" and text(fn, b) is not None:
                schema = text(fn, b)[:a[1]]
                break
        for k, e in enumerate(es):
            b, o, v = split(e)
            if b[0] == "g" and (fn.mod.glob.get(b[1]) or {}).get("init") and len(fn.mod.glob[b[1]]["init"]) == 3:
                ver = tuple(int(x) for x in fn.mod.glob[b[1]]["init"])
            elif b[0] == "alloca" and ver is None:
                vs = []
                for off in (0, 8, 16):
                    c = content(fn, b, o + off, t)
                    c = next(iter(c)) if len(c) == 1 else None
                    vs.append(c[1][1] if c and c[0] == "val" and c[1][0] == "c" else None)
                if None not in vs:
                    ver = tuple(vs)
        arr, n = es[-2], es[-1]
        b, o, v = split(arr)
        ents = []
        for i in inits:
            bb, oo, vv = split(fn.E(i.args[0]))
            if bb == b and not vv:
                ents.append((oo - o, entry(fn, i)))
        ents.sort(key=lambda x: x[0])
        out.append((t, schema, ver, n, [e for _, e in ents], [k for k, _ in ents]))
    for c in fn.calls(r"^svs::lib::SaveTable::insert"):
        k = key_of(fn, c)
        if k is not None and out:
            s = Saved(k, c)
            out[0][4].append(s)
    return out


def entry(fn, i):
    k = text(fn, fn.E(i.args[1]))
    if k is None:
        k = view_text(fn, i.args[1], i)
    s = Saved(k, i)
    v = fn.E(i.args[2])
    t = text(fn, v)
    if t is not None:
        s.src, s.fam = ("str", t), (STR,)
        return s
    b, o, vv = split(v)
    c = content(fn, b, o, i)
    for x in c:
        if x[0] == "res":
            call = fn.ins[x[1]]
            if call.name == "svs::lib::save":
                s.fam = fam(tmpl(call.r.get("d"), "svs::lib::save"))
                s.src = origin(fn, call.args[1], call)
                return s
            if call.name.startswith("svs::lib::UUID::"):
                s.fam, s.src = (STR,), ("uuid", fn.E(call.args[1]))
                return s
    s.src = origin(fn, i.args[2], i)
    s.fam = (STR,)
    return s


def version_leaf(ver):
    def leaf(e):
        if e[0] == "ld":
            b, o, v = split(e[1])
            if b[0] == "call" and re.search(r"NodeView::version$", b[1]) and not v and o in (0, 8, 16):
                return ver[o // 8]
        return None
    return leaf


def loads(fn, blocks=None):
    out = []
    for c in fn.calls(r"^svs::lib::load_at$") + fn.calls(r"NodeView::resolve_at$"):
        if blocks is None or c.b in blocks:
            out.append((c, key_of(fn, c), fam(tmpl(c.r.get("d"), "svs::lib::load_at")) if c.name.endswith("load_at") else (STR,)))
    return out


def field_keys(fn, base, off, at, K, byid):
    """Keys (or other sources) a field of the returned object may come from."""
    out = set()
    for c in content(fn, base, off, at, K.cut):
        if c[0] == "val":
            for e in expand(fn, c[1], K.edges):
                if e[0] == "ev":
                    e = e[1]
                if e[0] == "call" and e[2] in byid:
                    out.add(("key", byid[e[2]], 0))
                elif e[0] == "ld" and split(e[1])[0][0] == "call" and split(e[1])[0][2] in byid:
                    out.add(("key", byid[split(e[1])[0][2]], 0))
                else:
                    out.add(("other", e))
        elif c[0] == "res" and c[1] in byid:
            out.add(("key", byid[c[1]], c[2]))
        else:
            out.add(("other", c))
    return out


def leaves(m, ty, off=0, d=0):
    """Scalar fields of a class: (offset, size, path)."""
    lay = m.layouts.get(ir.clean_ty(ty))
    if lay is None or d > 8 or not lay["members"]:
        return None
    out = []
    for o, s, n, t in lay["members"]:
        if s == 0:
            continue
        sub = leaves(m, t, off + o, d + 1)
        if sub is None:
            lt = m.layouts.get(ir.clean_ty(t))
            if lt is not None and not lt["members"]:
                continue
            out.append((off + o, s, n))
        else:
            out += [(a, b, (n + "." + c) if n != "<base>" else c) for a, b, c in sub]
    return out


def check(ctx):
    ctx.rule("table", "every entry of a saved table is listed and has its own key")
    ctx.rule("roundtrip", "a field written under a key is loaded back from that key")
    ctx.rule("complete", "every field of a parameter class is saved")
    ctx.rule("keys", "every key that load requires is written by save with a compatible type")
    ctx.rule("legacy", "reading an older version puts every key into its own field")
    ctx.rule("file", "the file an object names in its table is the one it wrote, and load opens the file named by that key")
    ctx.rule("count", "the number of stored elements is what drives reading them back")
    ctx.rule("binary", "binary values are read back in the order, types and places they were written from")
    ctx.rule("state", "each saved setting of an index is restored into the member it was taken from")
    ctx.rule("names", "a distance is saved under the name its own load expects")
    labels = []
    for l in PARAM:
        labels += [l + "_save", l + "_load"]
    for l in FILES:
        labels += [l + "_save", l + "_load"]
    labels += ["l2_save", "l2_load", "ip_save", "ip_load", "cos_save", "cos_load", "cluster_write", "cluster_read", "bgraph_load",
               "static_save", "static_apply", "dyn_ctor", "state_load"]
    m = ctx.analyse("saveload.cpp", POLICY + dyn.entries(*labels) +
                    r"entry dyn_lambda ^svs::index::vamana::MutableVamanaIndex<.*>::save\(.*\)::'lambda\d*'\([^()]*SaveContext[^()]*\)::operator\(\)" + "\n")
    F = lambda l: ctx.one(m, l)
    S = {}

    # ---- tables
    for l in list(PARAM) + FILES + ["l2", "ip", "cos"]:
        fn = F(l + "_save")
        ts = saved(fn)
        ctx.need(len(ts) == 1, f"one table built in {l} save")
        t, schema, ver, n, ents, pos = ts[0]
        S[l] = (fn, t, schema, ver, {e.key: e for e in ents})
        ks = [e.key for e in ents]
        ctx.ob("table", l, len(set(ks)) == len(ks) and None not in ks, t.where, f"keys {ks}")
        gap = n[0] == "c" and pos == [72 * k for k in range(n[1])]
        ctx.ob("table", l + ":all", gap, t.where, "the table does not list exactly the entries that were prepared")
        ctx.need(ver is not None and schema, f"schema and version of {l}")

    # ---- parameter classes
    for l, ty in PARAM.items():
        fn, t, schema, ver, ents = S[l]
        lf = F(l + "_load")
        names = [n for n in m.layouts if re.match(ty, n)]
        ctx.need(len(names) == 1, f"layout of {l} parameters")
        fields = leaves(m, names[0])
        byid = {c.id: k for c, k, _ in loads(lf)}
        K = Const(lf, version_leaf(ver))
        allK = Const(lf, lambda e: None)
        ret = lf.rets()
        ctx.need(len(ret) == 1, f"return of {l} load")
        own = {}           # field offset -> key
        for k, e in ents.items():
            if e.src and e.src[0] == "field" and e.src[1] == ("arg", 1):
                off = e.src[2]
                size = 1
                if e.fam[0] == "class":
                    size = fn.sizeof(e.fam[1]) or 1
                for fo, fs, fnm in fields:
                    if off <= fo < off + max(size, 1):
                        own.setdefault(fo, []).append((k, fo - off))
        for fo, fs, fnm in fields:
            ks = own.get(fo)
            ctx.ob("complete", f"{l}.{fnm}", bool(ks), t.where, "this field is not written to the table")
            if not ks:
                continue
            got = field_keys(lf, ("arg", 0), fo, ret[0], K, byid)
            want = {("key", k, d) for k, d in ks}
            ctx.ob("roundtrip", f"{l}.{fnm}", bool(got) and got <= want, lf.r.get("where") or ret[0].where,
                   f"saved under {[k for k, _ in ks]} but filled from {sorted(map(str, got))}")
        # a field stored from a source other than one of its own
        alias = LEGACY.get(l, {})
        pres = {k for c, k, _ in loads(lf)}
        for fo, fs, fnm in fields:
            got = field_keys(lf, ("arg", 0), fo, ret[0], allK, byid)
            mine = {k for k, _ in own.get(fo, [])} | {o for o, n in alias.items() if n == fnm.split(".")[-1].rstrip("_")} | {fnm.split(".")[-1].rstrip("_")}
            if l == "index":
                mine |= {{"search_window_size": "default_search_window_size", "total_capacity": "default_search_window_size",
                          "search_buffer_visited_set": "visited_set"}.get(fnm.split(".")[-1].rstrip("_"), fnm)}
            keys = {x[1] for x in got if x[0] == "key"}
            foreign = keys - mine
            bad = (bool(pres & mine) and not (keys & mine)) or (bool(foreign) and not (keys & mine))
            if foreign and keys & mine:
                # a default taken from another setting is only allowed where the setting itself may be missing
                bad = not any(len(expand(lf, c[1], allK.edges)) > 1 for c in content(lf, ("arg", 0), fo, ret[0]) if c[0] == "val")
            ctx.ob("legacy", f"{l}.{fnm}", not bad, ret[0].where, f"may be filled from {sorted(keys)}; its own keys are {sorted(mine)}")

    # ---- keys and types, for every class
    for l in list(PARAM) + FILES + ["l2", "ip", "cos"]:
        fn, t, schema, ver, ents = S[l]
        for ll in [l + "_load"] + (["bgraph_load"] if l == "graph" else []):
            lf = F(ll)
            K = Const(lf, version_leaf(ver))
            for c, k, f in loads(lf, K.blocks):
                ok = k in ents and compatible(ents[k].fam, f)
                ctx.ob("keys", f"{ll}:{k}", ok, c.where, f"save writes {ents[k].fam if k in ents else 'no such key'}, load wants {f}")
    ctx.minimum("keys", 40)

    # ---- auxiliary files
    for l in FILES:
        fn, t, schema, ver, ents = S[l]
        filek = [e for e in ents.values() if e.src and e.src[0] == "file"]
        uuidk = [e for e in ents.values() if e.src and e.src[0] == "uuid"]
        ctx.ob("file", l + ":named", len(filek) == 1, t.where, "the table does not record the name of the file")
        lds = [F(l + "_load")] + ([F("bgraph_load")] if l == "graph" else [])
        if uuidk:
            w = fn.calls(r"^svs::io::save$")
            u = [x for x in w if any(fn.E(a) == uuidk[0].src[1] for a in x.args)]
            ctx.ob("file", l + ":uuid", len(w) == 1 and len(u) == 1 and len(uuidk) == 1, t.where, "the identifier in the table is not the one written into the file")
            for lf in lds:
                fu = lf.calls(r"^svs::io::find_uuid$")
                ctx.ob("file", lf.label + ":find", bool(fu), lf.rets()[0].where, "load does not look the file up by its identifier")
                for c in fu:
                    b, o, v = split(lf.E(c.args[-1]))
                    cs = content(lf, b, o, c)
                    ks = {key_of(lf, lf.ins[x[1]]) if x[0] == "res" else key_of(lf, lf.ins[x[1][1][2]]) if x[0] == "val" and x[1][0] == "ev" and x[1][1][0] == "call" else None for x in cs}
                    ctx.ob("file", lf.label + ":uuid", ks == {uuidk[0].key}, c.where, f"looked up by {ks}")
                    # the result of the lookup is the file that is loaded
                    dst = split(lf.E(c.args[0]))[0]
                    use = [i for i in lf.calls(r"^svs::(io::|lib::.*load_from_disk|data::)") if i is not c and any(mentions_obj(lf, lf.E(a), dst, i) for a in i.args)]
                    ctx.ob("file", lf.label + ":opens", bool(use), c.where, "the file found is not the file loaded")
        else:
            ow = fn.calls(r"^svs::lib::open_write$")
            ok = len(ow) == 1 and filek and same_path(fn, ow[0].args[1], filek[0].src[1], ow[0])
            ctx.ob("file", l + ":written", ok, t.where, "the file named in the table is not the file that was written")
            for lf in lds:
                orr = lf.calls(r"^svs::lib::open_read$")
                ks = {path_key(lf, c.args[1], c) for c in orr}
                ctx.ob("file", lf.label + ":opens", len(orr) == 1 and filek and ks == {filek[0].key}, orr[0].where if orr else lf.rets()[0].where,
                       f"the file opened is named by {ks}")
                for c in lf.calls(r"file_size$"):
                    k = path_key(lf, c.args[0], c)
                    ctx.ob("file", lf.label + ":size", filek and k == filek[0].key, c.where, f"size of the file named by {k}")
        # the object written is the object saved
        for w in fn.calls(r"^svs::io::save$"):
            r = root(fn, fn.E(w.args[0]))
            ctx.ob("file", l + ":object", r is not None and r[0] == ("arg", 1), w.where, "the data written to the file is not this object's")
            nf = [x for x in fn.calls(r"^svs::io::\w+::\w+$") if split(fn.E(x.args[0]))[0] == split(fn.E(w.args[1]))[0]]
            ok = bool(nf) and filek and all(same_path(fn, x.args[1], filek[0].src[1], x) for x in nf)
            ctx.ob("file", l + ":written", ok, w.where, "the file named in the table is not the file that was written")

    counts(ctx, m, S)
    binary(ctx, m)
    state(ctx, m)
    for l in ("l2", "ip", "cos"):
        fn, t, schema, ver, ents = S[l]
        lf = F(l + "_load")
        e = ents.get("name")
        got = None
        if e:
            call = [fn.ins[x[1]] for x in content(fn, *split(fn.E(e.ins.args[2]))[:2], e.ins) if x[0] == "res"]
            if call:
                got = view_text(fn, call[0].args[1], call[0])
        want = set()
        for c in lf.calls(r"^(bcmp|memcmp)$"):
            for a in c.args:
                tx = text(lf, lf.E(a))
                if tx is not None:
                    want.add(tx)
        ctx.ob("names", l, got is not None and want == {got}, t.where, f"saved as {got!r}, load accepts {sorted(want)}")


def makers(fn, base):
    """Calls that give the local object at base its value."""
    out = []
    for c in fn.calls():
        if c.args and split(fn.E(c.args[0])) == (base, 0, ()) and (c.r.get("sret") or ir.is_ctor(c.name) or c.name.endswith("::operator=")):
            out.append(c)
    return out


def path_copies(fn, base, at, d=0):
    """Objects a path object was built from."""
    out = {base}
    if d > 5 or base[0] != "alloca":
        return out
    for c in makers(fn, base):
        if re.search(r"path::(path|operator=)$|operator/$", c.name):
            for a in c.args[1:]:
                if fn_is_ptr(fn, a):
                    out |= path_copies(fn, split(fn.E(a))[0], c, d + 1)
    return out


def same_path(fn, ref, addr, at):
    return split(addr)[0] in path_copies(fn, split(fn.E(ref))[0], at)


def path_key(fn, ref, at, d=0):
    """Key naming the file a path object was resolved from."""
    b = split(fn.E(ref))[0]
    ks = set()
    for c in makers(fn, b):
        if re.search(r"resolve_at$|^svs::lib::load_at$", c.name):
            ks.add(key_of(fn, c))
        elif d < 4:
            for a in c.args[1:]:
                if fn_is_ptr(fn, a) and split(fn.E(a))[0][0] == "alloca":
                    k = path_key(fn, a, c, d + 1)
                    if k:
                        ks.add(k)
    return ks.pop() if len(ks) == 1 else None


def mentions_obj(fn, e, base, at, d=0):
    """The object pointed to is base or was built from it."""
    b = split(e)[0]
    if b == base:
        return True
    if b[0] == "alloca" and d < 4:
        for c in makers(fn, b):
            if any(fn_is_ptr(fn, a) and split(fn.E(a))[0] != b and mentions_obj(fn, fn.E(a), base, c, d + 1) for a in c.args[1:]):
                return True
    return False


def counts(ctx, m, S):
    """The element count written is what bounds the reading loop / allocation."""
    for l, key in (("trans", "num_points"), ("clusters", "num_clusters"), ("blob", "num_elements")):
        lf = ctx.one(m, l + "_load")
        fn, t, schema, ver, ents = S[l]
        byid = {c.id: k for c, k, _ in loads(lf)}
        used = set()
        where = lf.rets()[0].where
        rb = lf.calls(r"^svs::lib::read_binary$")
        for L in {id(x): x for r in rb for x in lf.loops_of(r)}.values():
            for c in walk_exit(lf, L):
                for e in expand(lf, c):
                    if e[0] == "call" and e[2] in byid:
                        used.add(byid[e[2]])
        for c in lf.calls(r"^std::vector::vector$"):
            for a in c.args[1:]:
                e = lf.E(a)
                if e[0] == "call" and e[2] in byid:
                    used.add(byid[e[2]])
        # keys whose saved value is a size of this object
        sized = set()
        for k, e in ents.items():
            if e.fam and e.fam[0] == "int" and e.src and e.src[0] in ("field", "expr") and (e.src[0] == "expr" and is_size(fn, e.src[1]) or e.src[0] == "field" and e.src[1] == ("arg", 1)):
                sized.add(k)
        ctx.ob("count", l, len(used) == 1 and used <= sized, where, f"reading is driven by {sorted(map(str, used))}; sizes are saved under {sorted(sized)}")


def is_size(fn, e):
    if e[0] == "call":
        c = fn.ins[e[2]]
        return c.name.endswith("::size") and root(fn, fn.E(c.args[0]), copies=False) is not None and root(fn, fn.E(c.args[0]))[0] == ("arg", 1)
    if e[0] in ("bin",):
        rs = [root(fn, x) for x in e[2:] if x[0] == "ld"]
        return bool(rs) and all(r is not None and r[0] == ("arg", 1) for r in rs)
    return False


def walk_exit(fn, L):
    """Expressions the loop counter is compared with."""
    out = []
    for b, s in L.exits():
        t = fn.term(b)
        if t is None or t.op != "br" or not t.ops:
            continue
        for x in walk(fn.E(t.ops[0])):
            if isinstance(x, tuple) and x and x[0] == "cmp":
                out += [x[2], x[3]]
    return out


def rw_type(c):
    d = c.r.get("d") or ""
    n = "read_binary" if "read_binary" in c.name else "write_binary"
    t = tmpl(d, "svs::lib::" + n)
    return ir.clean_ty(t.replace(" const", "").rstrip("&").strip()) if t else None


def order(fn, cs):
    """Calls in execution order (each dominating the next), or None."""
    cs = sorted(cs, key=lambda c: (sum(1 for d in cs if d is not c and fn.dominates(d, c))))
    for a, b in zip(cs, cs[1:]):
        if not fn.dominates(a, b):
            return None
    return cs


def binary(ctx, m):
    # clusters: centroid, count, elements
    w, r = ctx.one(m, "cluster_write"), ctx.one(m, "cluster_read")
    ws, rs = order(w, w.calls(r"^svs::lib::write_binary$")), order(r, r.calls(r"^svs::lib::read_binary$"))
    ok = bool(ws) and bool(rs) and len(ws) == len(rs)
    ctx.ob("binary", "cluster:sequence", ok, (ws or w.rets())[0].where, f"{len(ws or [])} values written, {len(rs or [])} read")
    ret = r.rets()[0]
    if ok:
        for k, (a, b) in enumerate(zip(ws, rs)):
            ta, tb = rw_type(a), rw_type(b)
            ctx.ob("binary", f"cluster:{k}:type", ta == tb and ta is not None, b.where, f"written as {ta}, read as {tb}")
            src = origin(w, a.args[1], a)
            if len(b.args) == 1 or not fn_is_ptr(r, b.args[-1]) or b.r.get("sret"):
                dst = None
                for off in (0, 4, 8, 16, 24):
                    for c in content(r, ("arg", 0), off, ret):
                        if c[0] == "val" and expand(r, c[1]) == {("call", b.name, b.id)}:
                            dst = off
                if src[0] == "field":
                    ctx.ob("binary", f"cluster:{k}:place", dst == src[2], b.where, f"written from offset {src[2]}, read into offset {dst}")
                else:
                    rz = [c for c in r.calls(r"std::vector::(resize|vector)$") if any(strip(r.E(x)) == ("call", b.name, b.id) for x in c.args[1:])]
                    ctx.ob("binary", f"cluster:{k}:count", bool(rz) and is_vec_len(w, src), b.where, "the element count does not size the element list")
            else:
                dr = root(r, r.E(b.args[-1]))
                so = src[2] if src[0] == "field" else None
                ctx.ob("binary", f"cluster:{k}:place", dr is not None and dr[0] == ("arg", 0) and dr[1] == so, b.where, f"written from offset {so}, read into {dr}")
    # translation: external id then internal id
    w, r = ctx.one(m, "trans_save"), ctx.one(m, "trans_load")
    ws = order(w, w.calls(r"^svs::lib::write_binary$"))
    rs = order(r, r.calls(r"^svs::lib::read_binary$"))
    ok = bool(ws) and bool(rs) and len(ws) == len(rs) == 2
    ctx.ob("binary", "translation:sequence", ok, (ws or w.rets())[0].where, f"{len(ws or [])} values written, {len(rs or [])} read per entry")
    if ok:
        its = [c for c in w.calls(r"::(begin|cbegin)$")]
        mapoff = {root(w, w.E(c.args[0]))[1] for c in its if root(w, w.E(c.args[0])) and root(w, w.E(c.args[0]))[0] == ("arg", 1)}
        whole = len(its) == 1
        ctx.ob("binary", "translation:iterates", len(mapoff) == 1 and whole, ws[0].where, "entries are not written by one pass over one of the two maps")
        for k in (0, 1):
            ta, tb = rw_type(ws[k]), rw_type(rs[k])
            ctx.ob("binary", f"translation:{k}:type", ta == tb and ta is not None, rs[k].where, f"written as {ta}, read as {tb}")
        part = []
        for c in ws:
            b, o, v = split(w.E(c.args[1]))
            part.append(o)
        # the map written: key part at offset 0, value part after it
        mo = next(iter(mapoff)) if mapoff else None
        good = trans_places(r, rs, part, mo)
        ctx.ob("binary", "translation:places", good, rs[0].where, "the ids read are not inserted as the external and internal id they were written from")


def is_vec_len(fn, src):
    if src[0] == "expr":
        e = src[1]
        return e[0] == "bin" and all(root(fn, x) is not None and root(fn, x)[0] == ("arg", 0) for x in walk(e) if isinstance(x, tuple) and x and x[0] == "ld") or \
            (e[0] == "call" and e[1].endswith("::size"))
    return False


def trans_places(r, rs, part, mo):
    """Stores through map[key] = value with key and value the two values read; the written key part is part == 0."""
    key_read = rs[part.index(0)] if 0 in part else None
    if key_read is None or part.count(0) != 1:
        return False
    val_read = rs[1 - part.index(0)]
    K, V = ("call", key_read.name, key_read.id), ("call", val_read.name, val_read.id)
    seen = {}
    for c in r.calls(r"::(operator\[\]|insert|emplace|insert_or_assign|try_emplace)$"):
        rt = root(r, r.E(c.args[0]) if not c.r.get("sret") else r.E(c.args[1]))
        if rt is None or rt[0] != ("arg", 0):
            continue
        if c.name.endswith("operator[]"):
            b, o, v = split(r.E(c.args[1]))
            if b[0] == "alloca":
                cs = content(r, b, o, c)
                k = {next(iter(expand(r, x[1]))) for x in cs if x[0] == "val" and len(expand(r, x[1])) == 1}
            else:
                k = set()
            vals = {strip(r.E(i.ops[0])) for i in r.all("store") if split(r.E(i.ops[1]))[0] == ("call", c.name, c.id)}
            seen.setdefault(rt[1], []).append((k, vals))
        else:
            ks = []
            for a in c.args[1:]:
                b, o, v = split(r.E(a))
                if b[0] == "alloca":
                    ks.append({strip(x[1]) for x in content(r, b, o, c) if x[0] == "val"})
            seen.setdefault(rt[1], []).append((ks[0] if ks else set(), ks[1] if len(ks) > 1 else set()))
    if len(seen) != 2:
        return False
    for off, l in seen.items():
        a, b = (K, V) if off == mo else (V, K)
        if not any(k == {a} and v == {b} for k, v in l):
            return False
    return True


def flat(fn, e, obj):
    """Offset in the index object of a source expression, or None."""
    b, o, v = split(e)
    if b == obj and not v:
        return o
    return None


def sources(fn, base, off, at, obj):
    """Member locations of the index an object's field is filled from: set of ('m', off) | ('front', off) | other."""
    out = set()
    for c in content(fn, base, off, at):
        if c[0] == "val":
            for e in expand(fn, c[1]):
                if e[0] == "ld":
                    b, o, v = split(e[1])
                    if b == obj and not v:
                        out.add(("m", o))
                        continue
                    if b[0] == "ld":
                        b2, o2, v2 = split(b[1])
                        if b2 == obj and not v2 and not v and o == 0:
                            out.add(("front", o2))
                            continue
                out.add(("?", fn.show_e(e)))
        elif c[0] == "mem":
            b, o, v = split(c[1])
            out.add(("m", o) if b == obj and not v else ("?", fn.show_e(c[1])))
        else:
            out.add(("?", str(c)))
    return out


def state(ctx, m):
    names = [n for n in m.layouts if re.match(PARAM["index"], n)]
    fields = leaves(m, names[0])
    # static index
    s, a = ctx.one(m, "static_save"), ctx.one(m, "static_apply")
    sv = [c for c in s.calls(r"^svs::lib::save_to_disk$") if "VamanaIndexParameters" in (c.r.get("d") or "")]
    if ctx.ob("state", "static:saves", len(sv) == 1, s.rets()[0].where, "the index configuration is not saved exactly once"):
        base = split(s.E(sv[0].args[0]))[0]
        r = s.E(sv[0].args[1])
        ctx.ob("state", "static:dir", r == ("arg", 1), sv[0].where, "the configuration is saved into another directory than the configuration directory")
        for c in s.calls(r"^svs::lib::save_to_disk$"):
            d = c.r.get("d") or ""
            t = tmpl(d, "svs::lib::save_to_disk") or ""
            want = 2 if "SimpleGraph" in t.split("<")[0] else 3 if t.startswith("svs::data::") else None
            if want:
                ctx.ob("state", f"static:{'graph' if want == 2 else 'data'}", s.E(c.args[1]) == ("arg", want), c.where, "the graph and data directories are exchanged")
        ret = a.rets()[0]
        for fo, fs, nm in fields:
            src = sources(s, base, fo, sv[0], ("arg", 0))
            if len(src) != 1 or next(iter(src))[0] == "?":
                ctx.ob("state", f"static:{nm}", False, sv[0].where, f"saved from {sorted(map(str, src))}")
                continue
            k, mo = next(iter(src))
            if k == "front":
                pb = [c for c in a.calls(r"std::vector::(push_back|emplace_back)$") if split(a.E(c.args[0])) [:2] == (("arg", 0), mo)]
                good = False
                for c in pb:
                    b, o, v = split(a.E(c.args[1]))
                    for x in content(a, b, o, c):
                        if x[0] == "val" and canon(a, x[1]) == ("field", ("arg", 1), fo):
                            good = True
                st = [i for i in a.all("store") if canon(a, a.E(i.ops[0])) == ("field", ("arg", 1), fo) and root(a, a.E(i.ops[1])) == (("arg", 0), mo)]
                cl = a.calls(r"std::vector::(clear|assign|resize|operator=)$")
                ctx.ob("state", f"static:{nm}", (good and bool(cl)) or bool(st), ret.where, "the saved entry point is not restored as the only entry point")
                continue
            got = content(a, ("arg", 0), mo, ret)
            g = set()
            for c in got:
                if c[0] == "mem":
                    g.add(split(c[1])[:2])
                elif c[0] == "val":
                    for e in expand(a, c[1]):
                        g.add(split(e[1])[:2] if e[0] == "ld" else ("?", e))
                else:
                    g.add(c)
            ctx.ob("state", f"static:{nm}", g == {(("arg", 1), fo)}, ret.where, f"saved from member offset {mo}, restored there from {sorted(map(str, g))}")
    # dynamic index
    fs = m.get("dyn_lambda")
    c = ctx.one(m, "dyn_ctor")
    st = ctx.one(m, "state_load")
    ok = ctx.ob("state", "dynamic:saves", len(fs) == 1, c.rets()[0].where, "the mutable index does not save its configuration in one place")
    if not ok:
        return
    fn = fs[0]
    ts = saved(fn)
    ctx.ob("state", "dynamic:table", len(ts) == 1, fn.rets()[0].where, "one table")
    if not ts:
        return
    t, schema, ver, n, ents, pos = ts[0]
    ents = {e.key: e for e in ents}
    cls = [(k, l) for k, l in m.layouts.items() if re.match(r"^svs::index::vamana::MutableVamanaIndex<", k) and "lambda" not in k and "::" not in k[k.rfind(">"):]]
    ctx.need(len(cls) == 1, "layout of the mutable index")
    mem = cls[0][1]["members"]
    def member(off):
        for o, s_, nm_, ty_ in mem:
            if o <= off < o + s_:
                return nm_, ir.clean_ty(ty_)
        return None, ""
    par = [e for e in ents.values() if e.fam == ("class", "svs::index::vamana::VamanaIndexParameters")]
    tr = [e for e in ents.values() if e.fam == ("class", "svs::IDTranslator")]
    obj = ("ld", ("arg", 1))
    ctx.ob("state", "dynamic:contents", len(par) == 1 and len(tr) == 1, t.where, "the configuration does not contain one set of parameters and one id translation")
    # the loader reads the same keys into the same types
    lk = {}
    for x in [x for x in loads(st)]:
        lk[x[2]] = x
    for e in par + tr:
        x = lk.get(e.fam)
        ctx.ob("state", f"dynamic:{e.key}", x is not None and x[1] == e.key, x[0].where if x else st.rets()[0].where, f"saved under {e.key!r}, loaded from {x[1] if x else None!r}")
    if tr:
        call = [fn.ins[x[1]] for x in content(fn, *split(fn.E(tr[0].ins.args[2]))[:2], tr[0].ins) if x[0] == "res"]
        b, o, v = split(fn.E(call[0].args[1])) if call else (None, 0, ())
        nm_, ty_ = member(o)
        ctx.ob("state", "dynamic:translator", b == obj and "IDTranslator" in ty_, t.where, "the id translation saved is not the index's own")
    if par:
        call = [fn.ins[x[1]] for x in content(fn, *split(fn.E(par[0].ins.args[2]))[:2], par[0].ins) if x[0] == "res"]
        base = split(fn.E(call[0].args[1]))[0] if call else None
        ret = c.rets()[0]
        for fo, fs_, nm in fields:
            src = sources(fn, base, fo, call[0], obj) if base else set()
            if len(src) != 1 or next(iter(src))[0] == "?":
                ctx.ob("state", f"dynamic:{nm}", False, t.where, f"saved from {sorted(map(str, src))}")
                continue
            k, mo = next(iter(src))
            mn, mt = member(mo)
            if mt.startswith("svs::graphs::"):
                good = "degree" in nm and "degree" in ".".join(x[0] for x in m.member(mt, mo - [o for o, s_, a_, b_ in mem if a_ == mn][0])[0])
                ctx.ob("state", f"dynamic:{nm}", good, t.where, f"{nm} is saved from the graph's {mn}")
                continue
            if k == "front":
                vs = [x for x in c.calls(r"std::vector::vector$") if split(c.E(x.args[0]))[:2] == (("arg", 0), mo)]
                good = False
                for x in vs:
                    for a_ in x.args[1:]:
                        b, o, v = split(c.E(a_))
                        if b[0] == "alloca":
                            for y in content(c, b, o, x):
                                if y[0] == "val" and canon(c, y[1]) == ("field", ("arg", 1), fo):
                                    good = True
                ctx.ob("state", f"dynamic:{nm}", good, ret.where, "the saved entry point is not restored")
                continue
            g = set()
            for x in content(c, ("arg", 0), mo, ret):
                if x[0] == "mem":
                    g.add(split(x[1])[:2])
                elif x[0] == "val":
                    for e in expand(c, x[1]):
                        g.add(split(e[1])[:2] if e[0] == "ld" else ("?", e))
                else:
                    g.add(x)
            ctx.ob("state", f"dynamic:{nm}", g == {(("arg", 1), fo)}, ret.where, f"saved from {mn}, restored there from {sorted(map(str, g))}")
