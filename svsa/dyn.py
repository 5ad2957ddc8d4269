"""Shared anchors for the mutable index: which member of the index object an address belongs to, and its effects."""
import re
from .lib import *
from . import ir

POLICY = r"""opaque ^svs::index::vamana::VamanaBuilder
opaque ^svs::index::vamana::consolidate$
opaque ^svs::index::vamana::extensions
opaque ^svs::IDTranslator::
opaque ^svs::threads::balance
opaque ^svs::data::(SimpleData|DenseArray)::
opaque ^svs::graphs::
model ^svs::threads::NativeThreadPoolBase::run$ ^svsa_model_run
opaque ^svs::threads::NativeThreadPoolBase::
"""
EMPTY, VALID, DELETED = 0, 1, 2


def entries(*names):
    return "\n".join(f"entry {n} ^h_{n}\\(((?!\\)::).)*$" for n in names) + "\n"


ROLES = {
    "graph": r"^svs::graphs::\w+<", "data": r"^svs::data::SimpleData<", "entry_point": r"^std::vector<unsigned int",
    "status": r"^std::vector<svs::index::vamana::SlotMetadata", "translator": r"^svs::IDTranslator",
    "threadpool": r"^svs::threads::NativeThreadPool", "search_parameters": r"^svs::lib::ReadWriteProtected",
}


class Roles:
    """Members of the index class, found by type (so private members may be renamed or reordered)."""

    def __init__(self, m, cls=r"^svs::index::vamana::MutableVamanaIndex<", roles=ROLES):
        self.m = m
        ls = [(n, l) for n, l in m.layouts.items() if re.match(cls, n) and "lambda" not in n and "::" not in n[n.rfind(">"):]]
        if len(ls) != 1:
            from .run import Broken
            raise Broken(f"class {cls} has {len(ls)} layouts")
        self.name, self.lay = ls[0]
        self.at = {}
        self.members = []
        for o, s, n, t in self.lay["members"]:
            self.members.append((o, s, n, t))
        for r, pat in roles.items():
            c = [(o, s) for o, s, n, t in self.members if re.match(pat, ir.clean_ty(t))]
            if c:
                self.at[r] = c[0]

    def of(self, off):
        for r, (o, s) in self.at.items():
            if o <= off < o + s:
                return r, off - o
        for o, s, n, t in self.members:
            if o <= off < o + s:
                return n, off - o
        return None, off

    def role(self, fn, e, arg):
        """Role of the member that address/pointer expression e is rooted in, or None if not rooted in the argument."""
        r = root(fn, e)
        if r is None or r[0] != ("arg", arg):
            return None
        return self.of(r[1])[0]
