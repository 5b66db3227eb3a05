from . import core, pn, meth, ext, dim, proof, ptr, mult, grp, fals
from .lib import LATE
ALLTUS=["ringing/row.cpp","ringing/change.cpp","ringing/bell.cpp","ringing/mathutils.cpp","ringing/method.cpp"]
FULL=ALLTUS+["ringing/%s.cpp"%x for x in ("extent","dimension","group","multtab","proof","music","row_wildcard","falseness","touch")]
def program(tus=None):
    from cppv.cxx import Program
    from cppv.vals import sort_of, Unsupported
    P = Program(tus or ALLTUS)
    types = {}
    for b in P.bodies.values():
        if b.fn.cls is not None: types.setdefault(b.fn.cls.s, b.fn.cls)
    for m in (proof,): m.late(types)
    for b in P.bodies.values():
        if b.fn.cls is not None:
            try: sort_of(b.fn.cls)
            except Unsupported: pass
    while LATE:
        try: LATE.pop(0)()
        except KeyError: pass        # about a class that this program does not have
    return P
