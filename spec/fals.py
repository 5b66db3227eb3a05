"""Contracts of ringing/falseness.h, falseness.cpp."""
from cppv.terms import *
from cppv.contract import *
from cppv import stl
from .lib import *
from .grp import VVI, F, smem, slo, shi, srt, iseven, isgroup, gen, GB, GV, OPAQUE
bit = lambda x, k: eq(mod(div(x, 2**k), 2), 1)
# y is the quotient of a row of the first list and one of the second
false_ = declare('falsein', (VVI, VVI, VI), 'Bool')
fi = declare('false_i', (VVI, VVI, VI), 'Int'); fj = declare('false_j', (VVI, VVI, VI), 'Int')
A('false_in', forall([VVI, VVI, 'Int', 'Int'], lambda a, b, i, j: imp(conj(rng(i, vlen(a)), rng(j, vlen(b))), false_(a, b, rquot(vget(a, i), vget(b, j)))), pats=lambda a, b, i, j: [[false_(a, b, rquot(vget(a, i), vget(b, j)))]]), ['falsein'], 'definition')
A('false_out', forall([VVI, VVI, VI], lambda a, b, y: imp(false_(a, b, y), conj(rng(fi(a, b, y), vlen(a)), rng(fj(a, b, y), vlen(b)), eq(y, rquot(vget(a, fi(a, b, y)), vget(b, fj(a, b, y)))))), pats=lambda a, b, y: [[false_(a, b, y)]]), ['falsein'], 'definition')
def wanted(fl, y): return conj(disj(bit(fl, 1), eq(vget(y, 0), 0)), disj(mk_not(bit(fl, 0)), iseven(y)), disj(mk_not(bit(fl, 3)), mk_not(iseven(y))))
def isft(t, a, b, fl):
    return [('in order, each once', srt(t)),
            ('only false ones', forall([VI], lambda y: imp(smem(t, y), conj(false_(a, b, y), wanted(fl, y))), pats=lambda y: [[slo(t, y)], [shi(t, y)]])),
            ('all false ones', forall(['Int', 'Int'], lambda i, j: (lambda q: imp(conj(rng(i, vlen(a)), rng(j, vlen(b)), wanted(fl, q)), smem(t, q)))(rquot(vget(a, i), vget(b, j))), pats=lambda i, j: [[rquot(vget(a, i), vget(b, j))]]))]
def ft_inv(L):
    c = L.c; a, b = c[0], c[1]; fl = F(c.this, 'flags')
    sets = [v for v in L.vecs if v[2] is not None and v[2].strip().tmpl == 'std::set']
    for s in sets:
        S = L.vec(s)
        yield 'only', forall([VI], lambda y: imp(smem(S, y), conj(false_(a, b, y), wanted(fl, y))), pats=lambda y: [[slo(S, y)], [shi(S, y)]])
        for p in L.ints:
            i1 = L.int(p)
            done = lambda n: forall(['Int', 'Int'], lambda i, j: (lambda q: imp(conj(rng(i, n), rng(j, vlen(b)), wanted(fl, q)), smem(S, q)))(rquot(vget(a, i), vget(b, j))), pats=lambda i, j: [[rquot(vget(a, i), vget(b, j))]])
            yield 'done %s' % p.name, done(i1)
            for q in L.mints:
                if p is q: continue
                i2 = L.int(q)
                yield 'row done %s %s' % (p.name, q.name), forall(['Int', 'Int'], lambda i, j: (lambda x: imp(conj(eq(i, i1), rng(j, i2), wanted(fl, x)), smem(S, x)))(rquot(vget(a, i), vget(b, j))), pats=lambda i, j: [[rquot(vget(a, i), vget(b, j))]])
nonempty = lambda v: allk(vlen(v), lambda k: ge(vlen(vget(v, k)), 1), lambda k: [vget(v, k)])
FOP = tuple(x for x in OPAQUE if x != 'rquot_len')
contract('falseness_table::init(const std::vector<row> &, const std::vector<row> &)', prop='C16', nolemmas=FOP, inv=[ft_inv], requires=lambda c: [eq(vlen(F(c.this, 't')), 0), nonempty(c[0]), nonempty(c[1])],
    ensures=lambda c: isft(F(c.this1, 't'), c[0], c[1], F(c.this, 'flags')) + [('flags', eq(F(c.this1, 'flags'), F(c.this, 'flags')))])
contract('falseness_table::falseness_table(const std::vector<row> &, const std::vector<row> &, int)', prop='C16', nolemmas=FOP, requires=lambda c: [nonempty(c[0]), nonempty(c[1])],
    ensures=lambda c: isft(F(c.this1, 't'), c[0], c[1], c[2]) + [('flags', eq(F(c.this1, 'flags'), c[2]))])
contract('falseness_table::falseness_table()', prop='C16', ensures=lambda c: [('only rounds', eq(F(c.this1, 't'), vlit(VI, [vempty('Int')]))), ('flags', eq(F(c.this1, 'flags'), 0))])
contract('falseness_table::size() const', prop='C16', ensures=lambda c: eq(c.result, vlen(F(c.this, 't'))))
contract('falseness_table::generate_group() const', prop='C16', nolemmas=OPAQUE, requires=lambda c: [ge(vlen(F(c.this, 't')), 1), mk_not(bit(F(c.this, 'flags'), 3))],
    ensures=lambda c: isgroup(c.result, F(c.this, 't'), GB(c.result)))

# ---- the rows of a lead ------------------------------------------------------------------------------
from .meth import VC, mlh, chs, chn, chsw, mb
from .lib import late
RB = '@std::vector<ringing::row>'
rows_ = lambda b: F(b, RB); rch = lambda b: F(b, 'ch')
bsize = lambda n, fl: add(ite(bit(fl, 1), div(n, 2), n), ite(bit(fl, 0), 0, 1))
kept = lambda c: [('changes', eq(rch(c.this1), rch(c.this))), ('flags', eq(F(c.this1, 'flags'), F(c.this, 'flags')))]
nextrow = lambda R, ch, k: eq(vget(R, add(k, 1)), rapp(vget(R, k), chn(ch, k), chsw(ch, k)))
# the first n rows of a lead of the changes v
leadrows = declare('leadrows', (VC, 'Int'), VVI)
@late
def lead_axioms():
    A('leadrows_len', forall([VC, 'Int'], lambda v, n: imp(ge(n, 0), eq(vlen(leadrows(v, n)), n)), pats=lambda v, n: [[leadrows(v, n)]]), ['leadrows'], 'definition')
    A('leadrows_get', forall([VC, 'Int', 'Int'], lambda v, n, k: imp(ge(n, 0), eq(vget(leadrows(v, n), k), ite(rng(k, n), mlh(v, chn(v, 0), k), vempty('Int')))), pats=lambda v, n, k: [[vget(leadrows(v, n), k)]]), ['leadrows'], 'definition')
@late
def row_blocks():
    def rec_inv(L):
        c = L.c; R0 = rows_(c.this); ch = rch(c.this)
        for v in L.vecs:
            R = L.vec(v)
            if R.sort != VVI: continue
            yield 'size ' + v[0], eq(vlen(R), vlen(R0))
            for p in L.mints:
                i = L.int(p)
                yield 'from %s' % p.name, le(c[0], i)
                yield 'kept %s %s' % (v[0], p.name), allk(vlen(R0), lambda k: imp(disj(le(k, c[0]), gt(k, i)), eq(vget(R, k), vget(R0, k))), lambda k: [vget(R, k)])
                yield 'rung %s %s' % (v[0], p.name), allk(i, lambda k: imp(le(c[0], k), nextrow(R, ch, k)), lambda k: [vget(ch, k)])
                yield 'fold %s %s' % (v[0], p.name), imp(conj(eq(c[0], 0), ge(vlen(ch), 1), eq(vget(R, 0), rounds(chn(ch, 0)))), allk(add(i, 1), lambda k: eq(vget(R, k), mlh(ch, chn(ch, 0), k)), lambda k: [vget(R, k)]))
                yield 'm %s' % p.name, conj(mention(mlh(ch, chn(ch, 0), add(i, 1))), mention(mlh(ch, chn(ch, 0), 0)), mention(vget(R, i)))
    contract('row_block::recalculate(int)', prop='C16', nolemmas=FOP, inv=[rec_inv], requires=lambda c: [le(0, c[0]), le(vlen(rows_(c.this)), add(vlen(rch(c.this)), 1))],
        ensures=lambda c: kept(c) + (lambda R, R0, ch: [('size', eq(vlen(R), vlen(R0))), ('rows before', allk(vlen(R0), lambda k: imp(le(k, c[0]), eq(vget(R, k), vget(R0, k))), lambda k: [vget(R, k)])),
            ('rows', allk(sub(vlen(R), 1), lambda k: imp(le(c[0], k), nextrow(R, ch, k)), lambda k: [vget(ch, k)])),
            ('from rounds', imp(conj(eq(c[0], 0), ge(vlen(R), 1), ge(vlen(ch), 1), eq(vget(R0, 0), rounds(chn(ch, 0)))), allk(vlen(R), lambda k: eq(vget(R, k), mlh(ch, chn(ch, 0), k)), lambda k: [vget(R, k)])))])(rows_(c.this1), rows_(c.this), rch(c.this)))
    contract('row_block::row_block(const std::vector<change> &, int)', prop='C16', nolemmas=FOP, requires=lambda c: lt(vlen(c[0]), 2**28),
        ensures=lambda c: (lambda R: [('size', eq(vlen(R), bsize(vlen(c[0]), c[1]))), ('changes', eq(rch(c.this1), c[0])),
            ('rows', imp(ge(vlen(c[0]), 1), allk(vlen(R), lambda k: eq(vget(R, k), mlh(c[0], chn(c[0], 0), k)), lambda k: [vget(R, k)]))), ('the lead', imp(ge(vlen(c[0]), 1), eq(R, leadrows(c[0], vlen(R)))))])(rows_(c.this1)))
    contract('row_block::row_block(const std::vector<change> &, const row &, int)', prop='C16', nolemmas=FOP, requires=lambda c: lt(vlen(c[0]), 2**28),
        ensures=lambda c: (lambda R: [('size', eq(vlen(R), bsize(vlen(c[0]), c[2]))), ('changes', eq(rch(c.this1), c[0])),
            ('start', imp(ge(vlen(R), 1), eq(vget(R, 0), c[1]))), ('rows', allk(sub(vlen(R), 1), lambda k: nextrow(R, c[0], k), lambda k: [vget(c[0], k)]))])(rows_(c.this1)))
    # ---- falseness of methods
    def made(R, v, n): return eq(R, leadrows(v, n))
    okm = lambda m: [ge(vlen(chs(m)), 1), ge(chn(chs(m), 0), 1), lt(vlen(chs(m)), 2**28)]
    part = lambda m, fl: leadrows(chs(m), ite(bit(fl, 2), div(vlen(chs(m)), 2), vlen(chs(m))))
    FO2 = FOP + ('mlh_s', 'mlh_0')
    contract('falseness_table::falseness_table(const method &, int)', prop='C16', nolemmas=FO2, requires=lambda c: okm(c[0]), ensures=lambda c: isft(F(c.this1, 't'), part(c[0], c[1]), part(c[0], c[1]), c[1]) + [('flags', eq(F(c.this1, 'flags'), c[1]))])
    contract('falseness_table::falseness_table(const method &, const method &, int)', prop='C16', nolemmas=FO2, requires=lambda c: okm(c[0]) + okm(c[1]), ensures=lambda c: isft(F(c.this1, 't'), part(c[0], c[2]), part(c[1], c[2]), c[2]) + [('flags', eq(F(c.this1, 'flags'), c[2]))])
    contract('falseness_table::falseness_table(const method &, const std::vector<row> &, int)', prop='C16', nolemmas=FO2, requires=lambda c: okm(c[0]) + [nonempty(c[1])], ensures=lambda c: isft(F(c.this1, 't'), part(c[0], c[2]), c[1], c[2]) + [('flags', eq(F(c.this1, 'flags'), c[2]))])
