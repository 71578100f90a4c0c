"""Entailment between facts: instantiation of what is known about all elements of a collection, and case analysis."""
from terms import *
from interp import St

LIMIT = 3000        # cases of one question
TOTAL = 100000      # cases of all questions about one configuration; beyond, questions get no more than FEW
FEW = 60
spent = [0]


def gen(src):
    return {mk('el', src): mk('el', src), mk('ix', src): mk('ix', src), mk('key', src): mk('key', src),
            mk('val', src): mk('val', src)}


def instances(st, src, generic):
    """The elements of a collection that the facts speak about: substitutions for its generic element."""
    out = []
    if src in generic:
        out.append({})
    tags, ats, keys = set(), set(), set()
    for f in list(st.facts):
        for t in subterms(f):
            if t.tag == 'wit' and t.a[1].tag in ('el', 'ix', 'key', 'val') and t.a[1].a[0] is src:
                tags.add(t.a[0])
            elif t.tag == 'at' and t.a[0] is src:
                ats.add(t.a[1])
            elif t.tag == 'lt' and t.a[1] is length(src):
                ats.add(t.a[0])
            elif t.tag == 'app' and t.a[0] == 'mget' and t.a[1][0] is src:
                keys.add(t.a[1][1])
            elif t.tag == 'is' and t.a[1] == 'Some' and t.a[0].tag == 'app' and t.a[0].a[0] == 'mget' and t.a[0].a[1][0] is src:
                keys.add(t.a[0].a[1][1])
    for tg in tags:
        out.append({b: mk('wit', tg, b) for b in bound(src)})
    if any(f.tag == 'all' and p and f.a[0] is src and any(t.tag == 'add' and t.a[0] is mk('ix', src) for fd in f.a[1] for g, _ in fd for t in subterms(g))
           for f, p in st.facts.items()):
        ats.add(app('op:Sub', length(src), c(1)))
    for i in ats:
        if depth(i) > 4:   # (new terms without end)
            continue
        if i.tag == 'ix' and i.a[0] is src or i.tag == 'wit' and i.a[1].tag == 'ix' and i.a[1].a[0] is src:
            continue
        f, p = strip_not(f_lt(i, length(src)), True)
        if f.tag == 'c' and f.a[0] == int(p) or st.facts.get(f) is p:
            out.append({mk('el', src): at(src, i), mk('ix', src): i})
    for k in keys:
        f, p = strip_not(f_is(mget(src, k), 'Some'), True)
        if f.tag == 'c' and f.a[0] == int(p) or st.facts.get(f) is p:
            out.append({mk('key', src): k, mk('val', src): fld(mget(src, k), 'Some', '0')})
    return out


def depth(t):
    n = 4 * sum(1 for x in subterms(t) if x.tag == 'app' and x.a[0] == 'chosen')
    while t.tag == 'add':
        t, n = t.a[0], n + 1
    return n


def crowded(st):
    """Whether a map has more keys than there are numbers for them."""
    for f, p in st.facts.items():
        if p and f.tag == 'lt' and f.a[1].tag == 'len':
            k = mk('lt', mk('key', f.a[1].a[0]), f.a[0])
            if any(q and g.tag == 'all' and g.a[0] is f.a[1].a[0] and all((k, True) in fd for fd in g.a[1])
                   for g, q in st.facts.items()):
                return True
    return False


def saturate(I, st, generic=()):
    """The consistent cases of a set of facts, all known universals instantiated."""
    budget = [LIMIT if spent[0] < TOTAL else FEW]
    res = []

    def go(s, done):
        budget[0] -= 1
        spent[0] += 1
        if budget[0] < 0 or len(s.facts) > 600:
            res.append(s)
            return
        for f, pol in list(s.facts.items()):
            if f.tag == 'all' and not pol and (f, 'neg') not in done:
                # some element meets none of the alternatives
                src, fds = f.a
                m = {b: mk('wit', 'sk%d' % f.n, b) for b in bound(src)}
                work = I.assume(s.copy(), f_empty(src), False)
                for fd in fds:
                    nxt = []
                    for w in work:
                        left = [w]
                        for g, p in sorted(fd, key=lambda x: x[0].n):
                            gg = subst(g, m)
                            nl = []
                            for x in left:
                                nxt += I.assume(x.copy(), gg, not p)
                                nl += I.assume(x, gg, p)
                            left = nl
                    work = nxt
                for w in work:
                    go(w, done | {(f, 'neg')})
                return
            if f.tag != 'all' or not pol:
                continue
            src, fds = f.a
            for m in instances(s, src, generic):
                key = (f, tuple(sorted(((a, b) for a, b in m.items()), key=lambda x: x[0].n)))
                if key in done:
                    continue
                for fd in sorted(fds, key=lambda x: sorted(g.n for g, _ in x)):
                    ss = [s.copy()]
                    for g, p in sorted(fd, key=lambda x: x[0].n):
                        gg = subst(g, m) if m else g
                        ss = [y for x in ss for y in I.assume(x, gg, p)]
                    for x in ss:
                        go(x, done | {key})
                return
        if not crowded(s):
            res.append(s)
    go(st, frozenset())
    return res


def with_facts(I, facts, extra):
    st = St()
    st.facts = dict(facts)
    ss = [st]
    for f, p in extra:
        ss = [y for x in ss for y in I.assume(x, f, p)]
    return ss


def refuted(I, facts, extra=(), generic=()):
    """Whether the facts contradict the additional ones."""
    ext = list(extra) + [(f_empty(g), False) for g in generic]
    return not any(saturate(I, s, set(generic)) for s in with_facts(I, facts, ext))


def entails(I, facts, f, pol=True, generic=()):
    f, pol = strip_not(f, pol)
    if f.tag == 'c':
        return bool(f.a[0]) == pol
    return refuted(I, facts, [(f, not pol)], generic)
