"""Regular expressions on symbolic text. The pattern is the program's own (its .pattern and .flags, parsed by re._parser);
supported are alternatives of single characters of a class, a last item repeated greedily, and the split of a text into
white space, middle, white space. Anything else is outside the subset.

A class of characters is a predicate on one-character strings; a maximal run of a class C from p in a text ends at
RUN_C(text, p), an uninterpreted function with the facts that define it at the ends."""
import re
import re._parser as sre
import re._constants as C
import z3
from .sym import *
from .vm import PathEnd

_classes = {}


def char_class(items, flags):
    """(canonical key, function of a one-character term)"""
    neg = False
    parts = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            parts.append(("c", chr(av)))
        elif op is C.RANGE:
            parts.append(("r", chr(av[0]), chr(av[1])))
        elif op is C.CATEGORY:
            parts.append(("k", str(av)))
        else:
            raise Unsupported("regular expression: %s in a class" % (op,))
    if flags & re.IGNORECASE:
        raise Unsupported("regular expression: ignoring case")
    key = (neg, tuple(sorted(set(parts))), bool(flags & re.ASCII) and any(p[0] == "k" for p in parts))
    return key


def class_of(node, flags):
    op, av = node
    if op is C.LITERAL:
        return char_class([(C.LITERAL, av)], flags)
    if op is C.NOT_LITERAL:
        return char_class([(C.NEGATE, None), (C.LITERAL, av)], flags)
    if op is C.ANY:
        return (True, (), False) if flags & re.DOTALL else (True, (("c", "\n"),), False)
    if op is C.IN:
        return char_class(av, flags)
    raise Unsupported("regular expression: %s" % (op,))


CATS = {"CATEGORY_SPACE": ("space", True), "CATEGORY_NOT_SPACE": ("space", False), "CATEGORY_DIGIT": ("digit", True), "CATEGORY_NOT_DIGIT": ("digit", False),
        "CATEGORY_WORD": ("word", True), "CATEGORY_NOT_WORD": ("word", False)}
_preds = {}


def pred(name, ascii):
    k = (name, ascii)
    if k not in _preds:
        _preds[k] = z3.Function("%s%s" % (name, "!ascii" if ascii else ""), StrS, BoolS)
    return _preds[k]


SAMPLE = {"space": str.isspace, "digit": str.isdecimal, "word": lambda c: c.isalnum() or c == "_"}


def in_class(key, c):
    """c (a z3 term of one character) is of the class"""
    neg, parts, asc = key
    if z3.is_string_value(c):
        c0 = dec(c)
        if len(c0) != 1:
            return z3.BoolVal(False)
    out = []
    for p in parts:
        if p[0] == "c":
            out.append(c == z3.StringVal(p[1]))
        elif p[0] == "r":
            out.append(z3.InRe(c, z3.Range(p[1], p[2])))
        else:
            n, pos = CATS[p[1]]
            t = pred(n, asc)(c)
            out.append(t if pos else z3.Not(t))
    t = z3.Or(out) if out else z3.BoolVal(False)
    return z3.Not(t) if neg else t


def ascii_facts(run, c):
    """what the categories say of the ASCII characters, for the character c"""
    f = []
    for (n, asc), p in list(_preds.items()):
        inside = [ch for ch in map(chr, range(128)) if SAMPLE[n](ch)]
        t = z3.Or([c == z3.StringVal(ch) for ch in inside])
        low = z3.InRe(c, z3.Range("\x00", "\x7f"))
        f.append(z3.Implies(low, p(c) == t))
    if any(n == "digit" for n, a in _preds) and any(n == "word" for n, a in _preds):
        for a in {a for n, a in _preds}:
            f.append(z3.Implies(pred("digit", a)(c), pred("word", a)(c)))
    if any(n == "space" for n, a in _preds) and any(n == "word" for n, a in _preds):
        f += [z3.Not(z3.And(pred("space", a)(c), pred("word", b)(c))) for a in {a for n, a in _preds if n == "space"} for b in {a for n, a in _preds if n == "word"}]
    run.assume(f)


_runs = {}


def run_end(key):
    if key not in _runs:
        _runs[key] = z3.Function("RUN!%d" % len(_runs), StrS, IntS, IntS)
    return _runs[key]


def at(t, p):
    return z3.SubString(t, p, 1)


def run_facts(run, key, t, p):
    """e = end of the maximal run of the class from p"""
    e = run_end(key)(t, p)
    n = z3.Length(t)
    if key[0] == "seq":
        w = len(key[1])
        here = lambda q: z3.And([q + w <= n] + [in_class(k, at(t, q + i)) for i, k in enumerate(key[1])])
        run.assume(z3.Implies(z3.And(p >= 0, p <= n), z3.And(e >= p, e <= n, (e - p) % w == 0, (e == p) == z3.Not(here(p)), z3.Not(here(e)), z3.Implies(e > p, e >= p + w))))
        return e
    run.assume([z3.Implies(z3.And(p >= 0, p <= n), z3.And(e >= p, e <= n, z3.Or(e == n, z3.Not(in_class(key, at(t, e)))), (e == p) == z3.Or(p == n, z3.Not(in_class(key, at(t, p))))))])
    neg, parts, asc = key
    if neg and len(parts) == 1 and parts[0][0] == "c":
        run.assume(z3.Implies(z3.And(p >= 0, p <= n), z3.Not(z3.Contains(z3.SubString(t, p, e - p), z3.StringVal(parts[0][1])))))
    return e


def branches(pat):
    """alternatives: [(items, groups)]; an item is (class key, "1" | "+" | "*"), a group (number, first item, last item + 1)"""
    tree = sre.parse(pat.pattern, pat.flags & ~re.UNICODE if isinstance(pat.pattern, bytes) else pat.flags)
    flags = pat.flags
    out = [([], [])]

    def seq(nodes, acc):
        """acc: list of (items, groups); returns the same after nodes"""
        for op, av in nodes:
            if op is C.BRANCH:
                new = []
                for items, groups in acc:
                    for alt in av[1]:
                        new += seq(alt, [(list(items), list(groups))])
                acc = new
            elif op is C.SUBPATTERN:
                g, add, rem, sub = av
                if add or rem:
                    raise Unsupported("regular expression: local flags")
                new = []
                for items, groups in acc:
                    s0 = len(items)
                    for it, gr in seq(sub, [(list(items), list(groups))]):
                        new.append((it, gr + ([(g, s0, len(it))] if g is not None else [])))
                acc = new
            elif op is C.MAX_REPEAT:
                lo, hi, sub = av
                if lo == 0 and hi == 1:
                    acc = [x for items, groups in acc for x in seq(sub, [(list(items), list(groups))]) + [(list(items), list(groups))]]
                    continue
                if hi is not C.MAXREPEAT or lo not in (0, 1):
                    raise Unsupported("regular expression: repetition")
                sub = list(sub)
                if len(sub) == 1 and sub[0][0] is C.SUBPATTERN and sub[0][1][0] is None:
                    sub = list(sub[0][1][3])
                k = class_of(sub[0], flags) if len(sub) == 1 else ("seq", tuple(class_of(x, flags) for x in sub))
                acc = [(items + [(k, "+" if lo else "*")], groups) for items, groups in acc]
            else:
                k = class_of((op, av), flags)
                acc = [(items + [(k, "1")], groups) for items, groups in acc]
        return acc
    res = seq(tree, out)
    for items, groups in res:
        for i, (k, q) in enumerate(items[:-1]):
            # what follows a repetition begins with none of its characters: giving some back never helps
            if q != "1" and (k[0] == "seq" or items[i + 1][0][0] == "seq" or items[i + 1][1] == "*" or not disjoint(k, items[i + 1][0])):
                raise Unsupported("regular expression: repetition before other items")
    return res, tree.state.groups - 1


def disjoint(a, b):
    """no character is of both classes"""
    c = z3.String("c!")
    s = z3.Solver()
    known = set(_preds)
    s.set("timeout", 2000)
    sp, dg, wd = (pred(n, x) for n, x in (("space", False), ("digit", False), ("word", False)))
    s.add(z3.Length(c) == 1, z3.Implies(dg(c), wd(c)), z3.Not(z3.And(sp(c), wd(c))), in_class(a, c), in_class(b, c))
    for n, p in (("space", sp), ("digit", dg), ("word", wd)):
        for ch in map(chr, range(128)):
            s.add(p(z3.StringVal(ch)) == z3.BoolVal(SAMPLE[n](ch)))
    for part in list(a[1]) + list(b[1]):
        if part[0] == "c":
            s.add(z3.Implies(c == z3.StringVal(part[1]), z3.And([p(c) == z3.BoolVal(SAMPLE[n](part[1])) for n, p in (("space", sp), ("digit", dg), ("word", wd))])))
        elif part[0] == "r" and any(x[0] == "k" for x in a[1] + b[1]):
            return False
    for x in set(_preds) - known:
        del _preds[x]
    return s.check() == z3.unsat


class Match(HeapObj):
    """a match in the text t: group number -> (start, end) or None"""
    def __init__(self, t, spans):
        super().__init__()
        self.t, self.spans = t, spans


def sub(t, a, b):
    return mks(z3.simplify(z3.SubString(t, a, b - a)))


def match_object(run, t, spans, ngroups, texts=None):
    def get(n):
        if n not in spans:
            if isinstance(n, int) and 0 <= n <= ngroups:
                return None
            raise Unsupported("group %r of a match" % (n,))
        return spans[n]

    def ga(run, o, attr):
        if attr == "group":
            def f(run, a, k):
                if len(a) > 1:
                    raise Unsupported("group() with several arguments")
                s = get(a[0] if a else 0)
                if texts and (a[0] if a else 0) in texts:
                    return mks(texts[a[0] if a else 0])
                return None if s is None else sub(t, *s)
            return Native(f, attr)
        if attr in ("start", "end"):
            def f(run, a, k):
                s = get(a[0] if a else 0)
                return -1 if s is None else mki(z3.simplify(s[0] if attr == "start" else s[1]))
            return Native(f, attr)
        if attr == "span":
            return Native(lambda run, a, k: tuple(mki(z3.simplify(x)) for x in get(a[0] if a else 0)), attr)
        if attr == "groups":
            return Native(lambda run, a, k: tuple(mks(texts[i]) if texts and i in texts else None if get(i) is None else sub(t, *get(i)) for i in range(1, ngroups + 1)), attr)
        if attr == "lastindex":
            raise Unsupported("lastindex")
        return MISSING
    return Opaque(run.name("match"), getattr=ga, truth=True, is_none=False, spans=spans)


def try_match(run, pat, t, p):
    """match object or None; decides which alternative matches at p"""
    brs, ngroups = branches(pat)
    n = z3.Length(t)
    for items, groups in brs:
        conds, ends, q = [], [p], p
        for i, (k, quant) in enumerate(items):
            if quant == "1":
                conds += [q + 1 <= n, in_class(k, at(t, q))]
                ascii_facts(run, at(t, q))
                q = q + 1
            else:
                if quant == "+":
                    for j, kk in enumerate(k[1] if k[0] == "seq" else [k]):
                        conds += [q + j + 1 <= n, in_class(kk, at(t, q + j))]
                        ascii_facts(run, at(t, q + j))
                if i < len(items) - 1:
                    q = run_facts(run, k, t, q)
                    ascii_facts(run, at(t, q))
                else:
                    q = ("run", k, q)
            ends.append(q)
        if run.fork(z3.And([p >= 0, p <= n] + conds)):
            if items and items[-1][1] != "1":
                ends[-1] = run_facts(run, items[-1][0], t, ends[-2])
            spans = {0: (p, ends[-1])}
            for g, a, b in groups:
                spans[g] = (ends[a], ends[b])
            return match_object(run, t, spans, ngroups)
    return None


def width(pat):
    brs, n = branches(pat)
    w = {len(items) for items, groups in brs}
    if any(q != "1" for items, g in brs for k, q in items) or 0 in w:
        raise Unsupported("substitution for a pattern of unbounded width")


def strip_split(pat):
    """(C*)(.*?)(C*)$ : the class, and whether . is every character; None for another pattern"""
    try:
        tree = list(sre.parse(pat.pattern, pat.flags))
    except re.error:
        return None
    if len(tree) != 4 or tree[3] != (C.AT, C.AT_END) or pat.flags & re.MULTILINE:
        return None
    subs = []
    for i, op in ((0, C.MAX_REPEAT), (1, C.MIN_REPEAT), (2, C.MAX_REPEAT)):
        if tree[i][0] is not C.SUBPATTERN or tree[i][1][0] != i + 1:
            return None
        s = list(tree[i][1][3])
        if len(s) != 1 or s[0][0] is not op or s[0][1][0] != 0 or s[0][1][1] is not C.MAXREPEAT or len(s[0][1][2]) != 1:
            return None
        subs.append(s[0][1][2][0])
    a, b, c = (class_of(x, pat.flags) for x in subs)
    if a != c or subs[1][0] is not C.ANY or ("k", "CATEGORY_SPACE") not in a[1] or a[0]:
        return None
    return a, b == (True, (), False)


def text_arg(run, v):
    if not run.is_strlike(v):
        run.throw(TypeError, "expected string or bytes-like object")
    return zs(v)


def call(run, pat, name, args, kwargs):
    if name == "sub" and set(kwargs) <= {"count"} and len(args) + len(kwargs) == 3:
        c = (args + list(kwargs.values()))[2]
        if isinstance(c, (int, SymInt)) and not isinstance(c, bool):
            return substitute(run, pat, args[0], text_arg(run, args[1]), None if isinstance(c, int) and c == 0 else zi(c))
    if kwargs:
        raise Unsupported("regular expression: keyword arguments")
    if name == "match":
        t = text_arg(run, args[0])
        p = zi(args[1]) if len(args) > 1 else z3.IntVal(0)
        if len(args) > 2:
            raise Unsupported("match with an end")
        ss = strip_split(pat)
        if ss is not None and len(args) == 1:
            return split_match(run, t, ss)
        return try_match(run, pat, t, p)
    if name == "sub" and len(args) == 2:
        return substitute(run, pat, args[0], text_arg(run, args[1]))
    raise Unsupported("regular expression: %s" % name)


def split_match(run, t, ss):
    """white space, the rest up to its last character that is none, white space"""
    key, dotall = ss
    a, b, c = (z3.String(run.name(n)) for n in ("leading", "middle", "trailing"))
    allsp = z3.Function("all-space", StrS, BoolS)
    run.assume([t == z3.Concat(a, b, c), allsp(a), allsp(c)])
    n = z3.Length(b)
    first, last = at(b, z3.IntVal(0)), at(b, n - 1)
    run.assume([z3.Implies(n > 0, z3.And(z3.Not(in_class(key, first)), z3.Not(in_class(key, last)))), z3.Implies(n == 0, c == z3.StringVal(""))])
    run.memo["strip split"] = (t, a, b, c)
    if not dotall and run.fork(z3.Contains(b, z3.StringVal("\n"))):
        return None
    return match_object(run, t, {0: (z3.IntVal(0), z3.Length(t)), 1: (z3.IntVal(0), z3.Length(a)), 2: (z3.Length(a), z3.Length(a) + n), 3: (z3.Length(a) + n, z3.Length(t))}, 3, {0: t, 1: a, 2: b, 3: c})


def substitute(run, pat, repl, t, count=None):
    """re.sub: copies characters at which the pattern does not match, replaces the matches, from the left. The contract
    run.loops["re.sub"] has an invariant inv(run, t, position, text so far)."""
    spec = run.loops.get("re.sub")
    if spec is None:
        raise Unsupported("substitution without a contract")
    width(pat)
    n = z3.Length(t)
    for label, c in spec.inv(run, t, z3.IntVal(0), z3.StringVal("")):
        run.ensure("invariant of the substitution on entry: " + label, c)
    q, out = z3.Int(run.name("at")), z3.String(run.name("so far"))
    if count is not None:
        # replacements so far: at most one for each place; none are left when there were count, unless that is 0
        done = z3.Int(run.name("replaced"))
        run.assume([done >= 0, done <= q])
        if run.pick(2):
            run.assume([q >= 0, q <= n, done == count, count != 0] + [c for l, c in spec.inv(run, t, q, out)])
            return mks(concat(out, z3.SubString(t, q, n - q)))
    if run.pick(2):
        run.assume([q == n] + [c for l, c in spec.inv(run, t, q, out)])
        return mks(out)
    run.assume([q >= 0, q < n] + [c for l, c in spec.inv(run, t, q, out)])
    spec.step(run, t, q, out)
    m = try_match(run, pat, t, q)
    if m is None:
        e, new = q + 1, concat(out, at(t, q))
    else:
        e = m.ghost["spans"][0][1]
        r = repl if run.is_strlike(repl) else run.call(repl, [m], {})
        if isinstance(repl, str) and "\\" in repl or not run.is_strlike(r):
            raise Unsupported("replacement text")
        new = concat(out, zs(r))
    for label, c in spec.inv(run, t, z3.simplify(e), new):
        run.ensure("invariant of the substitution is kept: " + label, c)
    run.reach("loop")
    raise PathEnd()
