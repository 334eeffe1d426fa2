"""tonnikala.syntaxes.docparser: from the events of the standard library's HTML parser to the DOM, with positions"""
from .lib import *
from .k_nodes import pos_spec

DP = "tonnikala.syntaxes.docparser"
P = DP + ":TonnikalaHTMLParser"
TSE = "tonnikala.runtime.exceptions:TemplateSyntaxError"
import xml.parsers.expat
from xml.dom import minidom


class Doc:
    """the document under construction, seen through the operations the parser uses: a stack of open elements, appended nodes"""
    def __init__(self, run):
        self.run = run
        self.appended = []
        self.flushed = [0]
        self.root = None            # the root element, once there is one

    def node(self, run, kind, **info):
        n = opaque(run, kind)
        n.ghost.update(kind=kind, info=info, set={}, attrs=[], truth=True)

        def sa(run, v, name, val):
            v.ghost["set"][name] = val

        def ga(run, v, name):
            if name in v.ghost["set"]:
                return v.ghost["set"][name]
            if name == "setAttribute":
                return Native(lambda run, a, k: v.ghost["attrs"].append((a[0], a[1])))
            if name == "appendChild":
                return Native(lambda run, a, k: self.appended.append((v, a[0])))
            if name in info:
                return info[name]
            return MISSING
        n.ghost["setattr"] = sa
        n.ghost["getattr"] = ga
        return n

    def document(self, run):
        def ga(run, v, name):
            if name == "createElement":
                return Native(lambda run, a, k: self.node(run, "element", tagName=a[0]))
            if name == "createTextNode":
                return Native(lambda run, a, k: self.node(run, "text", data=a[0]))
            if name == "createComment":
                return Native(lambda run, a, k: self.node(run, "comment", data=a[0]))
            if name == "createProcessingInstruction":
                return Native(lambda run, a, k: self.node(run, "pi", target=a[0], data=a[1]))
            if name == "appendChild":
                return Native(lambda run, a, k: self.appended.append((v, a[0])))
            if name == "documentElement":
                return self.root
            return MISSING
        return opaque(run, "document", getattr=ga, truth=True, isinstance=lambda run, v, c: c is minidom.Document or c is minidom.Node or c is object)


def open_element(run, doc, name=None):
    """an element that is open: no document"""
    e = doc.node(run, "open", name=name if name is not None else run.str("open element", input=True))
    e.ghost["isinstance"] = lambda run, v, c: c in (minidom.Element, minidom.Node, object)
    return e


def parser(run, depth=None, flush=True):
    """a parser in the middle of a document: the document and `depth` open elements (any number when None)"""
    p = Obj(cls(P), name="parser")
    doc = Doc(run)
    p.ghost["doc"] = doc
    d = doc.document(run)
    p.fields["doc"] = d
    p.fields["filename"] = opaque(run, "filename")
    p.fields["source"] = opaque(run, "source")
    line, col = run.int("line", input=True), run.int("column", input=True)
    run.assume(A(line.t >= 1, col.t >= 0))
    p.fields["getpos"] = Native(lambda run, a, k: (line, col))
    p.ghost["pos"] = (line, col)
    if depth is None:
        depth = run.pick(2)
        top = open_element(run, doc) if depth else d
        if depth or run.pick(2):
            doc.root = open_element(run, doc)
        els = SymList([d, Seg("open", lambda run, nm: open_element(run, doc)), top] if depth else [d])
    else:
        top = open_element(run, doc) if depth else d
        if depth:
            doc.root = top
        els = SymList([d] + [top] * (1 if depth else 0))
    p.fields["elements"] = els
    p.ghost["top"] = top
    p.ghost["flush"] = []
    if flush:
        stub(run, P + ".flush_character_data", lambda run, a, k: p.ghost["flush"].append(len(doc.appended)))
    return p, doc


def rejected(run, p, e, line=None):
    run.ensure("only a template syntax error is raised", run.isinstance(e.value, cls(TSE)) is True)
    ln = run.getattr(e.value, "lineno")
    run.ensure_eq("at the line of the offending markup", ln, p.ghost["pos"][0] if line is None else line)
    run.ensure("with the file name and source of the template", run.getattr(e.value, "filename") is p.fields["filename"] and run.getattr(e.value, "source") is p.fields["source"])


def method(run, p, name, args, kw=None):
    return run.call_closure(fn(P + "." + name), [p] + args, kw or {})


@unit("docparser.syntax_error", ["C13"], P + ".syntax_error")
def _(run):
    """a template syntax error with the line given, or the current one, the source and the file name"""
    p, doc = parser(run, 1)
    given = run.pick(2)
    l = run.int("lineno", input=True)
    run.assume(l.t >= 1)
    m = run.str("message", input=True)
    try:
        method(run, p, "syntax_error", [m], dict(lineno=l) if given else {})
    except PyExc as e:
        rejected(run, p, e, l if given else None)
        return
    run.ensure("an error is raised", False)


@unit("docparser.delta", ["C14"], P + ".delta")
def _(run):
    """row and column relative to the start of the tag, as a position in the source"""
    p, doc = parser(run, 1)
    r, c = run.int("row", input=True), run.int("col", input=True)
    run.assume(r.t >= 0)
    x = method(run, p, "delta", [r, c])
    line, col = p.ghost["pos"]
    run.ensure("the line", zi(x[0]) == line.t + r.t)
    run.ensure("the column: from the tag on its first line, from the line start on later ones", zi(x[1]) == z3.If(r.t == 0, col.t + c.t, c.t))


@unit("docparser.find_attr_positions", ["C14", "C13"], P + ".find_attr_positions",
      trusted=["the matches of html.parser's own attribute pattern are the attributes of the tag, in order, group 3 being the value"], forms=["absolute"])
def _(run):
    """each attribute with a value has the position of the first character of its value, after an opening quote"""
    f = fn(P + ".find_attr_positions")
    p, doc = parser(run, 1)
    # the text of the tag: T up to the end of its name, H up to the value before, M up to this value, c its first character, R the rest
    T, H, M, R = [run.str(n, input=True) for n in "THMR"]
    c = run.str("c", input=True)
    run.assume(z3.Length(c.t) == 1)
    run.assume(z3.Length(T.t) >= 1)
    src = mks(concat(T.t, H.t, M.t, c.t, R.t))
    p.fields["get_starttag_text"] = Native(lambda run, a, k: src)
    t = z3.Length(T.t)
    h = t + z3.Length(H.t)
    q = OR(c.t == SV("'"), c.t == SV('"'))
    v0 = h + z3.Length(M.t)
    v = z3.If(q, v0 + 1, v0)
    m0 = opaque(run, "match", truth=True, getattr=lambda run, o, a: Native(lambda run, a, k: mki(t)) if a == "end" else MISSING)
    names = []

    def mk(run, nm):
        o = opaque(run, nm, truth=True)
        name = run.str(nm + ".name", input=True)
        has = run.bool(nm + ".has value")
        o.ghost["name"], o.ghost["has"] = name, has

        def ga(run, o, a):
            if a == "group":
                def g(run, a, k):
                    if a[0] == 1:
                        return name
                    if a[0] == 2:
                        return opaque(run, "rest", truth=has.t)
                    raise Unsupported("group")
                return Native(g)
            if a == "start":
                def g(run, a, k):
                    if a != [3]:
                        raise Unsupported("start of a group")
                    return mki(v0)
                return Native(g)
            return MISSING
        o.ghost["getattr"] = ga
        return o
    seg = Seg("attribute matches", mk)

    def match(run, a, k):
        run.ensure("the name is looked for right after <", a[0] is src and a[1] == 1)
        return m0

    def finditer(run, a, k):
        run.ensure("attributes are looked for after the name, up to the closing >", a[0] is src and A(zi(a[1]) == t, zi(a[2]) == z3.Length(src.t) - 1))
        return SymList([seg])
    mod = source.module(DP).py
    run.globals[(DP, "tagfind")] = opaque(run, "tagfind", getattr=lambda run, o, a: Native(match) if a == "match" else MISSING)
    run.globals[(DP, "attrfind")] = opaque(run, "attrfind", getattr=lambda run, o, a: Native(finditer) if a == "finditer" else MISSING)
    import html.parser as hp
    run.ensure("the patterns are the parser's own", mod.tagfind in (getattr(hp, "tagfind_tolerant", None), getattr(hp, "tagfind", None)) and mod.attrfind in (getattr(hp, "attrfind_tolerant", None), getattr(hp, "attrfind", None)))
    D = z3.Function("delta", IntS, IntS, IntS)
    told = []

    def delta(run, a, k):
        told.append((zi(a[1]), zi(a[2])))
        o = opaque(run, "position")
        o.ghost["at"] = told[-1]
        return o
    stub(run, P + ".delta", delta)

    def relative(n):
        return pos_spec(run, src.t, n, (z3.IntVal(0), z3.IntVal(0)))
    HT = concat(T.t, H.t)

    def rel(prefix):
        cnt, last = models.char_count(run, "\n", prefix)
        n = z3.Length(prefix)
        return cnt, z3.If(cnt > 0, n - last - 1, n)
    tr_entry = rel(T.t)
    tr_head = rel(HT)
    tr_val = (z3.If(q, rel(concat(HT, M.t, c.t))[0], rel(concat(HT, M.t))[0]), z3.If(q, rel(concat(HT, M.t, c.t))[1], rel(concat(HT, M.t))[1]))

    def havoc(ctx):
        for v in ("lineoffset", "colpos", "start"):
            try:
                ctx.set(v, run.int(v))
            except Unsupported:
                if not FORM[0]:
                    raise
        ctx.set("attr_pos", dict_unknown(run, "attr_pos"))
        ctx.data["mid"] = True

    def inv(ctx):
        # in the absolute form nothing is known of what was counted before
        s, lo, co = (zi(ctx.get(v)) for v in ("start", "lineoffset", "colpos")) if not FORM[0] else (None, None, None)
        if not ctx.data.get("mid"):
            at, want = t, tr_entry
        elif len(ctx.pre) == 1:
            if ctx.exit:
                return []
            at, want = h, tr_head
        else:
            x = ctx.x
            if run.truth(x.ghost["has"]):
                at, want = v, tr_val
                d = ctx.get("attr_pos")
                low = z3.Function("str_lower", StrS, StrS)(x.ghost["name"].t)
                e = models.dict_find(run, d, mks(low))
                run.ensure("the attribute has a position, under its lower case name", isinstance(e, Opaque) and "at" in e.ghost)
                run.ensure("its row is the number of line ends before the first character of its value", e.ghost["at"][0] == tr_val[0])
                run.ensure("its column is counted from the last line end before it, or from the tag", e.ghost["at"][1] == tr_val[1])
            else:
                at, want = h, tr_head
        if FORM[0]:
            return []
        return [("start is where the value before began", s == at), ("row of start", lo == want[0]), ("column of start", co == want[1])]
    run.loops["attribute matches"] = Loop(havoc, inv)
    some = run.pick(2)
    if not some:
        r = run.call_closure(f, [p, SymList([])], {})
        run.ensure("no positions without attributes", not run.truth(r))
        return
    r = run.call_closure(f, [p, SymList([("a", "b")])], {})


@unit("docparser.handle_starttag", ["C02", "C14", "C13"], P + ".handle_starttag")
def _(run):
    """a new element with its name, position and attributes, each attribute value with its own position, inside the element that is
    open; it is open then, unless it closes itself or is a void element"""
    p, doc = parser(run)
    top = p.ghost["top"]
    name = run.str("name", input=True)
    pos = dict_unknown(run, "attr_pos", lambda run, k, nm: (run.int(nm + ".line"), run.int(nm + ".col")))

    def positions(run, a, k):
        run.ensure("positions of the attributes of this tag", a[1] is attrs)
        return pos
    stub(run, P + ".find_attr_positions", positions)
    ended = []
    stub(run, P + ".handle_endtag", lambda run, a, k: ended.append(a[1]))
    els = p.fields["elements"]
    before = list(els.items)
    # attributes: any number; the loop sets each on the element
    AT = z3.Function("dom_attr", StrS, IntS, StrS)
    made = []
    st = SymList([])

    def mk(run, nm):
        k = run.str(nm + ".name", input=True)
        v = opaque(run, nm + ".value")
        v.ghost["n"] = z3.Int(run.name("n"))
        return (k, v)
    attrs = SymList([Seg("tag attributes", mk)])
    F = Fold("dom_attrs", "str", lambda run, kv: AT(zs(kv[0]), kv[1].ghost["n"]))
    SWL = cls("tonnikala.helpers:StringWithLocation")

    def swl(run, a, k):
        o = Obj(SWL, dict(position=(a[1], a[2])), sval=run.str("located"))
        o.ghost["n"] = a[0].ghost["n"]
        o.ghost["of"] = a[0]
        return o
    stub(run, "tonnikala.helpers:StringWithLocation", swl)
    el = []

    def create(run, a, k):
        run.ensure("an element of the tag's name", a[0] is name)
        e = doc.node(run, "element", tagName=a[0])

        def sans(run, a, k):
            # minidom keeps one attribute of each namespace and local name (what follows the first colon)
            ns = a[0]
            if not isinstance(ns, (SymStr, str, type(None))):
                raise Unsupported("attribute namespace %r" % (ns,))
            if isinstance(ns, SymStr) and z3.is_string_value(z3.simplify(ns.t)):
                ns = None
            if isinstance(ns, SymStr):
                k1, k2 = zs(a[1]), z3.String("another name")
                if not z3.is_const(k1):
                    raise Unsupported("attribute namespace %s" % ns.t)
                run.ensure("attributes of different names have different namespaces", z3.Implies(ns.t == z3.substitute(ns.t, (k1, k2)), k1 == k2))
                return sa(run, a[1:], k)
            run.ensure("an attribute of another name but the same local name stays: the namespace tells them apart", isinstance(ns, SymStr))
            return sa(run, a[1:], k)

        def sa1(run, a, k):
            return sans(run, [None] + list(a), k)

        def sa(run, a, k):
            run.mutate(st)
            key = a[0]
            v = a[1]
            w = models.dict_find(run, pos, key)
            if w is MISSING:
                run.ensure("an attribute without a known position is set as it is", isinstance(v, Opaque))
            else:
                run.ensure("an attribute with a position carries it", isinstance(v, Obj) and v.kinds == [SWL] and A(zi(v.fields["position"][0]) == zi(w[0]), zi(v.fields["position"][1]) == zi(w[1])))
            st.items.append((key, v))
        old = e.ghost["getattr"]
        e.ghost["getattr"] = lambda run, v, n: Native(sa1) if n == "setAttribute" else Native(sans) if n == "setAttributeNS" else old(run, v, n)
        el.append(e)
        return e
    old = p.fields["doc"].ghost["getattr"]
    p.fields["doc"].ghost["getattr"] = lambda run, v, n: Native(create) if n == "createElement" else old(run, v, n)

    def havoc(ctx):
        ctx.modifies(st)
        st.items = [Seg(run.name("set"), mk)]
    run.loops["tag attributes"] = Loop(havoc, lambda ctx: [("the attributes so far, in order", run.fold_term(F, st.items) == run.fold_term(F, ctx.pre))])
    sc = run.bool("self_closing")
    second = top is p.fields["doc"] and doc.root is not None
    try:
        method(run, p, "handle_starttag", [name, attrs], dict(self_closing=sc))
    except PyExc as e:
        rejected(run, p, e)
        run.ensure("only an element outside the root element is an error", second)
        return
    run.ensure("a second root element is an error", not second)
    run.ensure("the text before the tag is added before the element", p.ghost["flush"] == [0])
    run.ensure("one element is made", len(el) == 1)
    e = el[0]
    run.ensure("the element is in the element that is open, once", len(doc.appended) == 1 and doc.appended[0][0] is top and doc.appended[0][1] is e)
    run.ensure("all attributes are set, once and in order", run.fold_term(F, st.items) == run.fold_term(F, attrs.items))
    ps = e.ghost["set"].get("position")
    run.ensure("the element has the position of its tag", isinstance(ps, tuple) and A(zi(ps[0]) == p.ghost["pos"][0].t, zi(ps[1]) == p.ghost["pos"][1].t))
    run.ensure("and its name", e.ghost["set"].get("name") is name)
    run.ensure("the element is open now, inside the others", els.items == before + [e])
    low = z3.Function("str_lower", StrS, StrS)(name.t)
    VOID = ["area", "base", "br", "col", "embed", "hr", "img", "input", "keygen", "link", "meta", "param", "source", "track", "wbr"]
    void = OR(sc.t, *[low == SV(v) for v in VOID])
    if ended:
        run.ensure("its end tag is implied once", len(ended) == 1 and ended[0] is name)
        run.ensure("only by self-closing tags and void elements", void)
    else:
        run.ensure("self-closing tags and void elements imply their end tag", NOT(void))


@unit("docparser.handle_startendtag", ["C02"], P + ".handle_startendtag")
def _(run):
    p, doc = parser(run, 1)
    seen = []
    stub(run, P + ".handle_starttag", lambda run, a, k: seen.append((a[1], a[2], k.get("self_closing", a[3] if len(a) > 3 else False))))
    n, at = run.str("name"), opaque(run, "attrs")
    method(run, p, "handle_startendtag", [n, at])
    run.ensure("a self-closing tag is a start tag that closes itself", len(seen) == 1 and seen[0][0] is n and seen[0][1] is at and seen[0][2] is True)


@unit("docparser.handle_endtag", ["C13", "C02"], P + ".handle_endtag")
def _(run):
    """an end tag closes the element that is open if it has its name; any other end tag is an error at its line"""
    p, doc = parser(run)
    top = p.ghost["top"]
    els = p.fields["elements"]
    before = list(els.items)
    name = run.str("name", input=True)
    low = z3.Function("str_lower", StrS, StrS)
    has = top.ghost.get("kind") == "open"
    try:
        method(run, p, "handle_endtag", [name])
    except PyExc as e:
        rejected(run, p, e)
        if has:
            run.ensure("only a mismatched end tag is an error", low(name.t) != low(zs(top.ghost["info"]["name"])))
        return
    run.ensure("a stray end tag is an error", has)
    run.ensure("a mismatched end tag is an error", low(name.t) == low(zs(top.ghost["info"]["name"])))
    run.ensure("the text before the tag is added while the element is open", p.ghost["flush"] == [0])
    run.ensure("the innermost element, and only it, is closed", els.items == before[:-1])


@unit("docparser.handle_data", ["C02", "C14", "C03"], P + ".handle_data")
def _(run):
    """text is collected in order; its start is where its first piece began"""
    p, doc = parser(run, 1)
    k = run.pick(3)
    t0 = None
    at = opaque(run, "earlier start")
    if k == 0:
        p.fields["characters"] = None
        p.fields["characters_start"] = at
        t0 = SV("")
    elif k == 1:
        s = Seg("chars", lambda run, nm: run.str(nm))
        p.fields["characters"] = SymList([run.str("first"), s])
        p.fields["characters_start"] = at
        t0 = run.fold_term(run.JOIN, p.fields["characters"].items)
    else:
        p.fields["characters"] = SymList([])
        p.fields["characters_start"] = at
        t0 = SV("")
    c = run.str("content", input=True)
    method(run, p, "handle_data", [c])
    run.ensure("the text so far is followed by the new text", run.fold_term(run.JOIN, run.items_of(p.fields["characters"])) == concat(t0, c.t))
    st = p.fields["characters_start"]
    if k == 1:
        run.ensure("the text starts where its first piece started", st is at)
    else:
        run.ensure("a new text starts here", isinstance(st, tuple) and A(zi(st[0]) == p.ghost["pos"][0].t, zi(st[1]) == p.ghost["pos"][1].t))


@unit("docparser.flush_character_data", ["C02", "C13", "C14"], P + ".flush_character_data")
def _(run):
    """the collected text becomes one text node of the open element, with its position; outside of the root element white space is
    dropped and other text is an error at its line"""
    p, doc = parser(run, flush=False)
    top = p.ghost["top"]
    l, c = run.int("start line", input=True), run.int("start col")
    run.assume(l.t >= 1)
    p.fields["characters_start"] = (l, c)
    k = run.pick(2)
    text = None
    if k:
        p.fields["characters"] = SymList([run.str("first", input=True), Seg("chars", lambda run, nm: run.str(nm))])
        text = run.fold_term(run.JOIN, p.fields["characters"].items)
    else:
        p.fields["characters"] = None
    root = top.ghost.get("kind") != "open"
    try:
        method(run, p, "flush_character_data", [])
    except PyExc as e:
        rejected(run, p, e, l)
        run.ensure("only text outside of the root element is an error", root and k == 1)
        run.ensure("white space outside of the root element is no error", zs(run.call(run.getattr(mks(text), "strip"), [], {})) != SV(""))
        return
    run.ensure("the text is used up", p.fields["characters"] is None)
    if not k:
        run.ensure("no text, no node", not doc.appended)
        return
    if root:
        run.ensure("text outside of the root element is an error", zs(run.call(run.getattr(mks(text), "strip"), [], {})) == SV(""))
        run.ensure("white space outside of the root element is dropped", not doc.appended)
        return
    run.ensure("one text node in the open element", len(doc.appended) == 1 and doc.appended[0][0] is top and doc.appended[0][1].ghost["kind"] == "text")
    n = doc.appended[0][1]
    d = n.ghost["info"]["data"]
    run.ensure("all of the text, in order", zs(models.to_str(run, d)) == text)
    ps = run.getattr(d, "position")
    run.ensure("the text has its position", A(zi(ps[0]) == l.t, zi(ps[1]) == c.t))
    ps = n.ghost["set"].get("position")
    run.ensure("and so does the node", isinstance(ps, tuple) and A(zi(ps[0]) == l.t, zi(ps[1]) == c.t))


@unit("docparser.handle_entityref", ["C13", "C02", "C01"], P + ".handle_entityref")
def _(run):
    """a known entity is its character, as text; an unknown one is an error at its line"""
    p, doc = parser(run, 1)
    data = []
    stub(run, P + ".handle_data", lambda run, a, k: data.append(a[1]))
    ents = dict_unknown(run, "entities", lambda run, k, nm: run.str(nm))
    import html.entities as he
    run.ensure("the table is the standard one", source.module(DP).py.html_entity_defs is he.entitydefs)
    run.globals[(DP, "html_entity_defs")] = ents
    n = run.str("name", input=True)
    try:
        method(run, p, "handle_entityref", [n])
    except PyExc as e:
        rejected(run, p, e)
        run.ensure("only an unknown entity is an error", models.dict_find(run, ents, n) is MISSING)
        return
    w = models.dict_find(run, ents, n)
    run.ensure("an unknown entity is an error", w is not MISSING)
    run.ensure("the entity's characters are text, once", len(data) == 1 and zs(data[0]) == zs(w))


@unit("docparser.handle_charref", ["C13", "C02", "C01"], P + ".handle_charref")
def _(run):
    """a decimal or hexadecimal reference is its character, as text; a malformed one is an error at its line"""
    p, doc = parser(run, 1)
    data = []
    stub(run, P + ".handle_data", lambda run, a, k: data.append(a[1]))
    VAL = z3.Function("int_value", StrS, IntS, IntS)
    OKN = z3.Function("is_number", StrS, IntS, BoolS)

    def m_int(run, a, k):
        base = a[1] if len(a) > 1 else k.get("base", 10)
        t = zs(a[0])
        if not run.fork(OKN(t, z3.IntVal(base))):
            run.throw(ValueError, "invalid literal")
        return mki(VAL(t, z3.IntVal(base)))
    run.models[int] = m_int

    def m_chr(run, a, k):
        n = zi(a[0])
        if not run.fork(A(n >= 0, n < 0x110000)):
            run.throw(OverflowError if run.fork(OR(n >= 2 ** 31, n < -2 ** 31)) else ValueError, "chr")
        return mks(z3.Function("chr", IntS, StrS)(n))
    run.models[chr] = m_chr
    code = run.str("code", input=True)
    run.assume(code.t != SV(""))
    hx = z3.Or(z3.PrefixOf(SV("x"), code.t), z3.PrefixOf(SV("X"), code.t))
    rest = z3.SubString(code.t, 1, z3.Length(code.t) - 1)
    # the value of the reference, and whether it is one
    ok = z3.If(hx, A(OKN(rest, 16), VAL(rest, 16) >= 0, VAL(rest, 16) < 0x110000), A(OKN(code.t, 10), VAL(code.t, 10) >= 0, VAL(code.t, 10) < 0x110000))
    v = z3.If(hx, VAL(rest, 16), VAL(code.t, 10))
    try:
        method(run, p, "handle_charref", [code])
    except PyExc as e:
        rejected(run, p, e)
        run.ensure("only a malformed reference is an error", NOT(ok))
        return
    run.ensure("a malformed reference is an error", ok)
    run.ensure("the character is text, once", len(data) == 1 and zs(data[0]) == z3.Function("chr", IntS, StrS)(v))


@unit("docparser.handle_comment", ["C02"], P + ".handle_comment")
def _(run):
    """a comment is a comment node in the open element, after the text before it; comments starting with ! are dropped"""
    p, doc = parser(run)
    t = run.str("text", input=True)
    method(run, p, "handle_comment", [t])
    hidden = z3.PrefixOf(SV("!"), zs(run.call(run.getattr(t, "strip"), [], {})))
    run.ensure("the text before the comment is added before it", p.ghost["flush"] == [0])
    if doc.appended:
        n = doc.appended[0][1]
        run.ensure("one comment node in the open element", len(doc.appended) == 1 and doc.appended[0][0] is p.ghost["top"] and n.ghost["kind"] == "comment")
        run.ensure_eq("with the text of the comment", n.ghost["info"]["data"], t)
        run.ensure("only comments that do not start with !", NOT(hidden))
    else:
        run.ensure("comments are kept unless they start with !", hidden)


@unit("docparser.unknown_decl", ["C13"], P + ".unknown_decl")
def _(run):
    p, doc = parser(run)
    try:
        method(run, p, "unknown_decl", [run.str("decl", input=True)])
    except PyExc as e:
        rejected(run, p, e)
        return
    run.ensure("an unknown declaration is an error", False)


@unit("docparser.parse", ["C02", "C13"], P + ".parse")
def _(run):
    """the document: all of the source is fed, the parser is closed, the text left is added"""
    p = Obj(cls(P), name="parser")
    log = []
    src = opaque(run, "source")
    p.fields.update(source=src, filename=opaque(run, "filename"), doc=None, elements=SymList([]), characters=None)
    p.fields["feed"] = Native(lambda run, a, k: log.append(("feed", a[0])))
    p.fields["close"] = Native(lambda run, a, k: log.append(("close",)))
    stub(run, P + ".flush_character_data", lambda run, a, k: log.append(("flush",)))
    d = opaque(run, "document", truth=True)
    run.models[minidom.Document] = lambda run, a, k: (log.append(("doc",)), d)[1]
    r = method(run, p, "parse", [])
    run.ensure("all of the source is fed to the parser, which is closed; the last text is added", log == [("doc",), ("feed", src), ("close",), ("flush",)])
    run.ensure("the document is the outermost of the open elements", p.fields["elements"].items == [d])
    run.ensure("the document is the result", r is d and p.fields["doc"] is d)


@unit("docparser.handle_pi", ["C02", "C14", "C13"], P + ".handle_pi", trusted=["str.split(None, 1) gives the first word of a text and what follows the white space after it"])
def _(run):
    """an instruction is a node of the open element, after the text before it, with its target and data if there are any; a closing ?
    belongs to neither"""
    p, doc = parser(run)
    shape = run.pick(3)
    t, rest, ws = run.str("target", input=True), run.str("data", input=True), run.str("space", input=True)
    run.assume(A(t.t != SV(""), rest.t != SV(""), ws.t != SV("")))
    last = [ws.t, t.t, rest.t][shape]
    closed = run.pick(2)
    whole = concat(*([ws.t] if shape == 0 else [t.t] if shape == 1 else [t.t, ws.t, rest.t]))
    if not closed:
        run.assume(NOT(z3.SuffixOf(SV("?"), whole)))
    src = concat(whole, SV("?")) if closed else whole
    pieces = [[], [t], [t, rest]][shape]

    def split1(run, x):
        if not run.feasible(NOT(x == whole)):
            return list(pieces)
        if closed and not run.feasible(NOT(x == src)):
            # the mark belongs to the last word
            return ["?"] if shape == 0 else pieces[:-1] + [mks(concat(pieces[-1].t, SV("?")))]
        return None
    run.split1 = split1
    d = mks(src)
    if shape != 2:
        rest = ""
    if shape == 0:
        t = ""
    places = []

    def place(run, a, k):
        # calculate_position by its own contract
        places.append((a[0], a[1], a[2]))
        return (run.int("line"), run.int("column"))
    stub(run, "tonnikala.helpers:calculate_position", place)
    method(run, p, "handle_pi", [d])
    run.ensure("the text before the instruction is added before it", p.ghost["flush"] == [0])
    run.ensure("one instruction node in the open element", len(doc.appended) == 1 and doc.appended[0][0] is p.ghost["top"] and doc.appended[0][1].ghost["kind"] == "pi")
    i = doc.appended[0][1].ghost["info"]
    run.ensure_eq("its target", i["target"], t)
    run.ensure_eq("its data without a closing ?", i["data"], rest)
    if shape == 2:
        run.ensure("its data knows its place", isinstance(i["data"], Obj) and "position" in i["data"].fields and len(places) >= 1)
        line, col = p.ghost["pos"]
        s, off, start = places[-1]
        # what precedes it in the instruction
        pre = concat(t.t, ws.t)
        run.ensure("its place is counted from the beginning of the instruction, after <?", A(zi(start[0]) == line.t, zi(start[1]) == col.t + 2))
        run.ensure("its place is where it begins", A(zi(off) == z3.Length(pre), z3.PrefixOf(pre, zs(s))))
    ps = doc.appended[0][1].ghost["set"].get("position")
    run.ensure("and its position", isinstance(ps, tuple) and A(zi(ps[0]) == p.ghost["pos"][0].t, zi(ps[1]) == p.ghost["pos"][1].t))


@unit("docparser.handle_decl", ["C02", "C13"], P + ".handle_decl", trusted=["xml.dom.minidom.parseString gives the document of an XML source, with its document type, or raises an exception", "HTMLParser.handle_decl gets the text between <! and > of a declaration that begins with DOCTYPE, in any case"])
def _(run):
    """a document type declaration is read as the one of an XML document, in any case of its keyword, and added to the document; one
    that XML does not allow, or that is not at the top, is an error at its line"""
    p, doc = parser(run)
    kw = run.str("keyword", input=True)
    run.assume(z3.Length(kw.t) == 7)
    rest = run.str("declaration", input=True)
    decl = mks(concat(kw.t, rest.t))
    good = run.pick(2)
    dt = doc.node(run, "doctype")
    sources = []

    def parse(run, a, k):
        sources.append(zs(a[0]))
        if not good:
            raise PyExc(Obj(xml.parsers.expat.ExpatError, dict(args=(run.str("message"),))))
        return opaque(run, "document of the declaration", getattr=lambda run, v, n: dt if n == "doctype" else MISSING, truth=True)
    run.models[minidom.parseString] = parse
    top = p.ghost["top"] is p.fields["doc"]
    want = concat(SV("<!DOCTYPE"), rest.t, SV("><html/>"))
    try:
        method(run, p, "handle_decl", [decl])
    except PyExc as e:
        rejected(run, p, e)
        run.ensure("only a malformed declaration, or one inside an element, is an error", not good or not top)
        run.ensure("no other declaration is read", all(not run.feasible(NOT(s == want)) for s in sources))
        return
    run.ensure("a malformed declaration, or one inside an element, is an error", bool(good and top))
    run.ensure("the declaration is read", len(sources) == 1 and sources[0] == want)
    run.ensure("its document type is added to the document, once", len(doc.appended) == 1 and doc.appended[0][0] is p.fields["doc"] and doc.appended[0][1] is dt)
    run.ensure("after the text before it", p.ghost["flush"] == [0])


@unit("docparser.__init__", ["C02", "C14"], P + ".__init__", trusted=["HTMLParser.__init__ prepares a parser"])
def _(run):
    """a new parser has the file name and source given, no open element and no text"""
    f, s = opaque(run, "filename"), opaque(run, "source")
    import html.parser
    seen = []
    run.models[html.parser.HTMLParser.__init__] = lambda run, a, k: seen.append(dict(k))
    p = run.call(cls(P), [f, s], {})
    run.ensure("the file name and source are kept", p.fields.get("filename") is f and p.fields.get("source") is s)
    e = p.fields.get("elements")
    run.ensure("no element is open", isinstance(e, SymList) and e.items == [])
    run.ensure("there is no text and no document yet", p.fields.get("characters", 0) is None and p.fields.get("doc", 0) is None)
    run.ensure("character references are left to the parser's own handling", seen == [{"convert_charrefs": False}])
