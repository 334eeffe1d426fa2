"""Where an interpolation ends: a scanner for Python's lexical structure, written from the language reference (it shares
nothing with the tokenizer based code under test)."""
import re

PREFIX = {"r", "u", "b", "br", "rb", "f", "fr", "rf"}
IDENT = re.compile(r"[^\d\W]\w*")


def string_end(s, i, prefix):
    """s[i] is the quote; index after the literal, or None"""
    q = s[i]
    f = "f" in prefix.lower()
    if s.startswith(q * 3, i):
        q = q * 3
    i += len(q)
    while i < len(s):
        if s.startswith(q, i):
            return i + len(q)
        c = s[i]
        if c == "\\":
            if f and s[i + 1:i + 2] in ("{", "}"):
                i += 1
                continue
            i += 2
            continue
        if c == "\n" and len(q) == 1:
            return None
        if f and c == "{":
            if s.startswith("{{", i):
                i += 2
                continue
            i = fexpr_end(s, i + 1)
            if i is None:
                return None
            continue
        i += 1
    return None


def fexpr_end(s, i):
    """inside a replacement field; index after its closing brace"""
    depth = []
    while i < len(s):
        c = s[i]
        if c in "'\"":
            i = string_end(s, i, prefix_before(s, i))
            if i is None:
                return None
            continue
        if c in "([{":
            depth.append(c)
        elif c == "}" and not depth:
            return i + 1
        elif c in ")]}":
            if not depth:
                return None
            depth.pop()
        elif c == ":" and not depth:
            i += 1
            while i < len(s):
                if s[i] == "{":
                    i = fexpr_end(s, i + 1)
                    if i is None:
                        return None
                    continue
                if s[i] == "}":
                    return i + 1
                i += 1
            return None
        i += 1
    return None


def prefix_before(s, i):
    j = i
    while j > 0 and s[j - 1].isalpha() and s[j - 1].isascii() and i - j < 3:
        j -= 1
    p = s[j:i]
    if j > 0 and (s[j - 1].isalnum() or s[j - 1] == "_"):
        return ""
    return p if p.lower() in PREFIX else ""


def close_brace(s, i):
    """index after the brace closing the one before s[i], counting braces only; None when there is none"""
    depth = 0
    start = i
    while i < len(s):
        c = s[i]
        if c in "'\"":
            i = string_end(s, i, prefix_before(s[start:], i - start))
            if i is None:
                return None
            continue
        if c == "#":
            j = s.find("\n", i)
            if j < 0:
                return None
            i = j
            continue
        if c == "{":
            depth += 1
        elif c == "}":
            if depth == 0:
                return i + 1
            depth -= 1
        i += 1
    return None


PAIR = {"(": ")", "[": "]", "{": "}"}


def balanced(s, i):
    """s[i] opens a bracket; index after its partner, None if unbalanced"""
    stack = []
    start = i
    while i < len(s):
        c = s[i]
        if c in "'\"":
            i = string_end(s, i, prefix_before(s[start:], i - start))
            if i is None:
                return None
            continue
        if c == "#":
            j = s.find("\n", i)
            if j < 0:
                return None
            i = j
            continue
        if c in PAIR:
            stack.append(c)
        elif c in ")]}":
            if not stack or PAIR[stack[-1]] != c:
                return None
            stack.pop()
            if not stack:
                return i + 1
        i += 1
    return None


def extent(s, i):
    """s[i] is the $ of an interpolation. (end, expression source), or None when it is not closed."""
    if s[i + 1] == "{":
        e = close_brace(s, i + 2)
        return None if e is None else (e, s[i + 2:e - 1])
    e = IDENT.match(s, i + 1).end()
    while e < len(s):
        if s[e] == ".":
            m = IDENT.match(s, e + 1)
            if not m:
                break
            e = m.end()
        elif s[e] in "([":
            e = balanced(s, e)
            if e is None:
                return None
        else:
            break
    return e, s[i + 1:e]


def split(s):
    """[(kind, value)] with kind t or e, adjacent text joined; None when an interpolation is not closed"""
    out = []
    i = 0

    def text(c):
        if out and out[-1][0] == "t":
            out[-1] = ("t", out[-1][1] + c)
        else:
            out.append(("t", c))
    while i < len(s):
        c = s[i]
        if c != "$":
            text(c)
            i += 1
            continue
        n = s[i + 1:i + 2]
        if n == "$":
            text("$")
            i += 2
        elif n == "{" or (n.isascii() and n.isalpha()) or n == "_":
            r = extent(s, i)
            if r is None:
                return None
            out.append(("e", r[1]))
            i = r[0]
        else:
            text("$")
            i += 1
    return out
