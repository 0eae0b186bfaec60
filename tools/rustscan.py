"""A small Rust token scanner: enough structure to lift items out of a source
file verbatim (by byte offsets), with no semantic interpretation of them."""
import re

IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"[0-9][0-9A-Za-z_]*(\.[0-9][0-9A-Za-z_]*)?")
RAWSTR = re.compile(r"(?:b|c)?r(#*)\"")
STRPFX = re.compile(r"(?:b|c)?\"")


class ScanError(Exception):
    pass


class Tok:
    __slots__ = ("k", "t", "s", "e", "m")

    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e
        self.m = None  # index of the matching bracket

    def __repr__(self):
        return f"{self.k}:{self.t!r}"


def lex(src):
    """Significant tokens only (comments and whitespace are skipped)."""
    toks, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j + 1
            continue
        if src.startswith("/*", i):
            d, i = 1, i + 2
            while i < n and d:
                if src.startswith("/*", i):
                    d, i = d + 1, i + 2
                elif src.startswith("*/", i):
                    d, i = d - 1, i + 2
                else:
                    i += 1
            continue
        m = RAWSTR.match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.find(end, m.end())
            if j < 0:
                raise ScanError("unterminated raw string")
            j += len(end)
            toks.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        m = STRPFX.match(src, i)
        if m:
            j = m.end()
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            toks.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if c == "'" or src.startswith("b'", i):
            k = i + (2 if c == "b" else 1)
            if k < n and src[k] == "\\":
                j = src.find("'", k + 2)
                toks.append(Tok("char", src[i : j + 1], i, j + 1))
                i = j + 1
                continue
            if k + 1 < n and src[k + 1] == "'":
                toks.append(Tok("char", src[i : k + 2], i, k + 2))
                i = k + 2
                continue
            m = IDENT.match(src, k)
            if m and c == "'":
                toks.append(Tok("life", src[i : m.end()], i, m.end()))
                i = m.end()
                continue
            raise ScanError(f"bad quote at {i}")
        m = IDENT.match(src, i)
        if m:
            toks.append(Tok("id", m.group(), i, m.end()))
            i = m.end()
            continue
        m = NUM.match(src, i)
        if m:
            toks.append(Tok("num", m.group(), i, m.end()))
            i = m.end()
            continue
        toks.append(Tok("p", c, i, i + 1))
        i += 1
    st = []
    for idx, t in enumerate(toks):
        if t.k == "p" and t.t in "([{":
            st.append(idx)
        elif t.k == "p" and t.t in ")]}":
            if not st:
                raise ScanError("unbalanced brackets")
            o = st.pop()
            toks[o].m = idx
            t.m = o
    if st:
        raise ScanError("unbalanced brackets")
    return toks


class Item:
    def __init__(self, kind, name, first, start, end, body, src, toks, owner=None, trait=None, cfg=(), targ=None):
        self.targ = targ        # generic argument of the trait, `u8` of `TryFrom<u8>`
        self.kind, self.name = kind, name
        self.first = first      # token index after attributes
        self.start, self.end = start, end  # token index range [start, end)
        self.body = body        # token index of the opening brace, or None
        self.src, self.toks = src, toks
        self.owner, self.trait, self.cfg = owner, trait, cfg

    def text(self, with_attrs=False):
        a = self.toks[self.start if with_attrs else self.first].s
        return self.src[a : self.toks[self.end - 1].e]


KW = {"fn", "struct", "enum", "impl", "const", "static", "mod", "use", "trait", "type", "union", "macro_rules", "extern"}


def _skip_generics(toks, i):
    """toks[i] is `<`; returns the index after the matching `>`."""
    d = 0
    while True:
        t = toks[i]
        if t.k == "p":
            if t.t in "([{":
                i = t.m
            elif t.t == "<":
                d += 1
            elif t.t == ">" and not (toks[i - 1].k == "p" and toks[i - 1].t in "-=" and toks[i - 1].e == t.s):
                d -= 1
                if d == 0:
                    return i + 1
        i += 1


def items(src, toks=None, lo=0, hi=None, owner=None, trait=None, targ=None):
    if toks is None:
        toks = lex(src)
    if hi is None:
        hi = len(toks)
    out, i = [], lo
    while i < hi:
        start, cfg = i, []
        while i < hi and toks[i].t == "#":
            j = i + 1
            if toks[j].t == "!":
                j += 1
            if toks[j].t != "[":
                raise ScanError("bad attribute")
            cfg.append(src[toks[i].s : toks[toks[j].m].e])
            i = toks[j].m + 1
        if i >= hi:
            break
        first, j = i, i
        if toks[j].t == "pub":
            j += 1
            if j < hi and toks[j].t == "(":
                j = toks[j].m + 1
        while j < hi and (
            toks[j].t in ("async", "unsafe", "default")
            or (toks[j].t == "const" and toks[j + 1].t in ("fn", "unsafe", "async"))
            or (toks[j].t == "extern" and toks[j + 1].k == "str" and toks[j + 2].t == "fn")
            or toks[j].k == "str"
        ):
            j += 1
        kw = toks[j].t if j < hi else ""
        # end of item
        k = j
        body = None
        if kw in ("use", "static", "type") or (kw == "const"):
            while toks[k].t != ";":
                k = (toks[k].m if toks[k].t in "([{" and toks[k].k == "p" else k) + 1
            end = k + 1
        else:
            while k < hi:
                t = toks[k]
                if t.k == "p" and t.t == ";":
                    end = k + 1
                    break
                if t.k == "p" and t.t == "{":
                    body = k
                    end = t.m + 1
                    if kw not in KW and end < hi and toks[end].t == ";":
                        end += 1
                    break
                if t.k == "p" and t.t in "([":
                    k = t.m + 1
                    continue
                k += 1
            else:
                end = hi
        name = toks[j + 1].t if kw in KW and j + 1 < hi else ""
        it_owner, it_trait, it_targ = owner, trait, targ
        if kw == "impl":
            p = j + 1
            if toks[p].t == "<":
                p = _skip_generics(toks, p)
            # split head into "A for B" at depth 0
            parts, cur, cur_targ = [], [], None
            q = p
            while q < body:
                t = toks[q]
                if t.t == "<":
                    q2 = _skip_generics(toks, q)
                    if not parts:
                        cur_targ = "".join(x.t for x in toks[q + 1 : q2 - 1])
                    q = q2
                    continue
                if t.t == "where":
                    break
                if t.t == "for":
                    parts.append(cur)
                    cur = []
                elif t.k == "id" or t.k == "p":
                    cur.append(t.t)
                q += 1
            parts.append(cur)

            def last_ident(ws):
                ws = [w for w in ws if re.match(r"[A-Za-z_]", w) and w not in ("dyn", "mut")]
                return ws[-1] if ws else "?"

            if len(parts) == 2:
                it_trait, it_owner = last_ident(parts[0]), last_ident(parts[1])
                it_targ = cur_targ
            else:
                it_trait, it_owner, it_targ = None, last_ident(parts[0]), None
            name = it_owner
        it = Item(kw, name, first, start, end, body, src, toks, it_owner, it_trait, tuple(cfg), it_targ)
        out.append(it)
        is_test = any(re.sub(r"\s", "", c) == "#[cfg(test)]" for c in cfg)
        if body is not None and not is_test and kw in ("impl", "mod", "trait"):
            sub_owner = it_owner if kw == "impl" else (name if kw == "trait" else owner)
            out.extend(items(src, toks, body + 1, toks[body].m, sub_owner, it_trait if kw == "impl" else None, it_targ if kw == "impl" else None))
        i = end
    return out


def norm(s):
    return " ".join(t.t for t in lex(s))


def loops(it):
    """(keyword token idx, header text normalised, body-open token idx) in order."""
    toks, res = it.toks, []
    i, hi = it.body + 1, toks[it.body].m
    while i < hi:
        t = toks[i]
        if t.k == "id" and t.t in ("loop", "while", "for") and not (t.t == "for" and toks[i + 1].t == "<"):
            j = i + 1
            # the pattern of a `for` may be a struct pattern
            while t.t == "for" and toks[j].t != "in":
                j = toks[j].m + 1 if toks[j].k == "p" and toks[j].t in "([{" else j + 1
            while not (toks[j].k == "p" and toks[j].t == "{"):
                if toks[j].k == "p" and toks[j].t in "([":
                    j = toks[j].m
                j += 1
            res.append((i, " ".join(x.t for x in toks[i:j]), j))
            i = j
        i += 1
    return res


def closures(it):
    """(first token idx, params-end idx (closing |), body-first idx, body-end idx exclusive, body is block)."""
    toks, res = it.toks, []
    i, hi = (it.first, it.end) if it.body is None else (it.body + 1, toks[it.body].m)
    while i < hi:
        t = toks[i]
        if t.k == "p" and t.t == "|":
            prev = toks[i - 1]
            if prev.t in ("(", ",", "=", "{", ";", "move", "return", ">", "}"):
                if prev.t == ">" and toks[i - 2].t != "=":
                    i += 1
                    continue
                j = i + 1
                while not (toks[j].k == "p" and toks[j].t == "|"):
                    if toks[j].k == "p" and toks[j].t in "([{":
                        j = toks[j].m
                    j += 1
                pe, b = j, j + 1
                if toks[b].t == "-" and toks[b + 1].t == ">":
                    while toks[b].t != "{":
                        b += 1
                if toks[b].t == "{":
                    e = toks[b].m + 1
                    res.append((i, pe, b, e, True))
                else:
                    e = b
                    while not (toks[e].k == "p" and toks[e].t in ",)};]"):
                        if toks[e].k == "p" and toks[e].t in "([{":
                            e = toks[e].m
                        e += 1
                    res.append((i, pe, b, e, False))
                i = pe
        i += 1
    return res


def find_seq(toks, lo, hi, pat):
    """token indices at which the token-text sequence `pat` occurs."""
    r = []
    for i in range(lo, hi - len(pat) + 1):
        if all(toks[i + j].t == pat[j] for j in range(len(pat))):
            r.append(i)
    return r
