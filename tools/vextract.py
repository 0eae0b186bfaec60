#!/usr/bin/env python3
"""Mechanical extraction of real functions from /repo into a Verus file.

A template (proofs/<unit>.rs) is ordinary Verus text (spec functions, lemmas,
assumed contracts on dependencies) with directives.  Executable bodies are never
written in a template: every `//@@ item` is replaced by the item's own text, cut
out of the current source file by token offsets.  The only edits made to it are
 - insertion of contracts: requires/ensures, loop invariants, proof blocks,
   a name for the returned value, closure contracts;
 - dropping of attributes and doc comments;
 - token rewrites the template declares one by one (`rewrite`).
All of it is recorded in the metadata, which ends up in the evidence file.

directives
  //@@ include FILE                text of another template (assumed contracts shared by units)
  //@@ source PATH                 file (relative to the repository)
  //@@ rewrite* `A` => `B`         rewrite applied in every following item
  //@@ impl OWNER [TRAIT]          emits the real header of that impl and `{`
  //@@ endimpl                     emits `}`
  //@@ item KIND [OWNER[<TRAIT>]::]NAME
  //@@   ret NAME                  names the returned value
  //@@   rename NAME               emits the function under another name
  //@@   rewrite `A` => `B`        rewrite in this item (must occur)
  //@@   rewrite? `A` => `B`       rewrite in this item (may be absent)
  //@@   derive A, B               derives kept on a struct/enum
  //@@   inherits                  a trait method whose contract is the trait's own
  //@@   public                    visibility widened to `pub`
  //@@   lazy                      `static X: LazyLock<T> = LazyLock::new(|| E)` becomes
                                   `fn X() -> T { E }`
  //@@   asfn                      `static X: T = E` becomes `fn X() -> T { E }`
  //@@   lift? ...                 (see code)
  //@@ assume UNIT [OWNER[<TRAIT>]::]NAME   the function's real header under the contract
                                   stated and proved for it in proofs/UNIT.rs, without its body
  //@@ + lifted N `SIGNATURE`      closure N, the block given to an `and_then`, becomes a method of
                                   that signature (`X.and_then(|p| B)` is
                                   `match X { None => None, Some(p) => self.m(p) }`;
                                   `X.and_then(|_| B)` is
                                   `match X { Err(e) => Err(e), Ok(_) => self.m(ARGS) }`)
  //@@ expand                    from here on `write!(F, [A, B])` is `write_all(F, &P(&(A), P(&(B), End)))`
                                   and `format_args![A, B]` is `P(&(A), P(&(B), End))`
  //@@ + says N                    closure N, given to a function that takes a ghost value first:
                                   line 1 is that value, the rest as in `closure N`
  //@@ + inlined N `METHOD`       `RECV.METHOD(move || BODY)` (closure N) becomes BODY
  //@@ + spec | body | loop N `HEADER` | loopbody N | loopafter N | closure N `PARAMS` |
         after `TOKENS` | before `TOKENS`
  <lines inserted>
  //@@ end
"""
import json, os, re, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rustscan as rs

REPO = os.environ.get("VERIF_REPO", "/repo")


class Lost(Exception):
    """An anchor is not where the contract expects it: undecided, never an alarm."""


def _find(its, kind, path):
    m = re.fullmatch(r"(?:([A-Za-z_0-9]+)(?:<([A-Za-z_0-9]+)(?::([^>]*(?:<[^>]*>)?[^>]*))?>)?::)?([A-Za-z_0-9]+)(?:@(\w+))?", path)
    if not m:
        raise SystemExit(f"bad item path {path}")
    owner, trait, targ, name, cfg = m.groups()
    c = [i for i in its if i.kind == kind and i.name == name and i.owner == owner]
    if trait:
        c = [i for i in c if i.trait == trait and (targ is None or i.targ == targ)]
    elif owner:
        c = [i for i in c if i.trait is None] or c
    if cfg:
        c = [i for i in c if any(cfg in a for a in i.cfg)]
    if len(c) != 1:
        raise Lost(f"{kind} {path}: {len(c)} candidates in the source")
    return c[0]


def emit_item(it, d, glob_rw, meta, label, canary=False):
    src, toks = it.src, it.toks
    lo, hi = it.first, it.end
    after_item = []
    ins = []   # (offset, order, text)
    dele = []  # (s, e, replacement)

    # attributes inside (and doc comments vanish because only the item span is copied)
    i = lo
    while i < hi:
        if toks[i].t == "#" and toks[i + 1].t == "[":
            a = src[toks[i].s : toks[toks[i + 1].m].e]
            if re.match(r"#\[\s*cfg\s*\(", a):
                m = re.match(r"#\[\s*cfg\s*\(\s*(.*?)\s*\)\s*\]$", a, re.S)
                if d.get("cfg") and m and m.group(1) in d["cfg"]:
                    # kept: the template states which cfg alternatives it knows about
                    i = toks[i + 1].m + 1
                    continue
                else:
                    raise Lost(f"{label}: conditional compilation inside the item: {a}")
            dele.append((toks[i].s, toks[toks[i + 1].m].e, ""))
            meta["dropped"].add(f"{label}: attribute {re.sub(chr(10), ' ', a)[:80]}")
            i = toks[i + 1].m
        i += 1
    for a in it.cfg:
        if not a.startswith("///"):
            meta["dropped"].add(f"{label}: attribute {re.sub(r'\\s+', ' ', a)[:80]}")

    # drop comments inside the item (keeps generated text small; they have no effect)
    head = ""
    if it.kind in ("struct", "enum") and d.get("derive"):
        head = f"#[derive({d['derive']})]\n"
    if d.get("attr"):
        head = "\n".join(d["attr"]) + "\n" + head
    if d.get("public"):
        if toks[lo].t == "pub":
            e = lo + 1
            if toks[e].t == "(":
                dele.append((toks[e].s, toks[toks[e].m].e, ""))
        else:
            head += "pub "
        if it.kind == "struct":
            # fields too: visibility only, so that contracts may mention them
            b = it.body
            if b is None:
                st = next(k for k in range(lo, hi) if toks[k].t == "struct")
                b = next((k for k in range(st, hi) if toks[k].t == "("), None)
            if b is not None:
                k, st = b + 1, True
                end = toks[b].m
                while k < end:
                    t = toks[k]
                    if st and t.t == "#":
                        k = toks[k + 1].m + 1
                        continue
                    if st:
                        if t.t != "pub":
                            ins.append((t.s, 0, "pub "))
                        elif toks[k + 1].t == "(" :
                            dele.append((toks[k + 1].s, toks[toks[k + 1].m].e, ""))
                        st = False
                    if t.t == "<":
                        k = rs._skip_generics(toks, k)
                        continue
                    if t.k == "p" and t.t in "([{":
                        k = t.m
                    elif t.t == ",":
                        st = True
                    k += 1

    # byte-string literals are opaque to the verifier: spelled out as byte arrays
    for k in range(lo, hi):
        if toks[k].k == "str" and toks[k].t.startswith("b"):
            import ast
            try:
                val = ast.literal_eval(toks[k].t)
            except (SyntaxError, ValueError):
                raise Lost(f"{label}: byte string {toks[k].t}")
            dele.append((toks[k].s, toks[k].e, "&[" + ", ".join(f"{c}u8" for c in val) + "]"))
            meta["rewrites"].append(f"{label}: byte string {toks[k].t} spelled out as an array")

    # let chains (unknown to the verifier): `if A && let P = E { B }` becomes
    # `if A { if let P = E { B } }`, which means the same where there is no `else`
    for k in range(lo, hi):
        if toks[k].t == "if" and toks[k].k != "str":
            j, ands, lets = k + 1, [], False
            while j < hi and toks[j].t != "{":
                if toks[j].t == "let":
                    lets = True
                if toks[j].t == "&" and toks[j + 1].t == "&" and toks[j].e == toks[j + 1].s:
                    ands.append(j)
                    j += 1
                elif toks[j].t == "&&":
                    ands.append(j)
                elif toks[j].k == "p" and toks[j].t in "([":
                    j = toks[j].m
                j += 1
            if lets and ands:
                e = toks[j].m
                if e + 1 < hi and toks[e + 1].t == "else":
                    raise Lost(f"{label}: let chain with an else")
                for a in ands:
                    z = toks[a].e if toks[a].t == "&&" else toks[a + 1].e
                    dele.append((toks[a].s, z, "{ if"))
                ins.append((toks[e].e, 5, " }" * len(ands)))
                meta["rewrites"].append(f"{label}: let chain written as nested `if`s")

    # biome_formatter's list macros
    if d.get("expand"):
        def spread(o, first):
            """the list between token o and its partner, as nested pairs"""
            z, k, commas = toks[o].m, o + 1, []
            while k < z:
                if toks[k].t == ",":
                    commas.append(k)
                k = toks[k].m + 1 if toks[k].k == "p" and toks[k].t in "([{" else k + 1
            if z == o + 1:
                raise Lost(f"{label}: empty list given to a format macro")
            if commas and commas[-1] == z - 1:
                dele.append((toks[z - 1].s, toks[z - 1].e, ""))
                commas.pop()
            dele.append((toks[o].s, toks[o].e, first + "P(&("))
            for c in commas:
                dele.append((toks[c].s, toks[c].e, "), P(&("))
            dele.append((toks[z].s, toks[z].e, "), End" + ")" * (len(commas) + 1)))
        for k in range(lo, hi - 2):
            if toks[k].k == "id" and toks[k + 1].t == "!" and toks[k + 2].k == "p" and toks[k + 2].t in "([{":
                o = k + 2
                if toks[k].t == "format_args":
                    dele.append((toks[k].s, toks[k + 1].e, ""))
                    spread(o, "")
                elif toks[k].t == "write":
                    q = o + 1
                    while q < toks[o].m and toks[q].t != ",":
                        q = toks[q].m + 1 if toks[q].k == "p" and toks[q].t in "([{" else q + 1
                    if toks[q + 1].t != "[" or toks[q + 1].m + 1 != toks[o].m and not (toks[toks[q + 1].m + 1].t == "," and toks[q + 1].m + 2 == toks[o].m):
                        raise Lost(f"{label}: `write!` of another form")
                    dele.append((toks[k].s, toks[o].e, "write_all("))
                    spread(q + 1, "&")
                    dele.append((toks[toks[o].m].s, toks[toks[o].m].e, ")"))
                else:
                    continue
                meta["rewrites"].append(f"{label}: `{toks[k].t}!` spelled out as nested pairs")

    def put_closure(c, text):
        a, pe, b, e, blk = c
        # first line of the text: typed parameters and named result
        first, _, rest = text.partition("\n")
        dele[:] = [x for x in dele if not (toks[a].s <= x[0] and x[1] <= toks[pe].e)]
        dele.append((toks[a].s, toks[pe].e, first))
        pre = ""
        # patterns the verifier does not take as closure parameters are bound in the body:
        # `&x` is `x_ref`, `mut x` is `x_in`, any other pattern of parameter i is `p<i>_in`
        k, i = a + 1, 0
        while k < pe:
            st = k
            while k < pe and toks[k].t != "," and toks[k].t != ":":
                k = toks[k].m + 1 if toks[k].k == "p" and toks[k].t in "([{" else k + 1
            pat = [t.t for t in toks[st:k]]
            while k < pe and toks[k].t != ",":
                k = rs._skip_generics(toks, k) if toks[k].t == "<" else toks[k].m + 1 if toks[k].k == "p" and toks[k].t in "([{" else k + 1
            k += 1
            i += 1
            ptxt = " ".join(pat)
            if len(pat) == 1 or not pat or pat == ["_"]:
                continue
            if len(pat) == 2 and pat[0] == "&":
                b1 = f"let {pat[1]} = *{pat[1]}_ref;"
            elif len(pat) == 2 and pat[0] == "mut":
                b1 = f"let mut {pat[1]} = {pat[1]}_in;"
            else:
                b1 = f"let {ptxt} = p{i}_in;"
            pre += f" {b1} "
            meta["rewrites"].append(f"{label}: closure parameter `{ptxt}` bound in the body: `{b1}`")
        if blk:
            ins.append((toks[b].s, 1, "\n" + rest))
            if pre:
                ins.append((toks[b].s + 1, -3, pre))
        else:
            ins.append((toks[b].s, 1, "\n" + rest + " {" + pre))
            ins.append((toks[e - 1].e, 9, " }"))

    def render(a0, z0):
        dele.sort()
        for x, y in zip(dele, dele[1:]):
            if y[0] < x[1]:
                raise Lost(f"{label}: overlapping rewrites")
        ev = [(s, 0, "del", e, r) for s, e, r in dele] + [(o, 1 + n, "ins", 0, t) for o, n, t in ins]
        ev.sort(key=lambda v: (v[0], v[1]))
        out, pos = [], a0
        for s, _, k, e, t in ev:
            if s < a0 or s > z0 or (k == "del" and e > z0):
                continue
            if k == "ins":
                if s < pos:
                    # insertion point inside a deleted span: put it right after
                    out.append(t)
                    continue
                out.append(src[pos:s])
                out.append(t)
                pos = s
            else:
                out.append(src[pos:s])
                out.append(t)
                pos = e
        out.append(src[pos:z0])
        return "".join(out)

    # rewrites (token sequences)
    for (a, b, must) in d.get("rewrite", []) + [(a, b, False) for a, b in glob_rw]:
        pat = [t.t for t in rs.lex(a)]
        n = 0
        for p in rs.find_seq(toks, lo, hi, pat):
            dele.append((toks[p].s, toks[p + len(pat) - 1].e, b))
            n += 1
        if must and n == 0:
            raise Lost(f"{label}: `{a}` not found")
        if n:
            meta["rewrites"].append(f"{label}: `{a}` => `{b}` (x{n})")

    if it.kind == "fn" and d.get("assumed"):
        ob, cb = toks[it.body].s, toks[toks[it.body].m].s
        d = dict(d, sections=[x for x in d["sections"] if x[0] == "spec"])
    if it.kind == "fn":
        if it.body is None:
            raise Lost(f"{label}: no body")
        ob = toks[it.body].s
        cb = toks[toks[it.body].m].s
        # return name
        if d.get("ret"):
            arrow = None
            k = lo
            while k < it.body:
                if toks[k].t == "(":
                    k = toks[k].m
                elif toks[k].t == "-" and toks[k + 1].t == ">":
                    arrow = k
                    break
                k += 1
            if arrow is None:
                raise Lost(f"{label}: no return type")
            e = arrow + 2
            while e < it.body and toks[e].t != "where":
                e += 1
            ins.append((toks[arrow + 2].s, -5, f"({d['ret']}: "))
            ins.append((toks[e - 1].e, 0, ")"))
        if d.get("rename"):
            k = next(k for k in range(lo, it.body) if toks[k].t == "fn")
            dele.append((toks[k + 1].s, toks[k + 1].e, d["rename"]))
        # a `mut self` receiver (unknown to the verifier): rebound in the body
        k = next((k for k in range(lo, it.body) if toks[k].t == "mut" and toks[k + 1].t == "self" and toks[k - 1].t == "("), None)
        if d.get("assumed"):
            dele[:] = [x for x in dele if x[1] <= ob]
            ins[:] = [x for x in ins if x[0] <= ob]
            if k is not None:
                dele.append((toks[k].s, toks[k + 1].e, "self"))
            dele.append((ob, cb + 1, "{ unimplemented!() }"))
            for _, _, text in d["sections"]:
                ins.append((ob, -2, "\n" + text))
            meta["assumed_proved"].append(f"{label} (contract proved in unit {d['assumed']})")
            return f"#[verifier::external_body]\n/* proved in {d['assumed']} */ " + head + render(toks[lo].s, toks[hi - 1].e) + "\n"
        if k is not None:
            dele.append((toks[k].s, toks[k + 1].e, "self"))
            ins.append((ob + 1, -2, " let mut self_ = self; "))
            for j in range(it.body, hi):
                if toks[j].t == "self" and toks[j].k == "id":
                    dele.append((toks[j].s, toks[j].e, "self_"))
            meta["rewrites"].append(f"{label}: `mut self` rebound as `let mut self_ = self`")
        L = rs.loops(it)
        C = rs.closures(it)
        used_loops = set()
        lifts = []
        for (sec, arg, text) in d["sections"]:
            if sec == "spec":
                ins.append((ob, 1, "\n" + text))
            elif sec == "body":
                ins.append((ob + 1, 0, "\n" + text))
            elif sec == "tail":
                ins.append((cb, 0, "\n" + text))
            elif sec in ("loop", "loopbody", "loopafter", "preloop", "looptail"):
                m = re.match(r"(\d+)\s*(?:`(.*)`)?$", arg, re.S)
                n = int(m.group(1)) - 1
                if n >= len(L):
                    raise Lost(f"{label}: loop {n+1} is gone")
                kw, header, b = L[n]
                if m.group(2) and rs.norm(m.group(2)) != header:
                    raise Lost(f"{label}: loop {n+1} reads `{header}`, contract expects `{rs.norm(m.group(2))}`")
                used_loops.add(n)
                if sec == "loop":
                    ins.append((toks[b].s, 1, "\n" + text))
                elif sec == "loopbody":
                    ins.append((toks[b].s + 1, 0, "\n" + text))
                elif sec == "preloop":
                    s0 = kw
                    if toks[s0 - 1].t == ":" and toks[s0 - 2].k == "life":
                        s0 -= 2
                    ins.append((toks[s0].s, -5, text))
                elif sec == "looptail":
                    ins.append((toks[toks[b].m].s, 0, "\n" + text))
                else:
                    ins.append((toks[toks[b].m].e, 0, "\n" + text))
            elif sec == "closure":
                m = re.match(r"(\d+)\s*(?:`(.*)`)?$", arg, re.S)
                n = int(m.group(1)) - 1
                if n >= len(C):
                    raise Lost(f"{label}: closure {n+1} is gone")
                a, pe, b, e, blk = C[n]
                params = src[toks[a].s : toks[pe].e]
                exp = m.group(2)
                if exp and rs.norm(exp) != rs.norm(params):
                    raise Lost(f"{label}: closure {n+1} takes `{params}`")
                put_closure(C[n], text)
            elif sec == "says":
                n = int(re.match(r"(\d+)", arg).group(1)) - 1
                if n >= len(C):
                    raise Lost(f"{label}: closure {n+1} is gone")
                ghost, _, rest = text.partition("\n")
                a = C[n][0]
                if toks[a - 1].t == "move":
                    a -= 1
                k = a - 1
                while k > lo and toks[k].t != "(" and toks[a - 1].t == ",":
                    k = toks[k].m - 1 if toks[k].t in (")", "]", "}") else k - 1
                if toks[k].t != "(":
                    raise Lost(f"{label}: closure {n+1} is not an argument of a call")
                ins.append((toks[k].e, -6, "{ let ghost g = " + ghost.strip() + "; Ghost(g) }, "))
                put_closure(C[n], rest)
            elif sec == "lifted":
                m = re.match(r"(\d+)\s*`(fn (\w+).*)`$", arg, re.S)
                n = int(m.group(1)) - 1
                if n >= len(C):
                    raise Lost(f"{label}: closure {n+1} is gone")
                a, pe, b, e, blk = C[n]
                if not (blk and pe == a + 2 and toks[a - 1].t == "(" and toks[a - 2].t == "and_then" and toks[a - 3].t == "." and toks[a - 1].m == e):
                    raise Lost(f"{label}: closure {n+1} is not the block of an `and_then`")
                # the receiver: a chain of names, fields and calls
                k = a - 4
                while True:
                    if toks[k].t == ")":
                        k = toks[k].m - 1
                    if toks[k].k != "id":
                        raise Lost(f"{label}: receiver of `and_then`")
                    if toks[k - 1].t != ".":
                        break
                    k -= 2
                lifts.append((toks[k].s, toks[a - 4].e, toks[a + 1].t, toks[b].s, toks[e - 1].e, toks[e].e, m.group(2), m.group(3), text))
                meta["rewrites"].append(f"{label}: `.and_then(|{toks[a + 1].t}| BODY)` written as a `match` that calls a method with that body")
            elif sec == "inlined":
                m = re.match(r"(\d+)\s*`(\w+)`$", arg, re.S)
                n = int(m.group(1)) - 1
                if n >= len(C):
                    raise Lost(f"{label}: closure {n+1} is gone")
                a, pe, b, e, blk = C[n]
                first = a - 1 if toks[a - 1].t == "move" else a
                if not (blk and pe in (a, a + 1) and toks[first - 1].t == "(" and toks[first - 2].t == m.group(2) and toks[first - 3].t == "." and toks[first - 1].m == e):
                    raise Lost(f"{label}: closure {n+1} is not the block given to `{m.group(2)}`")
                if any(t.t in ("return", "?") for t in toks[b:e]):
                    raise Lost(f"{label}: the block given to `{m.group(2)}` returns early")
                k = first - 4
                while True:
                    if toks[k].t in (")", "]", "}"):
                        k = toks[k].m - 1
                    elif toks[k].k == "id" or toks[k].t in ("::", ":", "!", "."):
                        k -= 1
                    else:
                        break
                dele.append((toks[k + 1].s, toks[b].s, ""))
                dele.append((toks[e].s, toks[e].e, ""))
                meta["rewrites"].append(f"{label}: `{src[toks[k + 1].s : toks[first - 3].s]}.{m.group(2)}(|| BODY)` written as BODY")
            elif sec in ("after", "before", "after_stmt"):
                pat = [t.t for t in rs.lex(arg.strip()[1:-1])]
                ps = rs.find_seq(toks, it.body, hi, pat)
                if len(ps) != 1:
                    raise Lost(f"{label}: anchor {arg} occurs {len(ps)} times")
                if sec == "before":
                    ins.append((toks[ps[0]].s, -4, text))
                elif sec == "after":
                    ins.append((toks[ps[0] + len(pat) - 1].e, 0, "\n" + text))
                else:
                    k = ps[0]
                    while not (toks[k].t == ";"):
                        k = toks[k].m + 1 if (toks[k].k == "p" and toks[k].t in "([{") else k + 1
                    ins.append((toks[k].e, 0, "\n" + text))
            else:
                raise SystemExit(f"unknown section {sec}")
        for x0, x1, par, b0, b1, z, sig, name, spec in lifts:
            pre, _, spec = spec.rpartition("--\n")
            body = render(b0, b1)
            for q in (dele, ins):
                q[:] = [x for x in q if not (x0 <= x[0] <= z)]
            after_item.append(f"{sig}\n{spec}{{\n{pre}{body} }}\n")
            if par == "_":
                # a Result whose value is not used: the method takes what the function took
                args = ", ".join(re.findall(r"(\w+)\s*:(?!:)", sig.partition("self")[2].partition("->")[0]))
                dele.append((x0, z, f"match {src[x0:x1]} {{ Err(e) => Err(e), Ok(_) => self.{name}({args}) }}"))
            else:
                dele.append((x0, z, f"match {src[x0:x1]} {{ None => None, Some({par}) => self.{name}({par}) }}"))
            meta["contracts"].append(f"{label} (closure lifted as {name})")
        if len(L) != len(used_loops):
            raise Lost(f"{label}: {len(L)} loops in the source, {len(used_loops)} under contract")
        covered = {int(re.match(r"(\d+)", x[1]).group(1)) - 1 for x in d["sections"] if x[0] in ("closure", "says", "lifted", "inlined")}
        bare = [n for n, c in enumerate(C) if n not in covered and not any(x <= toks[c[0]].s and toks[c[3] - 1].e <= y for x, y, _ in dele)]
        if len(bare) > d.get("bare", 0):
            meta.setdefault("bare_closures", {})[label] = len(bare)
        if "closures" in d and d["closures"] != len(C):
            raise Lost(f"{label}: {len(C)} closures in the source, contract expects {d['closures']}")
        if any(s[0] == "spec" for s in d["sections"]) or d.get("inherits"):
            meta["contracts"].append(label)
            if "external_body" not in " ".join(d.get("attr", [])):
                meta["canaries"].append(label)
                if canary:
                    ins.append((ob + 1, -1, " proof { assert(false); assume(false); } "))
                    # a loop is a query of its own, already decided by the real run
                    for _, _, b in L:
                        ins.append((toks[b].s + 1, -1, " proof { assume(false); } "))
        else:
            meta["extracted_no_contract"].append(label)

    if it.kind == "static" and d.get("lazy"):
        # static X: LazyLock<T> = LazyLock::new(|| E);
        t = [x.t for x in toks[lo:hi]]
        try:
            c = next(k for k in range(lo, hi) if toks[k].t == ":")
            lt = next(k for k in range(c, hi) if toks[k].t == "<")
            gt = rs._skip_generics(toks, lt) - 1
            op = next(k for k in range(gt, hi) if toks[k].t == "(")
            assert toks[op + 1].t == "|" and toks[op + 2].t == "|"
        except (StopIteration, AssertionError):
            raise Lost(f"{label}: not of the form LazyLock::new(|| ..)")
        ty = src[toks[lt + 1].s : toks[gt - 1].e]
        C = rs.closures(it)
        for sec, arg, text in d["sections"]:
            if sec == "closure":
                n = int(re.match(r"(\d+)", arg).group(1))  # the initialiser itself is closure 0
                if n >= len(C):
                    raise Lost(f"{label}: closure {n} is gone")
                put_closure(C[n], text)
            elif sec == "before":
                pat = [t.t for t in rs.lex(arg.strip()[1:-1])]
                ps = rs.find_seq(toks, lo, hi, pat)
                if len(ps) != 1:
                    raise Lost(f"{label}: anchor {arg} occurs {len(ps)} times")
                ins.append((toks[ps[0]].s, 1, text))
        ex = render(toks[op + 3].s, toks[toks[op].m - 1].e)
        meta["rewrites"].append(f"{label}: lazily initialised static presented as the function of its initialiser")
        spec = "".join(x for s, _, x in d["sections"] if s == "spec")
        ty = d.get("type", ty)
        meta["contracts"].append(label)
        one = toks[op + 3].t == "{" and toks[op + 3].m == toks[op].m - 1
        return f"pub fn {it.name}() -> (r: {ty})\n{spec}" + (ex if one else f"{{ {ex} }}") + "\n"

    if it.kind == "static" and d.get("asfn"):
        # static X: T = E;
        c = next(k for k in range(lo, hi) if toks[k].t == ":")
        q = next((k for k in range(c, hi) if toks[k].t == "="), None)
        if q is None or toks[hi - 1].t != ";":
            raise Lost(f"{label}: not of the form static X: T = E;")
        ty = d.get("type", src[toks[c + 1].s : toks[q - 1].e])
        meta["rewrites"].append(f"{label}: static presented as the function of its initialiser")
        spec = "".join(x for s, _, x in d["sections"] if s == "spec")
        body = "".join(x for s, _, x in d["sections"] if s == "body")
        meta["contracts"].append(label)
        tail = "".join(x for s, _, x in d["sections"] if s == "tail")
        ex = render(toks[q + 1].s, toks[hi - 2].e)
        if tail:
            return f"pub fn {it.name}() -> (r: {ty})\n{spec}{{ {body} let r: {ty} = {ex}; {tail} r }}\n"
        return f"pub fn {it.name}() -> (r: {ty})\n{spec}{{ {body} {ex} }}\n"

    # apply edits
    txt = head + render(toks[lo].s, toks[hi - 1].e) + "\n" + "".join(after_item)
    if it.kind == "const" and d.get("spec_too"):
        pass
    return txt


def template_lines(template):
    lines = []
    for ln in open(template).read().split("\n"):
        m = re.match(r"\s*//@@ include (\S+)$", ln)
        lines += open(os.path.join(os.path.dirname(template), m.group(1))).read().split("\n") if m else [ln]
    return lines


def item_block(lines, i, where):
    """options and sections of the item block whose first line is lines[i - 1]"""
    d = {"sections": [], "rewrite": []}
    sec = None
    while True:
        if i >= len(lines):
            raise SystemExit(f"{where}: unterminated item")
        m2 = re.match(r"\s*//@@\s?(.*)$", lines[i])
        if m2:
            v = m2.group(1).strip()
            if v == "end":
                return d, i
            if v.startswith("+"):
                q = v[1:].strip().split(None, 1)
                sec = [q[0], q[1] if len(q) > 1 else "", ""]
                d["sections"].append(sec)
            else:
                k, _, val = v.partition(" ")
                if k in ("rewrite", "rewrite?"):
                    a = re.match(r"`(.*)` => `(.*)`$", val.strip())
                    d["rewrite"].append((a.group(1), a.group(2), k == "rewrite"))
                elif k in ("closures", "bare"):
                    d[k] = int(val)
                elif k == "attr":
                    d.setdefault("attr", []).append(val.strip())
                elif k == "cfg":
                    d.setdefault("cfg", []).append(val.strip())
                else:
                    d[k] = val.strip() or True
        else:
            if sec is None:
                raise SystemExit(f"{where}:{i+1}: text outside a section")
            sec[2] += lines[i] + "\n"
        i += 1


def proved_contract(template, unit, source, path):
    """the contract another unit states (and proves) for this function"""
    lines = template_lines(os.path.join(os.path.dirname(template), unit + ".rs"))
    cur = None
    for i, ln in enumerate(lines):
        m = re.match(r"\s*//@@\s?(source|item fn) (.*)$", ln)
        if m and m.group(1) == "source":
            cur = m.group(2).strip()
        elif m and cur == source and m.group(2).strip() == path:
            d, _ = item_block(lines, i + 1, unit)
            if not any(x[0] == "spec" for x in d["sections"]):
                break
            return d
    raise SystemExit(f"{template}: no contract for {source}:{path} in unit {unit}")


def extract(template, repo=REPO, canary=False):
    """canary: plant `assert(false)` at the start of every contracted body (vacuity check)"""
    lines = template_lines(template)
    meta = {"contracts": [], "canaries": [], "extracted_no_contract": [], "rewrites": [], "dropped": set(),
            "sources": [], "spans": [], "assumed_proved": []}
    out, cur, glob_rw, cache, expand = [], None, [], {}, False
    i = 0

    def load(p):
        if p not in cache:
            try:
                s = open(os.path.join(repo, p)).read()
                cache[p] = rs.items(s)
            except (OSError, rs.ScanError, IndexError) as e:
                raise Lost(f"{p}: {e}")
            meta["sources"].append(p)
        return cache[p]

    nl = lambda: sum(x.count("\n") + 1 for x in out)
    while i < len(lines):
        ln = lines[i]
        m = re.match(r"\s*//@@\s?(.*)$", ln)
        if not m:
            out.append(ln)
            i += 1
            continue
        w = m.group(1).strip()
        if w.startswith("source "):
            cur = w[7:].strip()
            load(cur)
        elif w.startswith("rewrite* "):
            a = re.match(r"rewrite\* `(.*)` => `(.*)`$", w)
            glob_rw.append((a.group(1), a.group(2)))
        elif w == "expand":
            expand = True
        elif w == "norewrites":
            glob_rw = []
        elif w.startswith("impl "):
            a = w.split()
            tr, _, ta = (a[2] if len(a) > 2 else "").partition(":")
            its = [x for x in load(cur) if x.kind == "impl" and x.owner == a[1] and x.trait == (tr or None)
                   and (not ta or x.targ == ta)]
            if not its:
                raise Lost(f"impl {a[1:]} not found in {cur}")
            x = its[0]
            h = x.src[x.toks[x.first].s : x.toks[x.body].s]
            for p, q in glob_rw:
                pt = rs.norm(p)
                if f" {pt} " in f" {rs.norm(h)} ":
                    h = re.sub(re.escape(p), q, h)
            out.append(h + " {")
        elif w == "endimpl":
            out.append("}")
        elif w.startswith("item "):
            _, kind, path = w.split(None, 2)
            d, i = item_block(lines, i + 1, template)
            if expand:
                d["expand"] = True
            it = _find(load(cur), kind, path)
            label = f"{cur}:{path}"
            txt = emit_item(it, d, glob_rw, meta, label, canary)
            a = nl() + 1
            out.append(txt)
            meta["spans"].append((a, nl(), label))
        elif w.startswith("assume "):
            _, unit, path = w.split(None, 2)
            d, i = item_block(lines, i + 1, template)
            o = proved_contract(template, unit, cur, path)
            d["sections"] = [x for x in o["sections"] if x[0] == "spec"]
            d["rewrite"] = [(x, y, False) for x, y, _ in o["rewrite"]] + d["rewrite"]
            d["assumed"] = unit
            for k in ("ret", "rename"):
                if k in o:
                    d.setdefault(k, o[k])
            out.append(emit_item(_find(load(cur), "fn", path), d, glob_rw, meta, f"{cur}:{path}", canary))
        else:
            raise SystemExit(f"{template}:{i+1}: unknown directive {w}")
        i += 1
    text = "\n".join(out)
    meta["dropped"] = sorted(meta["dropped"])
    code = re.sub(r"//.*", "", text)
    meta["trusted"] = sorted(
        {re.sub(r"\s+", " ", x).strip()[:160] for x in re.findall(r"assume_specification[^;{]*?\[[^\n]*?\]\s*\(", code)}
        | {f"axiom {x}" for x in re.findall(r"axiom\s+fn\s+(\w+)", code)}
        | {f"external type {x}" for x in re.findall(r"external_type_specification\][^;{]*?struct\s+(\w+)", code)}
    )
    ext = []
    for mm in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(pub(?:\([a-z]+\))?\s+)?((?:proof\s+|broadcast\s+|unsafe\s+|exec\s+)*(?:fn|struct)\s+\w+)", code):
        ext.append("external_body " + mm.group(2))
    meta["trusted"] += sorted(set(ext))
    meta["cheats"] = {k: len(re.findall(p, code)) for k, p in
                      (("assume", r"\bassume\s*\("), ("admit", r"\badmit\s*\("))}
    return text, meta


if __name__ == "__main__":
    t, m = extract(sys.argv[1])
    sys.stdout.write(t) if len(sys.argv) < 3 else open(sys.argv[2], "w").write(t)
    print(json.dumps(m, indent=1), file=sys.stderr)
