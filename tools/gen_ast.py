#!/usr/bin/env python3
"""Writes proofs/inc/ast.rs: the contracts of the generated syntax nodes
(crates/air_r_syntax/src/generated/nodes.rs), which are all alike.  Run by hand when the
grammar grows; the result is committed, so a change of the nodes meets the old contracts."""
import os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
src = open(f"{REPO}/crates/air_r_syntax/src/generated/nodes.rs").read()
kinds = dict(re.findall(r"impl AstNode for (\w+) \{\n(?:.*\n)*?.*?RawSyntaxKind\((\w+) as u16\)", src))
out = ["// written by tools/gen_ast.py", "//@@ source crates/air_r_syntax/src/generated/nodes.rs"]
structs, enums = [], []
for m in re.finditer(r"^pub struct (R\w+) \{\n((?:    .*\n)+)\}", src, re.M):
    name, body = m.groups()
    if name.endswith("Fields"): continue
    if "Bogus" in name: continue
    structs.append((name, "syntax_list" in body))
for m in re.finditer(r"^pub enum (\w+) \{\n((?:    .*\n)+)\}", src, re.M):
    enums.append((m.group(1), re.findall(r"    (\w+)\((\w+)\)", m.group(2))))
PRED = {"required_node": "is_node", "required_token": "is_token", "node": "opt_node", "token": "opt_token", "list": "is_list"}
TR = lambda n, extra="": [f"//@@ item fn {n}<AstNode>::{f}\n//@@ end" for f in ("can_cast", "cast", "syntax", "into_syntax")]
CL = lambda n: [f"impl Clone for {n} {{", "    #[verifier::external_body]", "    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }", "}"]
for name, is_list in structs:
    out += [f"//@@ item struct {name}", "//@@   public", "//@@ end"] + CL(name)
    b = re.search(rf"^impl {name} \{{\n((?:(?!^\}}).*\n)+)\}}", src, re.M).group(1)
    acc = re.findall(r"pub fn (\w+)\(&self\) -> [^{]+\{\s*support::(\w+)\(&self\.syntax, (\d+)usize\)", b)
    if not is_list:
        out += [f"//@@ item struct {name}Fields", "//@@   public", "//@@ end"]
        out.append(f"impl {name} {{")
        for fn, how, i in acc:
            out += [f"//@@ item fn {name}::{fn}", "//@@   ret r", "//@@ + spec", f"    ensures {PRED[how]}(self.syntax, {i}, r),", "//@@ end"]
        out += [f"//@@ item fn {name}::as_fields", "//@@   ret r", "//@@ + spec", "    ensures " + ", ".join(f"{PRED[how]}(self.syntax, {i}, r.{fn})" for fn, how, i in acc) + ",", "//@@ end", "}"]
    at = "self.syntax_list.of()" if is_list else "self.syntax"
    out += [f"impl AstNode for {name} {{", f"    open spec fn node(&self) -> SyntaxNode {{ {at} }}",
            f"    open spec fn casts(kind: SyntaxKind) -> bool {{ kind == SyntaxKind::{kinds[name]} }}",
            f"    open spec fn fits(&self) -> bool {{ Self::casts(self.node().kind_of()) }}"]
    out += TR(name) + ["}"]
for name in ("RBogusExpression", "RBogusValue"):
    k = {"RBogusExpression": "R_BOGUS_EXPRESSION", "RBogusValue": "R_BOGUS_VALUE"}[name]
    out += [f"//@@ item struct {name}", "//@@   public", "//@@ end"] + CL(name) + [
            f"impl AstNode for {name} {{", "    open spec fn node(&self) -> SyntaxNode { self.syntax }",
            f"    open spec fn casts(kind: SyntaxKind) -> bool {{ kind == SyntaxKind::{k} }}",
            "    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }"] + TR(name) + ["}"]
for name, vs in enums:
    out += [f"//@@ item enum {name}", "//@@   public", "//@@ end"] + CL(name) + [
            f"impl AstNode for {name} {{",
            "    open spec fn node(&self) -> SyntaxNode { match *self { " + ", ".join(f"{name}::{v}(n) => n.node()" for v, _ in vs) + " } }",
            "    open spec fn casts(kind: SyntaxKind) -> bool { " + " || ".join(f"{t}::casts(kind)" for _, t in vs) + " }",
            "    open spec fn fits(&self) -> bool { match *self { " + ", ".join(f"{name}::{v}(n) => n.fits()" for v, _ in vs) + " } }"] + TR(name) + ["}"]
open(os.path.join(HERE, "..", "proofs", "inc", "ast.rs"), "w").write("\n".join(out) + "\n")
print(len(structs), "structs", len(enums), "enums")
