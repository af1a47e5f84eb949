"""Declarations enumerated by spec/Decl.tla, as Rust source."""

KEYWORDS = dict(A="Fn", B="Type", C="Match")
GENERIC = """#[derive(TypedNode, Default)]
pub struct AGen<T: 'static, U = u8> where U: 'static {
  #[group(g, h)]
  pub one: NodeIndex,
  pub pay: T,
  #[group(g)]
  pub many: std::collections::HashSet<NodeIndex>,
  pub more: Vec<U>,
}
node_fields!(AGen<i64>, one direct, many set);
"""

def word(d, v): return KEYWORDS.get(v, v) if d.get("form") == "keywords" else v

def enum(d):
    form = d.get("form", "plain")
    if form == "keywords":
        d = dict(d, vgroups={g: [word(d, v) for v in ms] for g, ms in d["vgroups"].items()},
                 bidi=[[word(d, b[0]), b[1], word(d, b[2]), b[3]] for b in d["bidi"]],
                 ltypes=[[word(d, v), l, [word(d, t) for t in ts]] for v, l, ts in d["ltypes"]])
    head = "  pub enum Node { A(AData), B(BData), C(CData) }"
    if form == "private": head = head.replace("pub enum", "enum")
    if form == "documented": head = "  /// nodes\n  #[allow(dead_code)]\n" + head
    if form == "unit variant": head = head.replace("C(CData)", "C(CData), U")
    if form == "two types": head = head.replace("C(CData)", "C(CData), U(AData, BData)")
    if form == "named field": head = head.replace("C(CData)", "C(CData), U { a: AData }")
    if form == "struct": head = "  pub struct Node { a: AData }"
    if form == "keywords": head = "  pub enum Node { Fn(AData), Type(BData), Match(CData) }"
    if form == "generic": head = head.replace("AData", "AGen<i64>")
    if form == "twin": head = head.replace("C(CData)", "C(CData), D(AData)")
    o = ["  group! { %s }" % ", ".join("%s { %s }" % (g, ", ".join(ms)) for g, ms in d["vgroups"].items())]
    if form == "parts":
        o = ["  group! { %s }" % ", ".join("%s { %s }" % (g, m) for g, ms in d["vgroups"].items() for m in ms[:1]),
             "  group! { z { C }, %s }" % ", ".join("%s { %s }" % (g, m) for g, ms in d["vgroups"].items() for m in ms[1:])]
    bidi = ["%s.%s <-> %s.%s" % tuple(b) for b in d["bidi"]]
    if form == "no link separator": bidi.append("A.one - B.one")
    types = ["%s.%s: %s" % (v, l, ts[0] if len(ts) == 1 else "{%s}" % ", ".join(ts)) for v, l, ts in d["ltypes"]]
    if form == "split": o += ["  bidirectional! { %s }" % x for x in bidi] + ["  link_type! { %s }" % x for x in types] + ["  bidirectional! {}"]
    else: o += (["  bidirectional! { %s, }" % ", ".join(bidi)] if bidi else []) + (["  link_type! { %s }" % ", ".join(types)] if types else [])
    if form == "unknown block": o.append("  bidirectionals! { A.one <-> B.one }")
    o = o + [head] if form == "enum last" else [head] + o
    s = "\n".join(["node_enum! {"] + o + ["}"])
    if form == "generic": s = GENERIC + s
    if form == "group on data": s = "#[derive(TypedNode)]\npub struct Odd { #[group(g)] pub pay: i64, pub one: NodeIndex }\n" + s
    if form == "nested link group": s = "#[derive(TypedNode)]\npub struct Odd { #[group(a::b)] pub one: NodeIndex }\n" + s
    return s

def module(k, d):
    form = d.get("form", "plain")
    vs = [(v, word(d, v), v + "Data") for v in "ABC"]
    if form == "generic": vs[0] = ("A", "A", "AGen::<i64>")
    if form == "twin": vs.append(("D", "D", "AData"))
    return """mod d%d {
use super::*;
%s
pub fn run(k: usize) { probe::<Node>(k) }
impl Kit for Node {
  fn mk(v: &str) -> Self { match v { %s, _ => unreachable!() } }
  fn fields(&self) -> &dyn Fields { match self { %s } }
  fn fields_mut(&mut self) -> &mut dyn Fields { match self { %s } }
%s}
}
""" % (k, enum(d), ", ".join('"%s" => Node::%s(%s::default())' % x for x in vs), *[", ".join("Node::%s(x) => x" % x[1] for x in vs)] * 2,
       '  fn links() -> Vec<(&\'static str, &\'static [&\'static str])> { let mut r = LINKS.to_vec(); r.push(("D", LINKS[0].1)); r }\n' if form == "twin" else "")

def program(prelude, ds):
    """ds: [(number, declaration)]"""
    return ("#![allow(warnings)]\n" + prelude.replace("//!", "//") + "".join(module(k, d) for k, d in ds)
            + "fn main() { std::panic::set_hook(Box::new(|_| {})); %s }\n" % " ".join("d%d::run(%d);" % (k, k) for k, d in ds))

def table(j):
    """the specification's table, in the harness's words"""
    return {"%s %s %s %s" % (v, l, w, s): ",".join(sorted(f)) for v, l, w, s, f in j["table"]}
