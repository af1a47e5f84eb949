#!/usr/bin/env python3
"""Schema (schemas/*.json) -> Rust declarations for the harness (harness/src/gen/).

gen.py OUTDIR SCHEMA.json...     writes one module per schema and mod.rs; files are only touched when they change."""
import json, os, sys

def snake_ok(n): return n

def rust(s):
    o = []
    w = o.append
    order = s["order"]
    w("#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_mut)]")
    w("use crate::prelude::*;")
    for v in order:
        d = s["variants"][v]
        w("#[derive(TypedNode, Debug, Clone, Serialize, Deserialize)]")
        ph = d["phantom"]
        if ph: w("#[phantom_group(%s)]" % ", ".join(ph))
        w("pub struct %sData {" % v)
        w("  pub uid: usize,")
        for i, (l, f) in enumerate(d["links"].items()):
            if f["groups"]:
                if f.get("split"):
                    for g in f["groups"]: w("  #[group(%s)]" % g)
                else:
                    w("  #[group(%s)]" % ", ".join(f["groups"]))
            w("  pub %s: %s," % (l, f["ty"]))
            if i == 0:
                w("  pub pay: i64,")
                if d["rich"]: w("  pub name: String,")
        if not d["links"]:
            w("  pub pay: i64,")
            if d["rich"]: w("  pub name: String,")
        if d["rich"]:
            w("  pub tup: (i64, usize),")
            w("  pub arr: [i64; 2],")
        w("}")
    w("node_enum! {")
    w("  #[derive(Debug, Clone, Serialize, Deserialize)]")
    w("  pub enum Node {")
    for v in order: w("    %s(%sData)," % (v, v))
    w("  }")
    if s["vgroups"]:
        w("  group! {")
        for g, ms in s["vgroups"].items(): w("    %s { %s }," % (g, ", ".join(ms)))
        w("  }")
    if s["bidi"]:
        w("  bidirectional! {")
        for i, b in enumerate(s["bidi"]):
            w("    %s.%s <-> %s.%s," % tuple(b))
        w("  }")
    if s["ltypes"]:
        w("  link_type! {")
        for v, l, ts in s["ltypes"]:
            t = ts[0] if len(ts) == 1 else "{%s}" % ", ".join(ts)
            w("    %s.%s : %s," % (v, l, t))
        w("  }")
    w("}")
    w("pub struct S;")
    w("impl Sch for S {")
    w("  type N = Node;")
    w("  fn text() -> &'static str { include_str!(%s) }" % json.dumps(s["_path"]))
    # build
    w("  fn build(v: usize, uid: usize, pay: i64, f: &[Vec<usize>]) -> Node {")
    w("    match v {")
    for k, v in enumerate(order):
        d = s["variants"][v]
        fs = ["uid", "pay"] + ["%s: mk(&f[%d])" % (l, i) for i, l in enumerate(d["links"])]
        if d["rich"]: fs += ["name: format!(\"n{}\", pay)", "tup: (pay, uid)", "arr: [pay, -pay]"]
        w("      %d => Node::%s(%sData { %s })," % (k, v, v, ", ".join(fs)))
    w("      _ => unreachable!(),")
    w("    }")
    w("  }")
    # dump
    w("  fn dump(n: &Node) -> PNode {")
    w("    match n {")
    for k, v in enumerate(order): w("      Node::%s(x) => dump_%s(x)," % (v, v))
    w("    }")
    w("  }")
    w("  fn edit(n: &mut Node, e: &REdit) {")
    w("    if let REdit::Become(v, uid, pay, f) = e { *n = Self::build(*v, *uid, *pay, f); return; }")
    w("    match n {")
    for k, v in enumerate(order): w("      Node::%s(x) => edit_%s(x, e)," % (v, v))
    w("    }")
    w("  }")
    w("  fn disc(v: usize) -> <Node as NodeEnum>::Discriminant {")
    w("    match v {")
    for k, v in enumerate(order): w("      %d => discriminant!(Node::%s)," % (k, v))
    w("      _ => unreachable!(),")
    w("    }")
    w("  }")
    w("  fn alloc_mac(t: &mut Transaction<'static, Node>, v: usize) -> NodeIndex {")
    w("    match v {")
    for k, v in enumerate(order): w("      %d => alloc_node!(t, Node::%s)," % (k, v))
    w("      _ => unreachable!(),")
    w("    }")
    w("  }")
    w("  fn get_mac(g: &Graph<Node>, v: usize, i: NodeIndex) -> Option<PNode> {")
    w("    match v {")
    for k, v in enumerate(order): w("      %d => get_node!(g, Node::%s, i).map(dump_%s)," % (k, v, v))
    w("      _ => unreachable!(),")
    w("    }")
    w("  }")
    w("  fn iter_mac(g: &Graph<Node>, v: usize) -> (usize, Vec<(usize, PNode)>) {")
    w("    match v {")
    for k, v in enumerate(order):
        w("      %d => { let it = iter_nodes!(g, Node::%s); let n = it.len(); (n, it.map(|(i, x)| (i.0, dump_%s(x))).collect()) }" % (k, v, v))
    w("      _ => unreachable!(),")
    w("    }")
    w("  }")
    for fn, mac in (("mut_mac", "mut_node"), ("upd_mac", "update_node")):
        w("  fn %s(t: &mut Transaction<'static, Node>, v: usize, i: NodeIndex, style: u8, es: &'static [REdit]) {" % fn)
        w("    match (v, style) {")
        for k, v in enumerate(order):
            body = "{ for e in es.iter() { edit_%s(x, e); } }" % v if fn == "mut_mac" else "{ let mut x = x; for e in es.iter() { edit_%s(&mut x, e); } x }" % v
            w("      (%d, 1) => %s!(t, Node::%s, i, |x| %s)," % (k, mac, v, body))
            w("      (%d, 2) => %s!(t, Node::%s, i, move |x| %s)," % (k, mac, v, body))
            w("      (%d, _) => %s!(t, Node::%s, i, x, %s)," % (k, mac, v, body))
        w("      _ => unreachable!(),")
        w("    }")
        w("  }")
    w("  fn statics(v: usize) -> (Vec<&'static str>, Vec<LinkType>, Vec<&'static str>) {")
    w("    match v {")
    for k, v in enumerate(order):
        w("      %d => (%sData::link_names().to_vec(), %sData::link_types().to_vec(), %sData::data_names().to_vec())," % (k, v, v, v))
    w("      _ => unreachable!(),")
    w("    }")
    w("  }")
    w("  fn typed_reflect(n: &Node, name: &'static str, grp: &'static str) -> (Vec<NodeIndex>, Vec<NodeIndex>) {")
    w("    match n {")
    for k, v in enumerate(order):
        w("      Node::%s(x) => (TypedNode::get_links_by_name(x, name).collect(), TypedNode::get_links_by_group(x, grp))," % v)
    w("    }")
    w("  }")
    w("  fn mirrors(n: &Node, probe: &[usize]) -> Vec<Mirrored> {")
    w("    type LM = <Node as NodeEnum>::LinkMirrorEnum;")
    w("    match n {")
    for k, v in enumerate(order):
        w("      Node::%s(x) => %sData::link_mirrors().iter().map(|m| Mirrored {" % (v, v))
        w("        it: TypedNode::iter_links(x, *m).map(|y| y.0).collect(), ite: n.iter_links(LM::%s(*m)).map(|y| y.0).collect()," % v)
        w("        has: probe.iter().copied().filter(|y| TypedNode::contains_link(x, *m, NodeIndex(*y))).collect(),")
        w("        hase: probe.iter().copied().filter(|y| n.contains_link(LM::%s(*m), NodeIndex(*y))).collect(), fits: n.check_link(LM::%s(*m))," % (v, v))
        w("      }).collect(),")
    w("    }")
    w("  }")
    w("  fn misfits(n: &Node) -> usize {")
    w("    type LM = <Node as NodeEnum>::LinkMirrorEnum;")
    w("    let mut k = 0;")
    for k, v in enumerate(order):
        w("    if !matches!(n, Node::%s(_)) { k += %sData::link_mirrors().iter().filter(|m| n.check_link(LM::%s(**m)) || n.contains_link(LM::%s(**m), NodeIndex(1))).count(); }" % (v, v, v, v))
    w("    k")
    w("  }")
    w("  fn log_by_name(v: usize, name: &'static str) -> Option<Vec<&'static str>> {")
    w("    match v {")
    for k, v in enumerate(order):
        w("      %d => %sData::get_link_or_group_by_name(name).map(|l| l.to_links().iter().map(|m| {" % (k, v))
        w("        %sData::link_mirrors().iter().position(|x| x == m).map_or(\"?\", |i| %sData::link_names()[i])" % (v, v))
        w("      }).collect()),")
    w("      _ => unreachable!(),")
    w("    }")
    w("  }")
    w("}")
    for k, v in enumerate(order):
        d = s["variants"][v]
        w("fn dump_%s(x: &%sData) -> PNode {" % (v, v))
        if d["rich"]:
            w("  let ok = x.name == format!(\"n{}\", x.pay) && x.tup == (x.pay, x.uid) && x.arr == [x.pay, -x.pay];")
        else:
            w("  let ok = true;")
        w("  PNode { v: %d, uid: x.uid, pay: if ok { x.pay } else { x.pay + 1000000 }, f: vec![%s] }" % (k, ", ".join("x.%s.pairs()" % l for l in d["links"])))
        w("}")
        w("fn edit_%s(x: &mut %sData, e: &REdit) {" % (v, v))
        w("  match e {")
        w("    REdit::Mark(k) => mark(*k),")
        w("    REdit::Data(d) => { x.pay = *d;%s }" % (" x.name = format!(\"n{}\", d); x.tup = (*d, x.uid); x.arr = [*d, -*d];" if d["rich"] else ""))
        for i, l in enumerate(d["links"]):
            w("    REdit::Put(%d, ys) => x.%s.put(ys)," % (i, l))
            w("    REdit::Ins(%d, y) => x.%s.ins(*y)," % (i, l))
            w("    REdit::Rem(%d, y) => x.%s.rem(*y)," % (i, l))
        w("    _ => panic!(\"edit does not fit\"),")
        w("  }")
        w("}")
    return "\n".join(o) + "\n"

def put(path, text):
    if os.path.exists(path) and open(path).read() == text: return
    open(path, "w").write(text)

def main(out, files):
    os.makedirs(out, exist_ok=True)
    names = []
    for f in files:
        s = json.load(open(f))
        s["_path"] = os.path.abspath(f)
        names.append(s["name"])
        put(os.path.join(out, "sch_%s.rs" % s["name"]), rust(s))
    m = ["pub mod sch_%s;" % n for n in names]
    m.append("#[macro_export]\nmacro_rules! with_schema { ($name:expr, $f:ident, $($a:expr),*) => { match $name {")
    for n in names: m.append("  \"%s\" => $f::<$crate::gen::sch_%s::S>($($a),*)," % (n, n))
    m.append("  x => panic!(\"unknown schema {}\", x), } } }")
    put(os.path.join(out, "mod.rs"), "\n".join(m) + "\n")

if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
