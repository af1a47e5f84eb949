//! The world executes operations on the real TTGraph and logs one event per public call.
use crate::prelude::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

/// A node written with names instead of indices. Name 0 is the empty index.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SNode {
  pub v: String,
  pub uid: usize,
  pub pay: i64,
  #[serde(deserialize_with = "fields")]
  pub f: BTreeMap<String, Vec<i64>>,
}
/// TLC writes a function with an empty domain as []
fn fields<'de, D: serde::Deserializer<'de>>(d: D) -> Result<BTreeMap<String, Vec<i64>>, D::Error> {
  let v = Value::deserialize(d)?;
  if v.is_array() {
    return Ok(BTreeMap::new());
  }
  serde_json::from_value(v).map_err(serde::de::Error::custom)
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "op")]
pub enum SEdit {
  #[serde(rename = "put")]
  Put { l: String, ys: Vec<i64> },
  #[serde(rename = "ins")]
  Ins { l: String, y: i64 },
  #[serde(rename = "rem")]
  Rem { l: String, y: i64 },
  #[serde(rename = "data")]
  Data { d: i64 },
  #[serde(rename = "become")]
  Become { n: SNode },
}
/// A check that is made to fail: kind "n" on node x, "a"/"r" on link (x, y)
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FailOn {
  pub k: String,
  pub x: i64,
  pub y: i64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "o")]
pub enum Op {
  NewCtx { c: usize, how: u8 },
  CloneCtx { c: usize, of: usize },
  NewGraph { g: usize, c: usize },
  NewTxn { t: usize, c: usize },
  Insert { t: usize, r: i64, n: SNode },
  Extend { t: usize, rs: Vec<i64>, ns: Vec<SNode> },
  Alloc { t: usize, r: i64, v: String, mac: bool },
  AllocU { t: usize, r: i64 },
  Fill { t: usize, id: i64, n: SNode },
  FillU { t: usize, id: i64, n: SNode },
  Remove { t: usize, id: i64 },
  Mutate {
    t: usize,
    id: i64,
    es: Vec<SEdit>,
    /// the variant the edits are written for ("": any)
    want: String,
    /// 0..2: the forms of the macro; 9: the plain method
    style: u8,
  },
  Update {
    t: usize,
    id: i64,
    es: Vec<SEdit>,
    /// the variant the edits are written for ("": any)
    want: String,
    /// 0..2: the forms of the macro; 9: the plain method
    style: u8,
  },
  Redir { t: usize, a: i64, b: i64 },
  RedirAll { t: usize, a: i64, b: i64 },
  Merge { t: usize, g: usize },
  GiveUp { t: usize, how: u8 },
  IsEmpty { t: usize },
  Commit { g: usize, t: usize },
  CommitC { g: usize, t: usize, fail: Vec<FailOn> },
  Switch { g: usize, c: usize, g2: usize, base: i64 },
  Serde { g: usize, g2: usize, c2: usize, keep: bool, mode: u8 },
  Views { g: usize },
  Reflect { g: usize },
  Consume { g: usize },
  DropGraph { g: usize },
  Integrity { g: usize },
  Observe {},
}

pub struct GraphS<S: Sch> {
  pub g: Graph<S::N>,
  pub ctx: usize,
  pub dump: BTreeMap<usize, PNode>,
}
pub struct TxnS<S: Sch> {
  pub t: Txn<S>,
  pub ctx: usize,
  pub inc: BTreeMap<i64, usize>,           // own nodes: name -> variant
  pub alloc: BTreeMap<i64, Option<usize>>, // allocated names
  pub ext: Vec<(i64, usize, usize)>,       // extended: name, uid, event position
  pub olds: [BTreeSet<i64>; 2],
  pub nops: usize,
}
#[derive(Clone, Copy)]
pub struct CtxKey {
  pub uuid: usize,
  pub dist: usize,
}

/// Start time of the running operation (ms since the epoch), 0 when idle; read by the watchdog
pub static BUSY: AtomicU64 = AtomicU64::new(0);
fn now_ms() -> u64 {
  std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

fn guard<R>(f: impl FnOnce() -> R) -> Option<R> {
  BUSY.store(now_ms(), Ordering::Relaxed);
  let r = catch_unwind(AssertUnwindSafe(f)).ok();
  BUSY.store(0, Ordering::Relaxed);
  r
}

pub fn leak(s: &str) -> &'static str {
  use std::sync::Mutex;
  static POOL: Mutex<BTreeMap<String, &'static str>> = Mutex::new(BTreeMap::new());
  let mut p = POOL.lock().unwrap();
  if let Some(x) = p.get(s) {
    return x;
  }
  let x: &'static str = Box::leak(s.to_string().into_boxed_str());
  p.insert(s.to_string(), x);
  x
}

pub struct World<S: Sch> {
  pub meta: Meta,
  pub ctxs: BTreeMap<usize, (Context, CtxKey)>,
  pub graphs: BTreeMap<usize, GraphS<S>>,
  pub txns: BTreeMap<usize, TxnS<S>>,
  pub names: BTreeMap<i64, usize>,     // name -> real index
  pub name_uuid: BTreeMap<i64, usize>, // name -> context identity
  pub log: Vec<Value>,
  pub ops: Vec<Op>,
  pub marks: usize, // closures handed over so far
  pub stats: BTreeMap<&'static str, u64>,
}

type CallLog = std::rc::Rc<std::cell::RefCell<Vec<Value>>>;

impl<S: Sch> World<S> {
  pub fn new() -> Self {
    World {
      meta: Meta::new(S::text()),
      ctxs: BTreeMap::new(),
      graphs: BTreeMap::new(),
      txns: BTreeMap::new(),
      names: BTreeMap::new(),
      name_uuid: BTreeMap::new(),
      log: vec![],
      ops: vec![],
      marks: 0,
      stats: BTreeMap::new(),
    }
  }
  pub fn real(&self, name: i64) -> usize {
    if name == 0 {
      0
    } else {
      *self.names.get(&name).unwrap_or_else(|| panic!("unresolved name {}", name))
    }
  }
  pub fn known(&self, name: i64) -> bool {
    self.names.contains_key(&name)
  }
  fn set_name(&mut self, name: i64, real: usize, uuid: usize) {
    self.names.insert(name, real);
    self.name_uuid.insert(name, uuid);
  }
  fn fields(&self, v: usize, n: &SNode) -> Vec<Vec<usize>> {
    self.meta.vm(v).links.keys().map(|l| n.f.get(l).map_or(vec![], |ys| ys.iter().map(|y| self.real(*y)).collect())).collect()
  }
  fn build(&self, n: &SNode) -> (S::N, PNode) {
    let v = self.meta.vi(&n.v);
    let f = self.fields(v, n);
    let x = S::build(v, n.uid, n.pay, &f);
    (x, self.pnode(n))
  }
  /// The projection of a node about to be handed over, computed without the code under test
  fn pnode(&self, n: &SNode) -> PNode {
    let v = self.meta.vi(&n.v);
    let f = self.fields(v, n);
    let f = (0..f.len()).map(|l| self.pairs(v, l, &f[l])).collect();
    PNode { v, uid: n.uid, pay: n.pay, f }
  }
  fn pairs(&self, v: usize, l: usize, ys: &[usize]) -> Vec<(usize, usize)> {
    let mut r: Vec<(usize, usize)> = match self.meta.kind(v, l) {
      "vec" => ys.iter().enumerate().map(|(i, y)| (i + 1, *y)).collect(),
      "dir" => ys.iter().take(1).filter(|y| **y != 0).map(|y| (0, *y)).collect(),
      _ => ys.iter().filter(|y| **y != 0).map(|y| (0, *y)).collect(),
    };
    r.sort();
    r.dedup();
    r
  }
  /// Edits with real indices, and as logged. `v` is the variant the edits are written for.
  fn edits(&self, mut v: usize, es: &[SEdit], k: usize) -> (&'static [REdit], Value) {
    let mut out = vec![REdit::Mark(k)];
    let mut js = vec![];
    for e in es {
      match e {
        SEdit::Put { l, ys } => {
          let ys: Vec<usize> = ys.iter().map(|y| self.real(*y)).collect();
          let li = self.meta.li(v, l);
          js.push(json!({"op": "put", "l": l, "ps": self.pairs(v, li, &ys)}));
          out.push(REdit::Put(li, ys));
        },
        SEdit::Ins { l, y } => {
          js.push(json!({"op": "ins", "l": l, "y": self.real(*y)}));
          out.push(REdit::Ins(self.meta.li(v, l), self.real(*y)));
        },
        SEdit::Rem { l, y } => {
          js.push(json!({"op": "rem", "l": l, "y": self.real(*y)}));
          out.push(REdit::Rem(self.meta.li(v, l), self.real(*y)));
        },
        SEdit::Data { d } => {
          js.push(json!({"op": "data", "d": d}));
          out.push(REdit::Data(*d));
        },
        SEdit::Become { n } => {
          v = self.meta.vi(&n.v);
          js.push(json!({"op": "become", "n": self.meta.to_json(&self.pnode(n))}));
          out.push(REdit::Become(v, n.uid, n.pay, self.fields(v, n)));
        },
      }
    }
    (Box::leak(out.into_boxed_slice()), Value::Array(js))
  }
  pub fn dump_graph(g: &Graph<S::N>) -> BTreeMap<usize, PNode> {
    g.iter().map(|(i, n)| (i.0, S::dump(n))).collect()
  }
  pub fn dump_json(&self, d: &BTreeMap<usize, PNode>) -> Value {
    Value::Array(d.iter().map(|(i, n)| json!([i, self.meta.to_json(n)])).collect())
  }
  fn bump(&mut self, k: &'static str) {
    *self.stats.entry(k).or_default() += 1;
  }

  /// Names of nodes by real index within one context identity (the latest name wins)
  pub fn name_of(&self, real: usize, uuid: usize) -> Option<i64> {
    self.names.iter().filter(|(n, r)| **r == real && self.name_uuid[*n] == uuid).map(|(n, _)| *n).next_back()
  }

  /// Executes one operation, logs its event. Returns false if the call panicked.
  /// The event also tells which closures of the user ran during the call, in which order.
  pub fn exec(&mut self, op: &Op) -> bool {
    let at = self.log.len();
    RAN.with(|r| r.borrow_mut().clear());
    let ok = self.exec_op(op);
    let ran = RAN.with(|r| std::mem::take(&mut *r.borrow_mut()));
    if let Some(e) = self.log[at..].last_mut() {
      let runs = matches!(e["e"].as_str(), Some("Mutate" | "Update" | "Commit" | "CommitC" | "GiveUp"));
      if runs || !ran.is_empty() {
        e["ran"] = json!(ran);
      }
    }
    ok
  }
  fn exec_op(&mut self, op: &Op) -> bool {
    self.ops.push(op.clone());
    match op.clone() {
      Op::NewCtx { c, how } => {
        let ctx = if how == 0 { Context::new() } else { Context::default() };
        self.ctxs.insert(c, (ctx, CtxKey { uuid: c, dist: c }));
        self.log.push(json!({"e": "NewCtx", "c": c}));
      },
      Op::CloneCtx { c, of } => {
        let x = (self.ctxs[&of].0.clone(), self.ctxs[&of].1);
        self.ctxs.insert(c, x);
        self.log.push(json!({"e": "CloneCtx", "c": c, "of": of}));
      },
      Op::NewGraph { g, c } => {
        let gr = Graph::<S::N>::new(&self.ctxs[&c].0);
        self.graphs.insert(g, GraphS { g: gr, ctx: c, dump: BTreeMap::new() });
        self.log.push(json!({"e": "NewGraph", "g": g, "c": c}));
      },
      Op::NewTxn { t, c } => {
        let tx = Transaction::new(&self.ctxs[&c].0);
        self.txns.insert(
          t,
          TxnS { t: tx, ctx: c, inc: BTreeMap::new(), alloc: BTreeMap::new(), ext: vec![], olds: Default::default(), nops: 0 },
        );
        self.log.push(json!({"e": "NewTxn", "t": t, "c": c}));
      },
      Op::Insert { t, r, n } => {
        let (x, p) = self.build(&n);
        let tx = self.txns.get_mut(&t).unwrap();
        let Some(i) = guard(|| tx.t.insert(x)) else { return self.broken("Insert") };
        tx.inc.insert(r, p.v);
        tx.nops += 1;
        let u = self.ctxs[&self.txns[&t].ctx].1.uuid;
        self.set_name(r, i.0, u);
        self.log.push(json!({"e": "Insert", "t": t, "id": i.0, "n": self.meta.to_json(&p)}));
      },
      Op::Extend { t, rs, ns } => {
        let xs: Vec<(S::N, PNode)> = ns.iter().map(|n| self.build(n)).collect();
        let mut js = vec![];
        for ((r, (_, p)), n) in rs.iter().zip(xs.iter()).zip(ns.iter()) {
          // the index is not returned: provisional negative ids until a commit shows the node
          js.push(json!([-(n.uid as i64) - 1, self.meta.to_json(p)]));
          let pos = self.log.len();
          self.txns.get_mut(&t).unwrap().ext.push((*r, n.uid, pos));
        }
        let tx = self.txns.get_mut(&t).unwrap();
        tx.nops += 1;
        let it: Vec<S::N> = xs.into_iter().map(|x| x.0).collect();
        if guard(|| tx.t.extend(it)).is_none() {
          return self.broken("Extend");
        }
        self.log.push(json!({"e": "Extend", "t": t, "ns": js}));
      },
      Op::Alloc { t, r, v, mac } => {
        let vi = self.meta.vi(&v);
        let tx = self.txns.get_mut(&t).unwrap();
        let Some(i) = guard(|| if mac { S::alloc_mac(&mut tx.t, vi) } else { tx.t.alloc(S::disc(vi)) }) else {
          return self.broken("Alloc");
        };
        tx.alloc.insert(r, Some(vi));
        tx.nops += 1;
        let u = self.ctxs[&self.txns[&t].ctx].1.uuid;
        self.set_name(r, i.0, u);
        self.log.push(json!({"e": "Alloc", "t": t, "id": i.0, "v": v}));
      },
      Op::AllocU { t, r } => {
        let tx = self.txns.get_mut(&t).unwrap();
        let Some(i) = guard(|| tx.t.alloc_untyped()) else { return self.broken("Alloc") };
        tx.alloc.insert(r, None);
        tx.nops += 1;
        let u = self.ctxs[&self.txns[&t].ctx].1.uuid;
        self.set_name(r, i.0, u);
        self.log.push(json!({"e": "Alloc", "t": t, "id": i.0, "v": "?"}));
      },
      Op::Fill { t, id, ref n } | Op::FillU { t, id, ref n } => {
        let typed = matches!(op, Op::Fill { .. });
        let (x, p) = self.build(n);
        let i = self.real(id);
        let tx = self.txns.get_mut(&t).unwrap();
        let ok = guard(|| if typed { tx.t.fill_back(NodeIndex(i), x) } else { tx.t.fill_back_untyped(NodeIndex(i), x) }).is_some();
        self.log.push(json!({"e": if typed {"Fill"} else {"FillU"}, "t": t, "id": i, "n": self.meta.to_json(&p), "res": res(ok)}));
        if ok {
          let tx = self.txns.get_mut(&t).unwrap();
          tx.alloc.remove(&id);
          tx.inc.insert(id, p.v);
          tx.nops += 1;
        } else {
          self.txns.remove(&t);
          self.bump("fill_panic");
          return false;
        }
      },
      Op::Remove { t, id } => {
        let i = self.real(id);
        let tx = self.txns.get_mut(&t).unwrap();
        if guard(|| tx.t.remove(NodeIndex(i))).is_none() {
          return self.broken("Remove");
        }
        tx.nops += 1;
        if tx.inc.remove(&id).is_none() {
          tx.alloc.remove(&id);
        }
        self.log.push(json!({"e": "Remove", "t": t, "id": i}));
      },
      Op::Mutate { t, id, ref es, ref want, style } | Op::Update { t, id, ref es, ref want, style } => {
        let is_mut = matches!(op, Op::Mutate { .. });
        let i = self.real(id);
        let bound = !want.is_empty();
        let v0 = if bound { self.meta.vi(want) } else { 0 };
        self.marks += 1;
        let k = self.marks;
        let (re, js) = self.edits(v0, es, k);
        // a closure that names fields is written for one variant, and panics on any other
        let tx = self.txns.get_mut(&t).unwrap();
        tx.nops += 1;
        let ok = guard(|| {
          let idx = NodeIndex(i);
          if !bound || style == 9 {
            if is_mut {
              tx.t.mutate(idx, move |n| {
                assert!(!bound || S::dump(n).v == v0, "closure for another variant");
                re.iter().for_each(|e| S::edit(n, e))
              })
            } else {
              tx.t.update(idx, move |mut n| {
                assert!(!bound || S::dump(&n).v == v0, "closure for another variant");
                re.iter().for_each(|e| S::edit(&mut n, e));
                n
              })
            }
          } else if is_mut {
            S::mut_mac(&mut tx.t, v0, idx, style, re)
          } else {
            S::upd_mac(&mut tx.t, v0, idx, style, re)
          }
        })
        .is_some();
        if ok {
          if let Some(v) = tx.inc.get_mut(&id) {
            for e in es {
              if let SEdit::Become { n } = e {
                *v = self.meta.vi(&n.v);
              }
            }
          }
        }
        self.log.push(json!({"e": if is_mut {"Mutate"} else {"Update"}, "t": t, "m": {"id": i, "es": js, "want": want, "k": k}, "res": res(ok)}));
        if !ok {
          self.txns.remove(&t);
          self.bump("edit_panic");
          return false;
        }
      },
      Op::Redir { t, a, b } | Op::RedirAll { t, a, b } => {
        let all = matches!(op, Op::RedirAll { .. });
        let (x, y) = (self.real(a), self.real(b));
        let tx = self.txns.get_mut(&t).unwrap();
        tx.nops += 1;
        tx.olds[all as usize].insert(a);
        let ok = guard(|| {
          if all {
            tx.t.redirect_all_links(NodeIndex(x), NodeIndex(y))
          } else {
            tx.t.redirect_links(NodeIndex(x), NodeIndex(y))
          }
        });
        if ok.is_none() {
          return self.broken("Redir");
        }
        self.log.push(json!({"e": if all {"RedirAll"} else {"Redir"}, "t": t, "a": x, "b": y}));
      },
      Op::Merge { t, g } => {
        let gs = self.graphs.remove(&g).unwrap();
        let u = self.ctxs[&gs.ctx].1.uuid;
        let tx = self.txns.get_mut(&t).unwrap();
        let gr = gs.g;
        let ok = guard(|| tx.t.merge(gr)).is_some();
        tx.nops += 1;
        self.log.push(json!({"e": "Merge", "t": t, "g": g, "res": res(ok)}));
        if ok {
          for (i, n) in &gs.dump {
            if let Some(name) = self.name_of(*i, u) {
              self.txns.get_mut(&t).unwrap().inc.insert(name, n.v);
            }
          }
          self.bump("merge_ok");
        } else {
          self.bump("merge_panic");
          return false;
        }
      },
      Op::GiveUp { t, how } => {
        let tx = self.txns.remove(&t).unwrap();
        let ok = guard(move || if how == 0 { tx.t.give_up() } else { drop(tx.t) });
        if ok.is_none() {
          return self.broken("GiveUp");
        }
        self.log.push(json!({"e": "GiveUp", "t": t}));
      },
      Op::IsEmpty { t } => {
        let tx = &self.txns[&t];
        let Some(b) = guard(|| tx.t.is_empty()) else { return self.broken("IsEmpty") };
        self.log.push(json!({"e": "IsEmpty", "t": t, "b": b}));
      },
      Op::Commit { g, t } => return self.commit(g, t, None),
      Op::CommitC { g, t, fail } => return self.commit(g, t, Some(fail)),
      Op::Switch { g, c, g2, base } => {
        let gs = self.graphs.remove(&g).unwrap();
        let gr = gs.g;
        let ctx = self.ctxs[&c].0.clone();
        let r = guard(|| gr.switch_context(&ctx));
        let mut e = json!({"e": "Switch", "g": g, "c": c, "g2": g2, "res": res(r.is_some()), "map": [], "dump": []});
        let Some(gr) = r else {
          self.log.push(e);
          self.bump("switch_panic");
          return false;
        };
        let d = guard(|| Self::dump_graph(&gr)).unwrap_or_default();
        let mut by_uid: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for (i, n) in &d {
          by_uid.entry(n.uid).or_default().push(*i);
        }
        let old_uuid = self.ctxs[&gs.ctx].1.uuid;
        let new_uuid = self.ctxs[&c].1.uuid;
        let mut map = vec![];
        for (i, n) in &gs.dump {
          if let Some([j]) = by_uid.get(&n.uid).map(|x| x.as_slice()) {
            map.push(json!([i, j]));
            if let Some(name) = self.name_of(*i, old_uuid) {
              self.set_name(base + name, *j, new_uuid);
            }
          }
        }
        e["map"] = Value::Array(map);
        e["dump"] = self.dump_json(&d);
        self.log.push(e);
        self.graphs.insert(g2, GraphS { g: gr, ctx: c, dump: d });
        self.bump("switch_ok");
      },
      Op::Serde { g, g2, c2, keep, mode } => {
        use ttgraph::serialize::*;
        let gs = self.graphs.remove(&g).unwrap();
        let (old_ctx, old_dump) = (gs.ctx, gs.dump.clone());
        let (kept, text): (Option<GraphS<S>>, Option<String>) = if keep || mode % 2 == 0 {
          let s = guard(|| if mode < 2 { serde_json::to_string(&gs.g).unwrap() } else { serde_json::to_value(&gs.g).unwrap().to_string() });
          (if keep { Some(gs) } else { None }, s)
        } else {
          let gr = gs.g;
          (None, guard(|| serde_json::to_string(&GraphSerializer::<S::N>::from(gr)).unwrap()))
        };
        if let Some(k) = kept {
          self.graphs.insert(g, k);
        }
        let r = text.and_then(|s| {
          guard(|| {
            let d: GraphSerializer<S::N> = serde_json::from_str(&s).unwrap();
            deserialize_graph(d)
          })
        });
        let mut e = json!({"e": "Serde", "g": g, "g2": g2, "c2": c2, "keep": keep, "res": res(r.is_some()), "dump": []});
        let Some((ctx, gr)) = r else {
          self.log.push(e);
          self.bump("serde_panic");
          return false;
        };
        let d = guard(|| Self::dump_graph(&gr)).unwrap_or_default();
        e["dump"] = self.dump_json(&d);
        self.log.push(e);
        // the restored context is another distributer with the same identity; its own name space
        self.ctxs.insert(c2, (ctx, CtxKey { uuid: c2, dist: c2 }));
        let old_uuid = self.ctxs[&old_ctx].1.uuid;
        let renames: Vec<(i64, usize)> =
          old_dump.keys().filter_map(|i| self.name_of(*i, old_uuid).map(|n| (n, *i))).collect();
        for (n, i) in renames {
          self.set_name(n + (c2 as i64) * 10_000_000, i, c2);
        }
        self.graphs.insert(g2, GraphS { g: gr, ctx: c2, dump: d });
        self.bump("serde_ok");
      },
      Op::Views { g } => return self.views(g),
      Op::Reflect { g } => return self.reflect(g),
      Op::Consume { g } => {
        let gs = self.graphs.remove(&g).unwrap();
        let gr = gs.g;
        let r = guard(|| {
          let mut it = gr.into_iter();
          let mut lens = vec![it.len()];
          let mut out: Vec<(usize, PNode)> = vec![];
          while let Some((i, n)) = it.next() {
            out.push((i.0, S::dump(&n)));
            lens.push(it.len());
            if out.len() > 10_000 {
              break;
            }
          }
          let fused = it.next().is_none();
          (lens, out, fused)
        });
        let Some((lens, out, fused)) = r else { return self.broken("Consume") };
        let js: Vec<Value> = out.iter().map(|(i, n)| json!([i, self.meta.to_json(n)])).collect();
        self.log.push(json!({"e": "Consume", "g": g, "lens": lens, "fused": fused, "dump": js}));
      },
      Op::DropGraph { g } => {
        self.graphs.remove(&g);
        self.log.push(json!({"e": "DropGraph", "g": g}));
      },
      Op::Integrity { g } => {
        let gs = &self.graphs[&g];
        let ok = guard(|| gs.g.check_integrity()).is_some();
        self.log.push(json!({"e": "Integrity", "g": g, "res": res(ok)}));
      },
      Op::Observe {} => {
        let mut js = vec![];
        for (g, gs) in &self.graphs {
          let d = guard(|| Self::dump_graph(&gs.g)).unwrap_or_default();
          js.push(json!([g, self.dump_json(&d)]));
        }
        self.log.push(json!({"e": "Observe", "gs": js}));
      },
    }
    true
  }

  /// A call that never may panic did: no action of the specification explains this event.
  fn broken(&mut self, what: &str) -> bool {
    self.log.push(json!({"e": "Broken", "what": what}));
    false
  }

  fn commit(&mut self, g: usize, t: usize, checks: Option<Vec<FailOn>>) -> bool {
    let tx = self.txns.remove(&t).unwrap();
    let gs = self.graphs.get_mut(&g).unwrap();
    let refusal = self.ctxs[&tx.ctx].1.uuid != self.ctxs[&gs.ctx].1.uuid || !tx.alloc.is_empty();
    let tr = tx.t;
    let mut e = json!({"e": "Commit", "g": g, "t": t});
    let ok;
    match checks {
      None => ok = guard(|| gs.g.commit(tr)).is_some(),
      #[cfg(not(feature = "debug"))]
      Some(_) => ok = guard(|| gs.g.commit(tr)).is_some(),
      #[cfg(feature = "debug")]
      Some(fail) => {
        let calls: [[CallLog; 2]; 3] = Default::default();
        let gone: CallLog = Default::default();
        let mut c = check::GraphCheck::<S::N>::new();
        let meta = std::rc::Rc::new(self.meta.clone());
        let short = |n: &S::N| {
          let p = S::dump(n);
          json!([p.uid, p.pay])
        };
        for (k, name) in ["a", "z"].iter().enumerate() {
          // a check registered again under the same name replaces the first one
          let q = gone.clone();
          c.insert_node_check(name.to_string(), move |_, _| {
            q.borrow_mut().push(json!("replaced"));
            Ok(())
          });
          let q = calls[0][k].clone();
          let m = meta.clone();
          c.insert_node_check(name.to_string(), move |x, n| {
            q.borrow_mut().push(json!([x.0, m.to_json(&S::dump(n))]));
            Ok(())
          });
          let q = calls[1][k].clone();
          c.insert_link_add_check(name.to_string(), move |x, y, n, w| {
            q.borrow_mut().push(json!([x.0, y.0, short(n), w.map_or(json!([]), short)]));
            Ok(())
          });
          let q = calls[2][k].clone();
          c.insert_link_remove_check(name.to_string(), move |x, y, n, w| {
            q.borrow_mut().push(json!([x.0, y.0, short(n), w.map_or(json!([]), short)]));
            Ok(())
          });
        }
        let q = gone.clone();
        c.insert_node_check("k".into(), move |_, _| {
          q.borrow_mut().push(json!("k"));
          Err(())
        });
        let q = gone.clone();
        c.insert_link_add_check("k".into(), move |_, _, _, _| {
          q.borrow_mut().push(json!("k"));
          Err(())
        });
        let q = gone.clone();
        c.insert_link_remove_check("k".into(), move |_, _, _, _| {
          q.borrow_mut().push(json!("k"));
          Err(())
        });
        c.remove_node_check("k");
        c.remove_link_add_check("k");
        c.remove_link_remove_check("k");
        let mut fj = vec![];
        for (i, f) in fail.iter().enumerate() {
          let rx = if f.x == 0 { 0 } else { self.names[&f.x] };
          let ry = if f.y == 0 { 0 } else { self.names[&f.y] };
          fj.push(json!([f.k, rx, ry]));
          let name = format!("m{}", i);
          match f.k.as_str() {
            "n" => c.insert_node_check(name, move |x, _| if x.0 == rx { Err(()) } else { Ok(()) }),
            "a" => c.insert_link_add_check(name, move |x, y, _, _| if x.0 == rx && y.0 == ry { Err(()) } else { Ok(()) }),
            _ => c.insert_link_remove_check(name, move |x, y, _, _| if x.0 == rx && y.0 == ry { Err(()) } else { Ok(()) }),
          }
        }
        ok = guard(|| gs.g.commit_checked(tr, &c)).is_some();
        e["e"] = json!("CommitC");
        e["fail"] = Value::Array(fj);
        e["nc"] = json!([*calls[0][0].borrow(), *calls[0][1].borrow()]);
        e["ac"] = json!([*calls[1][0].borrow(), *calls[1][1].borrow()]);
        e["rc"] = json!([*calls[2][0].borrow(), *calls[2][1].borrow()]);
        e["gone"] = json!(*gone.borrow());
      },
    }
    let d = guard(|| Self::dump_graph(&gs.g)).unwrap_or_default();
    e["res"] = json!(res(ok));
    e["dump"] = if ok || refusal { self.dump_json(&d) } else { json!([]) };
    // indices of extended nodes are known now, from the graph or from what the node checks were shown
    let u = self.ctxs[&self.graphs[&g].ctx].1.uuid;
    let shown: Vec<(usize, usize)> = match e.get("nc") {
      Some(nc) if !ok => {
        nc[0].as_array().unwrap().iter().map(|c| (c[0].as_u64().unwrap() as usize, c[1]["d"][0].as_u64().unwrap() as usize)).collect()
      },
      _ if ok => d.iter().map(|(i, n)| (*i, n.uid)).collect(),
      _ => vec![],
    };
    self.log.push(e);
    for (name, uid, pos) in &tx.ext {
      let at: Vec<usize> = shown.iter().filter(|(_, u)| u == uid).map(|(i, _)| *i).collect();
      if at.len() == 1 {
        self.set_name(*name, at[0], u);
        for e in self.log[*pos]["ns"].as_array_mut().unwrap() {
          if e[0] == json!(-(*uid as i64) - 1) {
            e[0] = json!(at[0]);
          }
        }
      }
    }
    if ok {
      self.bump("commit_ok");
      self.graphs.get_mut(&g).unwrap().dump = d;
    } else if refusal {
      self.bump("commit_refused");
      self.graphs.get_mut(&g).unwrap().dump = d;
    } else {
      self.bump("commit_panic");
      self.graphs.remove(&g);
    }
    ok
  }

  fn views(&mut self, g: usize) -> bool {
    let gs = &self.graphs[&g];
    let gr = &gs.g;
    let probe: BTreeSet<usize> = self.names.values().copied().chain([0usize, 1, 2, 3]).collect();
    let nv = self.meta.order.len();
    let meta = &self.meta;
    let r = guard(|| {
      let d = Self::dump_graph(gr);
      let mut diff: Vec<Value> = vec![];
      let mut it = gr.iter();
      let cl = it.clone().count();
      let mut lens = vec![it.len()];
      let mut ids = vec![];
      while let Some((i, _)) = it.next() {
        ids.push(i.0);
        lens.push(it.len());
        if ids.len() > 10_000 {
          break;
        }
      }
      let fused = it.next().is_none();
      // the other ways to move an iterator
      for k in 0..ids.len().min(6) + 1 {
        let mut it = gr.iter();
        let got = it.nth(k).map(|x| x.0 .0);
        let rest: Vec<usize> = it.clone().map(|x| x.0 .0).collect();
        let want = ids.get(k).copied();
        let after = ids.get(k + 1..).unwrap_or(&[]).to_vec();
        if got != want || rest != after || it.len() != after.len() || it.size_hint() != (after.len(), Some(after.len())) {
          diff.push(json!(["nth", k]));
        }
      }
      if gr.iter().last().map(|x| x.0 .0) != ids.last().copied() || gr.iter().fold(0, |a, _| a + 1) != ids.len() {
        diff.push(json!(["last", 0]));
      }
      let mut chk = |what: &str, i: usize, n: &PNode| {
        let a = d.get(&i).map(|x| meta.to_json(x));
        if a != Some(meta.to_json(n)) {
          diff.push(json!([what, i]));
        }
      };
      let refs: Vec<usize> = gr
        .into_iter()
        .map(|(i, n)| {
          chk("ref", i.0, &S::dump(n));
          i.0
        })
        .collect();
      let mut gets = vec![];
      for i in &probe {
        if let Some(n) = gr.get(NodeIndex(*i)) {
          chk("get", *i, &S::dump(n));
          gets.push(*i);
        }
      }
      for i in &ids {
        if !probe.contains(i) {
          if let Some(n) = gr.get(NodeIndex(*i)) {
            chk("get", *i, &S::dump(n));
            gets.push(*i);
          }
        }
      }
      let mut types = serde_json::Map::new();
      for v in 0..nv {
        let mut it = gr.iter_type(S::disc(v));
        let mut lens = vec![it.len()];
        let mut a = vec![];
        while let Some((i, n)) = it.next() {
          chk("type", i.0, &S::dump(n));
          a.push(i.0);
          lens.push(it.len());
        }
        let (ml, mi) = S::iter_mac(gr, v);
        let m: Vec<usize> = mi
          .iter()
          .map(|(i, n)| {
            chk("iter_nodes", *i, n);
            *i
          })
          .collect();
        let mut tg = vec![];
        for i in probe.iter().chain(ids.iter().filter(|i| !probe.contains(i))) {
          if let Some(n) = S::get_mac(gr, v, NodeIndex(*i)) {
            chk("get_node", *i, &n);
            tg.push(*i);
          }
        }
        types.insert(meta.order[v].clone(), json!({"it": a, "lens": lens, "mac": m, "maclen": ml, "get": tg}));
      }
      let mut groups = serde_json::Map::new();
      for name in meta.vgroups.keys().map(|x| x.as_str()).chain(["nosuchgroup"]) {
        let a: Vec<usize> = gr
          .iter_group(leak(name))
          .map(|(i, n)| {
            chk("group", i.0, &S::dump(n));
            i.0
          })
          .collect();
        groups.insert(name.to_string(), json!(a));
      }
      let dj = self.dump_json(&d);
      json!({"e": "Views", "g": g, "len": gr.len(), "empty": gr.is_empty(), "iter": ids, "lens": lens, "clone": cl, "fused": fused,
             "refs": refs, "gets": gets, "types": types, "groups": groups, "diff": diff, "dump": dj})
    });
    match r {
      Some(e) => {
        self.log.push(e);
        true
      },
      None => self.broken("Views"),
    }
  }

  fn reflect(&mut self, g: usize) -> bool {
    let gs = &self.graphs[&g];
    let meta = &self.meta;
    let lnames: Vec<&'static str> =
      meta.link_names().iter().map(|x| leak(x)).chain(["nosuchlink", "uid", "pay", "name"]).collect();
    let lgroups: Vec<&'static str> = meta.link_groups().iter().map(|x| leak(x)).chain(["nosuchgroup"]).collect();
    let vgroups: Vec<&'static str> = meta.vgroups.keys().map(|x| leak(x)).chain(["nosuchgroup"]).collect();
    let gr = &gs.g;
    let r = guard(|| {
      let mut out = vec![];
      for (i, n) in gr.iter() {
        let p = S::dump(n);
        let ids = |v: Vec<NodeIndex>| v.into_iter().map(|x| x.0).collect::<Vec<usize>>();
        let mut bn = serde_json::Map::new();
        let mut bg = serde_json::Map::new();
        let mut tn = serde_json::Map::new();
        let mut tg = serde_json::Map::new();
        for l in &lnames {
          bn.insert(l.to_string(), json!(ids(n.get_links_by_name(l).collect())));
          tn.insert(l.to_string(), json!(ids(S::typed_reflect(n, l, "nosuchgroup").0)));
        }
        for l in &lgroups {
          bg.insert(l.to_string(), json!(ids(n.get_links_by_group(l))));
          tg.insert(l.to_string(), json!(ids(S::typed_reflect(n, "nosuchlink", l).1)));
        }
        let all: Vec<usize> = n.iter_sources().map(|(y, _)| y.0).collect();
        let (ln, lt, dn) = S::statics(p.v);
        let lt: Vec<&str> = lt
          .iter()
          .map(|t| match t {
            LinkType::Point => "dir",
            LinkType::Set => "set",
            LinkType::Vec => "vec",
          })
          .collect();
        let mut data = vec![];
        for nm in ["uid", "pay", "name", "tup", "arr", "nosuchdata"].iter().copied().chain(ln.iter().copied()) {
          data.push(json!([nm, "usize", n.data_ref_by_name::<usize>(nm).map_or(json!([]), |x| json!([x]))]));
          data.push(json!([nm, "i64", n.data_ref_by_name::<i64>(nm).map_or(json!([]), |x| json!([x]))]));
          data.push(json!([nm, "u8", n.data_ref_by_name::<u8>(nm).map_or(json!([]), |x| json!([x]))]));
          data.push(json!([nm, "String", n.data_ref_by_name::<String>(nm).map_or(json!([]), |x| json!([x]))]));
          data.push(json!([nm, "tup", n.data_ref_by_name::<(i64, usize)>(nm).map_or(json!([]), |x| json!([x.0, x.1]))]));
          data.push(json!([nm, "arr", n.data_ref_by_name::<[i64; 2]>(nm).map_or(json!([]), |x| json!([x[0], x[1]]))]));
          data.push(json!([nm, "link", n.data_ref_by_name::<NodeIndex>(nm).map_or(json!([]), |x| json!([x.0]))]));
        }
        let probe: Vec<usize> = all.iter().copied().filter(|y| *y != 0).chain([i.0, 1, 2, 7]).collect::<BTreeSet<usize>>().into_iter().collect();
        let ms: Vec<Value> = S::mirrors(n, &probe)
          .into_iter()
          .map(|m| json!({"it": m.it, "ite": m.ite, "has": m.has, "hase": m.hase, "fits": m.fits}))
          .collect();
        let log: serde_json::Map<String, Value> = lnames
          .iter()
          .chain(lgroups.iter())
          .map(|l| (l.to_string(), S::log_by_name(p.v, l).map_or(json!({"some": false, "ls": []}), |x| json!({"some": true, "ls": x}))))
          .collect();
        let ing: serde_json::Map<String, Value> = vgroups.iter().map(|x| (x.to_string(), json!(n.in_group(x)))).collect();
        out.push(json!({"id": i.0, "n": meta.to_json(&p), "bn": bn, "bg": bg, "tn": tn, "tg": tg, "all": all,
                        "ln": ln, "lt": lt, "dn": dn, "data": data, "ing": ing,
                        "ms": ms, "probe": probe, "misfits": S::misfits(n), "log": log}));
      }
      json!({"e": "Reflect", "g": g, "ns": out})
    });
    match r {
      Some(e) => {
        self.log.push(e);
        true
      },
      None => self.broken("Reflect"),
    }
  }
}

pub fn res(ok: bool) -> &'static str {
  if ok {
    "ok"
  } else {
    "panic"
  }
}
