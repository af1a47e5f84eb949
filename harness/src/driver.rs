//! Random histories. Everything is decided by the seed and by the state of the real graphs;
//! the tables and the shadow copies below only steer towards interesting, mostly legal histories.
use crate::prelude::*;
use crate::world::*;
use serde_json::Value;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
  pub fn new(seed: u64) -> Rng {
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
    r.next();
    r.next();
    r
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize {
    (self.next() % n as u64) as usize
  }
  pub fn p(&mut self, x: f64) -> bool {
    (self.next() >> 11) as f64 / ((1u64 << 53) as f64) < x
  }
  pub fn pick<T: Clone>(&mut self, v: &[T]) -> Option<T> {
    if v.is_empty() {
      None
    } else {
      Some(v[self.below(v.len())].clone())
    }
  }
}

#[derive(Deserialize, Clone)]
#[serde(default)]
pub struct Profile {
  pub len: (usize, usize),
  pub careful: f64,
  pub maxnodes: usize,
  pub txmax: usize,
  pub gmax: usize,
  pub cmax: usize,
  pub dangling: f64,
  pub typed: f64,
  pub wrongwant: f64,
  pub badfill: f64,
  pub becomes: f64,
  pub foreign: f64,
  pub unfilled: f64,
  pub ghost: f64,
  pub fail: f64,
  pub probe: bool,
  pub threads: usize,
  pub batch: usize,
  pub seedn: usize,
  pub links: f64,
  /// most links in one field
  pub wide: usize,
  /// how often a redirection is a whole chain (or star) of redirections, in any order
  pub chain: f64,
  /// how often a link goes to the same few nodes
  pub hub: f64,
  pub w: BTreeMap<String, u64>,
}
impl Default for Profile {
  fn default() -> Self {
    Profile {
      len: (25, 60), careful: 0.9, maxnodes: 9, txmax: 1, gmax: 1, cmax: 1, dangling: 0.03, typed: 0.5, wrongwant: 0.0,
      badfill: 0.0, becomes: 0.15, foreign: 0.0, unfilled: 0.0, ghost: 0.0, fail: 0.3, probe: false, threads: 0, batch: 0,
      seedn: 4, links: 0.6, wide: 4, chain: 0.0, hub: 0.0, w: BTreeMap::new(),
    }
  }
}

#[derive(Clone)]
struct Sh {
  v: usize,
  f: Vec<Vec<i64>>,
}

pub struct Driver<S: Sch> {
  pub w: World<S>,
  pub rng: Rng,
  pub p: Profile,
  home: BTreeMap<usize, usize>,
  shadow: BTreeMap<usize, BTreeMap<i64, Sh>>,
  next: usize, // handles
  name: i64,
  uid: usize,
  pay: i64,
}

impl<S: Sch> Driver<S> {
  pub fn new(seed: u64, p: Profile) -> Self {
    Driver {
      w: World::new(), rng: Rng::new(seed), p, home: BTreeMap::new(), shadow: BTreeMap::new(), next: 0, name: 0, uid: 0, pay: 0,
    }
  }
  fn h(&mut self) -> usize {
    self.next += 1;
    self.next
  }
  fn nm(&mut self) -> i64 {
    self.name += 1;
    self.name
  }
  fn uuid_of_txn(&self, t: usize) -> usize {
    self.w.ctxs[&self.w.txns[&t].ctx].1.uuid
  }
  fn uuid_of_graph(&self, g: usize) -> usize {
    self.w.ctxs[&self.w.graphs[&g].ctx].1.uuid
  }
  /// names live in a graph, with their node in terms of names
  fn live(&self, g: usize) -> Vec<i64> {
    let u = self.uuid_of_graph(g);
    let d = &self.w.graphs[&g].dump;
    self.w.names.iter().filter(|(n, r)| self.w.name_uuid[*n] == u && d.contains_key(r)).map(|(n, _)| *n).collect()
  }
  fn sh(&mut self, t: usize, x: i64) -> Option<Sh> {
    if let Some(s) = self.shadow.get(&t).and_then(|m| m.get(&x)) {
      return Some(s.clone());
    }
    let g = *self.home.get(&t)?;
    let gs = self.w.graphs.get(&g)?;
    if self.w.name_uuid.get(&x) != Some(&self.uuid_of_graph(g)) {
      return None;
    }
    let n = gs.dump.get(&self.w.real(x))?.clone();
    let u = self.uuid_of_graph(g);
    let f = n.f.iter().map(|ps| ps.iter().map(|(_, y)| self.w.name_of(*y, u).unwrap_or(0)).collect()).collect();
    let s = Sh { v: n.v, f };
    self.shadow.entry(t).or_default().insert(x, s.clone());
    Some(s)
  }
  fn sh_put(&mut self, t: usize, x: i64, s: Sh) {
    self.shadow.entry(t).or_default().insert(x, s);
  }
  /// candidates a transaction can sensibly talk about
  fn pool(&self, t: usize) -> Vec<i64> {
    let mut r: BTreeSet<i64> = self.w.txns[&t].inc.keys().copied().collect();
    r.extend(self.w.txns[&t].alloc.keys().copied());
    if let Some(g) = self.home.get(&t) {
      if self.w.graphs.contains_key(g) && self.uuid_of_graph(*g) == self.uuid_of_txn(t) {
        r.extend(self.live(*g));
      }
    }
    r.into_iter().collect()
  }
  fn anyname(&mut self, t: usize) -> Option<i64> {
    let u = self.uuid_of_txn(t);
    let v: Vec<i64> = self.w.names.keys().filter(|n| self.w.name_uuid[*n] == u).copied().collect();
    self.rng.pick(&v)
  }
  fn variant_of(&mut self, t: usize, y: i64) -> Option<usize> {
    if let Some(Some(v)) = self.w.txns[&t].alloc.get(&y) {
      return Some(*v);
    }
    self.sh(t, y).map(|s| s.v)
  }
  /// A target for field l of node x (variant v)
  fn target(&mut self, t: usize, x: i64, v: usize, l: usize) -> Option<i64> {
    if self.rng.p(self.p.dangling) {
      return self.anyname(t);
    }
    let pool = self.pool(t);
    let careful = self.rng.p(self.p.careful);
    for _ in 0..6 {
      let k = if self.rng.p(self.p.hub) { pool.len().min(3) } else { pool.len() };
      let y = self.rng.pick(&pool[..k])?;
      if !careful {
        return Some(y);
      }
      let Some(w) = self.variant_of(t, y) else { continue };
      if !self.w.meta.allow[v][l][w] {
        continue;
      }
      let opp = self.w.meta.opp[v][l][w].clone();
      if opp.is_empty() {
        return Some(y);
      }
      if y == x && self.rng.p(0.7) {
        continue;
      }
      let Some(mut s) = self.sh(t, y) else { continue };
      if opp.iter().any(|o| s.f[*o].contains(&x)) {
        return Some(y);
      }
      let o = opp[0];
      if opp.len() > 1 || (self.w.meta.kind(w, o) == "dir" && s.f[o].iter().any(|z| *z != 0)) || !self.w.meta.allow[w][o][v] {
        continue;
      }
      if self.w.meta.kind(w, o) == "dir" {
        s.f[o] = vec![x];
      } else {
        s.f[o].push(x);
      }
      if y != x {
        self.sh_put(t, y, s);
      }
      return Some(y);
    }
    None
  }
  fn unlink(&mut self, t: usize, x: i64, v: usize, l: usize, ys: &[i64]) {
    for y in ys {
      if let Some(mut s) = self.sh(t, *y) {
        for o in self.w.meta.opp[v][l][s.v].clone() {
          s.f[o].retain(|z| *z != x);
        }
        self.sh_put(t, *y, s);
      }
    }
  }
  fn field(&mut self, t: usize, x: i64, v: usize, l: usize) -> Vec<i64> {
    let mut r = vec![];
    match self.w.meta.kind(v, l) {
      "dir" => {
        if self.rng.p(self.p.links) {
          r.extend(self.target(t, x, v, l));
        }
      },
      k => {
        let isvec = k == "vec";
        let more = if self.p.wide > 4 { 0.97 } else { self.p.links * 0.8 };
        while r.len() < self.p.wide && self.rng.p(more) {
          if isvec && self.rng.p(0.1) {
            r.push(0);
          } else if isvec && !r.is_empty() && self.rng.p(0.25) {
            let y = r[self.rng.below(r.len())];
            r.push(y);
          } else if let Some(y) = self.target(t, x, v, l) {
            if isvec || !r.contains(&y) {
              r.push(y);
            }
          } else {
            break;
          }
        }
      },
    }
    r
  }
  fn node(&mut self, t: usize, x: i64, v: usize, uid: usize) -> SNode {
    self.pay += 1;
    let pay = self.pay;
    let keys: Vec<String> = self.w.meta.vm(v).links.keys().cloned().collect();
    self.sh_put(t, x, Sh { v, f: vec![vec![]; keys.len()] });
    let mut f = BTreeMap::new();
    for (l, k) in keys.iter().enumerate() {
      let ys = self.field(t, x, v, l);
      let mut s = self.sh(t, x).unwrap();
      s.f[l] = ys.clone();
      self.sh_put(t, x, s);
      f.insert(k.clone(), ys);
    }
    SNode { v: self.w.meta.order[v].clone(), uid, pay, f }
  }
  fn fresh_node(&mut self, t: usize, x: i64) -> SNode {
    let v = self.rng.below(self.w.meta.order.len());
    self.uid += 1;
    let uid = self.uid;
    self.node(t, x, v, uid)
  }
  fn edits(&mut self, t: usize, x: i64, v: usize) -> Vec<SEdit> {
    let keys: Vec<String> = self.w.meta.vm(v).links.keys().cloned().collect();
    let mut es = vec![];
    let n = 1 + self.rng.below(2);
    for _ in 0..n {
      if keys.is_empty() || self.rng.p(0.2) {
        self.pay += 1;
        es.push(SEdit::Data { d: self.pay });
        continue;
      }
      let l = self.rng.below(keys.len());
      let name = keys[l].clone();
      let old = self.sh(t, x).map_or(vec![], |s| s.f[l].clone());
      let kind = self.w.meta.kind(v, l).to_string();
      let c = self.rng.below(3);
      if kind != "dir" && c == 0 {
        if let Some(y) = self.target(t, x, v, l) {
          if let Some(mut s) = self.sh(t, x) {
            if kind == "vec" || !s.f[l].contains(&y) {
              s.f[l].push(y);
            }
            self.sh_put(t, x, s);
          }
          es.push(SEdit::Ins { l: name, y });
        }
      } else if kind == "set" && c == 1 {
        let cand: Vec<i64> = old.iter().copied().filter(|y| *y != 0).collect();
        if let Some(y) = self.rng.pick(&cand) {
          self.unlink(t, x, v, l, &[y]);
          if let Some(mut s) = self.sh(t, x) {
            s.f[l].retain(|z| *z != y);
            self.sh_put(t, x, s);
          }
          es.push(SEdit::Rem { l: name, y });
        }
      } else {
        self.unlink(t, x, v, l, &old);
        let ys = self.field(t, x, v, l);
        if let Some(mut s) = self.sh(t, x) {
          s.f[l] = ys.clone();
          self.sh_put(t, x, s);
        }
        es.push(SEdit::Put { l: name, ys });
      }
    }
    if es.is_empty() {
      self.pay += 1;
      es.push(SEdit::Data { d: self.pay });
    }
    es
  }
  fn uid_of(&self, t: usize, x: i64) -> Option<usize> {
    // the uid travels with the node; it is known from the insertion ops or the dumps
    for op in self.w.ops.iter().rev() {
      match op {
        Op::Insert { r, n, .. } if *r == x => return Some(n.uid),
        Op::Fill { id, n, .. } | Op::FillU { id, n, .. } if *id == x => return Some(n.uid),
        Op::Extend { rs, ns, .. } => {
          if let Some(i) = rs.iter().position(|r| *r == x) {
            return Some(ns[i].uid);
          }
        },
        _ => {},
      }
    }
    let g = self.home.get(&t)?;
    self.w.graphs.get(g)?.dump.get(&self.w.real(x)).map(|n| n.uid)
  }

  // ------------------------------------------------------------------------------------------
  fn new_txn(&mut self) -> usize {
    let gs: Vec<usize> = self.w.graphs.keys().copied().collect();
    let t = self.h();
    let g = self.rng.pick(&gs);
    let c = match g {
      Some(g) => {
        let u = self.uuid_of_graph(g);
        // any handle of the same context
        let d = self.w.ctxs[&self.w.graphs[&g].ctx].1.dist;
        let cs: Vec<usize> = self.w.ctxs.iter().filter(|(_, k)| k.1.uuid == u && k.1.dist == d).map(|(c, _)| *c).collect();
        self.rng.pick(&cs).unwrap()
      },
      None => *self.w.ctxs.keys().next().unwrap(),
    };
    self.w.exec(&Op::NewTxn { t, c });
    if let Some(g) = g {
      self.home.insert(t, g);
    }
    t
  }
  fn new_graph(&mut self) -> usize {
    let cs: Vec<usize> = self.w.ctxs.keys().copied().collect();
    let c = self.rng.pick(&cs).unwrap();
    let g = self.h();
    self.w.exec(&Op::NewGraph { g, c });
    // a first transaction that gives it some nodes, all allocated up front
    let t = self.h();
    self.w.exec(&Op::NewTxn { t, c });
    self.home.insert(t, g);
    let n = match self.p.seedn { 0 => 0, k if k > 20 => k - self.rng.below(k / 3), k => self.rng.below(k) + 1 };
    let mut names = vec![];
    for _ in 0..n {
      let r = self.nm();
      let v = self.rng.below(self.w.meta.order.len());
      if self.rng.p(0.7) {
        let mac = self.rng.p(0.5);
        self.w.exec(&Op::Alloc { t, r, v: self.w.meta.order[v].clone(), mac });
        names.push((r, v, true));
      } else {
        self.w.exec(&Op::AllocU { t, r });
        names.push((r, v, false));
      }
      let k = self.w.meta.vm(v).links.len();
      self.sh_put(t, r, Sh { v, f: vec![vec![]; k] });
    }
    for (r, v, typed) in names {
      self.uid += 1;
      let uid = self.uid;
      // keep what other nodes already expect in the opposite fields
      let n = self.node_keep(t, r, v, uid);
      if typed {
        self.w.exec(&Op::Fill { t, id: r, n });
      } else {
        self.w.exec(&Op::FillU { t, id: r, n });
      }
    }
    self.w.exec(&Op::Commit { g, t });
    self.shadow.remove(&t);
    g
  }
  /// like node(), but direct fields whose shadow is already taken stay empty (the commit fills them)
  fn node_keep(&mut self, t: usize, x: i64, v: usize, uid: usize) -> SNode {
    self.pay += 1;
    let pay = self.pay;
    let keys: Vec<String> = self.w.meta.vm(v).links.keys().cloned().collect();
    let mut f = BTreeMap::new();
    for (l, k) in keys.iter().enumerate() {
      let held = self.sh(t, x).map_or(vec![], |s| s.f[l].clone());
      let ys = if self.w.meta.kind(v, l) == "dir" && !held.is_empty() {
        if self.rng.p(0.5) {
          held
        } else {
          vec![]
        }
      } else {
        let ys = self.field(t, x, v, l);
        if let Some(mut s) = self.sh(t, x) {
          for y in &ys {
            if !s.f[l].contains(y) {
              s.f[l].push(*y);
            }
          }
          self.sh_put(t, x, s);
        }
        ys
      };
      f.insert(k.clone(), ys);
    }
    SNode { v: self.w.meta.order[v].clone(), uid, pay, f }
  }
  fn pick_txn(&mut self) -> Option<usize> {
    let ts: Vec<usize> = self.w.txns.keys().copied().collect();
    self.rng.pick(&ts)
  }
  fn pick_graph(&mut self) -> Option<usize> {
    let gs: Vec<usize> = self.w.graphs.keys().copied().collect();
    self.rng.pick(&gs)
  }
  fn weights(&self) -> Vec<(&'static str, u64)> {
    let d: [(&'static str, u64); 27] = [
      ("newctx", 0), ("clonectx", 0), ("newgraph", 1), ("newtxn", 6), ("insert", 8), ("extend", 2), ("alloc", 4), ("allocu", 2),
      ("fill", 12), ("remove", 5), ("mutate", 10), ("update", 6), ("redir", 4), ("redirall", 4), ("merge", 0), ("giveup", 0),
      ("isempty", 0), ("commit", 12), ("commitc", 0), ("switch", 0), ("serde", 0), ("views", 0), ("reflect", 0), ("consume", 0),
      ("dropgraph", 0), ("integrity", 0), ("observe", 0),
    ];
    d.iter().map(|(k, x)| (*k, *self.p.w.get(*k).unwrap_or(x))).collect()
  }
  pub fn begin(&mut self) {
    let c = self.h();
    let how = self.rng.below(2) as u8;
    self.w.exec(&Op::NewCtx { c, how });
    self.new_graph();
  }
  fn subject(&mut self, t: usize) -> Option<i64> {
    if self.rng.p(self.p.ghost) {
      return self.anyname(t);
    }
    let pool = self.pool(t);
    self.rng.pick(&pool)
  }
  pub fn step(&mut self) {
    if self.w.graphs.is_empty() {
      self.new_graph();
      return;
    }
    let ws = self.weights();
    let total: u64 = ws.iter().map(|x| x.1).sum();
    let mut k = self.rng.next() % total;
    let mut what = "";
    for (n, x) in ws {
      if k < x {
        what = n;
        break;
      }
      k -= x;
    }
    match what {
      "newctx" => {
        if self.w.ctxs.len() < self.p.cmax {
          let c = self.h();
          let how = self.rng.below(2) as u8;
          self.w.exec(&Op::NewCtx { c, how });
        }
      },
      "clonectx" => {
        if self.w.ctxs.len() < self.p.cmax + 2 {
          let cs: Vec<usize> = self.w.ctxs.keys().copied().collect();
          let of = self.rng.pick(&cs).unwrap();
          let c = self.h();
          self.w.exec(&Op::CloneCtx { c, of });
        }
      },
      "newgraph" => {
        if self.w.graphs.len() < self.p.gmax {
          self.new_graph();
        }
      },
      "newtxn" => {
        if self.w.txns.len() < self.p.txmax {
          self.new_txn();
        }
      },
      "views" | "reflect" | "consume" | "dropgraph" | "integrity" => {
        let Some(g) = self.pick_graph() else { return };
        match what {
          "views" => self.w.exec(&Op::Views { g }),
          "reflect" => self.w.exec(&Op::Reflect { g }),
          "consume" => self.w.exec(&Op::Consume { g }),
          "dropgraph" => self.w.exec(&Op::DropGraph { g }),
          _ => self.w.exec(&Op::Integrity { g }),
        };
      },
      "observe" => {
        self.w.exec(&Op::Observe {});
      },
      "switch" => {
        let Some(g) = self.pick_graph() else { return };
        // nodes are recognised by their uid after a switch; two restored copies that were merged share them
        let uids: BTreeSet<usize> = self.w.graphs[&g].dump.values().map(|n| n.uid).collect();
        if uids.len() < self.w.graphs[&g].dump.len() {
          return;
        }
        let cs: Vec<usize> = self.w.ctxs.keys().copied().collect();
        let c = if self.rng.p(0.25) && self.w.ctxs.len() < self.p.cmax + 3 {
          let c = self.h();
          self.w.exec(&Op::NewCtx { c, how: 0 });
          // use up a few indices so that old and new indices overlap in every way
          let t = self.h();
          self.w.exec(&Op::NewTxn { t, c });
          for _ in 0..self.rng.below(4) {
            let r = self.nm();
            self.w.exec(&Op::AllocU { t, r });
          }
          self.w.exec(&Op::GiveUp { t, how: 0 });
          c
        } else {
          self.rng.pick(&cs).unwrap()
        };
        let g2 = self.h();
        let base = (g2 as i64) * 100_000;
        self.w.exec(&Op::Switch { g, c, g2, base });
      },
      "serde" => {
        let Some(g) = self.pick_graph() else { return };
        let (g2, c2) = (self.h(), self.h());
        let keep = self.rng.p(0.3) && self.w.graphs.len() < self.p.gmax;
        let mode = self.rng.below(4) as u8;
        self.w.exec(&Op::Serde { g, g2, c2, keep, mode });
      },
      _ => {
        if self.w.txns.is_empty() {
          self.new_txn();
        }
        let Some(t) = self.pick_txn() else { return };
        self.txn_op(what, t);
      },
    }
  }
  fn txn_op(&mut self, what: &str, t: usize) {
    let size = self.home.get(&t).and_then(|g| self.w.graphs.get(g)).map_or(0, |g| g.dump.len()) + self.w.txns[&t].inc.len();
    match what {
      "insert" if size < self.p.maxnodes => {
        let r = self.nm();
        let n = self.fresh_node(t, r);
        self.w.exec(&Op::Insert { t, r, n });
      },
      "extend" if size < self.p.maxnodes => {
        let k = self.rng.below(3);
        let mut rs = vec![];
        let mut ns = vec![];
        for _ in 0..k {
          let r = self.nm();
          // its index is unknown until the commit, so nothing may refer to it
          let keep = self.shadow.get(&t).cloned().unwrap_or_default();
          let n = self.fresh_node(t, r);
          self.shadow.insert(t, keep);
          rs.push(r);
          ns.push(SNode { f: n.f.iter().map(|(k, ys)| (k.clone(), ys.iter().copied().filter(|y| self.w.known(*y)).collect())).collect(), ..n });
        }
        self.w.exec(&Op::Extend { t, rs, ns });
      },
      "alloc" if size < self.p.maxnodes => {
        let r = self.nm();
        let v = self.rng.below(self.w.meta.order.len());
        let mac = self.rng.p(0.5);
        self.w.exec(&Op::Alloc { t, r, v: self.w.meta.order[v].clone(), mac });
        let k = self.w.meta.vm(v).links.len();
        self.sh_put(t, r, Sh { v, f: vec![vec![]; k] });
      },
      "allocu" if size < self.p.maxnodes => {
        let r = self.nm();
        self.w.exec(&Op::AllocU { t, r });
      },
      "fill" => {
        if self.rng.p(self.p.badfill) {
          // wrong variant, twice, never allocated, typed fill of an untyped allocation
          let Some(id) = (if self.rng.p(0.5) { self.subject(t) } else { self.anyname(t) }) else { return };
          let n = self.fresh_node(t, id);
          let v = self.w.meta.vi(&n.v);
          match self.w.txns[&t].alloc.get(&id) {
            Some(Some(w)) if *w != v => self.w.exec(&Op::Fill { t, id, n }),
            _ if self.rng.p(0.5) => self.w.exec(&Op::FillU { t, id, n }),
            _ => self.w.exec(&Op::Fill { t, id, n }),
          };
          return;
        }
        let al: Vec<(i64, Option<usize>)> = self.w.txns[&t].alloc.iter().map(|(a, b)| (*a, *b)).collect();
        if let Some((id, v)) = self.rng.pick(&al) {
          self.fill(t, id, v);
        }
      },
      "remove" => {
        if let Some(id) = self.subject(t) {
          self.w.exec(&Op::Remove { t, id });
          self.shadow.entry(t).or_default().remove(&id);
        }
      },
      "mutate" | "update" => {
        let Some(id) = self.subject(t) else { return };
        let Some(v) = self.variant_of(t, id) else { return };
        let mut want = String::new();
        let mut style = self.rng.below(3) as u8;
        let uid = self.uid_of(t, id);
        let es = if self.rng.p(self.p.becomes) && uid.is_some() {
          let w = self.rng.below(self.w.meta.order.len());
          if let Some(s) = self.sh(t, id) {
            for (l, ys) in s.f.iter().enumerate() {
              let ys = ys.clone();
              self.unlink(t, id, s.v, l, &ys);
            }
          }
          vec![SEdit::Become { n: self.node(t, id, w, uid.unwrap()) }]
        } else {
          want = self.w.meta.order[v].clone();
          if !self.rng.p(self.p.typed) {
            style = 9;
          }
          self.edits(t, id, v)
        };
        if !want.is_empty() && self.rng.p(self.p.wrongwant) {
          // written for another variant: only edits that exist there
          let w = self.rng.below(self.w.meta.order.len());
          want = self.w.meta.order[w].clone();
          self.pay += 1;
          let es = vec![SEdit::Data { d: self.pay }];
          let op = if what == "mutate" { Op::Mutate { t, id, es, want, style } } else { Op::Update { t, id, es, want, style } };
          self.w.exec(&op);
          return;
        }
        let op = if what == "mutate" { Op::Mutate { t, id, es, want, style } } else { Op::Update { t, id, es, want, style } };
        self.w.exec(&op);
      },
      "redir" | "redirall" if self.rng.p(self.p.chain) => self.chain(t, what == "redirall"),
      "redir" | "redirall" => {
        let Some(a) = self.subject(t) else { return };
        let all = what == "redirall";
        if a == 0 || self.w.txns[&t].olds[all as usize].contains(&a) {
          return;
        }
        let b = if self.rng.p(0.12) {
          0
        } else {
          let va = self.variant_of(t, a);
          let mut b = self.subject(t).unwrap_or(0);
          if self.rng.p(self.p.careful) {
            for _ in 0..5 {
              if b != 0 && b != a && self.variant_of(t, b) == va {
                break;
              }
              b = self.subject(t).unwrap_or(0);
            }
          }
          if b == a && self.rng.p(0.9) {
            return;
          }
          b
        };
        self.w.exec(&if all { Op::RedirAll { t, a, b } } else { Op::Redir { t, a, b } });
      },
      "merge" => {
        let home = self.home.get(&t).copied();
        let u = self.uuid_of_txn(t);
        let foreign = self.rng.p(self.p.foreign);
        let gs: Vec<usize> =
          self.w.graphs.keys().copied().filter(|g| Some(*g) != home && ((self.uuid_of_graph(*g) == u) != foreign)).collect();
        if let Some(g) = self.rng.pick(&gs) {
          let dump = self.w.graphs[&g].dump.clone();
          self.w.exec(&Op::Merge { t, g });
          if let Some(h) = home {
            let _ = h;
          }
          for (i, n) in dump {
            if let Some(name) = self.w.name_of(i, u) {
              let f = n.f.iter().map(|ps| ps.iter().map(|(_, y)| self.w.name_of(*y, u).unwrap_or(0)).collect()).collect();
              self.sh_put(t, name, Sh { v: n.v, f });
            }
          }
        }
      },
      "giveup" => {
        let how = self.rng.below(2) as u8;
        self.w.exec(&Op::GiveUp { t, how });
        self.shadow.remove(&t);
      },
      "isempty" => {
        self.w.exec(&Op::IsEmpty { t });
      },
      "commit" | "commitc" => self.finish(t, what == "commitc"),
      _ => {},
    }
  }
  /// a chain or a star of redirections over nodes of one variant, requested in any order
  fn chain(&mut self, t: usize, all: bool) {
    let Some(first) = self.subject(t) else { return };
    let va = self.variant_of(t, first);
    let mut pool = self.pool(t);
    let mut xs = vec![];
    while !pool.is_empty() && xs.len() < 24 {
      let k = self.rng.below(pool.len());
      let x = pool.swap_remove(k);
      if self.variant_of(t, x) == va && !self.w.txns[&t].olds[all as usize].contains(&x) {
        xs.push(x);
      }
    }
    if xs.len() < 2 {
      return;
    }
    let star = self.rng.p(0.3);
    let n = xs.len();
    let mut pairs: Vec<(i64, i64)> = (0..n - 1).map(|i| (xs[i], if star { xs[n - 1] } else { xs[i + 1] })).collect();
    if self.rng.p(0.15) {
      pairs.push((xs[n - 1], 0));
    }
    match self.rng.below(3) {
      0 => {},
      1 => pairs.reverse(),
      _ => {
        for i in (1..pairs.len()).rev() {
          let j = self.rng.below(i + 1);
          pairs.swap(i, j);
        }
      },
    }
    for (a, b) in pairs {
      self.w.exec(&if all { Op::RedirAll { t, a, b } } else { Op::Redir { t, a, b } });
    }
  }
  fn fill(&mut self, t: usize, id: i64, v: Option<usize>) {
    self.uid += 1;
    let uid = self.uid;
    match v {
      Some(v) => {
        let n = self.node_keep(t, id, v, uid);
        if self.rng.p(0.85) {
          self.w.exec(&Op::Fill { t, id, n });
        } else {
          self.w.exec(&Op::FillU { t, id, n });
        }
      },
      None => {
        let v = self.rng.below(self.w.meta.order.len());
        let k = self.w.meta.vm(v).links.len();
        self.sh_put(t, id, Sh { v, f: vec![vec![]; k] });
        let n = self.node_keep(t, id, v, uid);
        self.w.exec(&Op::FillU { t, id, n });
      },
    }
  }
  fn finish(&mut self, t: usize, checked: bool) {
    let u = self.uuid_of_txn(t);
    if !self.rng.p(self.p.unfilled) {
      loop {
        let Some((id, v)) = self.w.txns.get(&t).and_then(|x| x.alloc.iter().map(|(a, b)| (*a, *b)).next()) else { break };
        if self.rng.p(0.15) {
          self.w.exec(&Op::Remove { t, id });
        } else {
          self.fill(t, id, v);
        }
      }
    }
    if !self.w.txns.contains_key(&t) {
      return;
    }
    let home = self.home.get(&t).copied().filter(|g| self.w.graphs.contains_key(g));
    let same: Vec<usize> = self.w.graphs.keys().copied().filter(|g| self.uuid_of_graph(*g) == u).collect();
    let other: Vec<usize> = self.w.graphs.keys().copied().filter(|g| self.uuid_of_graph(*g) != u).collect();
    let g = if self.rng.p(self.p.foreign) && !other.is_empty() {
      self.rng.pick(&other)
    } else if home.is_some() && same.contains(&home.unwrap()) && self.rng.p(0.97) {
      home
    } else {
      self.rng.pick(&same)
    };
    let Some(g) = g else {
      self.w.exec(&Op::GiveUp { t, how: 0 });
      return;
    };
    if checked {
      let mut fail = vec![];
      if self.rng.p(self.p.fail) {
        let pool = self.pool(t);
        let k = ["n", "a", "r"][self.rng.below(3)].to_string();
        if let Some(x) = self.rng.pick(&pool) {
          let y = if k == "n" { 0 } else { self.rng.pick(&pool).unwrap_or(0) };
          fail.push(FailOn { k, x, y });
        }
      }
      self.w.exec(&Op::CommitC { g, t, fail });
    } else {
      self.w.exec(&Op::Commit { g, t });
    }
    self.shadow.remove(&t);
    // other shadows of this graph are out of date
    let stale: Vec<usize> = self.home.iter().filter(|(_, h)| **h == g).map(|(x, _)| *x).collect();
    for x in stale {
      if let Some(m) = self.shadow.get_mut(&x) {
        let own: BTreeSet<i64> = self.w.txns.get(&x).map_or(BTreeSet::new(), |y| y.inc.keys().copied().chain(y.alloc.keys().copied()).collect());
        m.retain(|k, _| own.contains(k));
      }
    }
  }
  /// Afterwards every node of every graph is removed or redirected, one commit each: link tracking must have been exact
  fn probe(&mut self) {
    let gs: Vec<usize> = self.w.graphs.keys().copied().collect();
    for g in gs {
      loop {
        let live = self.live(g);
        let Some(x) = self.rng.pick(&live) else { break };
        let c = self.w.graphs[&g].ctx;
        let t = self.h();
        self.w.exec(&Op::NewTxn { t, c });
        match self.rng.below(4) {
          0 => {
            let b = self.rng.pick(&live).unwrap();
            if b != x {
              self.w.exec(&Op::Redir { t, a: x, b });
            }
          },
          1 => {
            let b = self.rng.pick(&live).unwrap();
            if b != x {
              self.w.exec(&Op::RedirAll { t, a: x, b });
            }
          },
          _ => {},
        }
        self.w.exec(&Op::Remove { t, id: x });
        self.w.exec(&Op::Commit { g, t });
        if !self.w.graphs.contains_key(&g) {
          break;
        }
      }
      // names that are not in the graph (any more): a redirection of those reaches dangling links
      if let Some(gs) = self.w.graphs.get(&g) {
        let c = gs.ctx;
        let u = self.uuid_of_graph(g);
        let dead: Vec<i64> = self.w.names.keys().filter(|n| self.w.name_uuid[*n] == u).copied().collect();
        if let Some(a) = self.rng.pick(&dead) {
          let t = self.h();
          self.w.exec(&Op::NewTxn { t, c });
          self.w.exec(&Op::RedirAll { t, a, b: 0 });
          self.w.exec(&Op::Commit { g, t });
        }
      }
    }
  }
  pub fn run(&mut self) {
    self.begin();
    let n = self.p.len.0 + self.rng.below(self.p.len.1 - self.p.len.0 + 1);
    for _ in 0..n {
      self.step();
      if self.w.log.last().map_or(false, |e| e["e"] == "Broken") {
        return;
      }
    }
    self.w.exec(&Op::Observe {});
    if self.p.probe {
      self.probe();
    }
  }
  pub fn reserve(&mut self, k: usize) {
    // disjoint handles, names and uids for thread k
    self.next = k * 10_000;
    self.name = (k as i64) * 1_000_000_000_000;
    self.uid = k * 1_000_000;
  }
  pub fn ctx_for_thread(&mut self, ctx: Context, key: CtxKey, c: usize) {
    self.w.ctxs.insert(c, (ctx, key));
  }
  pub fn handle(&mut self) -> usize {
    self.h()
  }
}

/// Threads build graphs on clones of one context; the main thread merges them afterwards.
pub fn run_threads<S: Sch>(seed: u64, p: &Profile) -> (Vec<Value>, Vec<Op>, BTreeMap<&'static str, u64>)
where
  Graph<S::N>: Send,
{
  let mut main = Driver::<S>::new(seed, p.clone());
  main.begin();
  let (c0, ctx, key) = {
    let (c, x) = main.w.ctxs.iter().next().unwrap();
    (*c, x.0.clone(), x.1)
  };
  let mut handles = vec![];
  let barrier = std::sync::Arc::new(std::sync::Barrier::new(p.threads));
  for k in 1..=p.threads {
    let c = k * 10_000 + 9_999;
    main.w.exec(&Op::CloneCtx { c, of: c0 });
    let ctx = ctx.clone();
    let p = p.clone();
    let barrier = barrier.clone();
    handles.push(std::thread::spawn(move || {
      let mut q = p.clone();
      q.w.insert("switch".into(), 0);
      q.w.insert("serde".into(), 0);
      let mut d = Driver::<S>::new(seed.wrapping_add(k as u64 * 7919), q);
      d.reserve(k);
      d.ctx_for_thread(ctx, key, c);
      barrier.wait();
      let n = d.p.len.0 + d.rng.below(d.p.len.1 - d.p.len.0 + 1);
      for _ in 0..n {
        d.step();
      }
      d.w.txns.clear();
      let w = d.w;
      // transactions hold closures and stay in their thread
      let graphs: Vec<(usize, usize, BTreeMap<usize, PNode>, Graph<S::N>)> =
        w.graphs.into_iter().map(|(g, s)| (g, s.ctx, s.dump, s.g)).collect();
      (w.log, w.ops, w.names, w.name_uuid, graphs, w.stats)
    }));
  }
  for h in handles {
    let (log, ops, names, nu, graphs, stats) = h.join().unwrap();
    let base = main.w.log.len();
    let _ = base;
    main.w.log.extend(log);
    main.w.ops.extend(ops);
    main.w.names.extend(names);
    main.w.name_uuid.extend(nu);
    for (g, c, dump, gr) in graphs {
      main.w.ctxs.entry(c).or_insert((ctx.clone(), key));
      main.w.graphs.insert(g, GraphS { g: gr, ctx: c, dump });
    }
    for (k, v) in stats {
      *main.w.stats.entry(k).or_default() += v;
    }
  }
  // merge everything into the first graph, keep working on it
  let gs: Vec<usize> = main.w.graphs.keys().copied().collect();
  let home = gs[0];
  let t = main.handle();
  let c = main.w.graphs[&home].ctx;
  main.w.exec(&Op::NewTxn { t, c });
  for g in &gs[1..] {
    main.w.exec(&Op::Merge { t, g: *g });
  }
  main.w.exec(&Op::Commit { g: home, t });
  main.p.maxnodes = 40;
  for _ in 0..12 {
    main.step();
  }
  main.w.exec(&Op::Observe {});
  (main.w.log, main.w.ops, main.w.stats)
}

/// Many threads draw indices from one context as fast as they can
pub fn run_batch<S: Sch>(seed: u64, p: &Profile) -> Vec<Value> {
  let mut log = vec![serde_json::json!({"e": "NewCtx", "c": 1})];
  let ctx = Context::new();
  let n = p.threads.max(2);
  let barrier = std::sync::Arc::new(std::sync::Barrier::new(n));
  let per = p.batch;
  let hs: Vec<_> = (0..n)
    .map(|k| {
      let ctx = ctx.clone();
      let barrier = barrier.clone();
      std::thread::spawn(move || {
        let mut rng = Rng::new(seed + k as u64);
        let nv = Meta::new(S::text()).order.len();
        let nl: Vec<usize> = (0..nv).map(|v| Meta::new(S::text()).vm(v).links.len()).collect();
        barrier.wait();
        let mut ids: Vec<usize> = vec![];
        while ids.len() < per {
          let mut t = Txn::<S>::new(&ctx);
          let mut seen = vec![];
          for _ in 0..rng.below(200) {
            match rng.below(3) {
              0 => {
                let v = rng.below(nv);
                seen.push(t.insert(S::build(v, 1, 1, &vec![vec![]; nl[v]])).0)
              },
              1 => seen.push(t.alloc_untyped().0),
              _ => seen.push(t.alloc(S::disc(rng.below(nv))).0),
            }
          }
          ids.extend(seen);
          if rng.p(0.3) {
            // extended nodes only show their index in a graph
            let mut t = Txn::<S>::new(&ctx);
            let mut g = Graph::<S::N>::new(&ctx);
            t.extend((0..5).map(|i| S::build(0, i, 1, &vec![vec![]; nl[0]])));
            g.commit(t);
            ids.extend(g.iter().map(|x| x.0 .0));
          }
        }
        ids
      })
    })
    .collect();
  for h in hs {
    match h.join() {
      Ok(ids) => log.push(serde_json::json!({"e": "Batch", "c": 1, "ids": ids})),
      Err(_) => log.push(serde_json::json!({"e": "Broken", "what": "Batch"})),
    }
  }
  log
}
