//! What the generated schema modules need, and the trait through which the world drives them.
pub use indexmap::IndexSet;
pub use ordermap::OrderSet;
pub use serde::{de::DeserializeOwned, Deserialize, Serialize};
pub use std::collections::{BTreeMap, BTreeSet, HashSet};
pub use ttgraph::*;
pub use std::{collections, vec};
pub use {::indexmap, ::ordermap};

/// the other names under which the macros know the collections
pub mod map {
  pub use indexmap::IndexSet;
  pub use ordermap::OrderSet;
}
pub mod tgraph {
  pub use ordermap;
}

use serde_json::{json, Value};

/// Projection of a node: per link field the (slot, index) pairs of the specification.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PNode {
  pub v: usize,
  pub uid: usize,
  pub pay: i64,
  pub f: Vec<Vec<(usize, usize)>>,
}

/// An edit with real indices
#[derive(Clone, Debug)]
pub enum REdit {
  /// the closure with this number runs
  Mark(usize),
  Put(usize, Vec<usize>),
  Ins(usize, usize),
  Rem(usize, usize),
  Data(i64),
  Become(usize, usize, i64, Vec<Vec<usize>>),
}

thread_local! {
  /// closures that ran during the current call
  pub static RAN: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(vec![]) };
}
pub fn mark(k: usize) {
  RAN.with(|r| r.borrow_mut().push(k));
}

pub trait LinkField: Sized {
  fn make(ys: &[usize]) -> Self;
  fn pairs(&self) -> Vec<(usize, usize)>;
  fn put(&mut self, ys: &[usize]) {
    *self = Self::make(ys);
  }
  fn ins(&mut self, y: usize);
  fn rem(&mut self, y: usize);
}
pub fn mk<T: LinkField>(ys: &[usize]) -> T {
  T::make(ys)
}
impl LinkField for NodeIndex {
  fn make(ys: &[usize]) -> Self {
    ys.first().map_or(NodeIndex::empty(), |y| NodeIndex(*y))
  }
  fn pairs(&self) -> Vec<(usize, usize)> {
    if self.is_empty() {
      vec![]
    } else {
      vec![(0, self.0)]
    }
  }
  fn ins(&mut self, y: usize) {
    *self = NodeIndex(y);
  }
  fn rem(&mut self, y: usize) {
    if self.0 == y {
      *self = NodeIndex::empty();
    }
  }
}
impl LinkField for Vec<NodeIndex> {
  fn make(ys: &[usize]) -> Self {
    ys.iter().map(|y| NodeIndex(*y)).collect()
  }
  fn pairs(&self) -> Vec<(usize, usize)> {
    self.iter().enumerate().map(|(i, y)| (i + 1, y.0)).collect()
  }
  fn ins(&mut self, y: usize) {
    self.push(NodeIndex(y));
  }
  fn rem(&mut self, _: usize) {}
}
macro_rules! set_field {
  ($t:ty, $rem:ident) => {
    impl LinkField for $t {
      fn make(ys: &[usize]) -> Self {
        ys.iter().filter(|y| **y != 0).map(|y| NodeIndex(*y)).collect()
      }
      fn pairs(&self) -> Vec<(usize, usize)> {
        // sorted, so that a history depends on its seed only
        let mut r: Vec<(usize, usize)> = self.iter().map(|y| (0, y.0)).collect();
        r.sort();
        r
      }
      fn ins(&mut self, y: usize) {
        self.insert(NodeIndex(y));
      }
      fn rem(&mut self, y: usize) {
        self.$rem(&NodeIndex(y));
      }
    }
  };
}
set_field!(HashSet<NodeIndex>, remove);
set_field!(BTreeSet<NodeIndex>, remove);
set_field!(OrderSet<NodeIndex>, swap_remove);
set_field!(IndexSet<NodeIndex>, swap_remove);

pub type Txn<S> = Transaction<'static, <S as Sch>::N>;

/// What a node says about one link, asked by its mirror: targets and membership, typed and through the enum
pub struct Mirrored {
  pub it: Vec<usize>,
  pub ite: Vec<usize>,
  pub has: Vec<usize>,
  pub hase: Vec<usize>,
  pub fits: bool,
}

pub trait Sch: Sized + 'static {
  type N: NodeEnum + Serialize + DeserializeOwned + Clone + Send + 'static;
  fn text() -> &'static str;
  fn build(v: usize, uid: usize, pay: i64, f: &[Vec<usize>]) -> Self::N;
  fn dump(n: &Self::N) -> PNode;
  fn edit(n: &mut Self::N, e: &REdit);
  fn disc(v: usize) -> <Self::N as NodeEnum>::Discriminant;
  fn alloc_mac(t: &mut Txn<Self>, v: usize) -> NodeIndex;
  fn get_mac(g: &Graph<Self::N>, v: usize, i: NodeIndex) -> Option<PNode>;
  fn iter_mac(g: &Graph<Self::N>, v: usize) -> (usize, Vec<(usize, PNode)>);
  fn mut_mac(t: &mut Txn<Self>, v: usize, i: NodeIndex, style: u8, es: &'static [REdit]);
  fn upd_mac(t: &mut Txn<Self>, v: usize, i: NodeIndex, style: u8, es: &'static [REdit]);
  fn statics(v: usize) -> (Vec<&'static str>, Vec<LinkType>, Vec<&'static str>);
  fn mirrors(n: &Self::N, probe: &[usize]) -> Vec<Mirrored>;
  /// mirrors of other variants that the node takes for its own
  fn misfits(n: &Self::N) -> usize;
  fn log_by_name(v: usize, name: &'static str) -> Option<Vec<&'static str>>;
  fn typed_reflect(n: &Self::N, name: &'static str, grp: &'static str) -> (Vec<NodeIndex>, Vec<NodeIndex>);
}

// ---------------------------------------------------------------------------------------------
// Schema metadata, read from the same file the specification reads

#[derive(Deserialize, Clone, Debug)]
pub struct LinkMeta {
  pub k: String,
  pub groups: Vec<String>,
}
#[derive(Deserialize, Clone, Debug)]
pub struct VarMeta {
  pub links: indexmap::IndexMap<String, LinkMeta>,
  pub phantom: Vec<String>,
}
#[derive(Deserialize, Clone, Debug)]
pub struct Meta {
  pub order: Vec<String>,
  pub variants: indexmap::IndexMap<String, VarMeta>,
  pub vgroups: indexmap::IndexMap<String, Vec<String>>,
  pub bidi: Vec<Vec<String>>,
  pub ltypes: Vec<(String, String, Vec<String>)>,
  #[serde(skip)]
  pub opp: Vec<Vec<Vec<Vec<usize>>>>,
  #[serde(skip)]
  pub allow: Vec<Vec<Vec<bool>>>,
}
impl Meta {
  /// `opp` and `allow` only steer the random driver; the specification has its own tables.
  pub fn new(text: &str) -> Meta {
    let mut m: Meta = serde_json::from_str(text).unwrap();
    let n = m.order.len();
    let exp_v = |m: &Meta, x: &str| -> Vec<usize> {
      match m.vgroups.get(x) {
        Some(ms) => ms.iter().map(|y| m.vi(y)).collect(),
        None => vec![m.vi(x)],
      }
    };
    let exp_l = |m: &Meta, v: usize, x: &str| -> Vec<usize> {
      let vm = m.vm(v);
      if let Some(i) = vm.links.get_index_of(x) {
        return vec![i];
      }
      vm.links.values().enumerate().filter(|(_, l)| l.groups.iter().any(|g| g == x)).map(|(i, _)| i).collect()
    };
    let mut opp: Vec<Vec<Vec<Vec<usize>>>> = (0..n).map(|v| vec![vec![vec![]; n]; m.vm(v).links.len()]).collect();
    for b in &m.bidi {
      for v1 in exp_v(&m, &b[0]) {
        for v2 in exp_v(&m, &b[2]) {
          for l1 in exp_l(&m, v1, &b[1]) {
            for l2 in exp_l(&m, v2, &b[3]) {
              if !opp[v1][l1][v2].contains(&l2) {
                opp[v1][l1][v2].push(l2);
              }
              if !opp[v2][l2][v1].contains(&l1) {
                opp[v2][l2][v1].push(l1);
              }
            }
          }
        }
      }
    }
    let mut allow: Vec<Vec<Vec<bool>>> = (0..n).map(|v| vec![vec![true; n]; m.vm(v).links.len()]).collect();
    for (v, l, ts) in &m.ltypes {
      let ok: Vec<usize> = ts.iter().flat_map(|t| exp_v(&m, t)).collect();
      for v1 in exp_v(&m, v) {
        for l1 in exp_l(&m, v1, l) {
          for w in 0..n {
            if !ok.contains(&w) {
              allow[v1][l1][w] = false;
            }
          }
        }
      }
    }
    m.opp = opp;
    m.allow = allow;
    m
  }
  pub fn vi(&self, v: &str) -> usize {
    self.order.iter().position(|x| x == v).unwrap_or_else(|| panic!("variant {}", v))
  }
  pub fn vm(&self, v: usize) -> &VarMeta {
    &self.variants[&self.order[v]]
  }
  pub fn li(&self, v: usize, l: &str) -> usize {
    self.vm(v).links.get_index_of(l).unwrap()
  }
  pub fn kind(&self, v: usize, l: usize) -> &str {
    &self.vm(v).links[l].k
  }
  pub fn to_json(&self, n: &PNode) -> Value {
    let mut f = serde_json::Map::new();
    for (i, l) in self.vm(n.v).links.keys().enumerate() {
      let mut ps = n.f[i].clone();
      ps.sort();
      f.insert(l.clone(), json!(ps));
    }
    json!({"v": self.order[n.v], "d": [n.uid, n.pay], "f": f})
  }
  pub fn link_groups(&self) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    for v in self.variants.values() {
      r.extend(v.phantom.iter().cloned());
      for l in v.links.values() {
        r.extend(l.groups.iter().cloned());
      }
    }
    r
  }
  pub fn link_names(&self) -> BTreeSet<String> {
    self.variants.values().flat_map(|v| v.links.keys().cloned()).collect()
  }
}
