//! What accepted declarations do: x.l is set to y, then cleared again, for every link and every pair of variants.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use ttgraph::*;

#[derive(TypedNode, Default)]
pub struct AData {
  #[group(g, h)]
  pub one: NodeIndex,
  pub pay: i64,
  #[group(g)]
  pub many: HashSet<NodeIndex>,
}
#[derive(TypedNode, Default)]
pub struct BData {
  #[group(g)]
  pub one: NodeIndex,
  #[group(h)]
  pub two: HashSet<NodeIndex>,
  pub pay: i64,
  #[group(k)]
  pub seq: Vec<NodeIndex>,
}
#[derive(TypedNode, Default)]
#[phantom_group(g, h)]
pub struct CData {
  pub pay: i64,
}

pub trait Fields {
  fn put(&mut self, l: &str, y: Option<NodeIndex>);
  fn dump(&self) -> Vec<(&'static str, Vec<usize>)>;
}
fn sorted<'a>(i: impl Iterator<Item = &'a NodeIndex>) -> Vec<usize> {
  let mut v: Vec<usize> = i.map(|x| x.0).collect();
  v.sort();
  v
}
fn direct(i: NodeIndex) -> Vec<usize> {
  if i.is_empty() { vec![] } else { vec![i.0] }
}
macro_rules! node_fields {
  ($t:ty $(, $l:ident $k:ident)*) => {
    impl Fields for $t {
      fn put(&mut self, l: &str, y: Option<NodeIndex>) {
        match l {
          $(stringify!($l) => node_fields!(put $k self.$l, y),)*
          _ => {}
        }
      }
      fn dump(&self) -> Vec<(&'static str, Vec<usize>)> {
        vec![$((stringify!($l), node_fields!(dump $k self.$l))),*]
      }
    }
  };
  (put direct $x:expr, $y:expr) => { $x = $y.unwrap_or(NodeIndex::empty()) };
  (put $k:ident $x:expr, $y:expr) => { $x = $y.into_iter().collect() };
  (dump direct $x:expr) => { direct($x) };
  (dump $k:ident $x:expr) => { sorted($x.iter()) };
}
node_fields!(AData, one direct, many set);
node_fields!(BData, one direct, two set, seq vec);
node_fields!(CData);
pub trait Kit: NodeEnum + Sized + 'static {
  fn mk(v: &str) -> Self;
  fn fields(&self) -> &dyn Fields;
  fn fields_mut(&mut self) -> &mut dyn Fields;
  fn links() -> Vec<(&'static str, &'static [&'static str])> {
    LINKS.to_vec()
  }
}
pub const LINKS: [(&str, &[&str]); 3] = [("A", &["one", "many"]), ("B", &["one", "two", "seq"]), ("C", &[])];

/// "panic", or the fields that hold a link apart from the one that was set
fn try_link<N: Kit>(v: &str, l: &'static str, w: &str, own: bool) -> String {
  let ctx = Context::new();
  let mut g = Graph::<N>::new(&ctx);
  let mut t = Transaction::new(&ctx);
  let x = t.insert(N::mk(v));
  let y = if own { x } else { t.insert(N::mk(w)) };
  g.commit(t);
  let set = |g: &mut Graph<N>, to: Option<NodeIndex>| {
    let mut t = Transaction::new(&ctx);
    t.mutate(x, move |n: &mut N| n.fields_mut().put(l, to));
    catch_unwind(AssertUnwindSafe(|| g.commit(t))).is_ok()
  };
  if !set(&mut g, Some(y)) {
    return "panic".into();
  }
  let mut r = vec![];
  for (name, ys) in g.get(x).unwrap().fields().dump() {
    if name == l {
      if ys != [y.0] {
        return format!("lost {ys:?}");
      }
    } else if !ys.is_empty() {
      // a link of x to itself is the opposite; anything else must not be there
      if own && ys == [x.0] { r.push(name.to_string()) } else { return format!("stray {name}") }
    }
  }
  if !own {
    for (name, ys) in g.get(y).unwrap().fields().dump() {
      if ys == [x.0] { r.push(name.to_string()) } else if !ys.is_empty() { return format!("stray {name}") }
    }
  }
  if !set(&mut g, None) {
    return "clearing panics".into();
  }
  for i in [x, y] {
    if g.get(i).unwrap().fields().dump().iter().any(|f| !f.1.is_empty()) {
      return format!("{} not cleared", r.join(","));
    }
  }
  r.sort();
  r.join(",")
}
pub fn probe<N: Kit>(k: usize) {
  for (v, ls) in N::links() {
    for l in ls {
      for (w, _) in N::links() {
        println!("{k} {v} {l} {w} other:{}", try_link::<N>(v, l, w, false));
        if v == w {
          println!("{k} {v} {l} {w} self:{}", try_link::<N>(v, l, w, true));
        }
      }
    }
  }
}
