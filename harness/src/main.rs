mod driver;
mod gen;
mod prelude;
mod world;
use driver::*;
use prelude::*;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use world::*;

fn arg(name: &str) -> Option<String> {
  let a: Vec<String> = std::env::args().collect();
  a.iter().position(|x| x == name).map(|i| a[i + 1].clone())
}
fn need(name: &str) -> String {
  arg(name).unwrap_or_else(|| panic!("missing {}", name))
}

/// An operation that does not come back is reported as such: the current history ends with a Hang event.
static CUR: std::sync::Mutex<Option<(String, String)>> = std::sync::Mutex::new(None);
fn watchdog() {
  std::thread::spawn(|| loop {
    std::thread::sleep(std::time::Duration::from_millis(500));
    let b = BUSY.load(std::sync::atomic::Ordering::Relaxed);
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64;
    if b != 0 && now > b + 60_000 {
      if let Some((out, what)) = CUR.lock().unwrap().clone() {
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(&out).unwrap();
        writeln!(f, "{}", json!({"evs": [{"e": "Hang"}], "what": what})).unwrap();
      }
      std::process::exit(3);
    }
  });
}

fn record<S: Sch>()
where
  Graph<S::N>: Send,
{
  let seed: u64 = need("--seed").parse().unwrap();
  let count: u64 = need("--count").parse().unwrap();
  let p: Profile = serde_json::from_str(&std::fs::read_to_string(need("--profile")).unwrap()).unwrap();
  let out = need("--out");
  let mut f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
  let mut fo = std::io::BufWriter::new(std::fs::File::create(need("--ops")).unwrap());
  let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
  let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
  let cur = arg("--cur");
  for k in 0..count {
    let s = seed.wrapping_mul(1_000_003).wrapping_add(k);
    *CUR.lock().unwrap() = Some((out.clone(), format!("seed {} history {}", seed, k)));
    if let Some(c) = &cur {
      std::fs::write(c, format!("{}", s)).unwrap();
    }
    let (mut log, ops, st, cut) = if p.batch > 0 {
      match std::panic::catch_unwind(|| run_batch::<S>(s, &p)) {
        Ok(log) => (log, vec![], BTreeMap::new(), false),
        Err(_) => (vec![], vec![], BTreeMap::new(), true),
      }
    } else if p.threads > 0 {
      match std::panic::catch_unwind(|| run_threads::<S>(s, &p)) {
        Ok((log, ops, st)) => (log, ops, st, false),
        Err(_) => (vec![], vec![], BTreeMap::new(), true),
      }
    } else {
      let mut d = Driver::<S>::new(s, p.clone());
      let cut = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.run())).is_err();
      (std::mem::take(&mut d.w.log), std::mem::take(&mut d.w.ops), std::mem::take(&mut d.w.stats), cut)
    };
    if cut {
      log.push(json!({"e": "Cut"}));
    }
    for e in &log {
      *kinds.entry(e["e"].as_str().unwrap().to_string()).or_default() += 1;
    }
    for (a, b) in st {
      *stats.entry(a).or_default() += b;
    }
    writeln!(f, "{}", json!({"evs": log})).unwrap();
    writeln!(fo, "{}", serde_json::to_string(&ops).unwrap()).unwrap();
  }
  f.flush().unwrap();
  fo.flush().unwrap();
  println!("{}", json!({"histories": count, "kinds": kinds, "stats": stats}));
}

/// Executes recorded operations again (after a violation, or in another build)
fn replay<S: Sch>() {
  let mut f = std::io::BufWriter::new(std::fs::File::create(need("--out")).unwrap());
  let inp = std::io::BufReader::new(std::fs::File::open(need("--in")).unwrap());
  for line in inp.lines() {
    let line = line.unwrap();
    let ops: Vec<Op> = serde_json::from_str(&line).unwrap();
    let mut w = World::<S>::new();
    for op in &ops {
      // what an earlier deviation took away cannot be used any more
      let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.exec(op)));
      if r.is_err() {
        break;
      }
    }
    writeln!(f, "{}", json!({"evs": w.log})).unwrap();
  }
  f.flush().unwrap();
}

/// Behaviours of the specification: operations, and after each the outcome the specification expects.
/// The observed log is translated back to names and compared.
fn behaviours<S: Sch>() {
  let inp = std::io::BufReader::new(std::fs::File::open(need("--in")).unwrap());
  let (mut n, mut steps, mut nbad) = (0u64, 0u64, 0u64);
  let bad = need("--bad");
  let cur = arg("--cur");
  // --part k/n: every n-th behaviour, so that several processes can share one file
  let part: Vec<u64> = arg("--part").unwrap_or("0/1".into()).split('/').map(|x| x.parse().unwrap()).collect();
  let mut seen = 0u64;
  for line in inp.lines() {
    let line = line.unwrap();
    // TLC prints a behaviour as a quoted string; everything else it prints is not ours
    let line: String = if line.starts_with("\"{") {
      serde_json::from_str(&line).unwrap()
    } else if line.starts_with('{') {
      line
    } else {
      continue;
    };
    seen += 1;
    if seen % part[1] != part[0] {
      continue;
    }
    let b: Value = serde_json::from_str(&line).unwrap();
    n += 1;
    if let Some(c) = &cur {
      std::fs::write(c, &line).unwrap();
    }
    *CUR.lock().unwrap() = Some((bad.clone(), line.clone()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one::<S>(&b, &mut steps)));
    let why = match r {
      Ok(Ok(())) => continue,
      Ok(Err(e)) => e,
      Err(_) => "the behaviour could not be executed to its end".to_string(),
    };
    nbad += 1;
    if nbad <= 20 {
      let mut f = std::fs::OpenOptions::new().append(true).create(true).open(&bad).unwrap();
      writeln!(f, "{}", json!({"why": why, "behaviour": b})).unwrap();
    }
  }
  println!("{}", json!({"behaviours": n, "steps": steps, "bad": nbad}));
}
fn one<S: Sch>(b: &Value, steps: &mut u64) -> Result<(), String> {
  let mut w = World::<S>::new();
  for s in b["steps"].as_array().unwrap() {
    *steps += 1;
    let op: Op = serde_json::from_value(s["op"].clone()).map_err(|e| format!("{} in {}", e, s["op"]))?;
    let ok = w.exec(&op);
    let last = w.log.last().unwrap();
    if last["e"] == "Broken" {
      return Err(format!("{} panicked", last["what"]));
    }
    let want = s["res"].as_str().unwrap();
    if (want == "ok") != ok {
      return Err(format!("step {}: expected {}, the call {}", s["op"], want, if ok { "succeeded" } else { "panicked" }));
    }
    if let Some(x) = s.get("val") {
      if *x != last["b"] {
        return Err(format!("step {}: expected {}, got {}", s["op"], x, last["b"]));
      }
    }
    if let Some(gs) = s.get("graphs") {
      // [[g, [[name, node], ...]], ...]: every live graph
      let gs = gs.as_array().unwrap();
      if gs.len() != w.graphs.len() {
        return Err(format!("step {}: {} graphs expected, {} there", s["op"], gs.len(), w.graphs.len()));
      }
      for x in gs {
        let g = x[0].as_u64().unwrap() as usize;
        let Some(gr) = w.graphs.get(&g) else { return Err(format!("graph {} is missing", g)) };
        let d = World::<S>::dump_graph(&gr.g);
        let mut exp: Vec<(usize, Value)> = vec![];
        for n in x[1].as_array().unwrap() {
          let name = n[0].as_i64().unwrap();
          let mut node = n[1].clone();
          for (_, ps) in node["f"].as_object_mut().into_iter().flatten() {
            let mut v: Vec<(u64, usize)> =
              ps.as_array().unwrap().iter().map(|p| (p[0].as_u64().unwrap(), w.real(p[1].as_i64().unwrap()))).collect();
            v.sort();
            *ps = json!(v);
          }
          if node["f"].is_array() {
            node["f"] = json!({});
          }
          exp.push((w.real(name), node));
        }
        exp.sort_by_key(|e| e.0);
        let got: Vec<(usize, Value)> = d.iter().map(|(i, n)| (*i, w.meta.to_json(n))).collect();
        if exp != got {
          return Err(format!("step {}: graph {} expected {} got {}", s["op"], g, json!(exp), json!(got)));
        }
      }
    }
  }
  Ok(())
}

fn main() {
  if std::env::var("HARNESS_TRACE").is_err() {
    std::panic::set_hook(Box::new(|_| {}));
  }
  watchdog();
  let cmd = std::env::args().nth(1).unwrap();
  let sch = need("--schema");
  let r = std::panic::catch_unwind(|| match cmd.as_str() {
    "record" => with_schema!(sch.as_str(), record,),
    "replay" => with_schema!(sch.as_str(), replay,),
    "behaviours" => with_schema!(sch.as_str(), behaviours,),
    x => panic!("unknown command {}", x),
  });
  if let Err(e) = r {
    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
    eprintln!("harness: {}", m);
    std::process::exit(4);
  }
}
