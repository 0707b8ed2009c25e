mod cmds;
mod conv;
mod dng;
mod engine;
mod ftp;
mod cams;
mod rich;
mod sim;
mod world;
use engine::*;
use sim::*;
use std::path::Path;

fn props() -> Vec<&'static Prop> {
  vec![
    &conv::C01, &conv::C02, &cmds::C03, &cmds::C04, &conv::C05, &conv::C06, &conv::C07, &conv::C08, &conv::C09, &cmds::C10, &cmds::C11, &conv::C12, &cmds::C13, &cmds::C14, &cmds::C15, &ftp::C20, &ftp::C21, &ftp::C22, &ftp::C23, &ftp::C24, &ftp::C25, &ftp::C26, &ftp::C27, &ftp::C28,
  ]
}

fn usage() -> ! {
  eprintln!("dst check ID [--tier quick|thorough] [--seed N] [--secs S] [--family F] [--rounds N] [--threads N] [--keep-going]\ndst replay FILE [--trace]\ndst list");
  std::process::exit(2)
}
fn main() {
  let a: Vec<String> = std::env::args().skip(1).collect();
  let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
  let flag = |n: &str| a.iter().any(|x| x == n);
  let code = match a.first().map(|s| s.as_str()) {
    Some("list") => {
      for p in props() {
        println!("{} {:?}", p.id, p.families.iter().map(|f| f.0).collect::<Vec<_>>());
      }
      0
    }
    Some("check") => {
      let id = a.get(1).cloned().unwrap_or_default();
      let p = props().into_iter().find(|p| p.id == id).unwrap_or_else(|| usage());
      let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
      let thorough = tier == "thorough";
      let seed = opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
      let secs = opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 40 });
      let env = Env::new();
      let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
      let o = Opts {
        thorough,
        seed,
        secs,
        threads: opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(ncpu),
        family: opt("--family"),
        rounds: opt("--rounds").and_then(|s| s.parse().ok()),
        keep_going: flag("--keep-going"),
      };
      let rc = check(&env, p, &o);
      env.cleanup();
      rc
    }
    Some("replay") => {
      let f = a.get(1).cloned().unwrap_or_else(|| usage());
      let mut c = match load_case(Path::new(&f)) {
        Some(c) => c,
        None => {
          eprintln!("cannot read {}", f);
          std::process::exit(2)
        }
      };
      let p = props().into_iter().find(|p| p.id == c.prop).unwrap_or_else(|| usage());
      let tr = flag("--trace");
      for r in c.runs.iter_mut() {
        r.spec.trace = tr;
      }
      let env = Env::new();
      let rc = match run_case(&env, p, &c) {
        Err(SimErr::Harness(e)) => {
          eprintln!("harness: {}", e);
          2
        }
        Ok((rs, vs)) => {
          for (i, r) in rs.iter().enumerate() {
            println!("run {}: {} {}", i, c.runs[i].bin, c.runs[i].args.join(" "));
            println!("  sched {}", format!("{:?}", c.runs[i].spec.sched).chars().take(400).collect::<String>());
            println!("  faults {:?}", c.runs[i].spec.faults);
            for l in &r.out.trace {
              println!("  {}", l);
            }
            println!("  exit {:?} hash {:x}{}", r.out.exit, r.out.hash, match c.hash.get(i) {
              Some(h) if *h == r.out.hash => " (identical to the recorded execution)",
              Some(_) => " (DIFFERS from the recorded execution)",
              None => "",
            });
            if flag("--show") || tr {
              println!("  stdout: {}", String::from_utf8_lossy(&r.stdout()[..r.stdout().len().min(2000)]));
              println!("  stderr: {}", r.stderr());
              for (p, e) in r.fs() {
                println!("  fs {} {}", p, match &e.ent { Ent::File(b) => format!("{} bytes mtime {:?}", b.len(), e.mtime), Ent::Dir => "dir".into(), Ent::Link(t) => format!("-> {}", t) });
              }
              for (k, cl) in r.out.clients.iter().enumerate() {
                for e in cl {
                  println!("  client {} seq {} t {}us {:?}", k, e.seq, e.t / 1000, e.ev);
                }
              }
            }
          }
          for x in &vs {
            println!("violated: {} [{}]", x.msg, x.key);
          }
          if vs.is_empty() {
            println!("no violation");
            0
          } else {
            println!("VIOLATION property={} replay={}", c.prop, f);
            1
          }
        }
      };
      env.cleanup();
      rc
    }
    _ => usage(),
  };
  std::process::exit(code)
}
