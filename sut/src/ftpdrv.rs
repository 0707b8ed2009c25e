//! Thin driver: runs the real embedftp server with a configuration given on
//! the command line (users, anonymous access), no conversion callback.
use embedftp::config::{Config, FtpCallback, User};

#[derive(Clone)]
struct Plain;
impl FtpCallback for Plain {}

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let root = std::path::PathBuf::from(&a[1]);
  let port: u16 = a[2].parse().unwrap();
  let addr = a[3].parse().unwrap();
  let anonymous = a[4] == "1";
  let users = a[5..]
    .iter()
    .map(|u| {
      let (n, p) = u.split_once(':').unwrap();
      User { name: n.into(), password: p.into() }
    })
    .collect();
  let rt = tokio::runtime::Builder::new_multi_thread().enable_all().build().unwrap();
  let mut c = Config::new("").unwrap();
  c.server_port = port;
  c.server_addr = addr;
  c.anonymous = anonymous;
  c.users = users;
  let r = rt.block_on(embedftp::server::serve(rt.handle().clone(), root, c, Plain));
  if let Err(e) = r {
    eprintln!("serve: {e}");
    std::process::exit(1);
  }
}
