mod api;
mod auth;
mod bodies;
mod exec;
mod faults;
mod paths;
mod policy;
mod proto;
mod rec;
mod report;
mod sched;
mod server;
mod sig;
mod storage;
mod store;
mod sys;
mod names;
mod outputs;
mod wire;

use std::path::PathBuf;

fn table() -> Vec<report::Meta> {
    let mut t = vec![];
    t.extend(storage::metas());
    t.extend(paths::metas());
    t.extend(faults::metas());
    t.extend(sched::metas());
    t.extend(auth::metas());
    t.extend(bodies::metas());
    t.extend(policy::metas());
    t.extend(wire::metas());
    t.extend(names::metas());
    t.extend(outputs::metas());
    t.extend(proto::metas());
    t.extend(server::metas());
    t
}

fn main() {
    // large zeroed buffers come from fresh pages instead of being cleared
    unsafe { libc::mallopt(libc::M_MMAP_THRESHOLD, 128 << 10) };
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: mc VERIFDIR ID quick|thorough [--case N]");
        std::process::exit(2);
    }
    let verif = PathBuf::from(&args[1]);
    let thorough = args[3] == "thorough";
    let only = match args.get(4).map(String::as_str) {
        Some("--case") => args.get(5).and_then(|s| s.parse().ok()),
        _ => None,
    };
    std::env::remove_var("RUST_BACKTRACE");
    std::env::remove_var("RUST_LIB_BACKTRACE");
    sys::set_zone(sys::ZONE);
    let t = table();
    let meta = match t.iter().find(|m| m.id == args[2]) {
        Some(m) => m,
        None => {
            eprintln!("no such check: {}", args[2]);
            std::process::exit(2);
        }
    };
    std::process::exit(report::main(meta, thorough, only, &verif));
}
