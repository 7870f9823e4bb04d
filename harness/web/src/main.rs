mod bindings;
#[path = "../../editor/src/serve.rs"]
mod serve;
#[path = "../../editor/src/session.rs"]
#[allow(dead_code)]
mod session;
#[path = "../../editor/src/world.rs"]
#[allow(dead_code)]
mod world;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("serve") {
        let server = std::thread::Builder::new().stack_size(1 << 29).spawn(serve::serve).unwrap();
        std::process::exit(server.join().map_or(2, |_| 0));
    }
    monitor_common::main(&[bindings::c30()])
}
