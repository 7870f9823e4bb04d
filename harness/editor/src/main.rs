mod history;
mod json;
mod leaks;
mod moves;
mod typing;
mod parsing;
mod serve;
mod session;
mod syntax;
mod twins;
mod reference;
mod trees;
mod vocabulary;
mod words;
mod work;
mod world;

use monitor_common::{main as run, Check};

#[global_allocator]
static ALLOCATOR: leaks::Counting = leaks::Counting;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("serve") {
        let server = std::thread::Builder::new().stack_size(1 << 29).spawn(serve::serve).unwrap();
        std::process::exit(server.join().map_or(2, |_| 0));
    }
    let checks: Vec<Check> = vec![json::c10(), history::c11(), history::c12(), history::c13(), history::c19(), moves::c14(), moves::c15(), moves::c22(), typing::c16(), typing::c17(), typing::c18(), words::c20(), words::c21(), parsing::c23(), parsing::c24(), parsing::c25(), parsing::c26(), parsing::c27(), parsing::c28(), parsing::c29(), trees::c36(), reference::c37(), leaks::c38(), vocabulary::c39(), work::c40(), twins::c42()];
    run(&checks)
}
