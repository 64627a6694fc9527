#![allow(dead_code)]
mod common;
mod props;
mod steps;
mod targets;

#[global_allocator]
static ALLOC: sched::Alloc = sched::Alloc;

fn main() {
    if std::env::var("MXMC_PANIC").is_err() {
        std::panic::set_hook(Box::new(|i| {
            // panics of the code under test are caught and judged; those of the harness are errors
            if i.location().is_some_and(|l| l.file().contains("harness") || l.file().starts_with("src/props") || l.file().starts_with("model/")) {
                eprintln!("harness panic: {i}");
            }
        }));
    }
    let a: Vec<String> = std::env::args().collect();
    let thorough = a.iter().any(|x| x == "thorough");
    let Some(p) = a.get(1) else {
        eprintln!("usage: mxmc <property> --tier quick|thorough");
        std::process::exit(2)
    };
    if p == "hist" {
        std::process::exit(props::history::child(&a[2..], thorough))
    }
    if p == "show" {
        // mxmc show MODULE min|full json|xml: the model's message, for inspection
        let ctx = refmodel::engine::Ctx::new("show", false);
        let w = common::World::new(&ctx);
        let t = targets::Target::by_module(&a[2]).expect("module");
        let n = if a[3] == "full" { w.full(t) } else { w.min(t) };
        println!("{}", if a[4] == "xml" { w.xml(t, n) } else { w.json(t, n) });
        std::process::exit(0)
    }
    if p == "nest" {
        std::process::exit(props::nest::child(&a[2], thorough))
    }
    // the work runs on a big stack: full messages are deep
    let p = p.clone();
    let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || props::run(&p, thorough)).unwrap().join();
    std::process::exit(match r {
        Ok(Some(c)) => c,
        Ok(None) => 2,
        Err(_) => 5,
    })
}
