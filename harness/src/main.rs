//! Proof harnesses for bellframe.  Each `h_*` function states one obligation over symbolic inputs;
//! the symbolic executor runs it over the LLVM IR of this crate + bellframe + std.  Run natively,
//! this binary replays one concrete input vector: `harness <name> <params> <inputs>`.
#![allow(clippy::all)]
pub mod util;
pub mod vk;

macro_rules! modules { ($($m:ident),*) => {
    $(mod $m;)*
    fn table() -> Vec<(&'static str, extern "C-unwind" fn())> {
        let mut v: Vec<(&'static str, extern "C-unwind" fn())> = vec![];
        $( v.extend_from_slice($m::TABLE); )*
        v
    }
} }
modules!(h_row, h_bell, h_pn, h_ssv, h_block, h_mask, h_music, h_text, h_method, h_class, h_lib, h_msg, h_eq);

fn parse_list(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s == "--list").unwrap_or(true) {
        for (n, _) in table() {
            println!("{}", n);
        }
        return;
    }
    let f = match table().iter().find(|x| x.0 == args[1]) {
        Some(x) => x.1,
        None => {
            println!("{{\"outcome\": \"nosuch\"}}");
            std::process::exit(3)
        }
    };
    vk::CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.params = parse_list(args.get(2).map(|s| s.as_str()).unwrap_or(""));
        c.inputs = parse_list(args.get(3).map(|s| s.as_str()).unwrap_or(""));
    });
    std::panic::set_hook(Box::new(|i| eprintln!("{}", i)));
    // `extern "C"` would abort on unwinding, hence the hook + plain call through a Rust closure
    let r = std::panic::catch_unwind(|| f_call(f));
    let ok = vk::CTX.with(|c| c.borrow().panic_ok);
    match r {
        Ok(()) => vk::finish("ok"),
        Err(_) if ok => vk::finish("panic-ok"),
        Err(_) => vk::finish("panic"),
    }
}
#[inline(never)]
fn f_call(f: extern "C-unwind" fn()) {
    f()
}
