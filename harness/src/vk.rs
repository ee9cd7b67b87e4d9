//! The verification intrinsics.  The symbolic executor replaces every `vk_*` function by its own
//! semantics (fresh symbolic value, assumption, obligation, ...); the bodies below are the concrete
//! semantics used when a counterexample (or a sampled path) is replayed against the real code.
use std::cell::RefCell;

pub struct Ctx {
    pub params: Vec<u64>,
    pub inputs: Vec<u64>,
    pub next: usize,
    pub obs: Vec<u64>,
    pub covers: Vec<u64>,
    pub panic_ok: bool,
}
thread_local! {
    pub static CTX: RefCell<Ctx> = const { RefCell::new(Ctx {
        params: vec![], inputs: vec![], next: 0, obs: vec![], covers: vec![], panic_ok: false,
    }) };
}

pub fn finish(outcome: &str) -> ! {
    CTX.with(|c| {
        let c = c.borrow();
        println!(
            "{{\"outcome\": \"{}\", \"obs\": {:?}, \"covers\": {:?}}}",
            outcome, c.obs, c.covers
        );
    });
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}

macro_rules! intr { ($(fn $n:ident($($a:ident : $t:ty),*) $(-> $r:ty)? $b:block)*) => { $(
    #[no_mangle] #[inline(never)] pub extern "C" fn $n($($a: $t),*) $(-> $r)? $b
)* } }

intr! {
    // A symbolic value of the given (constant) width
    fn vk_sym(bits: u64) -> u64 {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let i = c.next;
            c.next += 1;
            let v = c.inputs.get(i).copied().unwrap_or(0);
            if bits >= 64 { v } else { v & ((1u64 << bits) - 1) }
        })
    }
    // The i-th concrete parameter of this run (a bound, or a case selector)
    fn vk_param(i: u64) -> u64 {
        CTX.with(|c| c.borrow().params.get(i as usize).copied().unwrap_or(0))
    }
    fn vk_assume(c: bool) { if !c { finish("assume") } }
    fn vk_check(c: bool, id: u64) { if !c { finish(&format!("check {}", id)) } }
    fn vk_cover(id: u64) { CTX.with(|c| c.borrow_mut().covers.push(id)) }
    fn vk_cover_if(c: bool, id: u64) { if c { CTX.with(|c| c.borrow_mut().covers.push(id)) } }
    fn vk_observe(v: u64) { CTX.with(|c| c.borrow_mut().obs.push(v)) }
    // From here on a panic is (not) allowed, depending on the condition
    fn vk_panic_ok(ok: bool) { CTX.with(|c| c.borrow_mut().panic_ok = ok) }
    // Fork over the feasible values of `x`
    fn vk_concrete(x: u64) -> u64 { x }
    // Fork over the feasible values of `x` and keep the cases apart from here on
    fn vk_split(x: u64) -> u64 { x }
    fn vk_nomerge(_x: u64) {}
    fn vk_and(a: bool, b: bool) -> bool { a & b }
    fn vk_or(a: bool, b: bool) -> bool { a | b }
    fn vk_ite(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
}
