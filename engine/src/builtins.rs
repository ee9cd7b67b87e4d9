//! Classification of call targets: IR functions, modelled externals, panic entry points.
use crate::exec::Target;
use crate::ir::*;

pub fn classify(m: &Module, gi: usize, hash0: bool) -> Target {
    let n: &str = &m.globals[gi].name;
    use Target::*;
    if n.starts_with("vk_") {
        for k in [
            "vk_sym", "vk_param", "vk_assume", "vk_check", "vk_cover", "vk_cover_if", "vk_observe", "vk_panic_ok", "vk_concrete",
            "vk_nomerge", "vk_split", "vk_and", "vk_or", "vk_ite",
        ] {
            if n == k {
                return Builtin(k);
            }
        }
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let t = |p: &str| r.starts_with(p);
        let b: Option<&'static str> = if t("memcpy") || t("memmove") {
            Some("memcpy")
        } else if t("memset") {
            Some("memset")
        } else if t("lifetime") {
            Some("lifetime")
        } else if t("expect") || t("threadlocal.address") || t("launder") || t("strip.inv") || t("ptrmask") && false {
            Some("id0")
        } else if t("is.constant") {
            Some("is_constant")
        } else if t("uadd.with") {
            Some("uadd_o")
        } else if t("sadd.with") {
            Some("sadd_o")
        } else if t("usub.with") {
            Some("usub_o")
        } else if t("ssub.with") {
            Some("ssub_o")
        } else if t("umul.with") {
            Some("umul_o")
        } else if t("smul.with") {
            Some("smul_o")
        } else if t("umax") {
            Some("umax")
        } else if t("umin") {
            Some("umin")
        } else if t("smax") {
            Some("smax")
        } else if t("smin") {
            Some("smin")
        } else if t("abs") {
            Some("abs")
        } else if t("usub.sat") {
            Some("usub_sat")
        } else if t("uadd.sat") {
            Some("uadd_sat")
        } else if t("ctpop") {
            Some("ctpop")
        } else if t("ctlz") {
            Some("ctlz")
        } else if t("cttz") {
            Some("cttz")
        } else if t("bswap") {
            Some("bswap")
        } else if t("bitreverse") {
            Some("bitreverse")
        } else if t("fshl") {
            Some("fshl")
        } else if t("fshr") {
            Some("fshr")
        } else if t("ucmp") {
            Some("ucmp3")
        } else if t("scmp") {
            Some("scmp3")
        } else if t("trap") {
            Some("trap")
        } else if t("vector.reduce.add") {
            Some("reduce_add")
        } else if t("vector.reduce.and") {
            Some("reduce_and")
        } else if t("vector.reduce.or") {
            Some("reduce_or")
        } else if t("vector.reduce.xor") {
            Some("reduce_xor")
        } else if t("vector.reduce.mul") {
            Some("reduce_mul")
        } else if t("vector.reduce.umax") {
            Some("reduce_umax")
        } else if t("vector.reduce.umin") {
            Some("reduce_umin")
        } else if t("vector.reduce.smax") {
            Some("reduce_smax")
        } else if t("vector.reduce.smin") {
            Some("reduce_smin")
        } else if t("x86.sse2.pmovmskb") {
            Some("movmsk")
        } else if t("x86.sse2.pause") || t("invariant") {
            Some("nop")
        } else {
            None
        };
        return match b {
            Some(b) => Builtin(b),
            None => Unknown,
        };
    }
    match n {
        "memcpy" | "memmove" => return Builtin("memcpy_r"),
        "memcmp" => return Builtin("memcmp"),
        "bcmp" => return Builtin("bcmp"),
        "strlen" => return Builtin("strlen"),
        "malloc" => return Builtin("malloc"),
        "calloc" => return Builtin("calloc"),
        "__cxa_thread_atexit_impl" => return Builtin("zero"),
        "abort" => return Panic("nounwind"),
        _ => {}
    }
    if n.contains("7___rustc") {
        if n.ends_with("___rust_alloc") {
            return Builtin("alloc");
        }
        if n.ends_with("___rust_alloc_zeroed") {
            return Builtin("alloc_zeroed");
        }
        if n.ends_with("___rust_dealloc") {
            return Builtin("dealloc");
        }
        if n.ends_with("___rust_realloc") {
            return Builtin("realloc");
        }
        if n.contains("no_alloc_shim") {
            return Builtin("nop");
        }
        if n.contains("rust_begin_unwind") || n.contains("rust_panic") {
            return Panic("panic");
        }
    }
    if n.contains("9panicking9panic_fmt") || n.contains("11begin_panic") || n.contains("17rust_panic_with_hook") {
        return Panic("panic");
    }
    if n.contains("panic_nounwind") || n.contains("panic_cannot_unwind") || n.contains("panic_in_cleanup") || n.contains("18handle_alloc_error") {
        return Panic("nounwind");
    }
    if n.contains("hashmap_random_keys") {
        return Builtin("randkeys");
    }
    if n.contains("thread_local") && n.contains("8register") && n.contains("5guard") || n.contains("destructors") && n.contains("8register") {
        return Builtin("nop");
    }
    if n.contains("std_detect") && n.contains("6detect5cache4test") {
        return Builtin("zero"); // no optional CPU features: the baseline code paths are analysed
    }
    if hash0 && n.contains("6Hasher6finish") && (n.contains("SipHasher") || n.contains("DefaultHasher")) {
        return Builtin("hash0");
    }
    match m.globals[gi].kind {
        GKind::Func { def: true } => Func(gi),
        _ => Unknown,
    }
}
