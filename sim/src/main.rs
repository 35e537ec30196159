#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]
mod check;
mod drive;
mod engines;
mod families;
mod gen;
mod lists;
mod long;
mod model;
mod props;
mod qparse;
mod rng;
mod rt;
mod spec;
mod texts;
mod world;

#[global_allocator]
static GLOBAL: rt::SimAlloc = rt::SimAlloc;

/// addresses must not depend on where the kernel happens to place things
fn fixed_addresses() {
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_REEXEC").is_none() {
            if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
                use std::os::unix::process::CommandExt;
                let exe = std::env::current_exe().unwrap();
                let e = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("SIM_REEXEC", "1").exec();
                eprintln!("re-exec failed: {}", e);
            }
        }
    }
}

fn main() {
    fixed_addresses();
    let av: Vec<String> = std::env::args().collect();
    let opt = |k: &str| av.iter().position(|x| x == k).and_then(|i| av.get(i + 1)).cloned();
    let env = |k: &str| std::env::var(k).ok();
    let a = check::Args {
        prop: opt("--property").unwrap_or_default(),
        secs: opt("--secs").and_then(|x| x.parse().ok()).unwrap_or(30.0),
        workers: opt("--workers").and_then(|x| x.parse().ok()).unwrap_or(8),
        seed: opt("--seed").or(env("VERIF_SEED")).and_then(|x| x.parse().ok()).unwrap_or(1),
        tier: opt("--tier").or(env("VERIF_TIER")).unwrap_or("quick".into()),
        from: opt("--from").and_then(|x| x.parse().ok()),
        max: opt("--max").and_then(|x| x.parse().ok()).unwrap_or(u64::MAX),
        root: opt("--root").unwrap_or(".".into()).into(),
    };
    let code = match av.get(1).map(|x| x.as_str()) {
        Some("check") => check::check(&a),
        Some("replay") => check::replay(&av[2]),
        Some("show") => check::show(&a, opt("--index").and_then(|x| x.parse().ok()).unwrap_or(0)),
        Some("selftest") => {
            println!("{} texts read back", qparse::selftest());
            0
        }
        Some("list") => {
            for p in props::PROPS.iter() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: simcheck check --property ID [--secs N] [--workers N] [--seed S] [--tier quick|thorough] | replay FILE | show --property ID --index N | list");
            2
        }
    };
    std::process::exit(code);
}
