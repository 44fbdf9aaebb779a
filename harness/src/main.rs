#![allow(clippy::all)]
use vh::report::Ctx;
mod checks;

#[global_allocator]
static ALLOC: vh::mem::Counting = vh::mem::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let pid = a.get(1).cloned().unwrap_or_default();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    vh::drv::install_panic_hook();
    if pid == "stress" {
        return checks::stress(&a[2..]);
    }
    if pid == "dec" {
        return checks::dec(&a[2..]);
    }
    if pid == "dumpfmt" {
        return checks::dumpfmt(&a[2..]);
    }
    if pid == "feed" {
        return checks::feedtest(&a[2..]);
    }
    if pid == "nocolor" {
        return checks::nocolor(&a[2..]);
    }
    if pid == "info" {
        checks::info(&a[2..]);
        return;
    }
    let ctx = std::sync::Arc::new(Ctx::new(&pid, &tier, seed));
    let c2 = ctx.clone();
    vh::watch::start(move |kind, desc| {
        // A case that used a minute of CPU (its like take milliseconds) or that sleeps for ever.
        c2.violation(&format!("stuck-{kind} {}", desc.split('@').next().unwrap_or("")), &format!("{kind} in case {desc}"), &[]);
        let _ = c2.finish();
        std::process::exit(1);
    });
    if !checks::run(&ctx, &a[2..]) {
        eprintln!("unknown check {pid}");
        std::process::exit(3);
    }
    std::process::exit(ctx.finish());
}
