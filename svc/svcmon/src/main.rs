//! Runtime monitors for the service crate: `svcmon <property> --seed N --tier quick|thorough ...`
#[path = "../../../harness/vh/src/common.rs"]
mod common;
#[cfg(feature = "app")]
mod appmon;
mod cachemon;
mod confmon;
mod dlmon;
mod dlmon2;
mod dlmon3;
#[cfg(feature = "js")]
mod jsmon;
#[cfg(feature = "jvm")]
mod jvmmon;
mod kit;
mod logging;
mod metmon;
mod mock;
#[cfg(feature = "native")]
mod natmon;
#[cfg(feature = "native")]
mod natmon2;
#[cfg(feature = "native")]
mod natmon3;
mod objmon;
#[allow(dead_code)]
#[path = "../../../harness/vh/src/objs.rs"]
mod objs;
mod sharedmon;
#[cfg(feature = "app")]
mod webmon;

use common::{Ctx, Report};
use std::time::{Duration, Instant};

/// The compression methods of the archives the generators write.
pub const ZIP_METHODS: &[zip::CompressionMethod] = &[zip::CompressionMethod::Stored, zip::CompressionMethod::Deflated];

fn main() {
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("property");
    if prop == "crash-child" {
        cachemon::crash_child(args.collect());
        return;
    }
    if prop == "metrics-child" {
        metmon::child(args.collect());
        return;
    }
    if prop == "cleanup-child" {
        cachemon::cleanup_child();
    }
    let mut ctx = Ctx {
        prop: prop.clone(),
        seed: 1,
        thorough: false,
        deadline: Instant::now() + Duration::from_secs(60),
        work: "/tmp".into(),
        bins: "/nonexistent".into(),
        asan_bins: None,
    };
    let mut out = None;
    while let Some(a) = args.next() {
        let v = args.next().expect("value");
        match a.as_str() {
            "--seed" => ctx.seed = v.parse().unwrap(),
            "--tier" => ctx.thorough = v == "thorough",
            "--seconds" => ctx.deadline = Instant::now() + Duration::from_secs(v.parse().unwrap()),
            "--work" => ctx.work = v.into(),
            "--bins" => ctx.bins = v.into(),
            "--asan-bins" => ctx.asan_bins = Some(v.into()),
            "--out" => out = Some(v),
            _ => panic!("unknown argument {a}"),
        }
    }
    if std::env::var_os("SVCMON_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let rep: Report = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch(&ctx))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            eprintln!("harness error: {m}");
            std::process::exit(3);
        }
    };
    let json = serde_json::to_string_pretty(&rep.to_json()).unwrap();
    match out {
        Some(p) => std::fs::write(p, json).unwrap(),
        None => println!("{json}"),
    }
    // do not wait for background tasks of the code under test
    std::process::exit(0);
}

fn dispatch(ctx: &Ctx) -> Report {
    match ctx.prop.as_str() {
        "C30" => cachemon::c30(ctx),
        "C31" => cachemon::c31(ctx),
        "C32" => cachemon::c32(ctx),
        "C33" => cachemon::c33(ctx),
        "C35" => cachemon::c35(ctx),
        "C34" => objmon::c34(ctx),
        "C36" => sharedmon::c36(ctx),
        #[cfg(feature = "jvm")]
        "C49" => jvmmon::c49(ctx),
        #[cfg(feature = "jvm")]
        "C50" => jvmmon::c50(ctx),
        #[cfg(feature = "native")]
        "C54" => natmon::c54(ctx),
        #[cfg(feature = "native")]
        "C55" => natmon::c55(ctx),
        #[cfg(feature = "native")]
        "C56" => natmon2::c56(ctx),
        #[cfg(feature = "native")]
        "C57" => natmon2::c57(ctx),
        #[cfg(feature = "native")]
        "C58" => natmon3::c58(ctx),
        #[cfg(feature = "app")]
        "C59" => appmon::c59(ctx),
        #[cfg(feature = "app")]
        "C60" => webmon::c60(ctx),
        #[cfg(feature = "js")]
        "C51" => jsmon::c51(ctx),
        #[cfg(feature = "js")]
        "C52" => jsmon::c52(ctx),
        #[cfg(feature = "js")]
        "C53" => jsmon::c53(ctx),
        "C44" => objmon::c44(ctx),
        "C37" => dlmon::c37(ctx),
        "C38" => dlmon2::c38(ctx),
        "C39" => dlmon2::c39(ctx),
        "C40" => dlmon2::c40(ctx),
        "C41" => dlmon3::c41(ctx),
        "C42" => dlmon3::c42(ctx),
        "C43" => dlmon3::c43(ctx),
        "C48" => dlmon3::c48(ctx),
        "C46" => confmon::c46(ctx),
        "C45" => metmon::c45(ctx),
        "C47" => dlmon::c47(ctx),
        p => panic!("unknown property {p}"),
    }
}
