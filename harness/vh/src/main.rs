//! Runtime monitors for getsentry/symbolicator: `vh <property> --seed N --tier quick|thorough ...`
mod common;
mod gen;
mod model;
mod objs;
mod proc;
mod sorter;
mod sorter2;
mod sources;
mod wasm;

use common::{Ctx, Report};
use std::time::{Duration, Instant};

/// The compression methods of the archives the generators write.
pub const ZIP_METHODS: &[zip::CompressionMethod] = &[zip::CompressionMethod::Stored, zip::CompressionMethod::Deflated, zip::CompressionMethod::Bzip2];

fn main() {
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("property");
    let mut ctx = Ctx {
        prop: prop.clone(),
        seed: 1,
        thorough: false,
        deadline: Instant::now() + Duration::from_secs(60),
        work: "/tmp".into(),
        bins: "/nonexistent".into(),
        asan_bins: None,
    };
    let mut out = None;
    while let Some(a) = args.next() {
        let v = args.next().expect("value");
        match a.as_str() {
            "--seed" => ctx.seed = v.parse().unwrap(),
            "--tier" => ctx.thorough = v == "thorough",
            "--seconds" => ctx.deadline = Instant::now() + Duration::from_secs(v.parse().unwrap()),
            "--work" => ctx.work = v.into(),
            "--bins" => ctx.bins = v.into(),
            "--asan-bins" => ctx.asan_bins = Some(v.into()),
            "--out" => out = Some(v),
            _ => panic!("unknown argument {a}"),
        }
    }
    // panics of the code under test are caught and judged; keep stderr readable
    std::panic::set_hook(Box::new(|_| {}));
    let rep: Report = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch(&ctx))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            eprintln!("harness error: {m}");
            std::process::exit(3);
        }
    };
    let json = serde_json::to_string_pretty(&rep.to_json()).unwrap();
    match out {
        Some(p) => std::fs::write(p, json).unwrap(),
        None => println!("{json}"),
    }
}

fn dispatch(ctx: &Ctx) -> Report {
    match ctx.prop.as_str() {
        "C01" => sources::c01(ctx),
        "C02" => sources::c02(ctx),
        "C03" => sources::c03(ctx),
        "C04" => sources::c04(ctx),
        "C05" => sources::c05(ctx),
        "C06" => sources::c06(ctx),
        "C07" => sources::c07(ctx),
        "C08" => sources::c08(ctx),
        "C10" => sorter::c10(ctx),
        "C11" => sorter::c11(ctx),
        "C12" => sorter::c12(ctx),
        "C13" => sorter2::c13(ctx),
        "C14" => sorter2::c14(ctx),
        "C15" => sorter2::c15(ctx),
        "C16" => sorter2::c16(ctx),
        "C20" => wasm::c20(ctx),
        "C21" => wasm::c21(ctx),
        "C22" => wasm::c22(ctx),
        "C23" => wasm::c23(ctx),
        p => panic!("unknown property {p}"),
    }
}
