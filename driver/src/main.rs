//! Fact extractor: type-checked, fully resolved MIR of the crate under analysis, as JSON.
//!
//! Injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.  For the
//! jubako crates (lib and bin) it dumps, after analysis, every function body
//! (instantiated where it is reached with concrete type arguments), with
//! resolved callees, constants evaluated, ADT definitions and trait impls.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: std::path::PathBuf,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let is_bin = tcx
            .crate_types()
            .iter()
            .any(|t| format!("{t:?}") == "Executable");
        let txt = dump::dump(tcx);
        let f = self
            .out
            .join(format!("{}-{}.json", name, if is_bin { "bin" } else { "lib" }));
        let tmp = f.with_extension("tmp");
        std::fs::write(&tmp, txt).expect("write facts");
        std::fs::rename(&tmp, &f).expect("rename facts");
        Compilation::Continue
    }
}
struct Nop;
impl Callbacks for Nop {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    args.remove(0);
    if args.is_empty() {
        eprintln!("jbkfacts: to be used as RUSTC_WORKSPACE_WRAPPER");
        std::process::exit(2);
    }
    let out = std::env::var("JBKFACTS_OUT").ok();
    let names = std::env::var("JBKFACTS_CRATES").unwrap_or_else(|_| "jubako,jbk".into());
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned();
    let wanted = matches!(&crate_name, Some(n) if names.split(',').any(|x| x == n));
    if let (Some(out), true) = (out, wanted) {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Zalways-encode-mir=yes".into());
        if std::env::var("JBKFACTS_MODE").as_deref() != Ok("debug") {
            args.push("-Cdebug-assertions=off".into());
            args.push("-Coverflow-checks=off".into());
        } else {
            args.push("-Cdebug-assertions=on".into());
            args.push("-Coverflow-checks=on".into());
        }
        args.push("-Aunknown_lints".into());
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out: out.into() }))
    } else {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop))
    }
}
