//! Dumps the resolved program of one crate as JSON: instantiated MIR of every
//! local body (and of the small std combinators they call), resolved callees,
//! evaluated constants, type definitions, impls and signatures.
//! It analyses nothing itself; the rules are in ../analyzer.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let s = dump::dump(tcx);
        std::fs::write(&self.out, s).expect("write dump");
        Compilation::Continue
    }
}

struct Nop;
impl Callbacks for Nop {}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "upon".into());
    let out = std::env::var("MIRDUMP_OUT").ok();
    match (crate_name, out) {
        (Some(n), Some(out)) if n == want => {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zalways-encode-mir=yes".into());
            let on = std::env::var_os("MIRDUMP_RELEASE").is_none();
            args.push(format!("-Cdebug-assertions={}", if on { "on" } else { "off" }));
            args.push("-Coverflow-checks=on".into());
            args.push("-Zub-checks=no".into());
            args.push("-Adead_code".into());
            let mut cb = Cb { out };
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Nop),
    }
}
