//! Dumps the resolved program of the `kms` crate as JSON: monomorphic MIR of everything
//! reachable from its functions (bodies of std are kept for a few plumbing modules only; all
//! other foreign functions are leaves), constants, types, statics, API facts.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_attr_ir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let j = dump::dump(tcx);
        let mut o = String::new();
        j.write(&mut o);
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, o).unwrap();
        std::fs::rename(&tmp, &self.out).unwrap();
        Compilation::Continue
    }
}
struct Nop;
impl Callbacks for Nop {}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(go)
}
fn go() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as a workspace wrapper: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "kms")
        && !args.iter().any(|a| a == "--test");
    let out = std::env::var("KMSDUMP_OUT").unwrap_or_default();
    if is_target && !out.is_empty() {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
