//! MIR dumper: runs as RUSTC_WRAPPER.  For the crate named by MIRDUMP_CRATE it
//! walks, after analysis, every monomorphic instance reachable from the crate's
//! own non-generic functions (across crate boundaries, thanks to
//! -Zalways-encode-mir) and writes types + bodies as JSON to MIRDUMP_OUT.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump::dump(tcx, &self.out);
        Compilation::Continue
    }
}

struct Noop;
impl Callbacks for Noop {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let crate_name = args
        .iter()
        .position(|x| x == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned();
    let want = std::env::var("MIRDUMP_CRATE").ok();
    if crate_name.is_some() && crate_name == want {
        let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        return rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out }));
    } else {
        return rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Noop));
    }
}
