//! rustc driver that writes the MIR of selected functions of a crate (and of everything they
//! call that has MIR) as JSON. It runs as RUSTC_WORKSPACE_WRAPPER; see ../vf/dump.py.
//!
//! Every body is rustc's own `instance_mir` (mir-opt-level 0, after drop elaboration) for the
//! root function with its *identity* generic arguments, i.e. type parameters stay symbolic.
//! Callees are resolved with the root's typing environment; a call on a type parameter's trait
//! (`A::allocate`, `C::compare`, ...) stays unresolved and is reported as such.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
mod dump;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(path) = std::env::var("MIRDUMP_OUT") {
            let s = dump::dump(tcx);
            std::fs::write(path, s).unwrap();
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper: mirdump <rustc> <args...>
    args.remove(1);
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
