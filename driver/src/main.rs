//! rustc driver used as RUSTC_WRAPPER.  It behaves like rustc for every crate;
//! for the harness crate it also dumps the monomorphic MIR reachable from the
//! `vp_*` roots, for the analysed crate (`quadtree`) it dumps API/effect facts.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod facts;
mod json;
mod mono;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Plain;
impl Callbacks for Plain {}

struct Dump {
    out: String,
    facts: bool,
}

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let j = if self.facts { facts::dump(tcx) } else { mono::dump(tcx) };
        let mut s = String::new();
        j.write(&mut s);
        let tmp = format!("{}.tmp", self.out);
        std::fs::write(&tmp, s).expect("write dump");
        std::fs::rename(&tmp, &self.out).expect("rename dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WRAPPER: argv[1] is the path of the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let mut name = None;
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = Some(w[1].clone());
        }
    }
    let dir = std::env::var("VP_DUMP_DIR").ok();
    match (name.as_deref(), dir) {
        (Some("vp_harness"), Some(d)) => {
            let out = format!("{d}/mono.json");
            rustc_driver::compiler_entrypoint(&args, &mut Dump { out, facts: false })
        }
        (Some("quadtree"), Some(d)) => {
            let out = format!("{d}/facts.json");
            rustc_driver::compiler_entrypoint(&args, &mut Dump { out, facts: true })
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    }
}
