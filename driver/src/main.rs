//! factdrv: a rustc wrapper that dumps the resolved program (MIR before drop
//! elaboration and before the coroutine transform, types, resolved callees,
//! constants, visibility and trait impls) of the selected crates as JSON.
//! It is run as RUSTC_WRAPPER; every other crate is compiled by plain rustc.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;

use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::TyCtxt;

struct Cb {
    krate: String,
}
impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.trimmed_def_paths = false;
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
    }
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let out = dump::dump(tcx);
        let dir = std::env::var("FACTDRV_OUT").expect("FACTDRV_OUT");
        let p = format!("{}/{}.json", dir, self.krate);
        std::fs::write(&p, out).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // args[1] is the path of the real rustc when used as RUSTC_WRAPPER.
    let rest: Vec<String> = args[1..].to_vec();
    let name = rest
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| rest.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let targets = std::env::var("FACTDRV_CRATES").unwrap_or_default();
    if !name.is_empty() && targets.split(',').any(|t| t == name) {
        let mut cb = Cb { krate: name };
        let mut a = rest.clone();
        if a[0].ends_with("rustc") || a[0].contains("/rustc") {
            a[0] = "rustc".to_string();
        }
        let code = rustc_driver::catch_with_exit_code(move || {
            rustc_driver::compiler_entrypoint(&a, &mut cb);
        });
        if code != std::process::ExitCode::SUCCESS {
            std::process::exit(1);
        }
        return;
    }
    let st = std::process::Command::new(&rest[0])
        .args(&rest[1..])
        .status()
        .expect("spawn rustc");
    std::process::exit(st.code().unwrap_or(1));
}
