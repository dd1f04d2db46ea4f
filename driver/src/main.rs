#![feature(rustc_private)]
#![allow(clippy::too_many_arguments)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod facts;
mod hermetic;
mod interp;
mod lts;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Lts;
impl Callbacks for Lts {
    fn config(&mut self, c: &mut interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("PV_OUT").expect("PV_OUT");
        lts::run(tcx, &out);
        Compilation::Continue
    }
}

struct Own;
impl Callbacks for Own {
    fn config(&mut self, c: &mut interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("PV_OWN").expect("PV_OWN");
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        hermetic::run(tcx, &format!("{out}/{name}.json"));
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // used as RUSTC_WRAPPER: argv[1] is the real rustc
    let all: Vec<String> = std::env::args().collect();
    let mut crate_name = String::new();
    let mut it = all.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            crate_name = it.next().cloned().unwrap_or_default();
        }
    }
    if std::env::var_os("PV_OWN").is_some() && (crate_name == "pomelo_impl" || crate_name.starts_with("pv_control")) {
        let args: Vec<String> = all[1..].to_vec();
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Own));
    }
    if !crate_name.starts_with("wit_") {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&all[1]).args(&all[2..]).exec();
        panic!("cannot exec {}: {e}", all[1]);
    }
    let args: Vec<String> = all[1..].to_vec();
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Lts))
}
