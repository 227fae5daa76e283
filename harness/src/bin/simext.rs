//! The repository's command line embedded the documented way: with extension handlers registered.
use std::process::ExitCode;

use clap::Parser;
use simlib::ext;
use substrait_explain::cli::Cli;

fn main() -> ExitCode {
    let cli = Cli::parse();
    if let Ok(p) = std::env::var("SIM_HPLAN") {
        ext::set_plan(ext::decode_plan(&p));
    }
    cli.run_with_extensions(simlib::scen::c08::registry_from_env())
}
