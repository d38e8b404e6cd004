#![allow(dead_code, unused_variables, unused_mut, unexpected_cfgs, unused_macros, mismatched_lifetime_syntaxes, unused_assignments)]
mod comps;
mod scale;
#[macro_use]
mod util;
mod shape_main;
#[cfg(feature = "wide")]
mod shape_odd;
#[cfg(feature = "wide")]
mod shape_wide;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match args[1].as_str() {
        "scale" => scale::run(&args[2], &args[3]),
        "main" => shape_main::Eng::new(&args[3]).run(&args[2]),
        #[cfg(feature = "wide")]
        "odd" => shape_odd::Eng::new(&args[3]).run(&args[2]),
        #[cfg(feature = "wide")]
        "wide" => shape_wide::Eng::new(&args[3]).run(&args[2]),
        x => panic!("unknown mode {}", x),
    }
}
