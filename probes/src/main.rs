#![allow(dead_code, unused_variables, unused_mut, unexpected_cfgs, unused_macros, mismatched_lifetime_syntaxes)]
mod borrow;
mod handles;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match args[1].as_str() {
        "borrow" => borrow::run(&args[2], &args[3]),
        "handles" => handles::run(&args[2], &args[3]),
        x => panic!("unknown mode {}", x),
    }
}
