// The tool as a library call, for the undefined-behaviour interpreter.
use clap::Parser;
use cryptovampire::{cli::{Args, Input}, run_from_cv, squirrel::run_from_json};

fn main() {
    let args = Args::parse();
    let text = std::fs::read_to_string(args.file.as_ref().unwrap()).unwrap();
    let res = match args.input_format {
        Input::Cryptovampire => run_from_cv(args, &text).map(|_| ()),
        Input::SquirrelJSON => run_from_json(args, &text).map(|_| ()),
    };
    match res {
        Ok(()) => println!("result ok"),
        Err(e) => println!("result err {e}"),
    }
}
