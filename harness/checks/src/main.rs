#![allow(clippy::all)]
mod common;
mod arch;
mod gens;
mod layout;
mod pep440;
mod pep508;
mod srv;
mod stores;
mod world;
mod res;
mod py;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c24;
mod c26;
mod c21;
mod c22;
mod c23;
mod c25;

fn main() {
    common::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let what = args.get(0).cloned().unwrap_or_default();
    let ctx = || common::Ctx::new(&what);
    match what.as_str() {
        "C01" => c01::run_(ctx()),
        "C02" => c02::run_(ctx()),
        "C03" => c03::run_(ctx()),
        "C04" => c04::run_(ctx()),
        "C05" => c05::run_(ctx()),
        "C06" => c06::run_(ctx()),
        "C07" => c07::run_(ctx()),
        "C08" => c08::run_(ctx()),
        "C09" => c09::run(ctx()),
        "C10" => c10::run(ctx()),
        "C11" => c11::run(ctx()),
        "C12" => c12::run_(ctx()),
        "C13" => c13::run_(ctx()),
        "C14" => c14::run_(ctx()),
        "C15" => c15::run_(ctx()),
        "C16" => c16::run_(ctx()),
        "C17" => c17::run_(ctx()),
        "C18" => c18::run_(ctx()),
        "C19" => c19::run_(ctx()),
        "C20" => c20::run_(ctx()),
        "C26" => c26::run_(ctx()),
        "C21" => c21::run_(ctx()),
        "C22" => c22::run_(ctx()),
        "C23" => c23::run_(ctx()),
        "C24" => c24::run_(ctx()),
        "C25" => c25::run_(ctx()),
        "c03-child" => c03::child(&args),
        "c19-child" => c19::child(&args[1..]),
        "c24-worker" => c24::worker(&args[1..]),
        "c20-child" => c20::child(&args[1..]),
        "c04-worker" => c04::worker(&args),
        "c05-worker" => c05::worker(&args),
        "c05-holder" => c05::holder(&args),
        "c22-worker" => c22::worker(),
        "dump-pep508" => c11::dump(),
        "dump-pep440" => c09::dump(),
        _ => {
            eprintln!("unknown property {what}");
            std::process::exit(6);
        }
    }
}
