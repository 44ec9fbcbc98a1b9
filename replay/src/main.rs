//! Concrete oracles: runs the real code of /repo on generated inputs and compares
//! with the property's own reference. `replay ID SEED MILLIS [CASE]`.
mod convert;
mod equal;
mod generate;
mod grammar;
mod reader;
mod runtime;
mod util;

use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a[1].clone();
    let seed: u64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1);
    let ms: u64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(5000);
    let case: Option<u64> = a.get(4).and_then(|x| x.parse().ok());
    let f: fn(&mut Case) = match id.as_str() {
        "C01" | "C02" => runtime::cursor,
        "C03" => runtime::literal,
        "C04" => runtime::classes,
        "C05" => runtime::lists,
        "C06" => runtime::whole,
        "C07" => grammar::types,
        "C08" => grammar::contexts,
        "C09" | "C10" => grammar::inference,
        "C11" => grammar::substitution,
        "C12" => grammar::reduction,
        "C13" => grammar::merging,
        "C14" => grammar::contents,
        "C15" | "C16" => convert::conversion,
        "C17" | "C18" => generate::program,
        "C19" | "C20" => generate::parsers,
        "C26" => grammar::diagnostics,
        "C27" => runtime::messages,
        "C28" => grammar::printing,
        "C24" => equal::equality,
        "C23" => reader::reading,
        _ => {
            println!("NONE");
            return;
        }
    };
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || run(&id, seed, ms, case, f))
        .unwrap()
        .join()
        .unwrap();
}
