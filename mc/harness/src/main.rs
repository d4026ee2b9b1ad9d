mod c01;
mod c05;
mod c07;
mod c11;
mod c14;
mod c17;
mod c19;
mod c20;
mod c22;
mod c24;
mod c25;
mod c26;
mod c27;
mod common;
mod core;
mod forkx;
mod props;
mod rec;
mod refre;
mod refscan;
mod refval;
use crate::core::*;

fn main() {
    once_init();
    let a: Vec<String> = std::env::args().collect();
    let id = a[1].clone();
    let mut only = None;
    if a.len() > 3 && a[2] == "--only" {
        let (s, i) = a[3].rsplit_once(':').unwrap();
        only = Some((s.to_string(), i.parse().unwrap()));
    }
    let c = Ctx::new(&id, only);
    match id.as_str() {
        "C01" => c01::c01(&c),
        "C02" => c01::c02(&c),
        "C03" => c01::c03(&c),
        "C04" => c01::c04(&c),
        "C05" => c05::c05(&c),
        "C06" => c05::c06(&c),
        "C07" => c07::c07(&c),
        "C08" => c07::c08(&c),
        "C09" => c07::c09(&c),
        "C10" => c05::c10(&c),
        "C11" => c11::c11(&c),
        "C12" => c11::c12(&c),
        "C13" => c11::c13(&c),
        "C14" => c14::c14(&c),
        "C15" => c14::c15(&c),
        "C16" => c14::c16(&c),
        "C17" => c17::c17(&c),
        "C18" => c17::c18(&c),
        "C19" => c19::c19(&c),
        "C20" => c20::c20(&c),
        "C21" => c19::c21(&c),
        "C22" => c22::c22(&c),
        "C23" => c26::c23(&c),
        "C24" => c24::c24(&c),
        "C25" => c25::c25(&c),
        "C26" => c26::c26(&c),
        "C27" => c27::c27(&c),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
    c.finish_and_exit()
}
