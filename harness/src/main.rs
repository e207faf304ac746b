#![feature(allocator_api)]
mod comb;
mod core;
mod enumr;
mod geo;
mod num;
mod p_hist;
mod p_impl;
mod p_mesh;
mod p_pred;
mod p_poly;
mod p_soup;
mod p_face;
mod p_tet;
mod p_tri;
mod seed;

use crate::core::*;

fn build(id: &str, tier: &str) -> Option<Check> {
    let th = tier == "thorough";
    Some(match id {
        "C01" => p_pred::c01(th),
        "C02" => p_pred::c02(th),
        "C03" => p_pred::c03(th),
        "C04" => p_pred::c04(th),
        "C05" => p_impl::c05(th),
        "C06" => p_impl::c06(th),
        "C07" => p_impl::c07(th),
        "C08" => p_pred::c08(th),
        "C09" => p_pred::c09(th),
        "C10" => p_mesh::c10(th),
        "C11" => p_mesh::c11(th),
        "C12" => p_mesh::c12(th),
        "C13" => comb::c13(th),
        "C14" => comb::c14(th),
        "C15" => comb::c15(th),
        "C16" => p_tri::c16(th),
        "C17" => p_tri::c17(th),
        "C24" => p_tri::c24(th),
        "C25" => p_soup::c25(th),
        "C18" => p_tri::c18(th),
        "C19" => p_tet::c19(th),
        "C20" => p_tet::c20(th),
        "C21" => p_poly::c21(th),
        "C22" => p_poly::c22(th),
        "C23" => p_face::c23(th),
        "C26" => p_hist::c26(th),
        _ => return None,
    })
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: gpfmc check <id> [quick|thorough] [family-filter] | replay <file> | one <id> <tier> <family> <index>");
        std::process::exit(2)
    };
    if a.len() < 3 {
        usage()
    }
    let code = match a[1].as_str() {
        "check" => {
            let tier = a.get(3).map(|s| s.as_str()).unwrap_or("quick");
            let c = build(&a[2], tier).unwrap_or_else(|| {
                eprintln!("unknown property {}", a[2]);
                std::process::exit(2)
            });
            let fams: Vec<String> = c.families.iter().map(|f| f.name.clone()).collect();
            drop(c);
            supervise(&a[2], tier, &fams, a.get(4).map(|s| s.as_str()))
        }
        "child" => child_main(build(&a[2], &a[3]).unwrap(), &a[3], &a[4], a.get(5).map(|s| s.as_str())),
        "one" => one_main(build(&a[2], &a[3]).unwrap(), &a[3], &a[4], a[5].parse().unwrap()),
        "replay" => {
            let s = std::fs::read_to_string(&a[2]).unwrap();
            let get = |k: &str| {
                s.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap().to_string()
            };
            one_main(
                build(&get("property"), &get("tier")).unwrap(),
                &get("tier"),
                &get("family"),
                get("index").parse().unwrap(),
            )
        }
        _ => usage(),
    };
    std::process::exit(code);
}
