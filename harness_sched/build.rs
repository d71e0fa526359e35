//! Takes the map's source as it is in the tree and puts scheduled primitives under it:
//! `std::sync` and `std::thread` become the shim's.

use std::path::{Path, PathBuf};
use std::{env, fs};

const SOURCE: &str = "/repo/goko/src/monomap";

/// `use std::{a, b::{c, d}};` as one use per item
fn split_groups(text: &str) -> String {
    let mut out = String::new();
    let mut rest = text;
    let open = "use std::{";
    while let Some(at) = rest.find(open) {
        let body = &rest[at + open.len()..];
        let mut depth = 1;
        let mut end = None;
        for (i, c) in body.char_indices() {
            match c {
                '{' => depth += 1,
                '}' => depth -= 1,
                _ => {}
            }
            if depth == 0 {
                end = Some(i);
                break;
            }
        }
        let end = match end {
            Some(e) => e,
            None => break,
        };
        out.push_str(&rest[..at]);
        let (mut depth, mut item) = (0, String::new());
        let mut items = vec![];
        for c in body[..end].chars() {
            match c {
                '{' => depth += 1,
                '}' => depth -= 1,
                _ => {}
            }
            if c == ',' && depth == 0 {
                items.push(std::mem::take(&mut item));
            } else {
                item.push(c);
            }
        }
        items.push(item);
        for i in items.iter().map(|i| i.trim()).filter(|i| !i.is_empty()) {
            out.push_str(&format!("use std::{};\n", i));
        }
        // the semicolon of the group is left as an empty item
        rest = &body[end + 1..];
        if rest.starts_with(';') {
            rest = &rest[1..];
        }
    }
    out.push_str(rest);
    out
}

fn convert(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let p = e.unwrap().path();
        let target = to.join(p.file_name().unwrap());
        if p.is_dir() {
            convert(&p, &target);
        } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
            println!("cargo:rerun-if-changed={}", p.display());
            let mut t = split_groups(&fs::read_to_string(&p).unwrap());
            for (a, b) in &[("core::sync::", "std::sync::"), ("std::sync", "crate::shim::sync"), ("std::thread", "crate::shim::thread"), ("std::hint", "crate::shim::hint"), ("#![deny(", "#![warn(")] {
                t = t.replace(a, b);
            }
            fs::write(target, t).unwrap();
        }
    }
}

fn main() {
    println!("cargo:rerun-if-changed={}", SOURCE);
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let to = out.join("monomap");
    let _ = fs::remove_dir_all(&to);
    convert(Path::new(SOURCE), &to);
    fs::write(out.join("map.rs"), format!("#[allow(warnings)]\n#[path = \"{}/mod.rs\"]\npub mod monomap;\n", to.display())).unwrap();
}
