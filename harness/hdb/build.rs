// Collects the harness functions (cNN_*, cNNt_*) of every module into one table.
use std::{env, fs, path::Path};
fn main() {
    let mut out = String::from("rt::harnesses!(");
    for f in fs::read_dir("src").unwrap() {
        let p = f.unwrap().path();
        let m = p.file_stem().unwrap().to_str().unwrap().to_string();
        if m == "main" || m == "util" || m == "gen" {
            continue;
        }
        println!("cargo:rerun-if-changed={}", p.display());
        let s = fs::read_to_string(&p).unwrap();
        let b = s.as_bytes();
        let mut names: Vec<&str> = vec![];
        let mut i = 0;
        while i + 4 < b.len() {
            let word = i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
            if word && b[i] == b'c' && b[i + 1].is_ascii_digit() && b[i + 2].is_ascii_digit() {
                let mut j = i + 3;
                if b[j] == b't' {
                    j += 1;
                }
                if b[j] == b'_' {
                    let mut k = j;
                    while k < b.len() && (b[k].is_ascii_alphanumeric() || b[k] == b'_') {
                        k += 1;
                    }
                    if !names.contains(&&s[i..k]) {
                        names.push(&s[i..k]);
                    }
                    i = k;
                    continue;
                }
            }
            i += 1;
        }
        for n in names {
            out.push_str(&format!("{m}::{n},"));
        }
    }
    out.push_str(");");
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("table.rs"), out).unwrap();
    println!("cargo:rerun-if-changed=src");
}
