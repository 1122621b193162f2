//! C19: what databases may be called, and which files are touched.
use crate::model::*;
use crate::util::*;
use rt::*;
use tokio::fs::disk;

/// Every path the daemon used so far lies directly inside its directory.
fn contained() {
    let b = base().as_bytes();
    for p in &disk().used {
        let mut rest: &[u8] = p;
        let mut ok = rest.starts_with(b);
        if ok {
            rest = &rest[b.len()..];
            while !rest.is_empty() && rest[0] == b'/' {
                rest = &rest[1..];
            }
            let sep = p.len() > b.len() + rest.len();
            ok = rest.is_empty() || (sep && !rest.contains(&b'/') && !rest.contains(&0) && rest != b"." && rest != b"..");
        }
        check(ok, "only files directly inside the directory");
    }
}
fn create(n: &str, how: u32) -> Op {
    let db = n.to_string();
    match how {
        0 => Op::New { db, overwrite: any() },
        1 => Op::Content { db, overwrite: any(), with: vec![("x".into(), int(5))] },
        _ => Op::Put { db, key: "x".into(), v: int(5), create: true, overwrite: any() },
    }
}
fn step(m: &mut Model, o: &Op) {
    let w = m.apply(o);
    check(w.is(&o.run()), "answer");
}
/// A database is asked for by this name; if there is one, it is kept like any other.
fn asked_for(n: &str, full: bool) {
    disk().log = true;
    start();
    let mut m = Model::new();
    step(&mut m, &Op::Put { db: "a".into(), key: "x".into(), v: int(1), create: true, overwrite: true });
    let o = create(n, choice(3));
    let a = o.run();
    if n.is_empty() {
        // neither a file name nor refused by the documentation
        if a.0 != 400 {
            check(m.apply(&o).is(&a), "answer");
        }
    } else {
        check(m.apply(&o).is(&a), "refused just if it is no name");
    }
    if a.0 == 400 {
        cover("refused");
    } else {
        cover("taken");
    }
    read_out(&m, false);
    if !full {
        contained();
        return;
    }
    tokio::stub::tick();
    tokio::stub::run();
    contained();
    if choice(2) == 1 {
        step(&mut m, &Op::Drop(n.to_string()));
        contained();
    }
    restart();
    contained();
    check(axum::stub::listening(), "it starts");
    read_out(&m, false);
}
#[no_mangle]
pub extern "C" fn c19_empty() {
    asked_for("", true)
}
#[no_mangle]
pub extern "C" fn c19_one() {
    asked_for(&chars(1), true)
}
#[no_mangle]
pub extern "C" fn c19_two() {
    asked_for(&chars(2), false)
}
#[no_mangle]
pub extern "C" fn c19_three() {
    asked_for(&ascii(3), false)
}
#[no_mangle]
pub extern "C" fn c19t_three_kept() {
    let n = ascii(3);
    assume(!bad_name(&n));
    asked_for(&n, true)
}
#[no_mangle]
pub extern "C" fn c19_three_kept() {
    let mut n = "a".to_string();
    n.insert_str(choice(2) as usize, &ascii(2));
    assume(!bad_name(&n));
    asked_for(&n, true)
}
#[no_mangle]
pub extern "C" fn c19t_four() {
    asked_for(&ascii(4), false)
}
#[no_mangle]
pub extern "C" fn c19t_six() {
    asked_for(&ascii(6), false)
}
/// Names like the reserved one.
#[no_mangle]
pub extern "C" fn c19_like_meta() {
    let mut n = b"meta".to_vec();
    match choice(3) {
        0 => n[choice(4) as usize] = any::<u8>() & 0x7f,
        1 => n.insert(choice(5) as usize, any::<u8>() & 0x7f),
        _ => {
            n.remove(choice(4) as usize);
        }
    }
    asked_for(std::str::from_utf8(&n).unwrap(), true)
}
/// Long names with one free character.
#[no_mangle]
pub extern "C" fn c19_long() {
    let l = [128, 250, 251, 252, 255, 256, 300][choice(7) as usize];
    let mut n = "n".repeat(l);
    n.push_str(&ascii(1));
    asked_for(&n[1..], true)
}
/// Ways out of a directory.
#[no_mangle]
pub extern "C" fn c19_ways_out() {
    let all = ["../a", "..", ".", "/", "/etc/a", "a/../../b", "./a", "../meta", "a/", "x\0", "\0", "..\\a", "~", "meta/", "a/b", "//", "%2e%2e%2f", "\u{e9}", "a\u{2215}b", "save.tmp", "meta.sdb"];
    asked_for(all[choice(all.len() as u32) as usize], true)
}
/// Any other request with a free name touches no files either.
#[no_mangle]
pub extern "C" fn c19_other_requests() {
    disk().log = true;
    start();
    let mut m = Model::new();
    step(&mut m, &Op::Put { db: "a".into(), key: "x".into(), v: int(1), create: true, overwrite: true });
    tokio::stub::tick();
    tokio::stub::run();
    let db = match choice(3) {
        0 => chars(1),
        1 => ascii(3),
        _ => ["../a", "meta", "", "/", "/d/a", ".."][choice(6) as usize].to_string(),
    };
    let key = "x".to_string();
    let o = match choice(6) {
        0 => Op::Clear(db),
        1 => Op::Drop(db),
        2 => Op::Get { db, key },
        3 => Op::Remove { db, key },
        4 => Op::Whole(db),
        _ => Op::Put { db, key, v: int(4), create: false, overwrite: true },
    };
    step(&mut m, &o);
    tokio::stub::tick();
    tokio::stub::run();
    contained();
    restart();
    contained();
    read_out(&m, false);
    cover("taken");
}
/// Keys are no part of any path.
#[no_mangle]
pub extern "C" fn c19_keys() {
    disk().log = true;
    start();
    let mut m = Model::new();
    let key = ["../a", "/etc/x", "\0", "..", "meta"][choice(5) as usize].to_string();
    step(&mut m, &Op::Put { db: "a".into(), key: key.clone(), v: int(1), create: true, overwrite: true });
    step(&mut m, &Op::Get { db: "a".into(), key: key.clone() });
    tokio::stub::tick();
    tokio::stub::run();
    step(&mut m, &Op::Remove { db: "a".into(), key });
    contained();
    restart();
    contained();
}
