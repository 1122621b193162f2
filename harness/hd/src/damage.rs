//! C30: files which are damaged.
use crate::model::*;
use crate::util::*;
use rt::*;
use sourisdb::store::Store;
use sourisdb::values::Value;
use tokio::fs::{disk, Node};
use tokio::stub;

fn inode(name: &str) -> usize {
    let p = format!("{}/{name}", base()).into_bytes();
    let mut found = None;
    for e in &disk().tree {
        if e.0 == p {
            if let Node::File(i) = e.1 {
                found = Some(i);
            }
        }
    }
    check(found.is_some(), "the file is there");
    found.unwrap_or(0)
}
fn content(name: &str) -> Vec<u8> {
    disk().inodes[inode(name)].clone()
}
fn put(m: &mut Model, db: &str, key: &str, v: Value) {
    let o = Op::Put { db: db.into(), key: key.into(), v, create: true, overwrite: true };
    let w = m.apply(&o);
    check(w.is(&o.run()), "answer");
}
fn save() {
    stub::tick();
    stub::run();
}
/// Three databases, saved, and the daemon gone.
fn three() -> Model {
    three_with(int(7))
}
/// The first of the three holds something of another kind.
fn three_of_kinds() -> Model {
    three_with(match choice(4) {
        0 => int(7),
        1 => Value::String("aab".into()),
        2 => Value::Array(vec![Value::Null(()), Value::Boolean(true)]),
        _ => Value::Binary(sourisdb::types::binary::BinaryData(vec![1, 1, 1])),
    })
}
fn three_with(v: Value) -> Model {
    start();
    let mut m = Model::new();
    put(&mut m, "a", "x", v);
    put(&mut m, "b", "x", Value::String("some text".into()));
    put(&mut m, "c", "y", Value::Boolean(true));
    save();
    kill();
    m
}
/// What is served of a database: nothing, or what its file holds.
fn served(name: &str, file: &[u8]) -> bool {
    let (st, b) = Op::Whole(name.into()).run();
    let held = Store::deser(file).ok();
    if st != 200 {
        check(held.is_none(), "what can be read is served");
        cover("not served");
        return false;
    }
    match (Store::deser(&b), held) {
        (Ok(s), Some(h)) => check(s == h, "what the file holds"),
        _ => check(false, "what the file holds"),
    }
    cover("served");
    true
}
/// The file of the first database is damaged.
fn damaged(m: &Model, now: &[u8], again: bool) {
    let i = inode("a.sdb");
    disk().inodes[i] = now.to_vec();
    start();
    check(axum::stub::listening(), "it starts");
    let there = served("a", now);
    others(m);
    if !again {
        return;
    }
    let mut rest = m.clone();
    rest.0.retain(|e| e.0 != "a");
    put(&mut rest, "d", "z", int(5));
    save();
    if there {
        restart();
        check(served("a", now), "still served");
    } else {
        check(content("a.sdb") == now, "the file is left as it is");
        // until there is such a database again
        if choice(2) == 1 {
            put(&mut rest, "a", "new", int(1));
            save();
        }
        restart();
    }
    for (n, d) in &rest.0 {
        check(Want::Store(d.clone()).is(&Op::Whole(n.clone()).run()), "another database");
    }
}
fn others(m: &Model) {
    for (n, d) in &m.0[1..] {
        check(Want::Store(d.clone()).is(&Op::Whole(n.clone()).run()), "another database");
    }
}
/// Any few bytes, or none.
#[no_mangle]
pub extern "C" fn c30_any_bytes() {
    let m = three();
    let b = bytes(choice(4) as usize);
    damaged(&m, &b, true);
}
/// Cut anywhere.
#[no_mangle]
pub extern "C" fn c30_cut() {
    let m = three_of_kinds();
    let mut b = content("a.sdb");
    b.truncate(choice(b.len() as u32) as usize);
    damaged(&m, &b, true);
}
/// Any one byte is another, or there are more.
#[no_mangle]
pub extern "C" fn c30_one_byte() {
    let m = three_of_kinds();
    let mut b = content("a.sdb");
    let i = choice(b.len() as u32 + 1) as usize;
    if i < b.len() {
        b[i] = any();
    } else {
        b.push(any());
    }
    damaged(&m, &b, i == 0);
}
/// Any two bytes next to each other.
#[no_mangle]
pub extern "C" fn c30t_two_bytes() {
    let m = three_of_kinds();
    let mut b = content("a.sdb");
    let i = choice(b.len() as u32 - 1) as usize;
    b[i] = any();
    b[i + 1] = any();
    damaged(&m, &b, false);
}
#[no_mangle]
pub extern "C" fn c30t_list_two_bytes() {
    let mut b = the_list();
    let i = choice(b.len() as u32 - 1) as usize;
    b[i] = any();
    b[i + 1] = any();
    list(&b);
}
/// The list of databases is damaged: nothing but what files hold is served.
fn list(now: &[u8]) {
    let m = three_of_one();
    let i = inode("meta.sdb");
    disk().inodes[i] = now.to_vec();
    let names = ["a", "b"];
    let was: Vec<_> = names.iter().map(|n| content(&format!("{n}.sdb"))).collect();
    unsafe {
        WAS = names.iter().zip(&was).map(|(n, w)| (format!("{n}.sdb"), w.clone())).collect();
        WAS.push(("meta.sdb".into(), now.to_vec()));
    }
    on_panic(Some(did_not_start));
    start();
    on_panic(None);
    if !axum::stub::listening() {
        did_not_start();
    }
    let listed = match Store::deser(now) {
        Ok(s) => match s.get("existing_dbs") {
            Some(Value::Array(l)) => l.clone(),
            _ => vec![],
        },
        Err(_) => {
            check(false, "it does not start without the list");
            vec![]
        }
    };
    cover("starts");
    let mut rest = m.clone();
    rest.0.retain(|e| listed.iter().any(|v| v.as_str() == Some(&e.0)));
    read_out(&rest, true);
    for (n, w) in names.iter().zip(&was) {
        check(content(&format!("{n}.sdb")) == *w, "no file is changed");
    }
}
static mut WAS: Vec<(String, Vec<u8>)> = vec![];
extern "C" fn did_not_start() {
    cover("does not start");
    let was: &Vec<(String, Vec<u8>)> = unsafe { &*std::ptr::addr_of!(WAS) };
    for (n, w) in was {
        check(content(n) == *w, "no file is changed");
    }
    done()
}
fn three_of_one() -> Model {
    start();
    let mut m = Model::new();
    put(&mut m, "a", "x", int(7));
    put(&mut m, "b", "x", int(9));
    save();
    kill();
    m
}
fn the_list() -> Vec<u8> {
    Store::new([("existing_dbs".to_string(), Value::Array(vec![Value::String("a".into()), Value::String("b".into())]))]).ser()
}
#[no_mangle]
pub extern "C" fn c30_list_any_bytes() {
    let b = bytes(choice(4) as usize);
    list(&b);
}
#[no_mangle]
pub extern "C" fn c30_list_cut() {
    let mut b = the_list();
    b.truncate(choice(b.len() as u32) as usize);
    list(&b);
}
#[no_mangle]
pub extern "C" fn c30_list_one_byte() {
    let mut b = the_list();
    let i = choice(b.len() as u32) as usize;
    b[i] = any();
    list(&b);
}
/// Lists of other things than names, and of databases without files.
#[no_mangle]
pub extern "C" fn c30_list_other() {
    let odd = || match choice(7) {
        0 => Value::Null(()),
        1 => int(5),
        2 => Value::Array(vec![Value::String("a".into())]),
        3 => Value::String("gone".into()),
        4 => Value::String(ascii(1)),
        5 => Value::String("b".into()),
        _ => Value::String("a".into()),
    };
    let l = match choice(4) {
        0 => odd(),
        1 => Value::Array(vec![]),
        2 => Value::Array(vec![odd(), Value::String("b".into())]),
        _ => Value::Array(vec![Value::String("a".into()), odd()]),
    };
    let mut s = vec![("existing_dbs".to_string(), l)];
    if choice(2) == 1 {
        s.push(("another".to_string(), Value::Array(vec![Value::String("b".into())])));
    }
    list(&Store::new(s).ser());
}
/// The file of a database, or the list, cannot be found or is something else.
#[no_mangle]
pub extern "C" fn c30_missing() {
    let m = three();
    let p = format!("{}/{}", base(), "a.sdb").into_bytes();
    disk().tree.retain(|e| e.0 != p);
    if choice(2) == 1 {
        disk().tree.push((p, Node::Dir));
    }
    start();
    check(axum::stub::listening(), "it starts");
    others(&m);
    check(Op::Whole("a".into()).run().0 != 200, "nothing is made up");
    cover("missing");
}
/// Files of others are left alone.
#[no_mangle]
pub extern "C" fn c30_of_others() {
    let m = three();
    let f = disk();
    let names = ["notes.txt", "z.sdb", "a", "a.sdb.bak", ".sdb", "META.sdb"];
    let n = names[choice(names.len() as u32) as usize];
    let b = bytes(2);
    f.inodes.push(b.clone());
    f.tree.push((format!("{}/{n}", base()).into_bytes(), Node::File(f.inodes.len() - 1)));
    start();
    check(axum::stub::listening(), "it starts");
    read_out(&m, true);
    let mut m = m;
    put(&mut m, "a", "y", int(3));
    save();
    restart();
    read_out(&m, true);
    check(content(n) == b, "the file is left as it is");
    cover("left");
}
