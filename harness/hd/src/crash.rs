//! C18: what is on disk.
use crate::model::*;
use crate::util::*;
use rt::*;
use sourisdb::values::Value;
use tokio::fs::disk;
use tokio::stub;

fn s(x: &str) -> String {
    x.into()
}
fn step(m: &mut Model, o: &Op) {
    let w = m.apply(o);
    check(w.is(&o.run()), "answer");
}
/// The time between two saves passes.
fn tick() {
    stub::tick();
    stub::run();
}
/// The daemon is asked to end, and does.
fn stop() {
    stop_by(false)
}
fn stop_by(ctrl_c: bool) {
    stub::stop(ctrl_c);
    stub::run();
    check(stub::crashed() || stub::finished(0), "it ends");
}
fn save(how: u32) {
    match how {
        0 => tick(),
        _ => stop(),
    }
}
fn reads_back(m: &Model) {
    check(axum::stub::listening(), "it starts");
    read_out(m, true);
}
/// Any request of those which change something.
fn change(v: u8) -> Op {
    let db = s(["a", "b"][choice(2) as usize]);
    let v = int(v);
    match choice(7) {
        0 => Op::Put { db, key: s("x"), v, create: true, overwrite: true },
        1 => Op::Drop(db),
        2 => Op::Clear(db),
        3 => Op::New { db, overwrite: false },
        4 => Op::Content { db, overwrite: true, with: vec![(s("y"), v)] },
        5 => Op::Content { db, overwrite: false, with: vec![(s("y"), v)] },
        _ => Op::Remove { db, key: s("x") },
    }
}
fn put(m: &mut Model, db: &str, key: &str, v: Value) {
    step(m, &Op::Put { db: s(db), key: s(key), v, create: true, overwrite: true });
}
/// Nothing, an empty database, one or two with contents.
fn before(m: &mut Model, n: u32) {
    match n {
        0 => {}
        1 => step(m, &Op::New { db: s("a"), overwrite: false }),
        2 => put(m, "a", "x", int(7)),
        _ => {
            put(m, "a", "x", int(7));
            put(m, "b", "x", int(9));
        }
    }
}
fn somewhere() {
    place([Place::Told, Place::Root, Place::User][choice(3) as usize]);
}
/// Saved, more requests, saved again, started again.
fn saved(n: u32) {
    start();
    let mut m = Model::new();
    before(&mut m, choice(4));
    if choice(2) == 1 {
        tick();
    }
    for i in 0..n {
        step(&mut m, &change(20 + i as u8));
    }
    match choice(3) {
        0 => tick(),
        how => stop_by(how == 1),
    }
    restart();
    reads_back(&m);
    cover("saved");
}
#[no_mangle]
pub extern "C" fn c18_saved_1() {
    somewhere();
    saved(1)
}
#[no_mangle]
pub extern "C" fn c18_saved_2() {
    saved(2)
}
#[no_mangle]
pub extern "C" fn c18t_saved_3() {
    saved(3)
}
/// Names of one free character.
#[no_mangle]
pub extern "C" fn c18_free_names() {
    start();
    let mut m = Model::new();
    for i in 0..2 {
        let n = ascii(1);
        assume(n != "\0" && n != "/");
        put(&mut m, &n, "x", int(30 + i));
    }
    let how = choice(2);
    save(how);
    if how == 0 && choice(2) == 1 {
        let n = ascii(1);
        assume(n != "\0" && n != "/");
        step(&mut m, &Op::Drop(n));
        if choice(2) == 1 {
            tick();
        }
    }
    restart();
    reads_back(&m);
    cover("saved");
}
/// Names which look like those of other files.
#[no_mangle]
pub extern "C" fn c18_odd_names() {
    start();
    let mut m = Model::new();
    let names = ["meta.sdb", "save", "save.tmp", "a.sdb", "..", ".", " ", "existing_dbs", "META", "metb", ".sdb", "%2e", "a\\b", "a\nb"];
    let i = choice(names.len() as u32) as usize;
    put(&mut m, names[i], "x", int(1));
    put(&mut m, "a", "x", int(2));
    let how = choice(2);
    save(how);
    if how == 0 && choice(2) == 1 {
        step(&mut m, &Op::Drop(s(["a", names[i]][choice(2) as usize])));
    }
    restart();
    reads_back(&m);
    cover("saved");
}
/// Contents of many lengths, around those of buffers.
#[no_mangle]
pub extern "C" fn c18_lengths() {
    start();
    let mut m = Model::new();
    let n = [100, 110, 111, 112, 113, 114, 115, 116, 240, 300][choice(10) as usize];
    put(&mut m, "a", "x", Value::String("\u{1}".repeat(n)));
    let mut seed = 12345u32;
    let b: Vec<u8> = (0..n)
        .map(|_| {
            seed = seed.wrapping_mul(1664525).wrapping_add(1013904223);
            (seed >> 24) as u8
        })
        .collect();
    put(&mut m, "b", "x", Value::Binary(sourisdb::types::binary::BinaryData(b)));
    save(choice(2));
    restart();
    reads_back(&m);
    cover("saved");
}
/// Long names, up to the longest that are taken.
#[no_mangle]
pub extern "C" fn c18_long_names() {
    start();
    let mut m = Model::new();
    let n = [200, 246, 247, 248, 249, 250, 251][choice(7) as usize];
    let n = "n".repeat(n);
    step(&mut m, &Op::New { db: n.clone(), overwrite: false });
    put(&mut m, "a", "x", int(2));
    save(choice(2));
    restart();
    reads_back(&m);
    cover("saved");
}
/// Many databases, of which some go and some change again.
#[no_mangle]
pub extern "C" fn c18_many() {
    start();
    let mut m = Model::new();
    let n = [12, 40, 120][choice(3) as usize];
    for i in 0..n {
        put(&mut m, &format!("db{i}"), "x", int(i as u8));
    }
    save(0);
    if choice(2) == 1 {
        for i in 0..n / 3 {
            step(&mut m, &Op::Drop(format!("db{}", 3 * i)));
            put(&mut m, &format!("db{}", 3 * i + 1), "y", int(1));
        }
        save(choice(2));
    }
    restart();
    reads_back(&m);
    cover("saved");
}
/// Databases with many keys.
#[no_mangle]
pub extern "C" fn c18_many_keys() {
    start();
    let mut m = Model::new();
    let n = [12, 60, 238, 239, 240, 260][choice(6) as usize];
    let with: Vec<_> = (0..n).map(|i| (format!("key{i}"), int(i as u8))).collect();
    step(&mut m, &Op::Content { db: s("a"), overwrite: true, with });
    put(&mut m, "b", "x", int(2));
    save(choice(2));
    restart();
    check(Want::Store(m.db("a").unwrap().clone()).is(&Op::Whole(s("a")).run()), "a whole database");
    check(Want::Store(m.db("b").unwrap().clone()).is(&Op::Whole(s("b")).run()), "a whole database");
    cover("saved");
}
/// Saving again and again, with and without changes between.
#[no_mangle]
pub extern "C" fn c18_rounds() {
    rounds(2)
}
#[no_mangle]
pub extern "C" fn c18t_rounds() {
    rounds(3)
}
fn rounds(n: u8) {
    start();
    let mut m = Model::new();
    put(&mut m, "a", "x", int(1));
    for i in 0..n {
        match choice(5) {
            0 => {}
            1 => put(&mut m, "a", "x", int(10 + i)),
            2 => put(&mut m, "b", "y", int(20 + i)),
            3 => step(&mut m, &Op::Drop(s("a"))),
            _ => step(&mut m, &Op::Clear(s("a"))),
        }
        match choice(3) {
            0 => {}
            1 => tick(),
            _ => {
                stop();
                restart();
            }
        }
    }
    stop();
    restart();
    reads_back(&m);
    cover("saved");
}
/// A request which comes when the daemon is asked to end, before or after.
fn at_the_end(n: u32, prior: u32) {
    start();
    let mut m = Model::new();
    before(&mut m, prior);
    let old = m.clone();
    let o = change(21);
    let w = m.apply(&o);
    stub::concurrent(true, n);
    let first = choice(2) == 1;
    if first {
        stub::stop(true);
    }
    let answer = std::rc::Rc::new(std::cell::RefCell::new(None));
    let (a, (mt, p, q, b)) = (answer.clone(), o.request());
    stub::add(Box::pin(async move {
        let x = ask(mt, p, q, b).await;
        *a.borrow_mut() = Some(x);
    }));
    if !first {
        stub::stop(false);
    }
    stub::run();
    stub::concurrent(false, 0);
    check(stub::finished(0), "it ends");
    let answered = answer.borrow_mut().take().unwrap_or((0, vec![]));
    restart();
    if answered.0 == 0 {
        cover("not taken");
        reads_back(&old);
    } else {
        cover("answered");
        check(w.is(&answered), "answer");
        reads_back(&m);
    }
}
#[no_mangle]
pub extern "C" fn c18_at_the_end() {
    at_the_end(2, 2);
}
#[no_mangle]
pub extern "C" fn c18t_at_the_end() {
    at_the_end(4, choice(4));
}
/// Whether a database reads back as it was in one of the models.
fn one_of(ms: &[&Model]) -> Model {
    check(axum::stub::listening(), "it starts");
    let mut now = Model::new();
    let (st, b) = Op::Names.run();
    check(st == 200, "names");
    let names: Vec<String> = serde_json::from_slice(&b).unwrap_or_default();
    for n in &names {
        let (_, b) = Op::Whole(n.clone()).run();
        let got = sourisdb::store::Store::deser(&b);
        let got = match got {
            Ok(x) => x,
            Err(_) => {
                check(false, "a whole database");
                return now;
            }
        };
        let mut found = None;
        for m in ms {
            if let Some(d) = m.db(n) {
                if holds(&got, d) {
                    found = Some(d.clone());
                }
            }
        }
        check(found.is_some(), "a database as it was before or after");
        now.0.push((n.clone(), found.unwrap_or_default()));
    }
    check(now.0.len() == names.len(), "names once each");
    for n in ["a", "b", "c"] {
        if now.db(n).is_none() {
            let mut missing = false;
            for m in ms {
                missing |= m.db(n).is_none();
            }
            check(missing, "a database is lost");
        }
    }
    now
}
/// Requests after a save, then a save which dies or fails.
fn broken(changes: u32, crash: bool, prior: u32) {
    start();
    let mut m = Model::new();
    before(&mut m, prior);
    tick();
    let old = m.clone();
    for i in 0..changes {
        step(&mut m, &change(20 + i as u8));
    }
    disk().crashes = crash as u32;
    disk().errors = !crash as u32;
    let how = choice(2);
    save(how);
    let (died, failed) = (stub::crashed(), !crash && disk().errors == 0);
    if died {
        cover("died");
    }
    if failed {
        cover("failed");
    }
    if !died && !failed {
        disk().crashes = 0;
        disk().errors = 0;
        restart();
        reads_back(&m);
        return;
    }
    if failed && how == 0 && choice(2) == 1 {
        // the next save works, and the one after it
        tick();
        if choice(2) == 1 {
            put(&mut m, "a", "z", int(3));
            tick();
        }
        restart();
        reads_back(&m);
        return;
    }
    restart();
    let now = one_of(&[&old, &m]);
    // and so does the first one of the next process
    save(how);
    restart();
    reads_back(&now);
}
#[no_mangle]
pub extern "C" fn c18_dies_saving() {
    broken(1, true, 1 + choice(3))
}
#[no_mangle]
pub extern "C" fn c18_dies_saving_first() {
    somewhere();
    broken(1, true, 0)
}
#[no_mangle]
pub extern "C" fn c18_fails_saving() {
    broken(1, false, 1 + choice(3))
}
#[no_mangle]
pub extern "C" fn c18_fails_saving_first() {
    somewhere();
    broken(1, false, 0)
}
#[no_mangle]
pub extern "C" fn c18t_dies_saving() {
    broken(2, true, choice(4))
}
/// Two or more processes, each of which dies while saving or fails to.
fn again_and_again(n: u8, any_change: bool) {
    start();
    let mut m = Model::new();
    before(&mut m, 2);
    tick();
    for i in 0..n {
        let old = m.clone();
        if any_change {
            step(&mut m, &change(20 + i));
        } else {
            let db = if i == 0 || choice(2) == 1 { "b" } else { "a" };
            put(&mut m, db, "x", int(20 + i));
        }
        let crash = choice(2) == 1;
        disk().crashes = crash as u32;
        disk().errors = !crash as u32;
        tick();
        let happened = if crash { stub::crashed() } else { disk().errors == 0 };
        disk().crashes = 0;
        disk().errors = 0;
        if !happened {
            return;
        }
        cover(if crash { "died" } else { "failed" });
        restart();
        m = one_of(&[&old, &m]);
    }
    tick();
    restart();
    reads_back(&m);
}
#[no_mangle]
pub extern "C" fn c18_again_and_again() {
    again_and_again(2, false)
}
#[no_mangle]
pub extern "C" fn c18t_again_and_again() {
    again_and_again(2, true)
}
#[no_mangle]
pub extern "C" fn c18t_three_times() {
    again_and_again(3, false)
}
#[no_mangle]
pub extern "C" fn c18t_fails_saving() {
    broken(2, false, choice(4))
}
/// A database is removed, and the process dies or removing the file fails.
#[no_mangle]
pub extern "C" fn c18_dies_removing() {
    start();
    let mut m = Model::new();
    before(&mut m, 3);
    if choice(2) == 1 {
        tick();
    }
    let on_disk = m.clone();
    let was = disk().tree.len() > 1;
    disk().crashes = 1;
    let o = Op::Drop(s("a"));
    let a = o.run();
    disk().crashes = 0;
    let mut after = m.clone();
    after.apply(&o);
    if stub::crashed() {
        cover("died");
    } else {
        check(a.0 == 200, "removed");
    }
    restart();
    if was {
        one_of(&[&on_disk, &after]);
    } else {
        reads_back(&Model::new());
    }
}
#[no_mangle]
pub extern "C" fn c18_fails_removing() {
    start();
    let mut m = Model::new();
    before(&mut m, 3);
    tick();
    disk().errors = 1;
    let o = Op::Drop(s("a"));
    let a = o.run();
    let failed = disk().errors == 0;
    disk().errors = 0;
    if failed {
        cover("failed");
        check(a.0 >= 500, "told about it");
    } else {
        check(m.apply(&o).is(&a), "removed");
    }
    read_out(&m, true);
    if choice(2) == 1 {
        save(choice(2));
    }
    restart();
    reads_back(&m);
}
/// Requests while a save goes on, which may die.
#[no_mangle]
pub extern "C" fn c18_requests_while_saving() {
    start();
    let mut m = Model::new();
    before(&mut m, 3);
    tick();
    let mut seen = vec![m.clone()];
    if choice(2) == 1 {
        put(&mut m, "b", "x", int(20));
        seen.push(m.clone());
    }
    let o = change(21);
    m.apply(&o);
    seen.push(m.clone());
    let crash = choice(2) == 1;
    disk().crashes = crash as u32;
    stub::concurrent(true, 1);
    stub::tick();
    let t = {
        let (mt, p, q, b) = o.request();
        stub::add(Box::pin(async move {
            ask(mt, p, q, b).await;
        }))
    };
    stub::run();
    disk().crashes = 0;
    let died = stub::crashed();
    if !died {
        check(stub::finished(t), "answered");
        stub::concurrent(false, 0);
        read_out(&m, true);
    } else {
        cover("died");
    }
    let next = !died && choice(2) == 1;
    if next {
        tick();
    }
    restart();
    if next {
        reads_back(&m);
    } else {
        let seen: Vec<&Model> = seen.iter().collect();
        one_of(&seen);
    }
}
/// A database is removed whilst one with that name is made, and saved once it is.
fn again(n: u32) {
    start();
    let mut m = Model::new();
    before(&mut m, 2 + choice(2));
    tick();
    stub::concurrent(true, n);
    let (mt, p, q, b) = Op::Drop(s("a")).request();
    let t = stub::add(Box::pin(async move {
        ask(mt, p, q, b).await;
    }));
    let (db, v) = (s("a"), int(21));
    let o = match choice(3) {
        0 => Op::Put { db, key: s("x"), v, create: true, overwrite: true },
        1 => Op::New { db, overwrite: true },
        _ => Op::Content { db, overwrite: false, with: vec![(s("y"), v)] },
    };
    let (mt, p, q, b) = o.request();
    let u = stub::add(Box::pin(async move {
        ask(mt, p, q, b).await;
        stub::tick();
    }));
    stub::run();
    stub::concurrent(false, 0);
    check(stub::finished(t) && stub::finished(u), "answered");
    // in one of the orders
    let (mut x, mut y) = (m.clone(), m.clone());
    x.apply(&Op::Drop(s("a")));
    x.apply(&o);
    y.apply(&o);
    y.apply(&Op::Drop(s("a")));
    let there = Op::Whole(s("a")).run().0 == 200;
    let now = if there == x.db("a").is_some() { x } else { y };
    cover(if there { "made again" } else { "gone" });
    restart();
    reads_back(&now);
}
#[no_mangle]
pub extern "C" fn c18_made_again() {
    again(1);
}
#[no_mangle]
pub extern "C" fn c18t_made_again() {
    again(2);
}
/// Reads and writes which stop short of the end.
#[no_mangle]
pub extern "C" fn c18_short() {
    start();
    let mut m = Model::new();
    put(&mut m, "a", "x", int(7));
    let saving = choice(2) == 1;
    if saving {
        disk().shorts = 2;
    }
    save(choice(2));
    if !saving {
        disk().shorts = 2;
    }
    restart();
    if disk().shorts == 0 {
        cover("short");
    }
    disk().shorts = 0;
    reads_back(&m);
}
/// What was acknowledged before the daemon is asked to end is kept.
#[no_mangle]
pub extern "C" fn c18_asked_to_end() {
    start();
    let mut m = Model::new();
    before(&mut m, choice(4));
    step(&mut m, &change(20));
    stub::concurrent(true, 2);
    stub::tick();
    stub::stop(choice(2) == 1);
    stub::run();
    stub::concurrent(false, 0);
    check(stub::finished(0), "it ends");
    restart();
    reads_back(&m);
    cover("saved");
}

/// Any of those numbers which are written alike.
fn free() -> u8 {
    let n = any();
    assume(32 <= n && n < 64);
    n
}
/// Power is lost: at any step of a save, or with nothing going on after one.
fn power(m: &mut Model, old: Vec<Model>, changes: &[Op], how: u32) {
    let mut seen = old;
    tokio::fs::may_lose_power();
    for o in changes {
        step(m, o);
        seen.push(m.clone());
    }
    let later = choice(2) == 1;
    disk().crashes = !later as u32;
    save(how);
    if stub::crashed() {
        cover("lost while saving");
    } else {
        assume(later);
        cover("lost later");
    }
    restart();
    let seen: Vec<&Model> = seen.iter().collect();
    let now = one_of(&seen);
    // and the daemon goes on
    save(how);
    restart();
    reads_back(&now);
}
/// One change of each kind which differs for what is on disk.
fn written() -> Op {
    let db = s(["a", "b"][choice(2) as usize]);
    match choice(3) {
        0 => Op::Put { db, key: s("x"), v: int(free()), create: true, overwrite: true },
        1 => Op::Drop(db),
        _ => Op::Clear(db),
    }
}
#[no_mangle]
pub extern "C" fn c29_first_save() {
    somewhere();
    start();
    let mut m = Model::new();
    let n = 1 + choice(3);
    let mut seen = vec![m.clone()];
    if n == 3 {
        put(&mut m, "a", "x", int(7));
        seen.push(m.clone());
    }
    let o = [Op::Put { db: s("b"), key: s("x"), v: int(free()), create: true, overwrite: true }, Op::New { db: s("a"), overwrite: false }];
    power(&mut m, seen, &o[(n == 2) as usize..][..1], 0);
}
#[no_mangle]
pub extern "C" fn c29_later_save() {
    start();
    let mut m = Model::new();
    before(&mut m, 1 + choice(3));
    tick();
    let o = written();
    let old = m.clone();
    power(&mut m, vec![old], &[o], 0);
}
/// Two changes, so that a database can go and come again.
#[no_mangle]
pub extern "C" fn c29_two_changes() {
    start();
    let mut m = Model::new();
    put(&mut m, "a", "x", int(7));
    tick();
    let o = [written(), written()];
    let old = m.clone();
    power(&mut m, vec![old], &o, 0);
}
/// Nothing of an earlier save was kept for sure when the next one begins.
#[no_mangle]
pub extern "C" fn c29_two_saves() {
    start();
    let mut m = Model::new();
    put(&mut m, "a", "x", int(7));
    tick();
    let mut seen = vec![m.clone()];
    tokio::fs::may_lose_power();
    step(&mut m, &written());
    seen.push(m.clone());
    tick();
    step(&mut m, &written());
    seen.push(m.clone());
    let later = choice(2) == 1;
    disk().crashes = !later as u32;
    tick();
    if !stub::crashed() {
        assume(later);
        cover("lost later");
    }
    restart();
    let seen: Vec<&Model> = seen.iter().collect();
    one_of(&seen);
}
/// Contents longer than one read.
#[no_mangle]
pub extern "C" fn c29_longer() {
    start();
    let mut m = Model::new();
    put(&mut m, "a", "x", Value::String("x".repeat(200)));
    tick();
    let old = m.clone();
    let o = Op::Put { db: s("a"), key: s("x"), v: Value::String("\u{1}yz".repeat([1, 100][choice(2) as usize])), create: true, overwrite: true };
    power(&mut m, vec![old], &[o], 0);
}
