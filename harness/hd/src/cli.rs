//! C28: the command line client.
use crate::model::*;
use crate::util::*;
use dialoguer::stub::{astray, left, script, Say};
use rt::*;
use sourisdb::chrono::{NaiveDate, NaiveDateTime};
use sourisdb::chrono_tz::TZ_VARIANTS;
use sourisdb::serde_json::{json, Value as J};
use sourisdb::store::Store;
use sourisdb::types::binary::BinaryData;
use sourisdb::types::imaginary::Imaginary;
use sourisdb::types::integer::Integer;
use sourisdb::values::Value;
use stdshim::fs;
use stdshim::printed;
use tokio::fs::disk;

type After = Box<dyn FnOnce(bool)>;
static mut AFTER: Option<After> = None;
fn ended(code: i32) {
    if let Some(f) = unsafe { (*std::ptr::addr_of_mut!(AFTER)).take() } {
        check(!astray(), "only the expected questions");
        check(left() == 0, "all of the questions");
        f(code == 0);
        cover(if code == 0 { "done" } else { "failed" });
    }
    done()
}
/// Runs the program with these words and these answers.
fn cli(words: &[&str], say: Vec<Say>, after: impl FnOnce(bool) + 'static) {
    clap::stub::command_line(words);
    script(say);
    printed::take();
    unsafe { AFTER = Some(Box::new(after)) };
    stdshim::process::at_exit(ended);
    ended(!mouse::stub_main() as i32)
}
fn text(s: impl Into<String>) -> Say {
    Say::Type(s.into())
}
fn pick(s: impl Into<String>) -> Say {
    Say::Pick(s.into())
}
fn yes(b: bool) -> Say {
    if b {
        Say::Yes
    } else {
        Say::No
    }
}
fn put(m: &mut Model, db: &str, key: &str, v: Value) {
    let o = Op::Put { db: db.into(), key: key.into(), v, create: true, overwrite: true };
    check(m.apply(&o).is(&o.run()), "before");
}
/// None, one or two databases, or one with nothing in it.
fn prior() -> Model {
    start();
    let mut m = Model::new();
    match choice(4) {
        0 => {}
        1 => {
            put(&mut m, "a", "x", int(7));
            put(&mut m, "a", "y", Value::Array(vec![Value::Boolean(true), Value::Null(())]));
        }
        2 => {
            put(&mut m, "a", "x", int(7));
            put(&mut m, "b", "x", Value::Boolean(false));
            put(&mut m, "b", "key", Value::Null(()));
        }
        _ => {
            let o = Op::New { db: "e".into(), overwrite: false };
            check(m.apply(&o).is(&o.run()), "before");
        }
    }
    m
}
/// The questions which name an existing database; none if there is none.
fn existing(m: &Model, say: &mut Vec<Say>) -> Option<String> {
    match m.0.len() {
        0 => None,
        1 => Some(m.0[0].0.clone()),
        n => {
            let n = m.0[choice(n as u32) as usize].0.clone();
            say.push(pick(n.clone()));
            Some(n)
        }
    }
}
/// The questions which name any database.
fn named(m: &Model, say: &mut Vec<Say>) -> Option<String> {
    if choice(2) == 0 {
        say.push(Say::No);
        return existing(m, say);
    }
    say.push(Say::Yes);
    match choice(4) {
        0 => say.push(text("meta")),
        1 => say.push(text("")),
        2 if !m.0.is_empty() => {
            say.push(text(m.0[0].0.clone()));
            say.push(Say::No);
        }
        _ => {}
    }
    let n = match choice(3) {
        0 => "new".to_string(),
        1 => "a/b".to_string(),
        _ => "a".to_string(),
    };
    say.push(text(n.clone()));
    if m.db(&n).is_some() {
        say.push(Say::Yes);
    }
    Some(n)
}
/// Perhaps the program is left at one of its questions.
fn interrupted(say: &mut Vec<Say>) -> bool {
    let i = choice(say.len() as u32 + 1) as usize;
    if i == say.len() {
        return false;
    }
    say.truncate(i);
    say.push(Say::Leave);
    cover("left");
    true
}
fn ok(w: &Want) -> bool {
    !matches!(w, Want::Status(c) if *c >= 400)
}
fn as_it_was(m: &Model, done: bool) {
    check(!done, "ends with an error");
    read_out(m, true);
}
fn said(parts: &[&str]) {
    let t = printed::take();
    for p in parts {
        check(t.contains(p), "says what it did");
    }
}
fn went() {
    check(axum::stub::host() == "host:7687", "to the daemon at that host");
}
#[no_mangle]
pub extern "C" fn c28_create() {
    let mut m = prior();
    let n = match choice(3) {
        0 => "a".to_string(),
        1 => "meta".to_string(),
        _ => ascii(1),
    };
    let mut say = vec![];
    let mut sure = true;
    let known = m.db(&n).is_some();
    if known {
        sure = choice(2) == 1;
        say.push(yes(sure));
    }
    let stopped = interrupted(&mut say);
    cli(&["host", "create-new", &n.clone()], say, move |done| {
        if stopped {
            return as_it_was(&m, done);
        }
        if sure {
            if !ok(&m.apply(&Op::New { db: n, overwrite: true })) {
                return as_it_was(&m, done);
            }
            said(&[if known { "cleared" } else { "created" }]);
        } else {
            said(&["Cancelled"]);
        }
        check(done, "done");
        went();
        read_out(&m, true)
    })
}
#[no_mangle]
pub extern "C" fn c28_add() {
    let mut m = prior();
    let mut say = vec![];
    let db = named(&m, &mut say);
    let key = ["x", "key", "\u{e9} k"][choice(3) as usize].to_string();
    let sure = choice(2) == 1;
    if db.is_some() {
        say.extend([text(key.clone()), pick("Integer"), text("37"), yes(sure)]);
    }
    let stopped = interrupted(&mut say);
    cli(&["host", "add-entry"], say, move |done| {
        let Some(db) = db else { return as_it_was(&m, done) };
        if stopped {
            return as_it_was(&m, done);
        }
        if sure {
            if !ok(&m.apply(&Op::Put { db, key: key.clone(), v: int(37), create: true, overwrite: true })) {
                return as_it_was(&m, done);
            }
            said(&[&key, "37"]);
        } else {
            said(&["Cancelled"]);
        }
        check(done, "done");
        went();
        read_out(&m, true)
    })
}
#[no_mangle]
pub extern "C" fn c28_change() {
    let mut m = prior();
    let mut say = vec![];
    let db = existing(&m, &mut say);
    let remove = choice(2) == 0;
    let sure = choice(2) == 1;
    let keys: Vec<String> = db.iter().flat_map(|d| m.db(d).unwrap()).map(|e| e.0.clone()).collect();
    let key = keys.get(choice(2) as usize).or(keys.first()).cloned();
    if let Some(k) = &key {
        say.push(pick(k.clone()));
        if !remove {
            say.extend([pick("String"), text("q q")]);
        }
        say.push(yes(sure));
    }
    let stopped = interrupted(&mut say);
    cli(&["host", if remove { "remove-entry" } else { "update-entry" }], say, move |done| {
        let Some(db) = db else { return as_it_was(&m, done) };
        if stopped {
            return as_it_was(&m, done);
        }
        if let (Some(key), true) = (key, sure) {
            let v = Value::String("q q".into());
            let o = if remove { Op::Remove { db, key } } else { Op::Put { db, key, v, create: true, overwrite: true } };
            check(ok(&m.apply(&o)), "possible");
        }
        check(done, "done");
        went();
        read_out(&m, true)
    })
}
#[no_mangle]
pub extern "C" fn c28_remove() {
    let mut m = prior();
    let mut say = vec![];
    let db = existing(&m, &mut say);
    let stopped = interrupted(&mut say);
    cli(&["host", "remove-database"], say, move |done| {
        let Some(db) = db else { return as_it_was(&m, done) };
        if stopped {
            return as_it_was(&m, done);
        }
        check(ok(&m.apply(&Op::Drop(db))), "possible");
        check(done, "done");
        went();
        read_out(&m, true)
    })
}
#[no_mangle]
pub extern "C" fn c28_view() {
    let m = prior();
    let mut say = vec![];
    let db = existing(&m, &mut say);
    let stopped = interrupted(&mut say);
    cli(&["host", "view-all"], say, move |done| {
        let Some(db) = db else { return as_it_was(&m, done) };
        if stopped {
            return as_it_was(&m, done);
        }
        let t = printed::take();
        for (k, v) in m.db(&db).unwrap() {
            let v = v.to_string();
            check(t.lines().any(|l| l.contains(k) && l.contains(&v)), "each entry");
        }
        check(done, "done");
        went();
        read_out(&m, true)
    })
}
fn some_json() -> (Vec<u8>, Option<J>) {
    let j = match choice(5) {
        0 => json!({}),
        1 => json!({"x": 1, "n": [null, true, -2], "o": {"i": "t"}}),
        2 => json!({"x": "p".repeat([119, 120, 121, 248, 300][choice(5) as usize])}),
        3 => json!([1]),
        _ => return (b"{\"x\": ".to_vec(), None),
    };
    (sourisdb::serde_json::to_vec(&j).unwrap(), Some(j))
}
#[no_mangle]
pub extern "C" fn c28_import() {
    import(prior(), 0)
}
/// Of which not all can be read at once, as from a pipe.
#[no_mangle]
pub extern "C" fn c28_import_slowly() {
    start();
    import(Model::new(), 2)
}
fn import(mut m: Model, shorts: u32) {
    let there = choice(4) > 0;
    let (b, j) = some_json();
    if there {
        check(fs::write("/in.json", &b).is_ok(), "before");
    }
    let want = if there { j } else { None };
    let mut say = vec![];
    let db = if want.is_some() { named(&m, &mut say) } else { None };
    let stopped = interrupted(&mut say);
    disk().shorts = shorts;
    cli(&["host", "import-from-json", "/in.json"], say, move |done| {
        disk().shorts = 0;
        check(!there || fs::read("/in.json").is_ok_and(|c| c == b), "the file stays");
        let (Some(db), Some(j)) = (db, want) else { return as_it_was(&m, done) };
        if stopped {
            return as_it_was(&m, done);
        }
        let s = Store::from_json(j).ok().unwrap();
        let with = s.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        if !ok(&m.apply(&Op::Content { db, overwrite: true, with })) {
            return as_it_was(&m, done);
        }
        check(done, "done");
        went();
        read_out(&m, true)
    })
}
#[no_mangle]
pub extern "C" fn c28_export() {
    let mut m = prior();
    let odd = choice(3);
    if odd > 0 {
        let v = if odd == 1 { Value::DoubleFloat(f64::NAN) } else { Value::Binary(BinaryData(bytes(1))) };
        put(&mut m, "a", "odd", v);
    }
    let before = [None, Some(vec![b'#'; 2]), Some(vec![b'#'; 2000])][choice(3) as usize].clone();
    if let Some(b) = &before {
        check(fs::write("/out.json", b).is_ok(), "before");
    }
    let mut say = vec![];
    let db = existing(&m, &mut say);
    let stopped = interrupted(&mut say);
    let add = choice(3);
    let mut words = vec!["host", "export-to-json", "/out.json"];
    if add > 0 {
        words.insert(choice(2) as usize + 2, if add == 1 { "--add-souris-types" } else { "-a" });
    }
    cli(&words, say, move |done| {
        let got = fs::read("/out.json").ok();
        read_out_but_nan(&m);
        let Some(db) = db.filter(|_| !stopped) else {
            check(!done, "ends with an error");
            return check(got == before, "the file is as it was");
        };
        went();
        let s = Store::new(m.db(&db).unwrap().iter().cloned());
        let Some(j) = s.clone().to_json(add > 0) else {
            cover("no json");
            return check(got == before, "the file is as it was");
        };
        check(done, "done");
        let Some(b) = got else { return check(false, "the file") };
        check(sourisdb::serde_json::from_slice::<J>(&b).is_ok_and(|k| k == j), "its JSON in the file");
        if add > 0 {
            check(Store::from_json_bytes(&b).is_ok_and(|t| t == s), "imports again");
        }
    })
}
fn read_out_but_nan(m: &Model) {
    let mut m = m.clone();
    for d in &mut m.0 {
        if d.1.iter().any(|e| matches!(e.1, Value::DoubleFloat(_))) {
            d.1.clear();
            return;
        }
    }
    read_out(&m, true);
}
/// Without a daemon nothing is done, and it says so.
#[no_mangle]
pub extern "C" fn c28_no_daemon() {
    let words: &[&str] = match choice(8) {
        0 => &["host", "create-new", "a"],
        1 => &["host", "add-entry"],
        2 => &["host", "view-all"],
        3 => &["host", "remove-entry"],
        4 => &["host", "update-entry"],
        5 => &["host", "export-to-json", "/out.json"],
        6 => &["host", "import-from-json", "/in.json"],
        _ => &["host", "remove-database"],
    };
    cli(words, vec![], |done| {
        check(!done, "ends with an error");
        check(fs::read("/out.json").is_err(), "no file");
    })
}

// ---- the values which are typed -------------------------------------------------
fn number() -> (&'static str, Integer) {
    match choice(5) {
        0 => ("0", 0.into()),
        1 => ("-1", (-1).into()),
        2 => ("-170141183460469231731687303715884105728", i128::MIN.into()),
        3 => ("340282366920938463463374607431768211455", u128::MAX.into()),
        _ => ("240", 240.into()),
    }
}
fn float() -> (&'static str, f64) {
    [("0", 0.0), ("-0.0", -0.0), ("0.1", 0.1), ("-1e300", -1e300), ("inf", f64::INFINITY)][choice(5) as usize]
}
fn entered(kind: u32, say: &mut Vec<Say>) -> Value {
    const KINDS: [&str; 16] = [
        "Character", "String", "Binary", "Boolean", "Integer", "Imaginary", "Timestamp", "JSON", "Map", "Null",
        "DoubleFloat", "Array", "Timezone", "Ipv4Addr", "Ipv6Addr", "SingleFloat",
    ];
    say.push(pick(KINDS[kind as usize]));
    match kind {
        0 => {
            let c = ['q', '\u{e9}', '\u{1f600}', ' '][choice(4) as usize];
            if choice(2) == 1 {
                say.push(text("qq"));
            }
            say.push(text(c));
            Value::Character(c)
        }
        1 => {
            let s = ascii(1) + ["", " b", "\u{1f600}"][choice(3) as usize];
            say.push(text(s.clone()));
            Value::String(s)
        }
        2 => {
            let n = [0, 1, 127, 128, 129, 256, 300][choice(7) as usize];
            let mut b: Vec<u8> = (0..n).map(|i| i as u8 / 2).collect();
            if n == 1 {
                b[0] = any();
            }
            check(fs::write("/bin", &b).is_ok(), "before");
            disk().shorts = 1;
            match choice(3) {
                0 => say.push(text("/none")),
                1 => say.push(text("/")),
                _ => {}
            }
            say.push(text("/bin"));
            Value::Binary(BinaryData(b))
        }
        3 => {
            let b = choice(2) == 1;
            say.push(pick(if b { "True" } else { "False" }));
            Value::Boolean(b)
        }
        4 => {
            let (t, n) = number();
            if choice(2) == 1 {
                say.push(text(["x", "340282366920938463463374607431768211456"][choice(2) as usize]));
            }
            say.push(text(t));
            Value::Integer(n)
        }
        5 => {
            if choice(2) == 0 {
                let ((m, modulus), (a, argument)) = (float(), float());
                say.extend([pick("Polar (re^(\u{3b8}i)) Form"), text(m), text(a)]);
                Value::Imaginary(Imaginary::PolarForm { modulus, argument })
            } else {
                let ((r, real), (i, imaginary)) = (number(), number());
                say.extend([pick("Cartesian (a+bi) Form"), text(r), text(i)]);
                Value::Imaginary(Imaginary::CartesianForm { real, imaginary })
            }
        }
        6 => {
            say.push(Say::No);
            let day = NaiveDate::from_ymd_opt(2024, 2, 29).unwrap();
            Value::Timestamp(if choice(2) == 0 {
                say.extend([Say::Yes, text("2024-02-29T23:59:59.5")]);
                day.and_hms_milli_opt(23, 59, 59, 500).unwrap()
            } else {
                say.push(Say::No);
                if choice(2) == 1 {
                    say.extend([text("2023"), text("2"), text("29")]);
                }
                say.extend([text("2024"), text("2"), text("29")]);
                if choice(2) == 1 {
                    say.extend([text("24"), text("0"), text("0"), text("0")]);
                }
                say.extend([text("1"), text("2"), text("3"), text("4")]);
                let t: NaiveDateTime = day.and_hms_milli_opt(1, 2, 3, 4).unwrap();
                t
            })
        }
        7 => {
            say.push(text("{\"a\": [1, null]}"));
            Value::JSON(json!({"a": [1, null]}))
        }
        8 => {
            let keys: Vec<&str> = ["k", "l", "k"][..choice(4) as usize].to_vec();
            let known = choice(2) == 1;
            say.push(yes(known));
            if known {
                say.push(text(keys.len().to_string()));
            }
            let mut m = vec![];
            for (i, k) in keys.iter().enumerate() {
                if !known {
                    say.push(Say::No);
                }
                say.extend([text(*k), pick("Integer"), text(i.to_string())]);
                m.push((k.to_string(), int(i as u8)));
            }
            if !known {
                say.push(Say::Yes);
            }
            Value::Map(m.into_iter().collect())
        }
        9 => Value::Null(()),
        10 => {
            let (t, f) = float();
            say.push(text(t));
            Value::DoubleFloat(f)
        }
        11 => {
            let known = choice(2) == 1;
            let n = choice(3) + !known as u32;
            say.push(yes(known));
            if known {
                say.push(text(n.to_string()));
            }
            let mut v = vec![];
            for i in 0..n {
                v.push(if i == 0 {
                    say.extend([pick("Array"), Say::Yes, text("1"), pick("Null")]);
                    Value::Array(vec![Value::Null(())])
                } else {
                    say.extend([pick("Integer"), text(i.to_string())]);
                    int(i as u8)
                });
                if !known {
                    say.push(yes(i + 1 == n));
                }
            }
            Value::Array(v)
        }
        12 => {
            let z = TZ_VARIANTS[[0, 1, 300, TZ_VARIANTS.len() - 1][choice(4) as usize]];
            say.push(pick(z.name()));
            Value::Timezone(z)
        }
        13 => {
            say.push(text("255.0.12.1"));
            Value::Ipv4Addr([255, 0, 12, 1].into())
        }
        14 => {
            say.push(text("2001:db8::ff:1"));
            Value::Ipv6Addr([0x2001, 0xdb8, 0, 0, 0, 0, 0xff, 1].into())
        }
        _ => {
            let (t, f) = [("0.1", 0.1), ("-0", -0.0), ("16777217", 16_777_217.0), ("1e-45", 1e-45)][choice(4) as usize];
            say.push(text(t));
            Value::SingleFloat(f)
        }
    }
}
/// What is typed is what is kept.
#[no_mangle]
pub extern "C" fn c28_values() {
    start();
    let mut m = Model::new();
    put(&mut m, "a", "x", int(7));
    let update = choice(2) == 1;
    let mut say = if update { vec![pick("x")] } else { vec![Say::No, text("k")] };
    let v = entered(choice(16), &mut say);
    say.push(Say::Yes);
    let key = if update { "x" } else { "k" };
    cli(&["host", if update { "update-entry" } else { "add-entry" }], say, move |done| {
        check(done, "done");
        went();
        let (s, b) = Op::Get { db: "a".into(), key: key.into() }.run();
        let got = Value::deser(&mut sourisdb::utilities::cursor::Cursor::new(&b), None);
        let float = matches!(v, Value::DoubleFloat(_) | Value::SingleFloat(_) | Value::Imaginary(Imaginary::PolarForm { .. }));
        let same = got.is_ok_and(|w| w.ser(None) == v.ser(None) || !float && w == v);
        check(s == 200 && same, "the value which was typed");
    })
}
