//! C16: requests one after another.
use crate::model::*;
use crate::util::*;
use http::Method;
use rt::*;
use sourisdb::values::Value;

/// Databases there are before the requests which are looked at.
fn before(m: &mut Model, n: u32) {
    let ops: &[Op] = &match n {
        0 => vec![],
        1 => vec![Op::New { db: "a".into(), overwrite: false }],
        2 => vec![Op::Put { db: "a".into(), key: "x".into(), v: int(7), create: true, overwrite: false }],
        _ => vec![
            Op::Put { db: "a".into(), key: "x".into(), v: int(7), create: true, overwrite: false },
            Op::Put { db: "a".into(), key: "y".into(), v: Value::Boolean(true), create: true, overwrite: false },
            Op::Put { db: "b".into(), key: "x".into(), v: int(9), create: true, overwrite: false },
        ],
    };
    for o in ops {
        step(m, o);
    }
}
fn step(m: &mut Model, o: &Op) {
    let w = m.apply(o);
    let a = o.run();
    check(w.is(&a), "answer");
    match &w {
        Want::Status(201) => cover("created"),
        Want::Status(410) => cover("no such database"),
        Want::Status(400) => cover("refused"),
        Want::Value(_) => cover("a value"),
        _ => {}
    }
}
/// Names and keys of one free character, free values.
fn free_ops(n: u32) {
    start();
    let mut m = Model::new();
    before(&mut m, choice(4));
    for _ in 0..n {
        let o = op(&mut || ascii(1), &mut || ascii(1), &mut || int(any()), false);
        step(&mut m, &o);
    }
    read_out(&m, false);
}
#[no_mangle]
pub extern "C" fn c16_free_1() {
    free_ops(1)
}
#[no_mangle]
pub extern "C" fn c16_free_2() {
    free_ops(2)
}
#[no_mangle]
pub extern "C" fn c16t_free_3() {
    free_ops(3)
}
/// Databases fetched as a whole before and after.
fn whole_ops(n: u32) {
    start();
    let mut m = Model::new();
    before(&mut m, 1 + choice(3));
    if choice(2) == 1 {
        step(&mut m, &Op::Whole("a".into()));
    }
    let mut next = 20;
    for _ in 0..n {
        let o = op(
            &mut || ["a", "b"][choice(2) as usize].to_string(),
            &mut || ["x", "y"][choice(2) as usize].to_string(),
            &mut || {
                next += 1;
                int(next)
            },
            true,
        );
        step(&mut m, &o);
    }
    read_out(&m, true);
}
#[no_mangle]
pub extern "C" fn c16_whole_1() {
    whole_ops(1)
}
#[no_mangle]
pub extern "C" fn c16_whole_2() {
    whole_ops(2)
}
#[no_mangle]
pub extern "C" fn c16t_whole_3() {
    whole_ops(3)
}
/// What is not a request for any operation changes nothing.
fn not_a_request(p: &str, m: Method, pairs: &[(&str, &str)], body: Vec<u8>, want: &[u16]) {
    start();
    let mut model = Model::new();
    before(&mut model, 3);
    let (s, _) = req(m, p, pairs, body);
    let mut ok = false;
    for w in want {
        ok |= s == *w;
    }
    check(ok, "a client error");
    cover("refused");
    read_out(&model, true);
}
/// Bodies which are no value.
#[no_mangle]
pub extern "C" fn c16_bad_value() {
    let n = choice(4) as usize;
    let body = bytes(n);
    let mut c = sourisdb::utilities::cursor::Cursor::new(&body);
    assume(Value::deser(&mut c, None).is_err());
    let p = [("db_name", "a"), ("key", "x"), ("create_new_database", "true"), ("overwrite_key", "true")];
    not_a_request("/v1/add_kv", Method::PUT, &p, body, &[400]);
}
/// Bodies which are no store.
#[no_mangle]
pub extern "C" fn c16_bad_store() {
    let mut body = match choice(3) {
        0 => vec![],
        1 => b"SOURISDB".to_vec(),
        _ => b"SOURISDB\x00".to_vec(),
    };
    body.extend(bytes(choice(3) as usize));
    assume(sourisdb::store::Store::deser(&body).is_err());
    let p = [("db_name", "a"), ("overwrite_existing", if any() { "true" } else { "false" })];
    not_a_request("/v1/add_db_with_content", Method::PUT, &p, body, &[400]);
}
/// Flags which are neither true nor false.
#[no_mangle]
pub extern "C" fn c16_bad_flag() {
    let f = ascii(choice(6) as usize);
    assume(f != "true" && f != "false");
    match choice(4) {
        0 => not_a_request("/v1/add_db", Method::POST, &[("db_name", "a"), ("overwrite_existing", &f)], vec![], &[400]),
        1 => not_a_request("/v1/add_db_with_content", Method::PUT, &[("db_name", "a"), ("overwrite_existing", &f)], store(&[]), &[400]),
        2 => {
            let p = [("db_name", "a"), ("key", "x"), ("create_new_database", &f), ("overwrite_key", "true")];
            not_a_request("/v1/add_kv", Method::PUT, &p, int(3).ser(None), &[400])
        }
        _ => {
            let p = [("db_name", "a"), ("key", "x"), ("create_new_database", "true"), ("overwrite_key", &f)];
            not_a_request("/v1/add_kv", Method::PUT, &p, int(3).ser(None), &[400])
        }
    }
}
/// Something missing.
#[no_mangle]
pub extern "C" fn c16_missing() {
    let all: [(Method, &str, &[(&str, &str)], Vec<u8>); 8] = [
        (Method::POST, "/v1/add_db", &[("db_name", "a"), ("overwrite_existing", "true")], vec![]),
        (Method::PUT, "/v1/add_db_with_content", &[("db_name", "a"), ("overwrite_existing", "true")], store(&[])),
        (Method::POST, "/v1/clear_db", &[("db_name", "a")], vec![]),
        (Method::POST, "/v1/rm_db", &[("db_name", "a")], vec![]),
        (Method::PUT, "/v1/add_kv", &[("db_name", "a"), ("key", "x"), ("create_new_database", "true"), ("overwrite_key", "true")], int(3).ser(None)),
        (Method::POST, "/v1/rm_kv", &[("db_name", "a"), ("key", "x")], vec![]),
        (Method::GET, "/v1/get_value", &[("db_name", "a"), ("key", "x")], vec![]),
        (Method::GET, "/v1/get_db", &[("db_name", "a")], vec![]),
    ];
    let (m, p, q, b) = all[choice(8) as usize].clone();
    let gone = choice(q.len() as u32) as usize;
    let q: Vec<_> = q.iter().enumerate().filter(|(i, _)| *i != gone).map(|(_, x)| *x).collect();
    not_a_request(p, m, &q, b, &[400]);
}
/// Bodies of any length are taken.
#[no_mangle]
pub extern "C" fn c16_long_bodies() {
    start();
    let mut m = Model::new();
    before(&mut m, choice(4));
    axum::stub::pretend(Some(any()));
    let o = match choice(2) {
        0 => Op::Content { db: "a".into(), overwrite: any(), with: vec![("x".into(), int(20))] },
        _ => Op::Put { db: "a".into(), key: "x".into(), v: int(21), create: any(), overwrite: any() },
    };
    step(&mut m, &o);
    axum::stub::pretend(None);
    read_out(&m, true);
}
/// The health check says that all is well.
#[no_mangle]
pub extern "C" fn c16_health() {
    start();
    check(req(Method::GET, "/healthcheck", &[], vec![]).0 == 200, "healthy");
}
