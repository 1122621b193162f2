//! C20: both clients against the daemon.
use crate::model::*;
use crate::util::*;
use http::StatusCode;
use rt::*;
use sourisdb::client::{AsyncClient, ClientError, CreationResult, SyncClient};
use sourisdb::store::Store;
use sourisdb::values::Value;
use tokio::stub;

enum Client {
    Sync(SyncClient),
    Async(AsyncClient),
}
/// What a call gave, brought to one form for both clients.
enum Got {
    Nothing,
    Flag(bool),
    Names(Vec<String>),
    Store(Option<Store>),
    Created(CreationResult),
    Code(u16),
    Other,
}
fn code(e: ClientError) -> Got {
    match e {
        ClientError::HttpErrorCode(c) => Got::Code(c.as_u16()),
        _ => Got::Other,
    }
}
fn wait<T: 'static>(f: impl std::future::Future<Output = Result<T, ClientError>> + 'static) -> Result<T, ClientError> {
    match stub::block_on(f) {
        Some(x) => x,
        None => {
            check(false, "the call ends");
            Err(ClientError::HttpErrorCode(StatusCode::IM_A_TEAPOT))
        }
    }
}
fn res<T>(r: Result<T, ClientError>, f: impl FnOnce(T) -> Got) -> Got {
    match r {
        Ok(x) => f(x),
        Err(e) => code(e),
    }
}
impl Client {
    fn new(sync: bool) -> Client {
        if sync {
            match SyncClient::new("host", 7687) {
                Ok(c) => Client::Sync(c),
                Err(_) => {
                    check(false, "a client");
                    panic!()
                }
            }
        } else {
            match wait(AsyncClient::new("host", if choice(2) == 0 { None } else { Some(7687) })) {
                Ok(c) => Client::Async(c),
                Err(_) => {
                    check(false, "a client");
                    panic!()
                }
            }
        }
    }
    fn names(&self) -> Got {
        match self {
            Client::Sync(c) => res(c.get_all_dbs(), Got::Names),
            Client::Async(c) => {
                let c = c.clone();
                res(wait(async move { c.get_all_dbs().await }), Got::Names)
            }
        }
    }
    fn create(&self, overwrite: bool, db: &str) -> Got {
        match self {
            Client::Sync(c) => res(c.create_new_db(overwrite, db), Got::Flag),
            Client::Async(c) => {
                let (c, db) = (c.clone(), db.to_string());
                res(wait(async move { c.create_new_db(overwrite, &db).await }), Got::Flag)
            }
        }
    }
    fn get(&self, db: &str) -> Got {
        match self {
            Client::Sync(c) => res(c.get_store(db), |s| Got::Store(Some(s))),
            Client::Async(c) => {
                let (c, db) = (c.clone(), db.to_string());
                res(wait(async move { c.get_store(&db).await }), Got::Store)
            }
        }
    }
    fn content(&self, overwrite: bool, db: &str, s: Store) -> Got {
        match self {
            Client::Sync(c) => res(c.add_db_with_contents(overwrite, db, &s), Got::Flag),
            Client::Async(c) => {
                let (c, db) = (c.clone(), db.to_string());
                res(wait(async move { c.add_db_with_contents(overwrite, &db, &s).await }), Got::Flag)
            }
        }
    }
    fn put(&self, db: &str, create: bool, overwrite: bool, key: &str, v: &Value) -> Got {
        match self {
            Client::Sync(c) => res(c.add_entry_to_db(db, create, overwrite, key, v), Got::Created),
            Client::Async(c) => {
                let (c, db, key, v) = (c.clone(), db.to_string(), key.to_string(), v.clone());
                res(wait(async move { c.add_entry_to_db(&db, create, overwrite, &key, &v).await }), Got::Created)
            }
        }
    }
    fn remove_entry(&self, db: &str, key: &str) -> Got {
        match self {
            Client::Sync(c) => res(c.remove_entry_from_db(db, key), |_| Got::Nothing),
            Client::Async(c) => {
                let (c, db, key) = (c.clone(), db.to_string(), key.to_string());
                res(wait(async move { c.remove_entry_from_db(&db, &key).await }), |_| Got::Nothing)
            }
        }
    }
    fn remove(&self, db: &str) -> Got {
        match self {
            // documented to report no more than this
            Client::Sync(c) => res(c.remove_db(db), |_| Got::Flag(true)),
            Client::Async(c) => {
                let (c, db) = (c.clone(), db.to_string());
                res(wait(async move { c.remove_db(&db).await }), Got::Flag)
            }
        }
    }
    fn run(&self, o: &Op) -> Got {
        match o {
            Op::New { db, overwrite } => self.create(*overwrite, db),
            Op::Content { db, overwrite, with } => self.content(*overwrite, db, Store::new(with.iter().cloned())),
            Op::Drop(db) => self.remove(db),
            Op::Put { db, key, v, create, overwrite } => self.put(db, *create, *overwrite, key, v),
            Op::Remove { db, key } => self.remove_entry(db, key),
            Op::Whole(db) => self.get(db),
            _ => self.names(),
        }
    }
}
fn created(c: &CreationResult) -> &'static str {
    match c {
        CreationResult::InsertedKeyIntoExistingDB => "InsertedKeyIntoExistingDB",
        CreationResult::OverwroteKeyInExistingDB => "OverwroteKeyInExistingDB",
        CreationResult::FoundExistingKey => "FoundExistingKey",
        CreationResult::InsertedKeyIntoNewDB => "InsertedKeyIntoNewDB",
        CreationResult::UnableToFindDB => "UnableToFindDB",
    }
}
/// Whether the client reports what happened.
fn reported(sync: bool, o: &Op, w: &Want, g: &Got) -> bool {
    match (o, w, g) {
        (Op::Remove { .. }, _, g) => matches!(g, Got::Nothing),
        (Op::New { .. } | Op::Content { .. }, Want::Status(201), Got::Flag(f)) => *f,
        (Op::New { .. } | Op::Content { .. }, Want::Status(200), Got::Flag(f)) => !*f,
        (Op::Drop(_), Want::Status(200), Got::Flag(f)) => *f,
        (Op::Drop(_), Want::Status(410), Got::Flag(f)) if !sync => !*f,
        (Op::Whole(_), Want::Status(410), Got::Store(None)) => !sync,
        (Op::Drop(_) | Op::Whole(_), Want::Status(410), Got::Code(c)) => sync && *c == 410,
        (Op::New { .. } | Op::Content { .. } | Op::Put { .. }, Want::Status(400), Got::Code(c)) => *c == 400,
        (Op::Put { .. }, Want::Created(c), Got::Created(d)) => *c == created(d),
        (Op::Whole(_), Want::Store(d), Got::Store(Some(s))) => holds(s, d),
        (_, Want::Names(n), Got::Names(h)) => {
            let mut ok = n.len() == h.len();
            for x in n {
                ok &= h.contains(x);
            }
            ok
        }
        _ => false,
    }
}
fn call(c: &Client, sync: bool, m: &mut Model, o: &Op) {
    let w = m.apply(o);
    let g = c.run(o);
    check(reported(sync, o, &w, &g), "what the client reports");
    match &g {
        Got::Flag(true) => cover("done"),
        Got::Flag(false) | Got::Store(None) => cover("not there"),
        Got::Code(_) => cover("refused"),
        Got::Store(_) => cover("fetched"),
        Got::Created(_) => cover("added"),
        _ => {}
    }
}
fn before(m: &mut Model, n: u32) {
    for (i, db) in ["a", "b"].iter().take(n as usize).enumerate() {
        let o = Op::Put { db: db.to_string(), key: "x".into(), v: int(7 + i as u8), create: true, overwrite: true };
        check(m.apply(&o).is(&o.run()), "before");
    }
}
fn calls(sync: bool) {
    start();
    let mut m = Model::new();
    before(&mut m, choice(3));
    let c = Client::new(sync);
    let o = op(&mut || ascii(1), &mut || chars(1), &mut || int(any()), false);
    match o {
        Op::Clear(_) | Op::Get { .. } => return,
        _ => {}
    }
    call(&c, sync, &mut m, &o);
    read_out(&m, false);
}
#[no_mangle]
pub extern "C" fn c20_sync_calls() {
    calls(true)
}
#[no_mangle]
pub extern "C" fn c20_async_calls() {
    calls(false)
}
fn two_calls(sync: bool) {
    start();
    let mut m = Model::new();
    before(&mut m, choice(2));
    let c = Client::new(sync);
    for i in 0..2u8 {
        let db = ["a", "b"][choice(2) as usize].to_string();
        let key = ["x", "y"][choice(2) as usize].to_string();
        let v = int(20 + i);
        let o = match choice(6) {
            0 => Op::New { db, overwrite: any() },
            1 => Op::Put { db, key, v, create: any(), overwrite: any() },
            2 => Op::Remove { db, key },
            3 => Op::Drop(db),
            4 => Op::Content { db, overwrite: any(), with: vec![(key, v)] },
            _ => Op::Whole(db),
        };
        call(&c, sync, &mut m, &o);
    }
    for n in ["a", "b"] {
        call(&c, sync, &mut m, &Op::Whole(n.into()));
    }
    call(&c, sync, &mut m, &Op::Names);
}
#[no_mangle]
pub extern "C" fn c20_sync_two() {
    two_calls(true)
}
#[no_mangle]
pub extern "C" fn c20_async_two() {
    two_calls(false)
}
fn random(n: usize) -> Vec<u8> {
    let mut seed = 777u32;
    (0..n)
        .map(|_| {
            seed = seed.wrapping_mul(1664525).wrapping_add(1013904223);
            (seed >> 24) as u8
        })
        .collect()
}
/// Stores of many sizes sent and fetched.
#[no_mangle]
pub extern "C" fn c20_sizes() {
    start();
    let mut m = Model::new();
    let sync = choice(2) == 1;
    let c = Client::new(sync);
    let n = [0, 1, 20, 40, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 100, 110, 120, 200][choice(21) as usize];
    let v = Value::Binary(sourisdb::types::binary::BinaryData(random(n)));
    match choice(2) {
        0 => call(&c, sync, &mut m, &Op::Content { db: "a".into(), overwrite: true, with: vec![("x".into(), v)] }),
        _ => call(&c, sync, &mut m, &Op::Put { db: "a".into(), key: "x".into(), v, create: true, overwrite: true }),
    }
    call(&c, sync, &mut m, &Op::Whole("a".into()));
}
/// Nothing is there to talk to: every call says so.
#[no_mangle]
pub extern "C" fn c20_no_daemon() {
    let sync = choice(2) == 1;
    if choice(2) == 1 {
        let ok = if sync { SyncClient::new("host", 7687).is_ok() } else { wait(AsyncClient::new("host", None)).is_ok() };
        check(!ok, "no client without a daemon");
        return;
    }
    start();
    let c = Client::new(sync);
    kill();
    let o = match choice(7) {
        0 => Op::New { db: "a".into(), overwrite: any() },
        1 => Op::Put { db: "a".into(), key: "x".into(), v: int(1), create: any(), overwrite: any() },
        2 => Op::Remove { db: "a".into(), key: "x".into() },
        3 => Op::Drop("a".into()),
        4 => Op::Content { db: "a".into(), overwrite: any(), with: vec![] },
        5 => Op::Whole("a".into()),
        _ => Op::Names,
    };
    check(matches!(c.run(&o), Got::Other), "an error");
}
/// Answers come in any parts, and whole or not at all.
fn parts(sync: bool) {
    start();
    let mut m = Model::new();
    let n = [0, 1, 3, 20, 60, 130][choice(6) as usize];
    let v = Value::Binary(sourisdb::types::binary::BinaryData(random(n)));
    let with = vec![("x".to_string(), v), ("y".into(), int(any()))];
    check(m.apply(&Op::Content { db: "a".into(), overwrite: true, with: with.clone() }).is(&Op::Content { db: "a".into(), overwrite: true, with }.run()), "before");
    let c = Client::new(sync);
    let breaks = choice(2);
    axum::stub::wire(2, breaks);
    let o = if choice(2) == 0 { Op::Whole("a".into()) } else { Op::Names };
    let w = m.apply(&o);
    let g = c.run(&o);
    let ok = matches!(g, Got::Other) && breaks == 1 || reported(sync, &o, &w, &g);
    check(ok, "the whole answer or an error");
    cover(if matches!(g, Got::Other) { "broken" } else { "whole" });
}
#[no_mangle]
pub extern "C" fn c20_sync_parts() {
    parts(true)
}
#[no_mangle]
pub extern "C" fn c20_async_parts() {
    parts(false)
}
