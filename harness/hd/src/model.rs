//! What a plain map of maps would answer.
use crate::util::*;
use http::Method;
use rt::*;
use sourisdb::store::Store;
use sourisdb::types::integer::Integer;
use sourisdb::values::Value;

#[derive(Clone, PartialEq)]
pub struct Model(pub Vec<(String, Vec<(String, Value)>)>);
#[derive(Clone)]
pub enum Op {
    New { db: String, overwrite: bool },
    Content { db: String, overwrite: bool, with: Vec<(String, Value)> },
    Clear(String),
    Drop(String),
    Put { db: String, key: String, v: Value, create: bool, overwrite: bool },
    Remove { db: String, key: String },
    Get { db: String, key: String },
    Whole(String),
    Names,
}
use Op::*;
/// What an answer has to be.
#[derive(Clone)]
pub enum Want {
    Status(u16),
    Value(Value),
    Store(Vec<(String, Value)>),
    Names(Vec<String>),
    Created(&'static str),
}
fn word(b: bool) -> &'static str {
    if b {
        "true"
    } else {
        "false"
    }
}
pub fn int(n: u8) -> Value {
    Value::Integer(Integer::from(n))
}
pub fn store(c: &[(String, Value)]) -> Vec<u8> {
    Store::new(c.iter().cloned()).ser()
}
pub fn bad_name(n: &str) -> bool {
    n == "meta" || !n.is_ascii() || n.contains('/') || n.contains('\0') || n.len() > 251
}
impl Op {
    pub fn request(&self) -> (Method, String, Vec<(String, String)>, Vec<u8>) {
        let (m, p, q, b) = match self {
            New { db, overwrite } => (Method::POST, "add_db", pairs(&[("db_name", db), ("overwrite_existing", word(*overwrite))]), vec![]),
            Content { db, overwrite, with } => {
                (Method::PUT, "add_db_with_content", pairs(&[("db_name", db), ("overwrite_existing", word(*overwrite))]), store(with))
            }
            Clear(db) => (Method::POST, "clear_db", pairs(&[("db_name", db)]), vec![]),
            Drop(db) => (Method::POST, "rm_db", pairs(&[("db_name", db)]), vec![]),
            Put { db, key, v, create, overwrite } => (
                Method::PUT,
                "add_kv",
                pairs(&[("db_name", db), ("key", key), ("create_new_database", word(*create)), ("overwrite_key", word(*overwrite))]),
                v.ser(None),
            ),
            Remove { db, key } => (Method::POST, "rm_kv", pairs(&[("db_name", db), ("key", key)]), vec![]),
            Get { db, key } => (Method::GET, "get_value", pairs(&[("db_name", db), ("key", key)]), vec![]),
            Whole(db) => (Method::GET, "get_db", pairs(&[("db_name", db)]), vec![]),
            Names => (Method::GET, "get_all_db_names", vec![], vec![]),
        };
        (m, format!("/v1/{p}"), q, b)
    }
    pub fn run(&self) -> Answer {
        let (m, p, q, b) = self.request();
        tokio::stub::block_on(async move { ask(m, p, q, b).await }).unwrap_or((0, vec![]))
    }
}
fn at<T>(v: &[(String, T)], k: &str) -> Option<usize> {
    v.iter().position(|e| e.0 == k)
}
fn set(v: &mut Vec<(String, Value)>, k: &str, x: &Value) {
    match at(v, k) {
        Some(i) => v[i].1 = x.clone(),
        None => v.push((k.to_string(), x.clone())),
    }
}
impl Model {
    pub fn new() -> Self {
        Model(vec![])
    }
    pub fn db(&self, n: &str) -> Option<&Vec<(String, Value)>> {
        at(&self.0, n).map(|i| &self.0[i].1)
    }
    pub fn apply(&mut self, op: &Op) -> Want {
        match op {
            New { db, overwrite } => {
                if bad_name(db) {
                    return Want::Status(400);
                }
                match at(&self.0, db) {
                    Some(i) => {
                        if *overwrite {
                            self.0[i].1.clear();
                        }
                        Want::Status(200)
                    }
                    None => {
                        self.0.push((db.clone(), vec![]));
                        Want::Status(201)
                    }
                }
            }
            Content { db, overwrite, with } => {
                if bad_name(db) {
                    return Want::Status(400);
                }
                match at(&self.0, db) {
                    Some(i) => {
                        if *overwrite {
                            self.0[i].1.clear();
                        }
                        for (k, v) in with {
                            set(&mut self.0[i].1, k, v);
                        }
                        Want::Status(200)
                    }
                    None => {
                        self.0.push((db.clone(), with.clone()));
                        Want::Status(201)
                    }
                }
            }
            Clear(db) => match at(&self.0, db) {
                Some(i) => {
                    self.0[i].1.clear();
                    Want::Status(200)
                }
                None => Want::Status(410),
            },
            Drop(db) => match at(&self.0, db) {
                Some(i) => {
                    self.0.remove(i);
                    Want::Status(200)
                }
                None => Want::Status(410),
            },
            Put { db, key, v, create, overwrite } => {
                if *create && bad_name(db) {
                    return Want::Status(400);
                }
                Want::Created(match at(&self.0, db) {
                    Some(i) => match at(&self.0[i].1, key) {
                        Some(_) if !*overwrite => "FoundExistingKey",
                        Some(j) => {
                            self.0[i].1[j].1 = v.clone();
                            "OverwroteKeyInExistingDB"
                        }
                        None => {
                            self.0[i].1.push((key.clone(), v.clone()));
                            "InsertedKeyIntoExistingDB"
                        }
                    },
                    None if *create => {
                        self.0.push((db.clone(), vec![(key.clone(), v.clone())]));
                        "InsertedKeyIntoNewDB"
                    }
                    None => "UnableToFindDB",
                })
            }
            Remove { db, key } => match at(&self.0, db) {
                Some(i) => match at(&self.0[i].1, key) {
                    Some(j) => {
                        self.0[i].1.remove(j);
                        Want::Status(200)
                    }
                    None => Want::Status(400),
                },
                None => Want::Status(410),
            },
            Get { db, key } => match self.db(db) {
                Some(d) => match at(d, key) {
                    Some(j) => Want::Value(d[j].1.clone()),
                    None => Want::Status(400),
                },
                None => Want::Status(410),
            },
            Whole(db) => match self.db(db) {
                Some(d) => Want::Store(d.clone()),
                None => Want::Status(410),
            },
            Names => Want::Names(self.0.iter().map(|e| e.0.clone()).collect()),
        }
    }
}
/// Whether a store holds exactly these entries.
pub fn holds(s: &Store, c: &[(String, Value)]) -> bool {
    if s.len() != c.len() {
        return false;
    }
    let mut ok = true;
    for (k, v) in c {
        match s.get(k) {
            Some(w) => ok &= w == v,
            None => ok = false,
        }
    }
    ok
}
impl Want {
    pub fn is(&self, (s, b): &Answer) -> bool {
        match self {
            Want::Status(n) => s == n,
            Want::Value(v) => {
                if *s != 200 {
                    return false;
                }
                let mut c = sourisdb::utilities::cursor::Cursor::new(b);
                match Value::deser(&mut c, None) {
                    Ok(w) => w == *v,
                    Err(_) => false,
                }
            }
            Want::Store(c) => {
                if *s != 200 {
                    return false;
                }
                match Store::deser(b) {
                    Ok(w) => holds(&w, c),
                    Err(_) => false,
                }
            }
            Want::Names(n) => {
                if *s != 200 {
                    return false;
                }
                let Ok(got) = serde_json::from_slice::<Vec<String>>(b) else { return false };
                let mut ok = got.len() == n.len();
                for x in n {
                    ok &= got.contains(x);
                }
                ok
            }
            Want::Created(w) => {
                if *s != 200 {
                    return false;
                }
                b.len() == w.len() + 2 && b[0] == b'"' && &b[1..b.len() - 1] == w.as_bytes()
            }
        }
    }
}
/// One request of any kind. `names` and `keys` give the names and keys; `whole`
/// says whether databases are sent and fetched as a whole.
pub fn op(name: &mut dyn FnMut() -> String, key: &mut dyn FnMut() -> String, value: &mut dyn FnMut() -> Value, whole: bool) -> Op {
    match choice(if whole { 9 } else { 7 }) {
        0 => New { db: name(), overwrite: any() },
        1 => Put { db: name(), key: key(), v: value(), create: any(), overwrite: any() },
        2 => Remove { db: name(), key: key() },
        3 => Get { db: name(), key: key() },
        4 => Clear(name()),
        5 => Drop(name()),
        6 => Names,
        7 => {
            let n = choice(3);
            let mut with = vec![];
            for i in 0..n {
                with.push((["x", "y"][i as usize].to_string(), value()));
            }
            Content { db: name(), overwrite: any(), with }
        }
        _ => Whole(name()),
    }
}
/// Asks for everything and compares it with the model.
pub fn read_out(m: &Model, whole: bool) {
    check(Want::Names(m.0.iter().map(|e| e.0.clone()).collect()).is(&Names.run()), "the names of the databases");
    for (n, d) in &m.0 {
        for (k, v) in d {
            check(Want::Value(v.clone()).is(&Get { db: n.clone(), key: k.clone() }.run()), "a value");
        }
        if whole {
            check(Want::Store(d.clone()).is(&Whole(n.clone()).run()), "a whole database");
        }
    }
}
