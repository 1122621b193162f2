//! C17: requests at the same time.
use crate::model::*;
use crate::util::*;
use rt::*;
use std::cell::RefCell;
use std::rc::Rc;
use tokio::stub;

#[derive(Clone)]
struct Event {
    op: Op,
    asked: u32,
    answered: u32,
    answer: Answer,
}
#[derive(Default)]
struct Log {
    now: u32,
    events: Vec<Event>,
}
type Shared = Rc<RefCell<Log>>;
fn tick(l: &Shared) -> u32 {
    let mut l = l.borrow_mut();
    l.now += 1;
    l.now
}
/// A client which sends these requests, each once the one before is answered.
fn client(l: &Shared, ops: Vec<Op>) -> usize {
    let l = l.clone();
    stub::add(Box::pin(async move {
        for op in ops {
            let asked = tick(&l);
            let (m, p, q, b) = op.request();
            let answer = ask(m, p, q, b).await;
            let answered = tick(&l);
            l.borrow_mut().events.push(Event { op, asked, answered, answer });
        }
    }))
}
fn after(l: &Shared, op: Op) {
    let asked = tick(l);
    let answer = op.run();
    let answered = tick(l);
    l.borrow_mut().events.push(Event { op, asked, answered, answer });
}
/// Whether some order of the requests, keeping those which did not overlap in
/// order, gives all the answers.
fn explained(m: &Model, left: &[Event]) -> bool {
    if left.is_empty() {
        return true;
    }
    for i in 0..left.len() {
        if left.iter().any(|e| e.answered < left[i].asked) {
            continue;
        }
        let mut m = m.clone();
        if !m.apply(&left[i].op).is(&left[i].answer) {
            continue;
        }
        let mut rest = left.to_vec();
        rest.remove(i);
        if explained(&m, &rest) {
            return true;
        }
    }
    false
}
fn a() -> String {
    "a".into()
}
fn x() -> String {
    "x".into()
}
/// The requests which change something.
fn change(n: u32, v: u8) -> Op {
    let v = int(v);
    match n {
        0 => Op::Put { db: a(), key: x(), v, create: true, overwrite: true },
        1 => Op::Drop(a()),
        2 => Op::Clear(a()),
        3 => Op::New { db: a(), overwrite: true },
        4 => Op::Content { db: a(), overwrite: true, with: vec![(x(), v)] },
        5 => Op::Remove { db: a(), key: x() },
        6 => Op::New { db: a(), overwrite: false },
        7 => Op::Content { db: a(), overwrite: false, with: vec![("y".into(), v)] },
        8 => Op::Put { db: a(), key: x(), v, create: true, overwrite: false },
        9 => Op::Put { db: a(), key: x(), v, create: false, overwrite: true },
        _ => Op::Put { db: a(), key: x(), v, create: false, overwrite: false },
    }
}
const CHANGES: u32 = 11;
fn read(n: u32) -> Op {
    match n {
        0 => Op::Whole(a()),
        1 => Op::Get { db: a(), key: x() },
        _ => Op::Names,
    }
}
fn before(m: &mut Model, n: u32) {
    if n > 0 {
        let o = Op::Content { db: a(), overwrite: true, with: vec![(x(), int(7))] };
        check(m.apply(&o).is(&o.run()), "before");
    }
    if n > 1 {
        let o = Op::Whole(a());
        check(m.apply(&o).is(&o.run()), "before");
    }
}
/// Runs the clients in every order and looks for an explanation of what they saw.
fn together(prior: u32, clients: Vec<Vec<Op>>, preemptions: u32, evictions: bool) {
    start();
    let mut m = Model::new();
    before(&mut m, prior);
    let log = Shared::default();
    stub::allow_evictions(evictions);
    stub::concurrent(true, preemptions);
    let n: usize = clients.iter().map(|c| c.len()).sum();
    for c in clients {
        client(&log, c);
    }
    stub::run();
    stub::concurrent(false, 0);
    check(log.borrow().events.len() == n, "every request is answered");
    after(&log, read(0));
    after(&log, read(1));
    after(&log, read(2));
    let events = log.borrow().events.clone();
    if events[0].answered > events[1].asked && events[1].answered > events[0].asked {
        cover("overlapping");
    }
    check(explained(&m, &events), "some order gives these answers");
    cover("explained");
}
#[no_mangle]
pub extern "C" fn c17_read_change() {
    let (r, c) = (read(choice(3)), change(choice(CHANGES), 20));
    together(choice(3), vec![vec![r], vec![c]], 99, true)
}
#[no_mangle]
pub extern "C" fn c17_change_change() {
    let i = choice(CHANGES);
    let j = choice(CHANGES);
    assume(i <= j);
    together(choice(3), vec![vec![change(i, 20)], vec![change(j, 21)]], 99, false)
}
/// Two clients, one of which reads after its change is acknowledged.
#[no_mangle]
pub extern "C" fn c17_change_then_read() {
    let first = vec![change(choice(5), 20), read(choice(2))];
    let second = match choice(2) {
        0 => vec![read(0)],
        _ => vec![change(choice(6), 21)],
    };
    together(choice(3), vec![first, second], 3, false)
}
/// Two readers, the first of which reads twice, and a change.
#[no_mangle]
pub extern "C" fn c17_two_readers() {
    together(1, vec![vec![read(0)], vec![read(0)], vec![change(choice(6), 20)]], 2, true)
}
/// A reader and two changes.
#[no_mangle]
pub extern "C" fn c17_three() {
    let i = choice(6);
    let j = choice(6);
    assume(i <= j);
    together(1, vec![vec![read(0)], vec![change(i, 20)], vec![change(j, 21)]], 2, false)
}
#[no_mangle]
pub extern "C" fn c17t_three() {
    let i = choice(CHANGES);
    let j = choice(CHANGES);
    assume(i <= j);
    together(choice(3), vec![vec![read(choice(2))], vec![change(i, 20)], vec![change(j, 21)]], 4, true)
}
/// Free names and values.
#[no_mangle]
pub extern "C" fn c17_free_names() {
    start();
    let mut m = Model::new();
    if choice(2) == 1 {
        let o = Op::Put { db: a(), key: x(), v: int(any()), create: true, overwrite: true };
        check(m.apply(&o).is(&o.run()), "before");
    }
    let log = Shared::default();
    stub::concurrent(true, 2);
    let mut names = vec![];
    for _ in 0..2 {
        let n = ascii(1);
        assume(n.as_bytes()[0] >= b'a' && n.as_bytes()[0] <= b'z');
        names.push(n.clone());
        let o = match choice(4) {
            0 => Op::Put { db: n, key: x(), v: int(any()), create: true, overwrite: true },
            1 => Op::Drop(n),
            2 => Op::New { db: n, overwrite: any() },
            _ => Op::Get { db: n, key: x() },
        };
        client(&log, vec![o]);
    }
    stub::run();
    stub::concurrent(false, 0);
    check(log.borrow().events.len() == 2, "every request is answered");
    for n in names {
        after(&log, Op::Get { db: n, key: x() });
    }
    after(&log, read(2));
    let events = log.borrow().events.clone();
    check(explained(&m, &events), "some order gives these answers");
    cover("explained");
}
