//! C25: values and stores as the bodies of requests and responses.
use axum::body::Body;
use axum::extract::FromRequest;
use axum::response::IntoResponse;
use http::StatusCode;
use rt::*;
use sourisdb::axum::SourisRejection;
use sourisdb::store::Store;
use sourisdb::types::binary::BinaryData;
use sourisdb::types::imaginary::Imaginary;
use sourisdb::utilities::cursor::Cursor;
use sourisdb::values::Value;
use tokio::stub::now;

fn request(b: &[u8]) -> axum::extract::Request {
    http::Request::new(Body::from(b.to_vec()))
}
fn body(r: axum::response::Response) -> (StatusCode, Vec<u8>) {
    let s = r.status();
    (s, r.into_body().into_inner().to_vec())
}
fn value(b: &[u8]) -> Option<Result<Value, SourisRejection>> {
    now(Value::from_request(request(b), &()))
}
fn whole(b: &[u8]) -> Option<Result<Store, SourisRejection>> {
    now(Store::from_request(request(b), &()))
}
fn any_value() -> Value {
    match choice(12) {
        0 => Value::Character(any()),
        1 => Value::String(chars(choice(3) as usize)),
        2 => Value::Binary(BinaryData(bytes(choice(4) as usize))),
        3 => Value::Boolean(any()),
        4 => Value::Integer(any::<u64>().into()),
        5 => Value::Integer(any::<i32>().into()),
        6 => Value::Imaginary(Imaginary::CartesianForm { real: any::<u8>().into(), imaginary: any::<i16>().into() }),
        7 => Value::Null(()),
        8 => Value::Array(vec![Value::Integer(any::<u16>().into()), Value::String(ascii(1))]),
        9 => Value::Map([("k".to_string(), Value::Boolean(any()))].into_iter().collect()),
        10 => Value::Ipv4Addr(any::<u32>().into()),
        _ => Value::Ipv6Addr(any::<u128>().into()),
    }
}
#[no_mangle]
pub extern "C" fn c25_value() {
    let v = any_value();
    let (s, b) = body(v.clone().into_response());
    check(s == StatusCode::OK, "sent as a success");
    check(b == v.ser(None), "the body is the encoding");
    match value(&b) {
        Some(Ok(w)) => {
            check(v == w, "the value which was sent");
            cover("received");
        }
        _ => check(false, "received"),
    }
    observe(&b);
}
#[no_mangle]
pub extern "C" fn c25_store() {
    let s = match choice(4) {
        0 => Store::default(),
        1 => Store::new([("k".to_string(), Value::Integer(any::<u8>().into()))]),
        2 => Store::new([(chars(1), Value::Boolean(any()))]),
        _ => Store::new([("a".to_string(), Value::String(ascii(1))), (String::new(), Value::Null(()))]),
    };
    let (c, b) = body(s.clone().into_response());
    check(c == StatusCode::OK, "sent as a success");
    check(b == s.ser(), "the body is the encoding");
    match whole(&b) {
        Some(Ok(t)) => {
            check(s == t, "the store which was sent");
            cover("received");
        }
        _ => check(false, "received"),
    }
}
fn refused(e: SourisRejection, code: u16) {
    let text = e.body_text();
    check(e.status().as_u16() == code, "the status");
    check(!text.is_empty() && e.to_string() == text, "a description");
    let (s, b) = body(e.into_response());
    check(s.as_u16() == code && b == text.as_bytes(), "the answer says so");
    cover("refused");
}
/// Anything which is not an encoding is the sender's fault.
#[no_mangle]
pub extern "C" fn c25_not_a_value() {
    let b = bytes(choice(4) as usize);
    let r = Value::deser(&mut Cursor::new(&b), None);
    match (value(&b), r) {
        (Some(Ok(v)), Ok(w)) => {
            check(v.ser(None) == w.ser(None), "what the bytes say");
            cover("received");
        }
        (Some(Err(e)), Err(_)) => refused(e, 400),
        _ => check(false, "as decoding them says"),
    }
}
#[no_mangle]
pub extern "C" fn c25_not_a_store() {
    let mut b = match choice(3) {
        0 => bytes(choice(3) as usize),
        1 => b"SOURISDB".to_vec(),
        _ => Store::new([("k".to_string(), Value::Null(()))]).ser(),
    };
    if b.len() > 3 {
        match choice(3) {
            0 => b.truncate(choice(b.len() as u32) as usize),
            1 => b.push(any()),
            _ => {
                let i = choice(9.min(b.len() as u32)) as usize;
                b[i] = any();
            }
        }
    }
    match (whole(&b), Store::deser(&b)) {
        (Some(Ok(s)), Ok(t)) => {
            check(s == t, "what the bytes say");
            cover("received");
        }
        (Some(Err(e)), Err(_)) => refused(e, 400),
        _ => check(false, "as decoding them says"),
    }
}
/// A body which cannot be had at all: as that failure says.
#[no_mangle]
pub extern "C" fn c25_no_body() {
    let mut r = request(&Value::Null(()).ser(None));
    let n: usize = any();
    let max: usize = any();
    axum::stub::limit(&mut r, n, max);
    let code = |e: SourisRejection| refused(e, 413);
    let had = if choice(2) == 0 {
        match now(Value::from_request(r, &())) {
            Some(Ok(v)) => v == Value::Null(()),
            Some(Err(e)) => {
                code(e);
                false
            }
            None => return check(false, "an end"),
        }
    } else {
        match now(Store::from_request(r, &())) {
            Some(Ok(_)) => true,
            Some(Err(SourisRejection::Store(_))) => true,
            Some(Err(e)) => {
                code(e);
                false
            }
            None => return check(false, "an end"),
        }
    };
    check(had == (n <= max), "only bodies which are too long are refused");
}
