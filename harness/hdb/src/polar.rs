//! C26: the forms of imaginary numbers. The functions of the mathematics library
//! give anything which agrees with what is known of them.
use crate::util::*;
use rt::*;
use sourisdb::types::imaginary::Imaginary;
use sourisdb::types::integer::Integer;
use std::cell::Cell;
use std::f64::consts::{FRAC_PI_2, FRAC_PI_4, PI};

struct Seen(Cell<[f64; 2]>);
unsafe impl Sync for Seen {}
static SEEN: Seen = Seen(Cell::new([0.0; 2]));

fn within(r: f64, lo: f64, hi: f64) {
    assume((r >= lo) & (r <= hi))
}
/// The angle of a point in the first quadrant.
fn angle(y: f64, x: f64) -> f64 {
    let r: f64 = any();
    within(r, 0.0, FRAC_PI_2);
    assume(r.to_bits() >> 63 == 0);
    assume((y > x) | (r <= FRAC_PI_4));
    assume((y < x) | (r >= FRAC_PI_4) | (y == 0.0));
    assume((y != 0.0) | (r == 0.0));
    assume((x != 0.0) | (y == 0.0) | (r == FRAC_PI_2));
    r
}
#[no_mangle]
pub extern "C" fn atan2(y: f64, x: f64) -> f64 {
    if x.is_nan() | y.is_nan() {
        return f64::NAN;
    }
    let a = angle(y.abs(), x.abs());
    let a = if x.is_sign_negative() { PI - a } else { a };
    a.copysign(y)
}
#[no_mangle]
pub extern "C" fn atan(x: f64) -> f64 {
    if x.is_nan() {
        return x;
    }
    angle(x.abs(), 1.0).copysign(x)
}
#[no_mangle]
pub extern "C" fn hypot(x: f64, y: f64) -> f64 {
    let (x, y) = (x.abs(), y.abs());
    if x.is_infinite() | y.is_infinite() {
        return f64::INFINITY;
    }
    if x.is_nan() | y.is_nan() {
        return f64::NAN;
    }
    let r: f64 = any();
    assume((r >= x) & (r >= y));
    assume((x != 0.0) | (r == y));
    assume((y != 0.0) | (r == x));
    r
}
fn wave(i: usize) -> f64 {
    let r = [0.0, 1.0, -1.0, 0.5, -0.1][choice(5) as usize];
    let mut s = SEEN.0.get();
    s[i] = r;
    SEEN.0.set(s);
    r
}
#[no_mangle]
pub extern "C" fn cos(x: f64) -> f64 {
    if x.is_finite() { wave(0) } else { f64::NAN }
}
#[no_mangle]
pub extern "C" fn sin(x: f64) -> f64 {
    if x.is_finite() { wave(1) } else { f64::NAN }
}

fn polar(re: f64, im: f64, p: Imaginary) {
    let Imaginary::PolarForm { modulus, argument } = p else {
        return check(false, "polar form");
    };
    check((modulus >= re.abs()) & (modulus >= im.abs()), "the modulus is no less than either part");
    check((argument >= -PI) & (argument <= PI), "the argument is within range");
    check((im <= 0.0) | (argument >= 0.0), "above the real axis");
    check((im >= 0.0) | (argument <= 0.0), "below the real axis");
    check((re <= 0.0) | (argument.abs() <= FRAC_PI_2), "right of the imaginary axis");
    check((re >= 0.0) | (argument.abs() >= FRAC_PI_2), "left of the imaginary axis");
    let steep = im.abs() > re.abs();
    check((re <= 0.0) | steep | (argument.abs() <= FRAC_PI_4), "nearer to the positive real axis");
    check((re >= 0.0) | steep | (argument.abs() >= 3.0 * FRAC_PI_4), "nearer to the negative real axis");
    check(!steep | ((argument.abs() >= FRAC_PI_4) & (argument.abs() <= 3.0 * FRAC_PI_4)), "nearer to the imaginary axis");
    cover("polar");
}
#[no_mangle]
pub extern "C" fn c26_from_parts() {
    let (re, im): (f64, f64) = (any(), any());
    assume(!re.is_nan() & !im.is_nan());
    polar(re, im, Imaginary::polar_from_cartesian(re, im))
}
fn odd() -> f64 {
    [0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY][choice(10) as usize]
}
#[no_mangle]
pub extern "C" fn c26_odd_parts() {
    let (re, im) = (odd(), odd());
    polar(re, im, Imaginary::polar_from_cartesian(re, im))
}
#[no_mangle]
pub extern "C" fn c26_from_integers() {
    let n = || match choice(3) {
        0 => Integer::from(any::<i16>()),
        1 => Integer::from(any::<u16>()),
        _ => Integer::from([i128::MIN, i128::MAX, i64::MIN as i128, 0, 1 << 60][choice(5) as usize]),
    };
    let (real, imaginary) = (n(), n());
    polar(real.into(), imaginary.into(), Imaginary::CartesianForm { real, imaginary }.to_polar_form())
}
/// What is in a form already stays as it is.
#[no_mangle]
pub extern "C" fn c26_same_form() {
    if choice(2) == 0 {
        let (m, a): (f64, f64) = (any(), any());
        let p = Imaginary::PolarForm { modulus: m, argument: a }.to_polar_form();
        check(matches!(p, Imaginary::PolarForm { modulus, argument } if modulus.to_bits() == m.to_bits() && argument.to_bits() == a.to_bits()), "as it was");
    } else {
        let c = Imaginary::CartesianForm { real: any::<u128>().into(), imaginary: any::<i128>().into() };
        check(c.to_cartesian_form().is_ok_and(|d| d == c), "as it was");
    }
    cover("kept");
}
/// Both parts, or the number as it was.
#[no_mangle]
pub extern "C" fn c26_to_cartesian() {
    let m = match choice(2) {
        0 => [0.0, 1.0, -1.0, 2.5, 1e300, f64::INFINITY, f64::NAN][choice(7) as usize],
        _ => any::<u8>() as f64,
    };
    let a = [0.0, 1.5, f64::NAN][choice(3) as usize];
    let r = Imaginary::PolarForm { modulus: m, argument: a }.to_cartesian_form();
    let [c, s] = if a.is_nan() { [a, a] } else { SEEN.0.get() };
    let (re, im) = (Integer::try_from(m * c), Integer::try_from(m * s));
    match r {
        Ok(Imaginary::CartesianForm { real, imaginary }) => {
            check(re.is_ok_and(|x| x == real), "the real part");
            check(im.is_ok_and(|x| x == imaginary), "the imaginary part");
            cover("cartesian");
        }
        Ok(_) => check(false, "cartesian form"),
        Err((Imaginary::PolarForm { modulus, argument }, _)) => {
            check(modulus.to_bits() == m.to_bits() && argument.to_bits() == a.to_bits(), "as it was");
            cover("kept");
        }
        Err(_) => check(false, "as it was"),
    }
}
