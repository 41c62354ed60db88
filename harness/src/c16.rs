//! Conversions between Rust values and database values.
use crate::{rt::*, vals};
use chrono::{Datelike, Duration, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
use mysql_connector::types::Value;
use std::{convert::TryInto, fmt::Debug};

fn get<T>(v: &Value) -> Result<T, ()> where Value: TryInto<T> { v.clone().try_into().map_err(|_| ()) }

/// There and back, plain and optional.
fn trip<T>(cx: &mut Ctx, x: T, want: impl Fn(&T, &T) -> bool)
where T: Clone + Debug + TryInto<Value>, Value: TryInto<T> + TryInto<Option<T>>, Value: TryFrom<Option<T>>
{
    let desc = format!("{} {x:?}", std::any::type_name::<T>());
    cx.case(&desc, true);
    let Some(r) = cx.guard("c16-panic", &desc, || {
        let v: Option<Value> = x.clone().try_into().ok();
        let o: Option<Value> = Value::try_from(Some(x.clone())).ok();
        let back = v.as_ref().map(|v| (v.clone(), get::<T>(v), get::<Option<T>>(v)));
        (v, o, back)
    }) else { return };
    let (v, o, back) = r;
    cx.check(v.is_some() == o.is_some() && v.as_ref().zip(o.as_ref()).map_or(true, |(a, b)| vals::same(a, b)), "c16-option", || format!("{desc}: {v:?}, wrapped in an option {o:?}"));
    if let Some((v, a, b)) = back {
        cx.check(matches!(&a, Ok(y) if want(&x, y)), "c16-round-trip", || format!("{desc} became {v:?} and came back as {a:?}"));
        cx.check(matches!(&b, Ok(Some(y)) if want(&x, y)), "c16-round-trip", || format!("{desc} became {v:?} and came back as {b:?} (optional)"));
    }
}

fn days_in(y: i64, m: i64) -> i64 {
    match m { 2 => if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 }
}
fn date_ok(y: u16, m: u8, d: u8) -> bool { (1..=12).contains(&m) && d >= 1 && d as i64 <= days_in(y as i64, m as i64) }

/// What each type may make of a value: None is an error.
fn reads(cx: &mut Ctx, v: &Value) {
    let desc = format!("{v:?}");
    cx.case(&desc, !matches!(v, Value::Null));
    macro_rules! plain { ($t:ty, $p:pat => $x:expr) => { plain!($t, $p => $x, |a: &$t, b: &$t| a == b) }; ($t:ty, $p:pat => $x:expr, $same:expr) => {
        let want: Option<$t> = match v.clone() { $p => $x, _ => None };
        if let Some((got, opt)) = cx.guard("c16-panic", &format!("{desc} as {}", stringify!($t)), || (get::<$t>(v), get::<Option<$t>>(v))) {
            let ok = match (&got, &want) { (Ok(a), Some(b)) => $same(a, b), (Err(_), None) => true, _ => false };
            cx.check(ok, "c16-reads", || format!("{desc} as {}: {got:?} instead of {want:?}", stringify!($t)));
            let ok = match (&opt, &want) { (Ok(Some(a)), Some(b)) => $same(a, b), (Ok(None), None) => *v == Value::Null, (Err(_), None) => *v != Value::Null, _ => false };
            cx.check(ok, "c16-option", || format!("{desc} as Option<{}>: {opt:?}", stringify!($t)));
        }
    } }
    plain!(i8, Value::Tiny(x) => Some(x));
    plain!(i16, Value::Short(x) => Some(x));
    plain!(i32, Value::Int(x) => Some(x));
    plain!(i64, Value::Long(x) => Some(x));
    plain!(u8, Value::UTiny(x) => Some(x));
    plain!(u16, Value::UShort(x) => Some(x));
    plain!(u32, Value::UInt(x) => Some(x));
    plain!(u64, Value::ULong(x) => Some(x));
    plain!(f32, Value::Float(x) => Some(x), |a: &f32, b: &f32| a.to_bits() == b.to_bits());
    plain!(f64, Value::Double(x) => Some(x), |a: &f64, b: &f64| a.to_bits() == b.to_bits());
    plain!(Vec<u8>, Value::Bytes(x) => Some(x));
    plain!(String, Value::Bytes(x) => String::from_utf8(x).ok());
    let n: Option<i128> = match v {
        Value::Tiny(x) => Some(*x as i128), Value::Short(x) => Some(*x as i128), Value::Int(x) => Some(*x as i128), Value::Long(x) => Some(*x as i128),
        Value::UTiny(x) => Some(*x as i128), Value::UShort(x) => Some(*x as i128), Value::UInt(x) => Some(*x as i128), Value::ULong(x) => Some(*x as i128),
        _ => None,
    };
    if let Some((b, o)) = cx.guard("c16-panic", &format!("{desc} as bool"), || (get::<bool>(v), get::<Option<bool>>(v))) {
        let ok = match (n, b) { (Some(n), Ok(b)) => (n != 0 || !b) && (n <= 0 || b), (None, Err(())) => true, _ => false };
        cx.check(ok, "c16-truth", || format!("{desc} as a truth value: {b:?}"));
        cx.check(o == if *v == Value::Null { Ok(None) } else { b.map(Some) }, "c16-option", || format!("{desc} as Option<bool>: {o:?}"));
    }
    let ymd = match v { Value::Date(y, m, d) | Value::Datetime(y, m, d, ..) if date_ok(*y, *m, *d) => Some((*y as i32, *m as u32, *d as u32)), _ => None };
    if let Some((a, o)) = cx.guard("c16-panic", &format!("{desc} as a date"), || (get::<NaiveDate>(v), get::<Option<NaiveDate>>(v))) {
        cx.check(a.ok().map(|d| (d.year(), d.month(), d.day())) == ymd, "c16-reads", || format!("{desc} as a date: {a:?}"));
        cx.check(o == if *v == Value::Null { Ok(None) } else { a.map(Some) }, "c16-option", || format!("{desc} as an optional date: {o:?}"));
    }
    let want = match v {
        Value::Datetime(_, _, _, h, i, s, u) if *h < 24 && *i < 60 && *s < 60 && (*u < 1_000_000 || *s == 59 && *u < 2_000_000) => ymd.map(|d| (d, (*h as u32, *i as u32, *s as u32, *u * 1000))),
        _ => None,
    };
    if let Some((a, o)) = cx.guard("c16-panic", &format!("{desc} as a datetime"), || (get::<NaiveDateTime>(v), get::<Option<NaiveDateTime>>(v))) {
        cx.check(a.ok().map(|d| ((d.year(), d.month(), d.day()), (d.hour(), d.minute(), d.second(), d.nanosecond()))) == want, "c16-reads", || format!("{desc} as a datetime: {a:?}"));
        cx.check(o == if *v == Value::Null { Ok(None) } else { a.map(Some) }, "c16-option", || format!("{desc} as an optional datetime: {o:?}"));
    }
    let want = match v {
        Value::Time(neg, d, h, i, s, u) if *u < 1_000_000 => {
            let x = (((*d as i128 * 24 + *h as i128) * 60 + *i as i128) * 60 + *s as i128) * 1_000_000 + *u as i128;
            Some(if *neg { -x } else { x })
        }
        _ => None,
    };
    if let Some((a, o)) = cx.guard("c16-panic", &format!("{desc} as a duration"), || (get::<Duration>(v), get::<Option<Duration>>(v))) {
        cx.check(a.ok().map(nanos) == want.map(|x| x * 1000), "c16-reads", || format!("{desc} as a duration: {a:?} instead of {want:?} µs"));
        cx.check(o == if *v == Value::Null { Ok(None) } else { a.map(Some) }, "c16-option", || format!("{desc} as an optional duration: {o:?}"));
    }
}

fn nanos(d: Duration) -> i128 { d.num_seconds() as i128 * 1_000_000_000 + d.subsec_nanos() as i128 }

fn duration(cx: &mut Ctx, d: Duration) {
    let n = nanos(d);
    let desc = format!("a duration of {n} ns");
    cx.case(&desc, true);
    let key = |days: i128| if days >= 1 << 32 { "c16-days" } else { "c16-round-trip" };
    let days = n.abs() / 86_400_000_000_000;
    let Some(v) = cx.guard("c16-panic", &desc, || Value::from(d)) else { return };
    let back = cx.guard("c16-panic", &desc, || (get::<Duration>(&v), get::<Option<Duration>>(&v)));
    let want = n / 1000 * 1000;
    if let Some((a, o)) = back {
        cx.check(a.ok().map(nanos) == Some(want), key(days), || format!("{desc} became {v:?} and came back as {a:?}"));
        cx.check(o == a.map(Some), "c16-option", || format!("{desc} became {v:?}, optional {o:?}"));
    }
    if let Value::Time(neg, _, h, m, s, u) = v {
        cx.check(h < 24 && m < 60 && s < 60 && u < 1_000_000 && (neg == (n < 0) || want == 0), "c16-time-form", || format!("{desc} became {v:?}"));
    } else {
        cx.fail("c16-round-trip", format!("{desc} became {v:?}"));
    }
}

pub fn main(cx: &mut Ctx) {
    cx.rule("every 8- and 16-bit number and edges of the wider ones; dates around every month end and the limits; datetimes and durations around every unit; every kind of value read as every type");
    for x in 0..=u16::MAX {
        trip(cx, x as u8, |a, b| a == b);
        trip(cx, x as i8, |a, b| a == b);
        trip(cx, x, |a, b| a == b);
        trip(cx, x as i16, |a, b| a == b);
        if x % 16 != 0 && x > 600 { continue; }
        let n = cx.rng.edgy_u64();
        trip(cx, n, |a, b| a == b);
        trip(cx, n as i64, |a, b| a == b);
        trip(cx, n as u32, |a, b| a == b);
        trip(cx, n as i32, |a, b| a == b);
        trip(cx, f64::from_bits(n), |a, b| a.to_bits() == b.to_bits());
        trip(cx, f32::from_bits(n as u32), |a, b| a.to_bits() == b.to_bits());
    }
    trip(cx, true, |a, b| a == b);
    trip(cx, false, |a, b| a == b);
    for _ in 0..3000 {
        let s = cx.rng.string(12);
        trip(cx, s, |a, b| a == b);
        let b = vals::blob(&mut cx.rng, false);
        trip(cx, b, |a, b| a == b);
    }
    // dates
    let mut years: Vec<i32> = vec![-262143, -262142, -1, 0, 1, 4, 99, 100, 400, 999, 1000, 1582, 1900, 1970, 1999, 2000, 2023, 2024, 2100, 9999, 10000, 65534, 65535, 65536, 65540, 131071, 262142];
    for _ in 0..cx.n(60, 1500) { years.push(cx.rng.usize(66_000) as i32); }
    for y in years {
        for m in 1..=12 {
            for d in [1, 2, 15, 28, 29, 30, 31] {
                let Some(x) = NaiveDate::from_ymd_opt(y, m, d) else { continue };
                trip(cx, x, |a, b| a == b);
                let fits = (0..=65535).contains(&y);
                let v: Option<Value> = x.try_into().ok();
                cx.check(v == fits.then(|| Value::Date(y as u16, m as u8, d as u8)), "c16-date-form", || format!("{x:?} became {v:?}"));
                let mut t = |m: u32| if cx.rng.chance(3) { 0 } else if cx.rng.chance(3) { m - 1 } else { cx.rng.below(m as u64) as u32 };
                let (h, i, s, mut ns) = (t(24), t(60), t(60), t(1_000_000_000));
                if s == 59 && ns % 2 == 0 { ns += 1_000_000_000; }
                let Some(c) = NaiveTime::from_hms_nano_opt(h, i, s, ns) else { continue };
                let dt = NaiveDateTime::new(x, c);
                let rounded = NaiveDateTime::new(x, NaiveTime::from_hms_nano_opt(h, i, s, ns / 1000 * 1000).unwrap());
                trip(cx, dt, |_, b| *b == rounded);
                let v: Option<Value> = dt.try_into().ok();
                cx.check(v == fits.then(|| Value::Datetime(y as u16, m as u8, d as u8, h as u8, i as u8, s as u8, ns / 1000)), "c16-date-form", || format!("{dt:?} became {v:?}"));
            }
        }
    }
    // durations
    let unit: [i128; 8] = [1, 1000, 1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000, 86_400_000_000_000 << 32];
    let max = i64::MAX as i128 * 1_000_000;
    let mut ns: Vec<i128> = vec![0, max, -max, max - 1, 1 - max];
    for u in unit { for k in [1, 2, 23, 24, 59, 60, 61, 365] { for d in [-1000, -999, -1, 0, 1, 500, 999, 1000, 1001, 1_000_000] { ns.push(u * k + d); ns.push(-u * k + d); } } }
    for _ in 0..cx.n(20_000, 500_000) {
        let u = *cx.rng.pick(&unit);
        let n = (cx.rng.next() as i64 as i128) % (u * 1000);
        ns.push(n);
    }
    for n in ns {
        if n.abs() > max { continue; }
        if let Some(d) = Duration::new(n.div_euclid(1_000_000_000) as i64, n.rem_euclid(1_000_000_000) as u32) { duration(cx, d); }
    }
    // values read as every type
    for v in [Value::Null, Value::Bytes(vec![0xff]), Value::Bytes(vec![]), Value::Time(true, u32::MAX, 255, 255, 255, 999_999), Value::Time(false, u32::MAX, 255, 255, 255, u32::MAX)] { reads(cx, &v); }
    for x in 0..=255u8 { reads(cx, &Value::Tiny(x as i8)); reads(cx, &Value::UTiny(x)); }
    for k in 0..64 { for d in [0u64, 1, u64::MAX] {
        let x = (1u64 << k).wrapping_add(d);
        for v in [Value::Long(x as i64), Value::ULong(x), Value::Int(x as i32), Value::UInt(x as u32), Value::Short(x as i16), Value::UShort(x as u16), Value::Long((x as i64).wrapping_neg())] { reads(cx, &v); }
    } }
    for u in [0, 999_999, 1_000_000, 1_000_001, 1_999_999, 2_000_000, 4_294_967, 4_294_968, u32::MAX] {
        for s in [0, 58, 59, 60] { for i in [0, 59, 60] { for h in [0, 23, 24] {
            reads(cx, &Value::Datetime(2024, 2, 29, h, i, s, u));
            reads(cx, &Value::Time(u % 2 == 0, 0, h, i, s, u));
            reads(cx, &Value::Time(u % 2 == 1, 35, h, i, s, u));
        } } }
    }
    for y in [0u16, 1, 1900, 2000, 2023, 2024, 65535] { for m in 0..=13 { for d in [0, 1, 28, 29, 30, 31, 32, 255] {
        reads(cx, &Value::Date(y, m, d));
        reads(cx, &Value::Datetime(y, m, d, 1, 2, 3, 4));
    } } }
    for _ in 0..cx.n(30_000, 600_000) {
        let v = vals::value(&mut cx.rng, false);
        reads(cx, &v);
        let (d, t) = match cx.rng.below(3) {
            0 => (cx.rng.below(40) as u8, 0),
            _ => (cx.rng.below(31) as u8, cx.rng.below(1_100_000) as u32),
        };
        let v = Value::Datetime(cx.rng.below(3000) as u16, cx.rng.below(13) as u8, d, cx.rng.below(25) as u8, cx.rng.below(61) as u8, cx.rng.below(61) as u8, t);
        reads(cx, &v);
        if !cx.time_left() { break; }
    }
}
