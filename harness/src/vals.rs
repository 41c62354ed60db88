//! Random database values and the binary format written from the protocol documentation.
use {
    crate::{mock::*, rt::*},
    mysql_connector::types::Value,
};

pub fn time(rng: &mut Rng) -> Value {
    let z = rng.chance(8);
    let mut f = |m: u64| if z || rng.chance(3) { 0 } else if rng.chance(3) { m } else { rng.below(m + 1) };
    let (d, h, m, s, us) = (f(u32::MAX as u64) as u32, f(255) as u8, f(255) as u8, f(255) as u8, f(u32::MAX as u64) as u32);
    Value::Time(rng.bool(), d, h, m, s, us)
}

pub fn datetime(rng: &mut Rng) -> Value {
    let z = rng.chance(8);
    let mut f = |m: u64| if z || rng.chance(3) { 0 } else if rng.chance(3) { m } else { rng.below(m + 1) };
    Value::Datetime(f(65535) as u16, f(255) as u8, f(255) as u8, f(255) as u8, f(255) as u8, f(255) as u8, f(u32::MAX as u64) as u32)
}

pub fn date(rng: &mut Rng) -> Value {
    let z = rng.chance(8);
    let mut f = |m: u64| if z || rng.chance(4) { 0 } else if rng.chance(3) { m } else { rng.below(m + 1) };
    Value::Date(f(65535) as u16, f(255) as u8, f(255) as u8)
}

pub fn blob(rng: &mut Rng, big: bool) -> Vec<u8> {
    let n = match rng.below(12) {
        0 => 0,
        1 => *rng.pick(&[250usize, 251, 252, 253, 254, 255, 256]),
        2 if big => *rng.pick(&[65534usize, 65535, 65536, 65537, 70000]),
        3 => rng.usize(600),
        _ => rng.usize(12),
    };
    let b = rng.u8();
    if n > 1000 { (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(b)).collect() } else { rng.bytes(n) }
}

pub fn value(rng: &mut Rng, big: bool) -> Value {
    match rng.below(15) {
        0 | 1 => Value::Null,
        2 => Value::Tiny(rng.edgy_u64() as i8),
        3 => Value::Short(rng.edgy_u64() as i16),
        4 => Value::Int(rng.edgy_u64() as i32),
        5 => Value::Long(rng.edgy_u64() as i64),
        6 => Value::UTiny(rng.edgy_u64() as u8),
        7 => Value::UShort(rng.edgy_u64() as u16),
        8 => Value::UInt(rng.edgy_u64() as u32),
        9 => Value::ULong(rng.edgy_u64()),
        10 => Value::Float(f32::from_bits(*rng.pick(&[0, 0x8000_0000, 0x7f80_0000, 0x3f80_0000, 1, 0x7fc0_0001])) + (rng.next() >> 40) as f32 * 0.37),
        11 => Value::Double(if rng.bool() { f64::from_bits(rng.next()) } else { -0.0 }),
        12 => Value::Bytes(blob(rng, big)),
        13 => match rng.below(2) { 0 => date(rng), _ => datetime(rng) },
        _ => time(rng),
    }
}

/// The same variant with the same content, floats bit by bit.
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Float(x), Value::Float(y)) => x.to_bits() == y.to_bits(),
        (Value::Double(x), Value::Double(y)) => x.to_bits() == y.to_bits(),
        _ => a == b,
    }
}

pub fn all_same(a: &[Value], b: &[Value]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}

pub struct Cut<'a>(pub &'a [u8]);

impl<'a> Cut<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err(format!("{n} bytes wanted, {} left", self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn num(&mut self, n: usize) -> Result<u64, String> {
        Ok(self.take(n)?.iter().rev().fold(0, |a, b| a << 8 | *b as u64))
    }
    pub fn lenenc(&mut self) -> Result<u64, String> {
        let (n, min) = match self.num(1)? {
            n @ 0..=250 => return Ok(n),
            0xfc => (self.num(2)?, 251),
            0xfd => (self.num(3)?, 0x1_0000),
            0xfe => (self.num(8)?, 0x100_0000),
            b => return Err(format!("{b:#x} is no length")),
        };
        if n < min { return Err(format!("length {n} in a longer form than needed")); }
        Ok(n)
    }
}

/// What a server reads for a parameter of this type. The forms of dates and times must be the shortest ones.
pub fn server_reads(ty: u8, unsigned: bool, c: &mut Cut) -> Result<Value, String> {
    Ok(match (ty, unsigned) {
        (1, false) => Value::Tiny(c.num(1)? as i8),
        (1, true) => Value::UTiny(c.num(1)? as u8),
        (2, false) => Value::Short(c.num(2)? as i16),
        (2, true) => Value::UShort(c.num(2)? as u16),
        (3, false) => Value::Int(c.num(4)? as i32),
        (3, true) => Value::UInt(c.num(4)? as u32),
        (8, false) => Value::Long(c.num(8)? as i64),
        (8, true) => Value::ULong(c.num(8)?),
        (4, _) => Value::Float(f32::from_bits(c.num(4)? as u32)),
        (5, _) => Value::Double(f64::from_bits(c.num(8)?)),
        (253, _) => {
            let n = c.lenenc()? as usize;
            Value::Bytes(c.take(n)?.to_vec())
        }
        (10, _) => match c.num(1)? {
            0 => Value::Date(0, 0, 0),
            4 => {
                let v = (c.num(2)? as u16, c.num(1)? as u8, c.num(1)? as u8);
                if v == (0, 0, 0) { return Err("a zero date in the long form".into()); }
                Value::Date(v.0, v.1, v.2)
            }
            n => return Err(format!("date of length {n}")),
        },
        (12, _) => {
            let n = c.num(1)?;
            if ![0, 4, 7, 11].contains(&n) { return Err(format!("datetime of length {n}")); }
            let d = if n >= 4 { (c.num(2)? as u16, c.num(1)? as u8, c.num(1)? as u8) } else { (0, 0, 0) };
            let t = if n >= 7 { (c.num(1)? as u8, c.num(1)? as u8, c.num(1)? as u8) } else { (0, 0, 0) };
            let us = if n == 11 { c.num(4)? as u32 } else { 0 };
            let need = if us != 0 { 11 } else if t != (0, 0, 0) { 7 } else if d != (0, 0, 0) { 4 } else { 0 };
            if need != n { return Err(format!("datetime of length {n} where {need} suffices")); }
            Value::Datetime(d.0, d.1, d.2, t.0, t.1, t.2, us)
        }
        (11, _) => {
            let n = c.num(1)?;
            if ![0, 8, 12].contains(&n) { return Err(format!("time of length {n}")); }
            if n == 0 { return Ok(Value::Time(false, 0, 0, 0, 0, 0)); }
            let neg = match c.num(1)? { 0 => false, 1 => true, x => return Err(format!("sign {x}")) };
            let (d, h, m, s) = (c.num(4)? as u32, c.num(1)? as u8, c.num(1)? as u8, c.num(1)? as u8);
            let us = if n == 12 { c.num(4)? as u32 } else { 0 };
            let need = if us != 0 { 12 } else if (d, h, m, s) != (0, 0, 0, 0) { 8 } else { 0 };
            if need != n { return Err(format!("time of length {n} where {need} suffices")); }
            Value::Time(neg, d, h, m, s, us)
        }
        x => return Err(format!("parameter type {x:?}")),
    })
}

/// The value a server is meant to see: a zero time has no sign.
pub fn canonical(v: &Value) -> Value {
    match v {
        Value::Time(_, 0, 0, 0, 0, 0) => Value::Time(false, 0, 0, 0, 0, 0),
        v => v.clone(),
    }
}

pub struct Executed {
    pub id: u32,
    pub nulls: Vec<bool>,
    pub types: Vec<(u8, u8)>,
    pub values: Vec<Value>,
}

/// Reads an execution request for `n` parameters. `sent[i]`: parameter i was sent as long data.
pub fn read_execute(p: &[u8], n: usize, sent: &[Option<Vec<u8>>]) -> Result<Executed, String> {
    let mut c = Cut(p);
    if c.num(1)? != 0x17 { return Err("not an execution".into()); }
    let id = c.num(4)? as u32;
    if c.num(1)? != 0 { return Err("cursor flags".into()); }
    if c.num(4)? != 1 { return Err("iteration count".into()); }
    let mut r = Executed { id, nulls: vec![], types: vec![], values: vec![] };
    if n > 0 {
        let b = c.take((n + 7) / 8)?;
        r.nulls = (0..n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect();
        for i in n..b.len() * 8 {
            if b[i / 8] >> (i % 8) & 1 == 1 { return Err(format!("bit {i} of the bitmap is set")); }
        }
        if c.num(1)? != 1 { return Err("types are not announced".into()); }
        for _ in 0..n { r.types.push((c.num(1)? as u8, c.num(1)? as u8)); }
        for i in 0..n {
            let (ty, fl) = r.types[i];
            if fl != 0 && fl != 128 { return Err(format!("type flags {fl}")); }
            if r.nulls[i] { r.values.push(Value::Null); continue; }
            if let Some(Some(d)) = sent.get(i) {
                if ty != 253 { return Err(format!("long data for type {ty}")); }
                r.values.push(Value::Bytes(d.clone()));
                continue;
            }
            r.values.push(server_reads(ty, fl == 128, &mut c).map_err(|e| format!("parameter {i}: {e}"))?);
        }
    }
    if !c.0.is_empty() { return Err(format!("{} bytes left over", c.0.len())); }
    Ok(r)
}

/// What a server writes into a binary row.
pub fn server_writes(v: &Value) -> Vec<u8> {
    let mut b = Vec::new();
    match v {
        Value::Null => {}
        Value::Tiny(x) => b.extend(x.to_le_bytes()),
        Value::Short(x) => b.extend(x.to_le_bytes()),
        Value::Int(x) => b.extend(x.to_le_bytes()),
        Value::Long(x) => b.extend(x.to_le_bytes()),
        Value::UTiny(x) => b.extend(x.to_le_bytes()),
        Value::UShort(x) => b.extend(x.to_le_bytes()),
        Value::UInt(x) => b.extend(x.to_le_bytes()),
        Value::ULong(x) => b.extend(x.to_le_bytes()),
        Value::Float(x) => b.extend(x.to_bits().to_le_bytes()),
        Value::Double(x) => b.extend(x.to_bits().to_le_bytes()),
        Value::Bytes(x) => b.extend(lenenc_str(x)),
        Value::Date(y, m, d) => {
            if (*y, *m, *d) == (0, 0, 0) { b.push(0); } else { b.push(4); b.extend(y.to_le_bytes()); b.extend([*m, *d]); }
        }
        Value::Datetime(y, m, d, h, i, s, us) => {
            let n = if *us != 0 { 11 } else if (*h, *i, *s) != (0, 0, 0) { 7 } else if (*y, *m, *d) != (0, 0, 0) { 4 } else { 0 };
            b.push(n);
            if n >= 4 { b.extend(y.to_le_bytes()); b.extend([*m, *d]); }
            if n >= 7 { b.extend([*h, *i, *s]); }
            if n >= 11 { b.extend(us.to_le_bytes()); }
        }
        Value::Time(neg, d, h, m, s, us) => {
            let n = if *us != 0 { 12 } else if (*d, *h, *m, *s) != (0, 0, 0, 0) { 8 } else { 0 };
            b.push(n);
            if n >= 8 { b.push(*neg as u8); b.extend(d.to_le_bytes()); b.extend([*h, *m, *s]); }
            if n >= 12 { b.extend(us.to_le_bytes()); }
        }
    }
    b
}
