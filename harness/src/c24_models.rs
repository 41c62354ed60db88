// Written by tools/gen24.py: what each of the sample models must do.
use {super::*, samples::*, mysql_connector::model::{ActiveReference, ActiveValue, HasActiveModel, Model}};

impl Sample for Leaf {
    const NAME: &'static str = "Leaf";
    const TABLED: &'static str = "leaf";
    const KEY: &'static str = "id";
    const AUTO: bool = false;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { Leaf { id: leaf(rng, alias, "id", out), name: leaf(rng, alias, "name", out) } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) {  }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("leaf");
        if rng.chance(3) {} else { let (x, v) = <u32 as Kind>::gen(rng); a.id = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("id", v); }
        if rng.chance(3) {} else { let (x, v) = <String as Kind>::gen(rng); a.name = ActiveValue::Set(x); t.push("name", v); }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("leaf");
        t.primary = Some(Kind::value(&self.id)); t.push("id", Kind::value(&self.id)); t.push("name", Kind::value(&self.name));
        t
    }
    fn key(&self) -> Value { Kind::value(&self.id) }
}
impl Sample for World {
    const NAME: &'static str = "World";
    const TABLED: &'static str = "world";
    const KEY: &'static str = "id";
    const AUTO: bool = true;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { World { id: leaf(rng, alias, "id", out), name: leaf(rng, alias, "name", out), level: leaf(rng, alias, "level", out), played: leaf(rng, alias, "played", out) } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) {  }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("world");
        if rng.chance(3) {} else { let (x, v) = <u32 as Kind>::gen(rng); a.id = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("id", v); }
        if rng.chance(3) {} else { let (x, v) = <String as Kind>::gen(rng); a.name = ActiveValue::Set(x); t.push("name", v); }
        if rng.chance(3) {} else { let (x, v) = <u8 as Kind>::gen(rng); a.level = ActiveValue::Set(x); t.push("level", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<NaiveDateTime> as Kind>::gen(rng); a.played = ActiveValue::Set(x); t.push("played", v); }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("world");
        t.push("name", Kind::value(&self.name)); t.push("level", Kind::value(&self.level)); t.push("played", Kind::value(&self.played));
        t
    }
    fn key(&self) -> Value { Kind::value(&self.id) }
}
impl Sample for Whole {
    const NAME: &'static str = "Whole";
    const TABLED: &'static str = "whole";
    const KEY: &'static str = "id";
    const AUTO: bool = true;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { Whole { id: leaf(rng, alias, "id", out), a_i8: leaf(rng, alias, "a_i8", out), a_i16: leaf(rng, alias, "a_i16", out), a_i32: leaf(rng, alias, "a_i32", out), a_i64: leaf(rng, alias, "a_i64", out), a_u8: leaf(rng, alias, "a_u8", out), a_u16: leaf(rng, alias, "a_u16", out), a_u32: leaf(rng, alias, "a_u32", out), a_u64: leaf(rng, alias, "a_u64", out) } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) {  }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("whole");
        if rng.chance(3) {} else { let (x, v) = <u64 as Kind>::gen(rng); a.id = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("id", v); }
        if rng.chance(3) {} else { let (x, v) = <i8 as Kind>::gen(rng); a.a_i8 = ActiveValue::Set(x); t.push("a_i8", v); }
        if rng.chance(3) {} else { let (x, v) = <i16 as Kind>::gen(rng); a.a_i16 = ActiveValue::Set(x); t.push("a_i16", v); }
        if rng.chance(3) {} else { let (x, v) = <i32 as Kind>::gen(rng); a.a_i32 = ActiveValue::Set(x); t.push("a_i32", v); }
        if rng.chance(3) {} else { let (x, v) = <i64 as Kind>::gen(rng); a.a_i64 = ActiveValue::Set(x); t.push("a_i64", v); }
        if rng.chance(3) {} else { let (x, v) = <u8 as Kind>::gen(rng); a.a_u8 = ActiveValue::Set(x); t.push("a_u8", v); }
        if rng.chance(3) {} else { let (x, v) = <u16 as Kind>::gen(rng); a.a_u16 = ActiveValue::Set(x); t.push("a_u16", v); }
        if rng.chance(3) {} else { let (x, v) = <u32 as Kind>::gen(rng); a.a_u32 = ActiveValue::Set(x); t.push("a_u32", v); }
        if rng.chance(3) {} else { let (x, v) = <u64 as Kind>::gen(rng); a.a_u64 = ActiveValue::Set(x); t.push("a_u64", v); }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("whole");
        t.push("a_i8", Kind::value(&self.a_i8)); t.push("a_i16", Kind::value(&self.a_i16)); t.push("a_i32", Kind::value(&self.a_i32)); t.push("a_i64", Kind::value(&self.a_i64)); t.push("a_u8", Kind::value(&self.a_u8)); t.push("a_u16", Kind::value(&self.a_u16)); t.push("a_u32", Kind::value(&self.a_u32)); t.push("a_u64", Kind::value(&self.a_u64));
        t
    }
    fn key(&self) -> Value { Kind::value(&self.id) }
}
impl Sample for Other {
    const NAME: &'static str = "Other";
    const TABLED: &'static str = "other";
    const KEY: &'static str = "id";
    const AUTO: bool = true;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { Other { id: leaf(rng, alias, "id", out), a_f32: leaf(rng, alias, "a_f32", out), a_f64: leaf(rng, alias, "a_f64", out), a_bool: leaf(rng, alias, "a_bool", out), a_str: leaf(rng, alias, "a_str", out), a_bytes: leaf(rng, alias, "a_bytes", out), a_date: leaf(rng, alias, "a_date", out), a_datetime: leaf(rng, alias, "a_datetime", out), a_dur: leaf(rng, alias, "a_dur", out), a_hex: leaf(rng, alias, "a_hex", out) } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) {  }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("other");
        if rng.chance(3) {} else { let (x, v) = <u64 as Kind>::gen(rng); a.id = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("id", v); }
        if rng.chance(3) {} else { let (x, v) = <f32 as Kind>::gen(rng); a.a_f32 = ActiveValue::Set(x); t.push("a_f32", v); }
        if rng.chance(3) {} else { let (x, v) = <f64 as Kind>::gen(rng); a.a_f64 = ActiveValue::Set(x); t.push("a_f64", v); }
        if rng.chance(3) {} else { let (x, v) = <bool as Kind>::gen(rng); a.a_bool = ActiveValue::Set(x); t.push("a_bool", v); }
        if rng.chance(3) {} else { let (x, v) = <String as Kind>::gen(rng); a.a_str = ActiveValue::Set(x); t.push("a_str", v); }
        if rng.chance(3) {} else { let (x, v) = <Vec<u8> as Kind>::gen(rng); a.a_bytes = ActiveValue::Set(x); t.push("a_bytes", v); }
        if rng.chance(3) {} else { let (x, v) = <NaiveDate as Kind>::gen(rng); a.a_date = ActiveValue::Set(x); t.push("a_date", v); }
        if rng.chance(3) {} else { let (x, v) = <NaiveDateTime as Kind>::gen(rng); a.a_datetime = ActiveValue::Set(x); t.push("a_datetime", v); }
        if rng.chance(3) {} else { let (x, v) = <Duration as Kind>::gen(rng); a.a_dur = ActiveValue::Set(x); t.push("a_dur", v); }
        if rng.chance(3) {} else { let (x, v) = <Hex as Kind>::gen(rng); a.a_hex = ActiveValue::Set(x); t.push("a_hex", v); }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("other");
        t.push("a_f32", Kind::value(&self.a_f32)); t.push("a_f64", Kind::value(&self.a_f64)); t.push("a_bool", Kind::value(&self.a_bool)); t.push("a_str", Kind::value(&self.a_str)); t.push("a_bytes", Kind::value(&self.a_bytes)); t.push("a_date", Kind::value(&self.a_date)); t.push("a_datetime", Kind::value(&self.a_datetime)); t.push("a_dur", Kind::value(&self.a_dur)); t.push("a_hex", Kind::value(&self.a_hex));
        t
    }
    fn key(&self) -> Value { Kind::value(&self.id) }
}
impl Sample for WholeNull {
    const NAME: &'static str = "WholeNull";
    const TABLED: &'static str = "whole_null";
    const KEY: &'static str = "id";
    const AUTO: bool = true;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { WholeNull { id: leaf(rng, alias, "id", out), o_i8: leaf(rng, alias, "o_i8", out), o_i16: leaf(rng, alias, "o_i16", out), o_i32: leaf(rng, alias, "o_i32", out), o_i64: leaf(rng, alias, "o_i64", out), o_u8: leaf(rng, alias, "o_u8", out), o_u16: leaf(rng, alias, "o_u16", out), o_u32: leaf(rng, alias, "o_u32", out), o_u64: leaf(rng, alias, "o_u64", out) } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) {  }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("whole_null");
        if rng.chance(3) {} else { let (x, v) = <u64 as Kind>::gen(rng); a.id = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("id", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<i8> as Kind>::gen(rng); a.o_i8 = ActiveValue::Set(x); t.push("o_i8", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<i16> as Kind>::gen(rng); a.o_i16 = ActiveValue::Set(x); t.push("o_i16", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<i32> as Kind>::gen(rng); a.o_i32 = ActiveValue::Set(x); t.push("o_i32", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<i64> as Kind>::gen(rng); a.o_i64 = ActiveValue::Set(x); t.push("o_i64", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<u8> as Kind>::gen(rng); a.o_u8 = ActiveValue::Set(x); t.push("o_u8", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<u16> as Kind>::gen(rng); a.o_u16 = ActiveValue::Set(x); t.push("o_u16", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<u32> as Kind>::gen(rng); a.o_u32 = ActiveValue::Set(x); t.push("o_u32", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<u64> as Kind>::gen(rng); a.o_u64 = ActiveValue::Set(x); t.push("o_u64", v); }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("whole_null");
        t.push("o_i8", Kind::value(&self.o_i8)); t.push("o_i16", Kind::value(&self.o_i16)); t.push("o_i32", Kind::value(&self.o_i32)); t.push("o_i64", Kind::value(&self.o_i64)); t.push("o_u8", Kind::value(&self.o_u8)); t.push("o_u16", Kind::value(&self.o_u16)); t.push("o_u32", Kind::value(&self.o_u32)); t.push("o_u64", Kind::value(&self.o_u64));
        t
    }
    fn key(&self) -> Value { Kind::value(&self.id) }
}
impl Sample for OtherNull {
    const NAME: &'static str = "OtherNull";
    const TABLED: &'static str = "other_null";
    const KEY: &'static str = "id";
    const AUTO: bool = true;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { OtherNull { id: leaf(rng, alias, "id", out), o_f32: leaf(rng, alias, "o_f32", out), o_f64: leaf(rng, alias, "o_f64", out), o_bool: leaf(rng, alias, "o_bool", out), o_str: leaf(rng, alias, "o_str", out), o_bytes: leaf(rng, alias, "o_bytes", out), o_date: leaf(rng, alias, "o_date", out), o_datetime: leaf(rng, alias, "o_datetime", out), o_dur: leaf(rng, alias, "o_dur", out), o_hex: leaf(rng, alias, "o_hex", out) } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) {  }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("other_null");
        if rng.chance(3) {} else { let (x, v) = <u64 as Kind>::gen(rng); a.id = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("id", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<f32> as Kind>::gen(rng); a.o_f32 = ActiveValue::Set(x); t.push("o_f32", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<f64> as Kind>::gen(rng); a.o_f64 = ActiveValue::Set(x); t.push("o_f64", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<bool> as Kind>::gen(rng); a.o_bool = ActiveValue::Set(x); t.push("o_bool", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<String> as Kind>::gen(rng); a.o_str = ActiveValue::Set(x); t.push("o_str", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<Vec<u8>> as Kind>::gen(rng); a.o_bytes = ActiveValue::Set(x); t.push("o_bytes", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<NaiveDate> as Kind>::gen(rng); a.o_date = ActiveValue::Set(x); t.push("o_date", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<NaiveDateTime> as Kind>::gen(rng); a.o_datetime = ActiveValue::Set(x); t.push("o_datetime", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<Duration> as Kind>::gen(rng); a.o_dur = ActiveValue::Set(x); t.push("o_dur", v); }
        if rng.chance(3) {} else { let (x, v) = <Option<Hex> as Kind>::gen(rng); a.o_hex = ActiveValue::Set(x); t.push("o_hex", v); }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("other_null");
        t.push("o_f32", Kind::value(&self.o_f32)); t.push("o_f64", Kind::value(&self.o_f64)); t.push("o_bool", Kind::value(&self.o_bool)); t.push("o_str", Kind::value(&self.o_str)); t.push("o_bytes", Kind::value(&self.o_bytes)); t.push("o_date", Kind::value(&self.o_date)); t.push("o_datetime", Kind::value(&self.o_datetime)); t.push("o_dur", Kind::value(&self.o_dur)); t.push("o_hex", Kind::value(&self.o_hex));
        t
    }
    fn key(&self) -> Value { Kind::value(&self.id) }
}
impl Sample for Placed {
    const NAME: &'static str = "Placed";
    const TABLED: &'static str = "placed";
    const KEY: &'static str = "id";
    const AUTO: bool = true;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { Placed { id: leaf(rng, alias, "id", out), title: leaf(rng, alias, "title", out), pos: Vec3 { x: leaf(rng, alias, "pos_x", out), y: leaf(rng, alias, "pos_lat", out), z: leaf(rng, alias, "pos_z", out) }, heading: leaf(rng, alias, "heading", out), home: geo::Point { lat: leaf(rng, alias, "home_north", out), lon: leaf(rng, alias, "home_east", out) }, area: <World as Sample>::make(rng, &at(alias, "area"), out), pos_: Vec3 { x: leaf(rng, alias, "pos__x", out), y: leaf(rng, alias, "pos__lat", out), z: leaf(rng, alias, "pos__z", out) }, kind: leaf(rng, alias, "kind", out) } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) { out.push((alias.into(), "area".into(), at(alias, "area"), "world".into(), "id".into())); <World as Sample>::joins(&at(alias, "area"), out); }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("placed");
        if rng.chance(3) {} else { let (x, v) = <i64 as Kind>::gen(rng); a.id = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("id", v); }
        if rng.chance(3) {} else { let (x, v) = <String as Kind>::gen(rng); a.title = ActiveValue::Set(x); t.push("title", v); }
        if rng.chance(4) {} else { let mut v = Vec::new(); a.pos = ActiveValue::Set(Vec3 { x: leaf(rng, "", "pos_x", &mut v), y: leaf(rng, "", "pos_lat", &mut v), z: leaf(rng, "", "pos_z", &mut v) }); t.extend(v); }
        if rng.chance(3) {} else { let (x, v) = <f32 as Kind>::gen(rng); a.heading = ActiveValue::Set(x); t.push("heading", v); }
        if rng.chance(4) {} else { let mut v = Vec::new(); a.home = ActiveValue::Set(geo::Point { lat: leaf(rng, "", "home_north", &mut v), lon: leaf(rng, "", "home_east", &mut v) }); t.extend(v); }
        match rng.below(4) { 0 => {}, 1 => { let (x, v) = <u32 as Kind>::gen(rng); a.area = ActiveReference::Set(x); t.push("area", v); }, _ => { let mut b = World::active_model(); let c = <World as Sample>::fill(&mut b, rng); a.area = ActiveReference::Insert(b); t.insert("area", c); } }
        if rng.chance(4) {} else { let mut v = Vec::new(); a.pos_ = ActiveValue::Set(Vec3 { x: leaf(rng, "", "pos__x", &mut v), y: leaf(rng, "", "pos__lat", &mut v), z: leaf(rng, "", "pos__z", &mut v) }); t.extend(v); }
        if rng.chance(3) {} else { let (x, v) = <i8 as Kind>::gen(rng); a.kind = ActiveValue::Set(x); t.push("kind", v); }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("placed");
        t.push("title", Kind::value(&self.title)); t.push("pos_x", Kind::value(&self.pos.x)); t.push("pos_lat", Kind::value(&self.pos.y)); t.push("pos_z", Kind::value(&self.pos.z)); t.push("heading", Kind::value(&self.heading)); t.push("home_north", Kind::value(&self.home.lat)); t.push("home_east", Kind::value(&self.home.lon)); t.insert("area", self.area.whole()); t.push("pos__x", Kind::value(&self.pos_.x)); t.push("pos__lat", Kind::value(&self.pos_.y)); t.push("pos__z", Kind::value(&self.pos_.z)); t.push("kind", Kind::value(&self.kind));
        t
    }
    fn key(&self) -> Value { Kind::value(&self.id) }
}
impl Sample for Prefix {
    const NAME: &'static str = "Prefix";
    const TABLED: &'static str = "pre";
    const KEY: &'static str = "key";
    const AUTO: bool = false;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { Prefix { map: <Leaf as Sample>::make(rng, &at(alias, "map"), out), key: leaf(rng, alias, "key", out), ma: <World as Sample>::make(rng, &at(alias, "ma"), out), map2: <World as Sample>::make(rng, &at(alias, "map2"), out), m: <Leaf as Sample>::make(rng, &at(alias, "m"), out), name: leaf(rng, alias, "name", out) } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) { out.push((alias.into(), "map".into(), at(alias, "map"), "leaf".into(), "id".into())); <Leaf as Sample>::joins(&at(alias, "map"), out); out.push((alias.into(), "ma".into(), at(alias, "ma"), "world".into(), "id".into())); <World as Sample>::joins(&at(alias, "ma"), out); out.push((alias.into(), "map2".into(), at(alias, "map2"), "world".into(), "id".into())); <World as Sample>::joins(&at(alias, "map2"), out); out.push((alias.into(), "m".into(), at(alias, "m"), "leaf".into(), "id".into())); <Leaf as Sample>::joins(&at(alias, "m"), out); }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("pre");
        match rng.below(4) { 0 => {}, 1 => { let (x, v) = <u32 as Kind>::gen(rng); a.map = ActiveReference::Set(x); t.push("map", v); }, _ => { let mut b = Leaf::active_model(); let c = <Leaf as Sample>::fill(&mut b, rng); a.map = ActiveReference::Insert(b); t.insert("map", c); } }
        if rng.chance(3) {} else { let (x, v) = <u16 as Kind>::gen(rng); a.key = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("key", v); }
        match rng.below(4) { 0 => {}, 1 => { let (x, v) = <u32 as Kind>::gen(rng); a.ma = ActiveReference::Set(x); t.push("ma", v); }, _ => { let mut b = World::active_model(); let c = <World as Sample>::fill(&mut b, rng); a.ma = ActiveReference::Insert(b); t.insert("ma", c); } }
        match rng.below(4) { 0 => {}, 1 => { let (x, v) = <u32 as Kind>::gen(rng); a.map2 = ActiveReference::Set(x); t.push("map2", v); }, _ => { let mut b = World::active_model(); let c = <World as Sample>::fill(&mut b, rng); a.map2 = ActiveReference::Insert(b); t.insert("map2", c); } }
        match rng.below(4) { 0 => {}, 1 => { let (x, v) = <u32 as Kind>::gen(rng); a.m = ActiveReference::Set(x); t.push("m", v); }, _ => { let mut b = Leaf::active_model(); let c = <Leaf as Sample>::fill(&mut b, rng); a.m = ActiveReference::Insert(b); t.insert("m", c); } }
        if rng.chance(3) {} else { let (x, v) = <Option<String> as Kind>::gen(rng); a.name = ActiveValue::Set(x); t.push("name", v); }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("pre");
        t.insert("map", self.map.whole()); t.primary = Some(Kind::value(&self.key)); t.push("key", Kind::value(&self.key)); t.insert("ma", self.ma.whole()); t.insert("map2", self.map2.whole()); t.insert("m", self.m.whole()); t.push("name", Kind::value(&self.name));
        t
    }
    fn key(&self) -> Value { Kind::value(&self.key) }
}
impl Sample for Two {
    const NAME: &'static str = "Two";
    const TABLED: &'static str = "two";
    const KEY: &'static str = "id";
    const AUTO: bool = true;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { Two { id: leaf(rng, alias, "id", out), from: geo::Point { lat: leaf(rng, alias, "from_y", out), lon: leaf(rng, alias, "from_x", out) }, to: Point { lat: leaf(rng, alias, "to_lat", out), lon: leaf(rng, alias, "to_lon", out) }, via: geo::Point { lat: leaf(rng, alias, "via_y", out), lon: leaf(rng, alias, "via_x", out) } } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) {  }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("two");
        if rng.chance(3) {} else { let (x, v) = <u32 as Kind>::gen(rng); a.id = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("id", v); }
        if rng.chance(4) {} else { let mut v = Vec::new(); a.from = ActiveValue::Set(geo::Point { lat: leaf(rng, "", "from_y", &mut v), lon: leaf(rng, "", "from_x", &mut v) }); t.extend(v); }
        if rng.chance(4) {} else { let mut v = Vec::new(); a.to = ActiveValue::Set(Point { lat: leaf(rng, "", "to_lat", &mut v), lon: leaf(rng, "", "to_lon", &mut v) }); t.extend(v); }
        if rng.chance(4) {} else { let mut v = Vec::new(); a.via = ActiveValue::Set(geo::Point { lat: leaf(rng, "", "via_y", &mut v), lon: leaf(rng, "", "via_x", &mut v) }); t.extend(v); }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("two");
        t.push("from_y", Kind::value(&self.from.lat)); t.push("from_x", Kind::value(&self.from.lon)); t.push("to_lat", Kind::value(&self.to.lat)); t.push("to_lon", Kind::value(&self.to.lon)); t.push("via_y", Kind::value(&self.via.lat)); t.push("via_x", Kind::value(&self.via.lon));
        t
    }
    fn key(&self) -> Value { Kind::value(&self.id) }
}
impl Sample for DeepC {
    const NAME: &'static str = "DeepC";
    const TABLED: &'static str = "deep_c";
    const KEY: &'static str = "id";
    const AUTO: bool = true;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { DeepC { id: leaf(rng, alias, "id", out), name: leaf(rng, alias, "name", out) } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) {  }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("deep_c");
        if rng.chance(3) {} else { let (x, v) = <u32 as Kind>::gen(rng); a.id = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("id", v); }
        if rng.chance(3) {} else { let (x, v) = <String as Kind>::gen(rng); a.name = ActiveValue::Set(x); t.push("name", v); }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("deep_c");
        t.push("name", Kind::value(&self.name));
        t
    }
    fn key(&self) -> Value { Kind::value(&self.id) }
}
impl Sample for DeepB {
    const NAME: &'static str = "DeepB";
    const TABLED: &'static str = "deep_b";
    const KEY: &'static str = "id";
    const AUTO: bool = false;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { DeepB { id: leaf(rng, alias, "id", out), c: <DeepC as Sample>::make(rng, &at(alias, "c"), out), p: Pair { a: leaf(rng, alias, "p_a", out), b: leaf(rng, alias, "p_b", out) }, name: leaf(rng, alias, "name", out) } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) { out.push((alias.into(), "c".into(), at(alias, "c"), "deep_c".into(), "id".into())); <DeepC as Sample>::joins(&at(alias, "c"), out); }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("deep_b");
        if rng.chance(3) {} else { let (x, v) = <u32 as Kind>::gen(rng); a.id = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("id", v); }
        match rng.below(4) { 0 => {}, 1 => { let (x, v) = <u32 as Kind>::gen(rng); a.c = ActiveReference::Set(x); t.push("c", v); }, _ => { let mut b = DeepC::active_model(); let c = <DeepC as Sample>::fill(&mut b, rng); a.c = ActiveReference::Insert(b); t.insert("c", c); } }
        if rng.chance(4) {} else { let mut v = Vec::new(); a.p = ActiveValue::Set(Pair { a: leaf(rng, "", "p_a", &mut v), b: leaf(rng, "", "p_b", &mut v) }); t.extend(v); }
        if rng.chance(3) {} else { let (x, v) = <String as Kind>::gen(rng); a.name = ActiveValue::Set(x); t.push("name", v); }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("deep_b");
        t.primary = Some(Kind::value(&self.id)); t.push("id", Kind::value(&self.id)); t.insert("c", self.c.whole()); t.push("p_a", Kind::value(&self.p.a)); t.push("p_b", Kind::value(&self.p.b)); t.push("name", Kind::value(&self.name));
        t
    }
    fn key(&self) -> Value { Kind::value(&self.id) }
}
impl Sample for DeepA {
    const NAME: &'static str = "DeepA";
    const TABLED: &'static str = "deep_a";
    const KEY: &'static str = "id";
    const AUTO: bool = true;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { DeepA { id: leaf(rng, alias, "id", out), name: leaf(rng, alias, "name", out), b: <DeepB as Sample>::make(rng, &at(alias, "b"), out) } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) { out.push((alias.into(), "b".into(), at(alias, "b"), "deep_b".into(), "id".into())); <DeepB as Sample>::joins(&at(alias, "b"), out); }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("deep_a");
        if rng.chance(3) {} else { let (x, v) = <u32 as Kind>::gen(rng); a.id = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("id", v); }
        if rng.chance(3) {} else { let (x, v) = <String as Kind>::gen(rng); a.name = ActiveValue::Set(x); t.push("name", v); }
        match rng.below(4) { 0 => {}, 1 => { let (x, v) = <u32 as Kind>::gen(rng); a.b = ActiveReference::Set(x); t.push("b", v); }, _ => { let mut b = DeepB::active_model(); let c = <DeepB as Sample>::fill(&mut b, rng); a.b = ActiveReference::Insert(b); t.insert("b", c); } }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("deep_a");
        t.push("name", Kind::value(&self.name)); t.insert("b", self.b.whole());
        t
    }
    fn key(&self) -> Value { Kind::value(&self.id) }
}
impl Sample for Deep {
    const NAME: &'static str = "Deep";
    const TABLED: &'static str = "deep";
    const KEY: &'static str = "id";
    const AUTO: bool = true;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { Deep { id: leaf(rng, alias, "id", out), a: <DeepA as Sample>::make(rng, &at(alias, "a"), out), name: leaf(rng, alias, "name", out), b: <DeepB as Sample>::make(rng, &at(alias, "b"), out) } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) { out.push((alias.into(), "a".into(), at(alias, "a"), "deep_a".into(), "id".into())); <DeepA as Sample>::joins(&at(alias, "a"), out); out.push((alias.into(), "b".into(), at(alias, "b"), "deep_b".into(), "id".into())); <DeepB as Sample>::joins(&at(alias, "b"), out); }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("deep");
        if rng.chance(3) {} else { let (x, v) = <u32 as Kind>::gen(rng); a.id = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("id", v); }
        match rng.below(4) { 0 => {}, 1 => { let (x, v) = <u32 as Kind>::gen(rng); a.a = ActiveReference::Set(x); t.push("a", v); }, _ => { let mut b = DeepA::active_model(); let c = <DeepA as Sample>::fill(&mut b, rng); a.a = ActiveReference::Insert(b); t.insert("a", c); } }
        if rng.chance(3) {} else { let (x, v) = <String as Kind>::gen(rng); a.name = ActiveValue::Set(x); t.push("name", v); }
        match rng.below(4) { 0 => {}, 1 => { let (x, v) = <u32 as Kind>::gen(rng); a.b = ActiveReference::Set(x); t.push("b", v); }, _ => { let mut b = DeepB::active_model(); let c = <DeepB as Sample>::fill(&mut b, rng); a.b = ActiveReference::Insert(b); t.insert("b", c); } }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("deep");
        t.insert("a", self.a.whole()); t.push("name", Kind::value(&self.name)); t.insert("b", self.b.whole());
        t
    }
    fn key(&self) -> Value { Kind::value(&self.id) }
}
impl Sample for Kid {
    const NAME: &'static str = "Kid";
    const TABLED: &'static str = "kid";
    const KEY: &'static str = "id";
    const AUTO: bool = true;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { Kid { id: leaf(rng, alias, "id", out), name: leaf(rng, alias, "name", out), pet: <Leaf as Sample>::make(rng, &at(alias, "pet"), out) } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) { out.push((alias.into(), "pet".into(), at(alias, "pet"), "leaf".into(), "id".into())); <Leaf as Sample>::joins(&at(alias, "pet"), out); }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("kid");
        if rng.chance(3) {} else { let (x, v) = <u16 as Kind>::gen(rng); a.id = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("id", v); }
        if rng.chance(3) {} else { let (x, v) = <String as Kind>::gen(rng); a.name = ActiveValue::Set(x); t.push("name", v); }
        match rng.below(4) { 0 => {}, 1 => { let (x, v) = <u32 as Kind>::gen(rng); a.pet = ActiveReference::Set(x); t.push("pet", v); }, _ => { let mut b = Leaf::active_model(); let c = <Leaf as Sample>::fill(&mut b, rng); a.pet = ActiveReference::Insert(b); t.insert("pet", c); } }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("kid");
        t.push("name", Kind::value(&self.name)); t.insert("pet", self.pet.whole());
        t
    }
    fn key(&self) -> Value { Kind::value(&self.id) }
}
impl Sample for Parent {
    const NAME: &'static str = "Parent";
    const TABLED: &'static str = "parent";
    const KEY: &'static str = "id";
    const AUTO: bool = true;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { Parent { id: leaf(rng, alias, "id", out), name: leaf(rng, alias, "name", out), parent: <Kid as Sample>::make(rng, &at(alias, "parent"), out) } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) { out.push((alias.into(), "parent".into(), at(alias, "parent"), "kid".into(), "id".into())); <Kid as Sample>::joins(&at(alias, "parent"), out); }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("parent");
        if rng.chance(3) {} else { let (x, v) = <u32 as Kind>::gen(rng); a.id = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("id", v); }
        if rng.chance(3) {} else { let (x, v) = <String as Kind>::gen(rng); a.name = ActiveValue::Set(x); t.push("name", v); }
        match rng.below(4) { 0 => {}, 1 => { let (x, v) = <u16 as Kind>::gen(rng); a.parent = ActiveReference::Set(x); t.push("parent", v); }, _ => { let mut b = Kid::active_model(); let c = <Kid as Sample>::fill(&mut b, rng); a.parent = ActiveReference::Insert(b); t.insert("parent", c); } }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("parent");
        t.push("name", Kind::value(&self.name)); t.insert("parent", self.parent.whole());
        t
    }
    fn key(&self) -> Value { Kind::value(&self.id) }
}
impl Sample for Chain {
    const NAME: &'static str = "Chain";
    const TABLED: &'static str = "link";
    const KEY: &'static str = "id";
    const AUTO: bool = true;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { Chain { id: leaf(rng, alias, "id", out), link: <Kid as Sample>::make(rng, &at(alias, "link"), out) } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) { out.push((alias.into(), "link".into(), at(alias, "link"), "kid".into(), "id".into())); <Kid as Sample>::joins(&at(alias, "link"), out); }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("link");
        if rng.chance(3) {} else { let (x, v) = <u32 as Kind>::gen(rng); a.id = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("id", v); }
        match rng.below(4) { 0 => {}, 1 => { let (x, v) = <u16 as Kind>::gen(rng); a.link = ActiveReference::Set(x); t.push("link", v); }, _ => { let mut b = Kid::active_model(); let c = <Kid as Sample>::fill(&mut b, rng); a.link = ActiveReference::Insert(b); t.insert("link", c); } }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("link");
        t.insert("link", self.link.whole());
        t
    }
    fn key(&self) -> Value { Kind::value(&self.id) }
}
impl Sample for Chained {
    const NAME: &'static str = "Chained";
    const TABLED: &'static str = "chained";
    const KEY: &'static str = "id";
    const AUTO: bool = true;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { Chained { id: leaf(rng, alias, "id", out), chain: <Chain as Sample>::make(rng, &at(alias, "chain"), out), link: <Leaf as Sample>::make(rng, &at(alias, "link"), out) } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) { out.push((alias.into(), "chain".into(), at(alias, "chain"), "link".into(), "id".into())); <Chain as Sample>::joins(&at(alias, "chain"), out); out.push((alias.into(), "link".into(), at(alias, "link"), "leaf".into(), "id".into())); <Leaf as Sample>::joins(&at(alias, "link"), out); }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("chained");
        if rng.chance(3) {} else { let (x, v) = <u32 as Kind>::gen(rng); a.id = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("id", v); }
        match rng.below(4) { 0 => {}, 1 => { let (x, v) = <u32 as Kind>::gen(rng); a.chain = ActiveReference::Set(x); t.push("chain", v); }, _ => { let mut b = Chain::active_model(); let c = <Chain as Sample>::fill(&mut b, rng); a.chain = ActiveReference::Insert(b); t.insert("chain", c); } }
        match rng.below(4) { 0 => {}, 1 => { let (x, v) = <u32 as Kind>::gen(rng); a.link = ActiveReference::Set(x); t.push("link", v); }, _ => { let mut b = Leaf::active_model(); let c = <Leaf as Sample>::fill(&mut b, rng); a.link = ActiveReference::Insert(b); t.insert("link", c); } }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("chained");
        t.insert("chain", self.chain.whole()); t.insert("link", self.link.whole());
        t
    }
    fn key(&self) -> Value { Kind::value(&self.id) }
}
impl Sample for Raw {
    const NAME: &'static str = "Raw";
    const TABLED: &'static str = "with space";
    const KEY: &'static str = "id";
    const AUTO: bool = true;
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self { Raw { id: leaf(rng, alias, "id", out), r#type: leaf(rng, alias, "type", out), r#match: <Leaf as Sample>::make(rng, &at(alias, "match"), out), r#in: leaf(rng, alias, "in", out), r#mod: Vec3 { x: leaf(rng, alias, "mod_x", out), y: leaf(rng, alias, "mod_yy", out), z: leaf(rng, alias, "mod_z", out) }, mo: Vec3 { x: leaf(rng, alias, "mo_x", out), y: leaf(rng, alias, "mo_yy", out), z: leaf(rng, alias, "mo_z", out) } } }
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) { out.push((alias.into(), "match".into(), at(alias, "match"), "leaf".into(), "id".into())); <Leaf as Sample>::joins(&at(alias, "match"), out); }
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {
        let mut t = Tree::new("with space");
        if rng.chance(3) {} else { let (x, v) = <u32 as Kind>::gen(rng); a.id = ActiveValue::Set(x); t.primary = Some(v.clone()); t.push("id", v); }
        if rng.chance(3) {} else { let (x, v) = <String as Kind>::gen(rng); a.r#type = ActiveValue::Set(x); t.push("type", v); }
        match rng.below(4) { 0 => {}, 1 => { let (x, v) = <u32 as Kind>::gen(rng); a.r#match = ActiveReference::Set(x); t.push("match", v); }, _ => { let mut b = Leaf::active_model(); let c = <Leaf as Sample>::fill(&mut b, rng); a.r#match = ActiveReference::Insert(b); t.insert("match", c); } }
        if rng.chance(3) {} else { let (x, v) = <bool as Kind>::gen(rng); a.r#in = ActiveValue::Set(x); t.push("in", v); }
        if rng.chance(4) {} else { let mut v = Vec::new(); a.r#mod = ActiveValue::Set(Vec3 { x: leaf(rng, "", "mod_x", &mut v), y: leaf(rng, "", "mod_yy", &mut v), z: leaf(rng, "", "mod_z", &mut v) }); t.extend(v); }
        if rng.chance(4) {} else { let mut v = Vec::new(); a.mo = ActiveValue::Set(Vec3 { x: leaf(rng, "", "mo_x", &mut v), y: leaf(rng, "", "mo_yy", &mut v), z: leaf(rng, "", "mo_z", &mut v) }); t.extend(v); }
        t
    }
    fn whole(&self) -> Tree {
        let mut t = Tree::new("with space");
        t.push("type", Kind::value(&self.r#type)); t.insert("match", self.r#match.whole()); t.push("in", Kind::value(&self.r#in)); t.push("mod_x", Kind::value(&self.r#mod.x)); t.push("mod_yy", Kind::value(&self.r#mod.y)); t.push("mod_z", Kind::value(&self.r#mod.z)); t.push("mo_x", Kind::value(&self.mo.x)); t.push("mo_yy", Kind::value(&self.mo.y)); t.push("mo_z", Kind::value(&self.mo.z));
        t
    }
    fn key(&self) -> Value { Kind::value(&self.id) }
}
pub fn each(cx: &mut Ctx) {
    model::<Leaf>(cx);
    model::<World>(cx);
    model::<Whole>(cx);
    model::<Other>(cx);
    model::<WholeNull>(cx);
    model::<OtherNull>(cx);
    model::<Placed>(cx);
    model::<Prefix>(cx);
    model::<Two>(cx);
    model::<DeepC>(cx);
    model::<DeepB>(cx);
    model::<DeepA>(cx);
    model::<Deep>(cx);
    model::<Kid>(cx);
    model::<Parent>(cx);
    model::<Chain>(cx);
    model::<Chained>(cx);
    model::<Raw>(cx);
}
