// Written by tools/gen24.py: models for the derive macros.
#![allow(dead_code, unused_imports)]
use {chrono::{Duration, NaiveDate, NaiveDateTime}, mysql_connector::{macros::*, model::*, types::Hex}};

#[derive(Debug, Clone, PartialEq)]
pub struct Vec3 { pub x: f32, pub y: f64, pub z: i16 }
pub mod geo {
#[derive(Debug, Clone, PartialEq)]
pub struct Point { pub lat: f64, pub lon: Option<f64> }
}
#[derive(Debug, Clone, PartialEq)]
pub struct Pair { pub a: String, pub b: Option<u8> }
#[derive(Debug, Clone, PartialEq)]
pub struct Point { pub lat: f64, pub lon: Option<f64> }
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "leaf", primary = "id", auto_increment = "false")]
pub struct Leaf {
    pub id: u32,
    pub name: String,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "world", primary = "id", auto_increment = "true")]
pub struct World {
    pub id: u32,
    pub name: String,
    pub level: u8,
    pub played: Option<NaiveDateTime>,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "whole", primary = "id", auto_increment = "true")]
pub struct Whole {
    pub id: u64,
    pub a_i8: i8,
    pub a_i16: i16,
    pub a_i32: i32,
    pub a_i64: i64,
    pub a_u8: u8,
    pub a_u16: u16,
    pub a_u32: u32,
    pub a_u64: u64,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "other", primary = "id", auto_increment = "true")]
pub struct Other {
    pub id: u64,
    pub a_f32: f32,
    pub a_f64: f64,
    pub a_bool: bool,
    pub a_str: String,
    pub a_bytes: Vec<u8>,
    pub a_date: NaiveDate,
    pub a_datetime: NaiveDateTime,
    pub a_dur: Duration,
    pub a_hex: Hex,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "whole_null", primary = "id", auto_increment = "true")]
pub struct WholeNull {
    pub id: u64,
    pub o_i8: Option<i8>,
    pub o_i16: Option<i16>,
    pub o_i32: Option<i32>,
    pub o_i64: Option<i64>,
    pub o_u8: Option<u8>,
    pub o_u16: Option<u16>,
    pub o_u32: Option<u32>,
    pub o_u64: Option<u64>,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "other_null", primary = "id", auto_increment = "true")]
pub struct OtherNull {
    pub id: u64,
    pub o_f32: Option<f32>,
    pub o_f64: Option<f64>,
    pub o_bool: Option<bool>,
    pub o_str: Option<String>,
    pub o_bytes: Option<Vec<u8>>,
    pub o_date: Option<NaiveDate>,
    pub o_datetime: Option<NaiveDateTime>,
    pub o_dur: Option<Duration>,
    pub o_hex: Option<Hex>,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "placed", primary = "id", auto_increment = "true", ty = Vec3{x, y: lat, z}, ty = geo::Point{lat: north, lon: east})]
pub struct Placed {
    pub id: i64,
    pub title: String,
    pub pos: Vec3,
    pub heading: f32,
    pub home: geo::Point,
    pub area: World,
    pub pos_: Vec3,
    pub kind: i8,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "pre", primary = "key", auto_increment = "false")]
pub struct Prefix {
    pub map: Leaf,
    pub key: u16,
    pub ma: World,
    pub map2: World,
    pub m: Leaf,
    pub name: Option<String>,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "two", primary = "id", auto_increment = "true", ty = Point{lat, lon}, ty = geo::Point{lat: y, lon: x})]
pub struct Two {
    pub id: u32,
    pub from: geo::Point,
    pub to: Point,
    pub via: geo::Point,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "deep_c", primary = "id", auto_increment = "true")]
pub struct DeepC {
    pub id: u32,
    pub name: String,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "deep_b", primary = "id", auto_increment = "false", ty = Pair{a, b})]
pub struct DeepB {
    pub id: u32,
    pub c: DeepC,
    pub p: Pair,
    pub name: String,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "deep_a", primary = "id", auto_increment = "true")]
pub struct DeepA {
    pub id: u32,
    pub name: String,
    pub b: DeepB,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "deep", primary = "id", auto_increment = "true")]
pub struct Deep {
    pub id: u32,
    pub a: DeepA,
    pub name: String,
    pub b: DeepB,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "kid", primary = "id", auto_increment = "true")]
pub struct Kid {
    pub id: u16,
    pub name: String,
    pub pet: Leaf,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "parent", primary = "id", auto_increment = "true")]
pub struct Parent {
    pub id: u32,
    pub name: String,
    pub parent: Kid,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "link", primary = "id", auto_increment = "true")]
pub struct Chain {
    pub id: u32,
    pub link: Kid,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "chained", primary = "id", auto_increment = "true")]
pub struct Chained {
    pub id: u32,
    pub chain: Chain,
    pub link: Leaf,
}
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "with space", primary = "id", auto_increment = "true", ty = Vec3{x, y: yy, z})]
pub struct Raw {
    pub id: u32,
    pub r#type: String,
    pub r#match: Leaf,
    pub r#in: bool,
    pub r#mod: Vec3,
    pub mo: Vec3,
}
