use chrono::{Duration, NaiveDate, NaiveDateTime};
use mysql_connector::{macros::*, model::*, types::Hex};

#[derive(Debug)]
pub struct Vector3 {
    pub x: f32,
    pub y: f32,
    pub z: f32,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "map", primary = "id", auto_increment = "true")]
pub struct Map {
    pub id: u32,
    pub name: String,
    pub difficulty: u8,
    pub last_played: Option<NaiveDateTime>,
    pub day: Option<NaiveDate>,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "entity", primary = "id", auto_increment = "true", ty = Vector3{x,y,z})]
pub struct Entity {
    pub id: u32,
    pub name: String,
    pub position: Vector3,
    pub heading: f32,
    pub model: u32,
    pub spawn_after: Duration,
    pub map: Map,
}
