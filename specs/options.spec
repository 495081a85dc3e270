@@module options
@@file options.rs
@@text
use vstd::prelude::*;
use crate::prelude::*;
pub assume_specification [f64::clamp] (_0: f64, _1: f64, _2: f64) -> f64;
@@item DEFAULT_HOT_ALLOCATION
@@item DEFAULT_GHOST_ALLOCATION
@@item Options
@@item OptionsBuilder
@derive Default
@@item Error
@attr #[derive(Debug)]
@@fn available_parallelism
@assume
@ret r
@ensures
    1 <= r <= 0x1000_0000,
@@fn OptionsBuilder::new
@ret r
@ensures
    r == (OptionsBuilder { shards: None, hot_allocation: None, ghost_allocation: None, estimated_items_capacity: None, weight_capacity: None }), // [C15] nothing is set at first
@@fn OptionsBuilder::hot_allocation
@rejects
@ret r
@ensures
    *r == (OptionsBuilder { hot_allocation: Some(hot_allocation), ..*old(self) }), // [C15] exactly the hot share is set
    *final(r) == *final(self),
@@fn OptionsBuilder::ghost_allocation
@rejects
@ret r
@ensures
    *r == (OptionsBuilder { ghost_allocation: Some(ghost_allocation), ..*old(self) }), // [C15] exactly the ghost share is set
    *final(r) == *final(self),
@@fn OptionsBuilder::shards
@ret r
@ensures
    *r == (OptionsBuilder { shards: Some(shards), ..*old(self) }), // [C15] exactly the shard count is set
    *final(r) == *final(self),
@@fn OptionsBuilder::estimated_items_capacity
@ret r
@ensures
    *r == (OptionsBuilder { estimated_items_capacity: Some(estimated_items_capacity), ..*old(self) }), // [C15] exactly the item estimate is set
    *final(r) == *final(self),
@@fn OptionsBuilder::weight_capacity
@ret r
@ensures
    *r == (OptionsBuilder { weight_capacity: Some(weight_capacity), ..*old(self) }), // [C15] exactly the capacity is set
    *final(r) == *final(self),
@@fn OptionsBuilder::build
@ret r
@ensures
    r is Err <==> self.weight_capacity is None || self.estimated_items_capacity is None, // [C15] building fails exactly when a required value is missing
    r is Ok ==> Some(r->Ok_0.weight_capacity) == self.weight_capacity && Some(r->Ok_0.estimated_items_capacity) == self.estimated_items_capacity, // [C15] the values set are used
    r is Ok && self.shards is Some ==> r->Ok_0.shards == self.shards->0, // [C15] the shard count set is used
    r is Ok && self.hot_allocation is Some ==> r->Ok_0.hot_allocation == self.hot_allocation->0, // [C15] the values set are used
    r is Ok && self.shards is None ==> 1 <= r->Ok_0.shards <= 0x8000_0000_0000_0000, // [C15] there is a default shard count
    r is Ok && self.hot_allocation is None ==> r->Ok_0.hot_allocation == DEFAULT_HOT_ALLOCATION, // [C15] the default is used
    r is Ok && self.ghost_allocation is None ==> r->Ok_0.ghost_allocation == DEFAULT_GHOST_ALLOCATION, // [C15] the default is used
    r is Ok && self.ghost_allocation is Some ==> r->Ok_0.ghost_allocation == self.ghost_allocation->0, // [C15] the values set are used
