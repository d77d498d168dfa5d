#![allow(unexpected_cfgs, unused_mut)]
pub mod curves;
pub mod digests;
pub mod fw;
pub mod gen;
pub mod indep;
pub mod mock;
pub mod adv;
pub mod inst;
pub mod srs;
pub mod st;
pub mod tamper;
pub mod roots;
pub mod poly;
pub mod malform;
