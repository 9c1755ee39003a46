use crate::explore::Prop;
pub mod common;
pub mod c01;
pub mod c02;
#[cfg(feature = "sched")]
pub mod c04;
pub mod c03;
pub mod isa;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
#[cfg(feature = "sched")]
pub fn all() -> Vec<Box<dyn Prop>> { vec![Box::new(c04::P)] }
#[cfg(not(feature = "sched"))]
pub fn all() -> Vec<Box<dyn Prop>> { vec![Box::new(c01::P), Box::new(c02::P), Box::new(c03::P), Box::new(c05::P), Box::new(c06::P), Box::new(c07::P), Box::new(c08::P), Box::new(c09::P), Box::new(c11::P), Box::new(c12::P), Box::new(c13::P), Box::new(c14::P), Box::new(c15::P), Box::new(c16::P), Box::new(c17::P), Box::new(c18::P), Box::new(c19::P), Box::new(c20::P)] }
