// one module per property; also included by /verif/replay
#[cfg(feature = "c01")]
#[path = "/verif/harness/src/c01.rs"]
pub mod c01;
#[cfg(feature = "c02")]
#[path = "/verif/harness/src/c02.rs"]
pub mod c02;
#[cfg(feature = "c03")]
#[path = "/verif/harness/src/c03.rs"]
pub mod c03;
#[cfg(feature = "c04")]
#[path = "/verif/harness/src/c04.rs"]
pub mod c04;
#[cfg(feature = "c05")]
#[path = "/verif/harness/src/c05.rs"]
pub mod c05;
#[cfg(feature = "c06")]
#[path = "/verif/harness/src/c06.rs"]
pub mod c06;
#[cfg(feature = "c07")]
#[path = "/verif/harness/src/c07.rs"]
pub mod c07;
#[cfg(feature = "c08")]
#[path = "/verif/harness/src/c08.rs"]
pub mod c08;
#[cfg(feature = "c09")]
#[path = "/verif/harness/src/c09.rs"]
pub mod c09;
#[cfg(feature = "c10")]
#[path = "/verif/harness/src/c10.rs"]
pub mod c10;
#[cfg(feature = "c11")]
#[path = "/verif/harness/src/c11.rs"]
pub mod c11;
#[cfg(feature = "c12")]
#[path = "/verif/harness/src/c12.rs"]
pub mod c12;
#[cfg(feature = "c13")]
#[path = "/verif/harness/src/c13.rs"]
pub mod c13;
#[cfg(feature = "c14")]
#[path = "/verif/harness/src/c14.rs"]
pub mod c14;
#[cfg(feature = "c15")]
#[path = "/verif/harness/src/c15.rs"]
pub mod c15;
#[cfg(feature = "c16")]
#[path = "/verif/harness/src/c16.rs"]
pub mod c16;
#[cfg(feature = "c17")]
#[path = "/verif/harness/src/c17.rs"]
pub mod c17;
#[cfg(feature = "c18")]
#[path = "/verif/harness/src/c18.rs"]
pub mod c18;
#[cfg(feature = "c19")]
#[path = "/verif/harness/src/c19.rs"]
pub mod c19;
#[cfg(feature = "c20")]
#[path = "/verif/harness/src/c20.rs"]
pub mod c20;
pub fn entries() -> Vec<(&'static str, extern "C-unwind" fn())> {
    let mut v: Vec<(&'static str, extern "C-unwind" fn())> = vec![];
    #[cfg(feature = "c01")]
    v.extend_from_slice(c01::ENTRIES);
    #[cfg(feature = "c02")]
    v.extend_from_slice(c02::ENTRIES);
    #[cfg(feature = "c03")]
    v.extend_from_slice(c03::ENTRIES);
    #[cfg(feature = "c04")]
    v.extend_from_slice(c04::ENTRIES);
    #[cfg(feature = "c05")]
    v.extend_from_slice(c05::ENTRIES);
    #[cfg(feature = "c06")]
    v.extend_from_slice(c06::ENTRIES);
    #[cfg(feature = "c07")]
    v.extend_from_slice(c07::ENTRIES);
    #[cfg(feature = "c08")]
    v.extend_from_slice(c08::ENTRIES);
    #[cfg(feature = "c09")]
    v.extend_from_slice(c09::ENTRIES);
    #[cfg(feature = "c10")]
    v.extend_from_slice(c10::ENTRIES);
    #[cfg(feature = "c11")]
    v.extend_from_slice(c11::ENTRIES);
    #[cfg(feature = "c12")]
    v.extend_from_slice(c12::ENTRIES);
    #[cfg(feature = "c13")]
    v.extend_from_slice(c13::ENTRIES);
    #[cfg(feature = "c14")]
    v.extend_from_slice(c14::ENTRIES);
    #[cfg(feature = "c15")]
    v.extend_from_slice(c15::ENTRIES);
    #[cfg(feature = "c16")]
    v.extend_from_slice(c16::ENTRIES);
    #[cfg(feature = "c17")]
    v.extend_from_slice(c17::ENTRIES);
    #[cfg(feature = "c18")]
    v.extend_from_slice(c18::ENTRIES);
    #[cfg(feature = "c19")]
    v.extend_from_slice(c19::ENTRIES);
    #[cfg(feature = "c20")]
    v.extend_from_slice(c20::ENTRIES);
    #[cfg(feature = "c21")]
    v.extend_from_slice(c21::ENTRIES);
    v
}
#[cfg(feature = "c21")]
#[path = "/verif/harness/src/c21.rs"]
pub mod c21;
