#![allow(clippy::missing_safety_doc)]
pub mod core;
pub mod nd;
#[cfg(feature = "alloc")]
pub mod seq;
#[cfg(feature = "alloc")]
pub mod det;
#[cfg(feature = "alloc")]
pub mod hist;
#[cfg(feature = "alloc")]
pub mod own;
#[cfg(feature = "alloc")]
pub mod split;
#[cfg(feature = "alloc")]
pub mod var;
#[cfg(feature = "alloc")]
pub mod asy;
#[cfg(all(feature = "alloc", not(feature = "vmem")))]
pub mod conc;
#[cfg(all(feature = "alloc", not(feature = "vmem")))]
pub mod last;
#[cfg(feature = "vmem")]
pub mod vm;

pub fn find(name: &str) -> Option<nd::Entry> {
    let lists: &[&[(&str, nd::Entry)]] = &[
        #[cfg(feature = "alloc")]
        seq::LIST,
        #[cfg(feature = "alloc")]
        det::LIST,
        #[cfg(feature = "alloc")]
        hist::LIST,
        #[cfg(feature = "alloc")]
        own::LIST,
        #[cfg(feature = "alloc")]
        split::LIST,
        #[cfg(feature = "alloc")]
        var::LIST,
        #[cfg(feature = "alloc")]
        asy::LIST,
        #[cfg(all(feature = "alloc", not(feature = "vmem")))]
        conc::LIST,
        #[cfg(all(feature = "alloc", not(feature = "vmem")))]
        last::LIST,
        #[cfg(feature = "vmem")]
        vm::LIST,
    ];
    lists.iter().flat_map(|l| l.iter()).find(|x| x.0 == name).map(|x| x.1)
}
