use crate::sa::*;
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, SupParser};
use subtile::time::TimeSpan;
use subtile::vobsub::{Sub, VobSubIndexedImage};

/// Every item of any `.sub` content.
pub fn sub_items() {
    let Ok(sub) = Sub::open("any.sub") else { return };
    for item in sub.subtitles::<(TimeSpan, VobSubIndexedImage)>() {
        drop(item);
    }
}
pub fn sup_time() {
    let mut p = SupParser::<AnyReader, DecodeTimeOnly>::new(AnyReader::new());
    while let Some(item) = p.next() {
        drop(item);
    }
}
pub fn sup_image() {
    let mut p = SupParser::<AnyReader, DecodeTimeImage>::new(AnyReader::new());
    while let Some(item) = p.next() {
        drop(item);
    }
}
/// One item from any position of any `.sub` content.
pub fn sub_next() {
    let mut p = any_like(|s: &'static Sub| s.subtitles::<(TimeSpan, VobSubIndexedImage)>());
    drop(p.next());
}
