//! Type-level obligations of C19: this crate builds exactly when they hold.
//! Every `must::…` call is one obligation, decided by the type checker.
#![allow(dead_code)]
use image::{Luma, LumaA, Pixel};
use std::error::Error;
use std::io::{BufRead, Seek};
use subtile::content::{Area, AreaValues, ContentError, Size};
use subtile::image::{luma_a_to_luma_convertor, DumpError, ToOcrImageOpt};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsDecoder, PgsError, ReadError, RleEncodedImage, RleToImage, SupParser};
use subtile::srt::TimePointSrt;
use subtile::time::{TimePoint, TimeSpan};
use subtile::vobsub::{
    ErrorMissing, Index, Palette, Sub, TimePointIdx, VobSubError, VobSubIndexedImage, VobSubOcrImage, VobSubToImage,
};
use subtile::webvtt::TimePointVtt;
use subtile::SubtileError;

mod must {
    pub fn share<T: Send + Sync + ?Sized>() {}
    pub fn share_val<T: Send + Sync>(_: &T) {}
    pub fn error<T: std::error::Error + Send + Sync + 'static>() {}
    pub fn error_val<T: std::error::Error + Send + Sync + 'static>(_: &T) {}
    pub fn iter<T: Iterator + Send + Unpin>(_: &T) {}
    pub fn shared_iter<T: Iterator + Send + Sync + Unpin>(_: &T) {}
    pub fn fixed<T: 'static>() {}
}

fn plain() {
    must::share::<Area>();
    must::share::<AreaValues>();
    must::share::<Size>();
    must::share::<TimePoint>();
    must::share::<TimeSpan>();
    must::share::<TimePointIdx>();
    must::share::<TimePointSrt>();
    must::share::<TimePointVtt>();
    must::share::<ToOcrImageOpt>();
    must::share::<Index>();
    must::share::<Palette>();
    must::share::<Sub>();
    must::share::<VobSubIndexedImage>();
    must::share::<VobSubOcrImage<'static>>();
    must::share::<RleEncodedImage>();
    must::share::<DecodeTimeOnly>();
    must::share::<DecodeTimeImage>();
    must::fixed::<Sub>();
    must::fixed::<Index>();
    must::fixed::<VobSubIndexedImage>();
    must::fixed::<RleEncodedImage>();
}
fn lang(idx: &Index) {
    must::share_val(idx.lang());
}
fn vobsub_to_image<I: Send + Sync + 'static, P: Pixel<Subpixel = u8> + Send + Sync + 'static>() {
    must::share::<VobSubToImage<'static, I, P>>();
}
fn rle_to_image<P, C>()
where
    P: Pixel<Subpixel = u8> + Send + Sync + 'static,
    C: Fn(LumaA<u8>) -> P + Send + Sync + 'static,
{
    must::share::<RleToImage<'static, P, C>>();
}
fn sup_parser<R: BufRead + Seek + Send + Sync + 'static, D: PgsDecoder + Send + Sync + 'static>(r: R) {
    must::share::<SupParser<R, D>>();
    must::fixed::<SupParser<R, D>>();
    let _ = r;
}
fn sup_iter<R: BufRead + Seek + Send + Unpin + 'static, D: PgsDecoder + Send + Unpin + 'static>(p: SupParser<R, D>)
where
    D::Output: 'static,
{
    must::iter(&p);
    let b: Box<dyn Iterator<Item = Result<D::Output, PgsError>> + Send> = Box::new(p);
    drop(b);
}
fn sub_iter<D: Send + Sync + Unpin + 'static>(s: &'static Sub) {
    let it = s.subtitles::<D>();
    must::shared_iter(&it);
    let b: Box<dyn Iterator<Item = Result<(TimeSpan, VobSubIndexedImage), VobSubError>> + Send + Sync> = Box::new(it);
    drop(b);
}
fn pixels(i: &'static RleEncodedImage) {
    must::shared_iter(&i.iter());
    must::shared_iter(&i.into_iter());
}
fn converter<P: image::Primitive + Send + Sync + 'static>(p: P) {
    let f = luma_a_to_luma_convertor::<P, LumaA<P>>(p, p);
    must::share_val(&f);
    let _: Luma<P> = f(LumaA([p, p]));
}
fn items() {
    must::share::<Result<(TimeSpan, VobSubIndexedImage), VobSubError>>();
    must::share::<Result<(TimeSpan, RleEncodedImage), PgsError>>();
}
fn errors() {
    must::error::<SubtileError>();
    must::error::<VobSubError>();
    must::error::<PgsError>();
    must::error::<ReadError>();
    must::error::<ContentError>();
    must::error::<DumpError>();
    must::error::<ErrorMissing>();
}
fn boxable(a: SubtileError, b: VobSubError, c: PgsError) -> Vec<Box<dyn Error + Send + Sync + 'static>> {
    vec![a.into(), b.into(), c.into()]
}
fn into_io(a: SubtileError) -> std::io::Error {
    std::io::Error::other(a)
}
/// Errors whose types are only visible as fields of public variants.
fn nested(v: VobSubError, p: PgsError) {
    match v {
        VobSubError::Image(e) => must::error_val(&e),
        VobSubError::PaletteError(e) | VobSubError::ControlSequence(e) | VobSubError::PESPacket(e) => must::error_val(&e),
        VobSubError::Content(e) => must::error_val(&e),
        _ => {}
    }
    match p {
        PgsError::ODSParse(e) => must::error_val(&e),
        PgsError::PDSParse(e) => must::error_val(&e),
        _ => {}
    }
}
