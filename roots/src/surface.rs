//! One call of every public operation, for the effect analysis: the
//! reachable program is what these functions reach.
use crate::sa::*;
use subtile::content::*;
use subtile::image::{
    dump_images, luma_a_to_luma, luma_a_to_luma_convertor, ImageArea, ImageSize, ToImage, ToOcrImage, ToOcrImageOpt,
};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, RleEncodedImage, RleToImage, SupParser};
use subtile::time::{TimePoint, TimeSpan};
use subtile::vobsub::*;
use subtile::SubtileError;
use std::io::BufReader;

/// Operations without any access to files.
pub mod pure {
    use super::*;
    pub fn content() {
        if let Ok(a) = Area::try_from(any::<AreaValues>()) {
            let _ = (a.left(), a.top(), a.width(), a.height(), a.size());
            let _ = format!("{:?} {:?}", a, a.size());
            let _ = a == a.clone();
        }
    }
    pub fn time() {
        let t = TimePoint::from_msecs(any());
        let u = TimePoint::from_secs(any());
        let _ = (t.msecs(), u.to_secs(), -t, t < u, t == u);
        let s = TimeSpan::new(t, u);
        let _ = format!("{s:?} {t:?}");
        let _ = s == TimeSpan::default();
        let _ = TimePointIdx::from(t).to_string();
        let _ = subtile::srt::TimePointSrt::from(t).to_string();
        let _ = subtile::webvtt::TimePointVtt::from(t).to_string();
    }
    pub fn text() {
        let mut w = AnyWriter::new();
        let subs: &[(TimeSpan, String)] = any();
        let _ = subtile::srt::write_srt(&mut w, subs);
        let _ = subtile::srt::write_line(&mut w, any(), &any(), any());
        let _ = subtile::webvtt::write_line(&mut w, &any(), any());
    }
    pub fn pixels() {
        let p: image::LumaA<u8> = any();
        let _ = luma_a_to_luma::<_, u8, 10, 200>(p);
        let _ = luma_a_to_luma_convertor::<u8, image::LumaA<u8>>(any(), any())(p);
        let _ = ToOcrImageOpt::default();
    }
    pub fn pgs() {
        let mut t = SupParser::<AnyReader, DecodeTimeOnly>::new(AnyReader::new());
        let _ = t.size_hint();
        let _ = t.next();
        let mut p = SupParser::<AnyReader, DecodeTimeImage>::new(AnyReader::new());
        let _ = p.size_hint();
        if let Some(Ok((_, img))) = p.next() {
            let _ = (img.width(), img.height());
            let _ = img.clone();
            for p in &img {
                drop(p);
            }
            let mut it = img.iter();
            let _ = (it.len(), it.size_hint(), it.next());
            let _ = RleToImage::new(&img, |p| p).to_image();
            let r = RleToImage::new(&img, luma_a_to_luma::<_, _, 100, 100>);
            let _ = r.image(&any());
        }
    }
    pub fn vobsub() {
        let sub: &Sub = any();
        let mut it = sub.subtitles::<(TimeSpan, VobSubIndexedImage)>();
        let _ = it.size_hint();
        if let Some(Ok((span, img))) = it.next() {
            let _ = format!("{span:?} {img:?}");
            let _ = (img.width(), img.height(), img.area(), img.palette(), img.alpha(), img.raw_image());
            let pal: Palette = any();
            let _ = VobSubToImage::new(&img, &pal, conv_to_rgba).to_image();
            let lum = palette_rgb_to_luminance(&pal);
            let _ = VobSubOcrImage::new(&img, &lum).image(&any());
            let _ = img == img.clone();
        }
        let _ = VobSubIndexedImage::new(any(), any(), any(), any());
        let _ = palette(any_bytes());
        let mkerr = |source| VobSubError::Io { source, path: std::path::PathBuf::new() };
        if let Ok(idx) = Index::read_index(BufReader::new(AnyReader::new()), &mkerr) {
            let _ = (idx.palette(), idx.lang().as_ref().map(|l| l.lang()));
            let _ = format!("{idx:?}");
        }
        let _ = Index::init(any(), None);
    }
    pub fn errors() {
        use std::error::Error;
        let e: SubtileError = any();
        let _ = (e.to_string(), format!("{e:?}"), e.source().is_some());
        let e: subtile::pgs::PgsError = any();
        let _ = (e.to_string(), format!("{e:?}"), e.source().is_some());
        let e: VobSubError = any();
        let _ = (e.to_string(), format!("{e:?}"), e.source().is_some());
        let e: NomErrorAlias = any();
        let _ = (e.to_string(), format!("{e:?}"), e.source().is_some());
        let e: ErrorMissing = any();
        let _ = (e.to_string(), format!("{e:?}"), e.source().is_some());
        let e: ContentError = any();
        let _ = (e.to_string(), format!("{e:?}"), e.source().is_some());
        let e: subtile::image::DumpError = any();
        let _ = (e.to_string(), format!("{e:?}"), e.source().is_some());
    }
    type NomErrorAlias = VobSubError;
}

/// Operations which are given the path of a file to read.
pub mod open {
    use super::*;
    pub fn sup() {
        let path: &str = any();
        let _ = SupParser::<BufReader<std::fs::File>, DecodeTimeOnly>::from_file(path).map(|mut p| p.next());
        let _ = SupParser::<BufReader<std::fs::File>, DecodeTimeImage>::from_file(path).map(|mut p| p.next());
    }
    pub fn sub() {
        let path: &str = any();
        let _ = Sub::open(path);
        let _ = is_sub_file(path);
    }
    pub fn idx() {
        let path: &str = any();
        let _ = Index::open(path);
        let _ = is_idx_file(path);
    }
}

/// Operations which write files.
pub mod dump {
    use super::*;
    pub fn images() {
        let path: &str = any();
        let imgs: Vec<image::GrayImage> = any();
        let _ = dump_images(path, imgs.iter());
    }
}

/// Positive example of the forbidden-call rules: never analysed as part of
/// the library, must be recognised on every run.
pub mod positive {
    pub fn forbidden() {
        println!("x");
        eprintln!("x");
        let _ = std::env::var("X");
        let _ = std::process::Command::new("x");
        let _ = std::time::Instant::now();
        let _ = std::time::SystemTime::now();
        let _ = std::collections::HashMap::<u8, u8>::new();
        let _ = std::collections::hash_map::RandomState::new();
        let _ = std::thread::current();
        static M: std::sync::Mutex<u8> = std::sync::Mutex::new(0);
        drop(M.lock());
    }
}
