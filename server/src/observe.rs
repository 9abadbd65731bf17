//! What the code under test makes of a path: through the hook when it could be built, else over HTTP.
use crate::model::*;

pub enum Seen {
    Decoded(Req),
    /// accepted, value not observable
    Accepted,
    Rejected(String),
    /// the path cannot be put to the code in this build
    Unsent,
}

#[cfg(verif_hooks)]
pub fn decode(path: &str) -> Seen {
    use laya::verif_hooks as h;
    match h::verif_decode(path) {
        Err(e) => Seen::Rejected(e),
        Ok(r) => {
            let region = match r.region() {
                h::Region::Full => Region::Full,
                h::Region::Square => Region::Square,
                h::Region::Absolute { x, y, width, height } => Region::Px([*x, *y, *width, *height]),
                h::Region::Percentage { x, y, width, height } => Region::Pct([*x, *y, *width, *height]),
            };
            let scale = match r.size().scale() {
                h::Scale::Max => Scale::Max,
                h::Scale::Percentage(p) => Scale::Pct(p),
                h::Scale::Fixed { width, height } => Scale::Fixed(width.map(|n| n.get()), height.map(|n| n.get())),
                h::Scale::AspectPreserving { width, height } => Scale::Fit(width.get(), height.get()),
            };
            let q = r.quality();
            let quality = match q {
                h::Quality::Color => "color",
                h::Quality::Gray => "gray",
                h::Quality::Bitonal => "bitonal",
                h::Quality::Default => "default",
                #[allow(unreachable_patterns)]
                _ => "another quality",
            };
            let format = match r.format() {
                h::Format::Jpg => "jpg",
                h::Format::Tif => "tif",
                h::Format::Png => "png",
                h::Format::Gif => "gif",
                h::Format::Jp2 => "jp2",
                h::Format::Pdf => "pdf",
                h::Format::Webp => "webp",
                #[allow(unreachable_patterns)]
                _ => "another format",
            };
            Seen::Decoded(Req {
                id: r.identifier().to_string(),
                region,
                size: Size { up: r.size().upscale(), scale },
                rotation: Rotation { mirror: r.rotation().mirror(), deg: r.rotation().degrees() },
                quality,
                format,
                mime: r.format().mime().to_string(),
            })
        }
    }
}
#[cfg(not(verif_hooks))]
pub fn decode(path: &str) -> Seen {
    crate::serve::decode_over_http(path)
}
