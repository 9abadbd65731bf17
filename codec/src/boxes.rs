//! Reading and writing JP2 boxes, independent of the library under test.

#[derive(Clone, Debug, PartialEq)]
pub struct Bx {
    pub kind: [u8; 4],
    pub data: Vec<u8>,
}
/// (type, start of contents, end) of the boxes in b[lo..hi]
pub fn list(b: &[u8], lo: usize, hi: usize) -> Option<Vec<([u8; 4], usize, usize)>> {
    let mut v = vec![];
    let mut p = lo;
    while p < hi {
        if p + 8 > hi {
            return None;
        }
        let l = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
        let k: [u8; 4] = b[p + 4..p + 8].try_into().unwrap();
        let (s, e) = match l {
            0 => (p + 8, hi),
            1 => {
                if p + 16 > hi {
                    return None;
                }
                (p + 16, p + u64::from_be_bytes(b[p + 8..p + 16].try_into().unwrap()) as usize)
            }
            _ => (p + 8, p + l),
        };
        if e < s || e > hi {
            return None;
        }
        v.push((k, s, e));
        p = e;
    }
    Some(v)
}
/// where the codestream is in a JP2 file
pub fn codestream(b: &[u8]) -> Option<(usize, usize)> {
    list(b, 0, b.len())?.iter().find(|x| &x.0 == b"jp2c").map(|x| (x.1, x.2))
}
pub fn bx(kind: &[u8; 4], data: &[u8]) -> Vec<u8> {
    let mut v = ((data.len() + 8) as u32).to_be_bytes().to_vec();
    v.extend_from_slice(kind);
    v.extend_from_slice(data);
    v
}
/// a JP2 file around a codestream: components are (depth, signed), cs the enumerated colour space; extra boxes go between header and codestream
pub fn file(w: u32, h: u32, comps: &[(u32, bool)], cs: u32, extra: &[u8], stream: &[u8]) -> Vec<u8> {
    let bpc = |k: &(u32, bool)| (k.0 - 1) as u8 | (k.1 as u8) << 7;
    let same = comps.iter().all(|k| *k == comps[0]);
    let mut ihdr = vec![];
    ihdr.extend(h.to_be_bytes());
    ihdr.extend(w.to_be_bytes());
    ihdr.extend((comps.len() as u16).to_be_bytes());
    ihdr.extend([if same { bpc(&comps[0]) } else { 255 }, 7, 0, 0]);
    let mut jp2h = bx(b"ihdr", &ihdr);
    if !same {
        jp2h.extend(bx(b"bpcc", &comps.iter().map(bpc).collect::<Vec<u8>>()));
    }
    jp2h.extend(bx(b"colr", &[&[1u8, 0, 0][..], &cs.to_be_bytes()].concat()));
    let mut v = bx(b"jP  ", &[0x0d, 0x0a, 0x87, 0x0a]);
    v.extend(bx(b"ftyp", b"jp2 \0\0\0\0jp2 "));
    v.extend(bx(b"jp2h", &jp2h));
    v.extend(extra);
    v.extend(bx(b"jp2c", stream));
    v
}
