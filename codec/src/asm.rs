//! A codestream taken apart into marker segments and tile-parts, and put together again;
//! independent of the library under test.

#[derive(Clone, Debug, PartialEq)]
pub struct Seg {
    pub m: u16,
    /// contents after the length field; None: a marker without a segment
    pub d: Option<Vec<u8>>,
    /// written instead of the true length
    pub len: Option<u16>,
}
#[derive(Clone, Debug)]
pub struct Part {
    pub tile: u16,
    /// written instead of the true length
    pub psot: Option<u32>,
    pub tp: u8,
    pub ntp: u8,
    pub segs: Vec<Seg>,
    pub body: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Cs {
    pub main: Vec<Seg>,
    pub parts: Vec<Part>,
    /// EOC and what follows
    pub tail: Vec<u8>,
}
pub fn no_segment(m: u16) -> bool {
    matches!(m, 0xff4f | 0xff93 | 0xffd9 | 0xff92 | 0xff30..=0xff3f)
}
fn u16_at(b: &[u8], p: usize) -> Option<u16> {
    Some(u16::from_be_bytes(b.get(p..p + 2)?.try_into().ok()?))
}
fn u32_at(b: &[u8], p: usize) -> Option<u32> {
    Some(u32::from_be_bytes(b.get(p..p + 4)?.try_into().ok()?))
}
fn seg(b: &[u8], p: &mut usize) -> Option<Seg> {
    let m = u16_at(b, *p)?;
    if no_segment(m) {
        *p += 2;
        return Some(Seg { m, d: None, len: None });
    }
    let l = u16_at(b, *p + 2)? as usize;
    let d = b.get(*p + 4..*p + 2 + l)?.to_vec();
    *p += 2 + l;
    Some(Seg { m, d: Some(d), len: None })
}
impl Seg {
    pub fn new(m: u16, d: Vec<u8>) -> Seg {
        Seg { m, d: Some(d), len: None }
    }
    pub fn put(&self, o: &mut Vec<u8>) {
        o.extend(self.m.to_be_bytes());
        if let Some(d) = &self.d {
            o.extend(self.len.unwrap_or((d.len() + 2) as u16).to_be_bytes());
            o.extend(d);
        }
    }
}
impl Cs {
    /// a well-formed codestream
    pub fn parse(b: &[u8]) -> Option<Cs> {
        let mut p = 0;
        let mut main = vec![];
        loop {
            if u16_at(b, p)? == 0xff90 {
                break;
            }
            main.push(seg(b, &mut p)?);
        }
        let mut parts = vec![];
        while u16_at(b, p) == Some(0xff90) {
            let start = p;
            let s = seg(b, &mut p)?;
            let d = s.d?;
            if d.len() != 8 {
                return None;
            }
            let psot = u32_at(&d, 2)? as usize;
            let end = if psot == 0 { b.len() - 2 } else { start + psot };
            let mut segs = vec![];
            loop {
                let s = seg(b, &mut p)?;
                if s.m == 0xff93 {
                    break;
                }
                segs.push(s);
            }
            parts.push(Part { tile: u16_at(&d, 0)?, psot: (psot == 0).then_some(0), tp: d[6], ntp: d[7], segs, body: b.get(p..end)?.to_vec() });
            p = end;
        }
        Some(Cs { main, parts, tail: b.get(p..)?.to_vec() })
    }
    pub fn build(&self) -> Vec<u8> {
        let mut o = vec![];
        for s in &self.main {
            s.put(&mut o);
        }
        for t in &self.parts {
            t.put(&mut o);
        }
        o.extend(&self.tail);
        o
    }
    pub fn find(&self, m: u16) -> Option<&Seg> {
        self.main.iter().find(|s| s.m == m)
    }
    pub fn find_mut(&mut self, m: u16) -> Option<&mut Seg> {
        self.main.iter_mut().find(|s| s.m == m)
    }
}
impl Part {
    pub fn len(&self) -> usize {
        let mut o = vec![];
        self.segs.iter().for_each(|s| s.put(&mut o));
        12 + o.len() + 2 + self.body.len()
    }
    pub fn put(&self, o: &mut Vec<u8>) {
        o.extend([0xff, 0x90, 0, 10]);
        o.extend(self.tile.to_be_bytes());
        o.extend(self.psot.unwrap_or(self.len() as u32).to_be_bytes());
        o.extend([self.tp, self.ntp]);
        for s in &self.segs {
            s.put(o);
        }
        o.extend([0xff, 0x93]);
        o.extend(&self.body);
    }
}
/// the contents of SIZ, field by field
#[derive(Clone, Debug)]
pub struct SizF {
    pub rsiz: u16,
    /// Xsiz Ysiz XOsiz YOsiz XTsiz YTsiz XTOsiz YTOsiz
    pub v: [u32; 8],
    /// Ssiz XRsiz YRsiz
    pub c: Vec<[u8; 3]>,
}
impl SizF {
    pub fn get(d: &[u8]) -> Option<SizF> {
        let mut v = [0; 8];
        for (i, x) in v.iter_mut().enumerate() {
            *x = u32_at(d, 2 + 4 * i)?;
        }
        let n = u16_at(d, 34)? as usize;
        let mut c = vec![];
        for i in 0..n {
            c.push(d.get(36 + 3 * i..39 + 3 * i)?.try_into().ok()?);
        }
        Some(SizF { rsiz: u16_at(d, 0)?, v, c })
    }
    pub fn put(&self) -> Vec<u8> {
        let mut o = self.rsiz.to_be_bytes().to_vec();
        self.v.iter().for_each(|x| o.extend(x.to_be_bytes()));
        o.extend((self.c.len() as u16).to_be_bytes());
        self.c.iter().for_each(|x| o.extend(x));
        o
    }
}
