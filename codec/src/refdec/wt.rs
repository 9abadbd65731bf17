//! Inverse wavelet transforms (Annex F), on whole resolutions.
use super::stream::cdiv;

/// one line starting at coordinate i0, interleaved; reversible
pub fn sr53(x: &mut [i64], i0: i64) {
    let n = x.len() as i64;
    if n == 1 {
        if i0 & 1 == 1 {
            x[0] /= 2;
        }
        return;
    }
    let i1 = i0 + n;
    let at = |i: i64| (mirror(i, i0, i1) - i0) as usize;
    for e in i0..i1 {
        if e & 1 == 0 {
            x[at(e)] -= (x[at(e - 1)] + x[at(e + 1)] + 2).div_euclid(4);
        }
    }
    for o in i0..i1 {
        if o & 1 == 1 {
            x[at(o)] += (x[at(o - 1)] + x[at(o + 1)]).div_euclid(2);
        }
    }
}
pub fn sd53(x: &mut [i64], i0: i64) {
    let n = x.len() as i64;
    if n == 1 {
        if i0 & 1 == 1 {
            x[0] *= 2;
        }
        return;
    }
    let i1 = i0 + n;
    let at = |i: i64| (mirror(i, i0, i1) - i0) as usize;
    for o in i0..i1 {
        if o & 1 == 1 {
            x[at(o)] -= (x[at(o - 1)] + x[at(o + 1)]).div_euclid(2);
        }
    }
    for e in i0..i1 {
        if e & 1 == 0 {
            x[at(e)] += (x[at(e - 1)] + x[at(e + 1)] + 2).div_euclid(4);
        }
    }
}
fn mirror(i: i64, i0: i64, i1: i64) -> i64 {
    let p = 2 * (i1 - i0 - 1);
    let m = (i - i0).rem_euclid(p);
    i0 + m.min(p - m)
}
pub fn sr97(x: &mut [f64], i0: i64) {
    const A: f64 = -1.586_134_342_059_924;
    const B: f64 = -0.052_980_118_572_961;
    const G: f64 = 0.882_911_075_530_934;
    const D: f64 = 0.443_506_852_043_971;
    const K: f64 = 1.230_174_104_914_001;
    let n = x.len() as i64;
    if n == 1 {
        if i0 & 1 == 1 {
            x[0] /= 2.0;
        }
        return;
    }
    let i1 = i0 + n;
    let at = |i: i64| (mirror(i, i0, i1) - i0) as usize;
    for i in i0..i1 {
        x[at(i)] *= if i & 1 == 0 { K } else { 1.0 / K };
    }
    for (par, f) in [(0, D), (1, G), (0, B), (1, A)] {
        for i in i0..i1 {
            if i & 1 == par {
                x[at(i)] -= f * (x[at(i - 1)] + x[at(i + 1)]);
            }
        }
    }
}
/// a rectangle of values with its place on its own grid
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Grid<T> {
    pub x0: i64,
    pub y0: i64,
    pub x1: i64,
    pub y1: i64,
    pub d: Vec<T>,
}
impl<T: Copy + Default> Grid<T> {
    pub fn new(r: (i64, i64, i64, i64)) -> Grid<T> {
        let n = (r.2 - r.0).max(0) * (r.3 - r.1).max(0);
        Grid { x0: r.0, y0: r.1, x1: r.2, y1: r.3, d: vec![T::default(); n as usize] }
    }
    pub fn w(&self) -> usize {
        (self.x1 - self.x0).max(0) as usize
    }
    pub fn h(&self) -> usize {
        (self.y1 - self.y0).max(0) as usize
    }
    pub fn at(&self, x: i64, y: i64) -> usize {
        (y - self.y0) as usize * self.w() + (x - self.x0) as usize
    }
    pub fn get(&self, x: i64, y: i64) -> T {
        self.d[self.at(x, y)]
    }
    fn rows(&mut self, f: &mut dyn FnMut(&mut [T], i64)) {
        let (w, x0) = (self.w(), self.x0);
        if w > 0 {
            self.d.chunks_mut(w).for_each(|r| f(r, x0));
        }
    }
    fn cols(&mut self, f: &mut dyn FnMut(&mut [T], i64)) {
        let (w, h) = (self.w(), self.h());
        if h == 0 {
            return;
        }
        for x in 0..w {
            let mut c: Vec<T> = (0..h).map(|y| self.d[y * w + x]).collect();
            f(&mut c, self.y0);
            (0..h).for_each(|y| self.d[y * w + x] = c[y]);
        }
    }
}
/// rectangle of the sub-band of a rectangle one level down; xo, yo: high-pass along the axis
pub fn band(r: (i64, i64, i64, i64), xo: i64, yo: i64) -> (i64, i64, i64, i64) {
    (cdiv(r.0 - xo, 2), cdiv(r.1 - yo, 2), cdiv(r.2 - xo, 2), cdiv(r.3 - yo, 2))
}
/// LL and the sub-bands HL, LH, HH to the resolution which has rectangle r
pub fn interleave<T: Copy + Default>(r: (i64, i64, i64, i64), ll: &Grid<T>, hi: [&Grid<T>; 3]) -> Grid<T> {
    let mut g = Grid::new(r);
    for y in r.1..r.3 {
        for x in r.0..r.2 {
            let b = match (x & 1, y & 1) {
                (0, 0) => ll,
                (1, 0) => hi[0],
                (0, _) => hi[1],
                _ => hi[2],
            };
            let i = g.at(x, y);
            g.d[i] = b.get(x >> 1, y >> 1);
        }
    }
    g
}
pub fn inv53(r: (i64, i64, i64, i64), ll: &Grid<i64>, hi: [&Grid<i64>; 3]) -> Grid<i64> {
    let mut g = interleave(r, ll, hi);
    g.rows(&mut |l, i| sr53(l, i));
    g.cols(&mut |l, i| sr53(l, i));
    g
}
pub fn inv97(r: (i64, i64, i64, i64), ll: &Grid<f64>, hi: [&Grid<f64>; 3]) -> Grid<f64> {
    let mut g = interleave(r, ll, hi);
    g.rows(&mut |l, i| sr97(l, i));
    g.cols(&mut |l, i| sr97(l, i));
    g
}
/// forward: the grid becomes LL, HL, LH, HH
pub fn fwd53(mut g: Grid<i64>) -> [Grid<i64>; 4] {
    g.cols(&mut |l, i| sd53(l, i));
    g.rows(&mut |l, i| sd53(l, i));
    let r = (g.x0, g.y0, g.x1, g.y1);
    let mut o = [(0, 0), (1, 0), (0, 1), (1, 1)].map(|(x, y)| Grid::new(band(r, x, y)));
    for y in g.y0..g.y1 {
        for x in g.x0..g.x1 {
            let k = &mut o[(x & 1) as usize + 2 * (y & 1) as usize];
            let i = k.at(x >> 1, y >> 1);
            k.d[i] = g.get(x, y);
        }
    }
    o
}
