//! Fujifilm compressed raw data: an encoder, after the description of the
//! format in libraw. It chooses the samples as it goes: in X-Trans some are
//! always interpolated.
use crate::bits::BitW;
use crate::rng::Rng;

/// The real X-Trans pattern.
pub const XTRANS: [[u8; 6]; 6] = [
    [1, 1, 0, 1, 1, 2],
    [1, 1, 2, 1, 1, 0],
    [2, 0, 1, 0, 2, 1],
    [1, 1, 2, 1, 1, 0],
    [1, 1, 0, 1, 1, 2],
    [0, 2, 1, 2, 0, 1],
];

const R2: usize = 2;
const G2: usize = 7;
const B2: usize = 15;

pub struct Params {
    pub w: usize,
    pub h: usize,
    pub bits: u32,
    pub xtrans: bool,
    pub lossless: bool,
    pub noise: i64,
    /// pattern, 0 R, 1 G, 2 B
    pub cfa: (usize, usize, Vec<u8>),
}

#[derive(Clone)]
struct Table {
    base: i64,
    points: [i64; 5],
    mult: i64,
    max_grad: i64,
    total: i64,
    bits: u32,
}

fn log2ceil(v: i64) -> u32 {
    // bits to tell `v` states apart, at least one
    let mut b = 1;
    while (1_i64 << b) < v {
        b += 1;
    }
    b
}

impl Table {
    /// The table depending on the base.
    fn main(max: i64, base: i64) -> Table {
        let mut p = [base, 3 * base + 0x12, 5 * base + 0x43, 7 * base + 0x114, max];
        if p[1] > max || p[1] < base + 1 {
            p[1] = base + 1;
        }
        for i in 2..4 {
            if p[i] < p[i - 1] || p[i] > max {
                p[i] = p[i - 1];
            }
        }
        let total = (max + 2 * base) / (2 * base + 1) + 1;
        Table { base, points: p, mult: 9, max_grad: 0, total, bits: log2ceil(total) }
    }
    fn fixed(max: i64, k: i64) -> Table {
        let p = [k, 0x12 + 3 * k, 0x43 + 5 * k, 0x114 + 7 * k, max];
        let total = (max + 2 * k) / (2 * k + 1) + 1;
        Table { base: k, points: p, mult: 3, max_grad: 5 + k, total, bits: log2ceil(total) }
    }
    fn quant(&self, v: i64) -> i64 {
        let p = &self.points;
        if v <= -p[3] {
            -4
        } else if v <= -p[2] {
            -3
        } else if v <= -p[1] {
            -2
        } else if v < -p[0] {
            -1
        } else if v <= p[0] {
            0
        } else if v < p[1] {
            1
        } else if v < p[2] {
            2
        } else if v < p[3] {
            3
        } else {
            4
        }
    }
    fn step(&self) -> i64 {
        2 * self.base + 1
    }
}

#[derive(Clone)]
struct Grads {
    main: [(i64, i64); 41],
    lossy: [[(i64, i64); 5]; 3],
}

struct Strip<'a> {
    r: &'a mut Rng,
    p: &'a Params,
    lw: usize,
    max: i64,
    main: Table,
    fixed: Vec<Table>,
    even: Vec<Grads>,
    odd: Vec<Grads>,
    lines: Vec<Vec<i64>>,
    o: BitW,
    /// how each line of blocks is
    noise: i64,
}

#[derive(Clone, Copy)]
enum At {
    Even,
    Odd,
}

impl Strip<'_> {
    fn start(&self, t: &Table) -> (i64, i64) {
        (((t.total + 0x20) >> 6).max(2), 1)
    }

    /// The prediction, and the values its context depends on.
    fn around(&self, l: usize, x: usize, at: At) -> (i64, [i64; 2], i64) {
        let up = |d: i64| self.lines[l - 1][(x as i64 + 1 + d) as usize];
        let (b, c, d) = (up(0), up(-1), up(1));
        match at {
            At::Even => {
                let f = self.lines[l - 2][x + 1];
                let (cb, fb, db) = ((c - b).abs(), (f - b).abs(), (d - b).abs());
                let i = if cb > fb && cb > db {
                    f + d
                } else if db > cb && db > fb {
                    f + c
                } else {
                    d + c
                };
                ((i + 2 * b) >> 2, [b - f, c - b], fb + cb)
            }
            At::Odd => {
                let (a, g) = (self.lines[l][x], self.lines[l][x + 2]);
                let i = if (b > c && b > d) || (b < c && b < d) { (g + a + 2 * b) >> 2 } else { (a + g) >> 1 };
                (i, [b - c, c - a], (c - a).abs() + (b - c).abs())
            }
        }
    }

    fn sample(&mut self, l: usize, x: usize, at: At, k: usize) {
        let (pred, ctx, flat) = self.around(l, x, at);
        // which table
        let mut which = None;
        for i in 0..3 {
            if self.main.base < i as i64 + 1 {
                break;
            }
            if flat <= self.fixed[i].max_grad {
                which = Some(i);
                break;
            }
        }
        let t = match which {
            Some(i) => self.fixed[i].clone(),
            None => self.main.clone(),
        };
        let grad = t.mult * t.quant(ctx[0]) + t.quant(ctx[1]);
        // what to store
        let want = match self.r.range(0, 79) {
            _ if self.p.noise < 0 => pred,
            0 => self.r.i64(0, self.max),
            1 => pred,
            _ => pred + self.r.i64(-self.noise, self.noise),
        }
        .clamp(0, self.max);
        let mut c = (want - pred) as f64 / t.step() as f64;
        if self.p.lossless {
            debug_assert_eq!(t.step(), 1);
            if c < -((t.total / 2) as f64) {
                c += t.total as f64;
            } else if c > ((t.total - 1) / 2) as f64 {
                c -= t.total as f64;
            }
        }
        let mut c = c.round() as i64;
        if grad < 0 {
            c = -c;
        }
        if self.p.lossless && c > (t.total - 1) / 2 {
            c -= t.total;
        }
        c = c.clamp(-(t.total / 2), (t.total - 1) / 2);
        // what that makes
        let mut v = pred + if grad < 0 { -c } else { c } * t.step();
        if v < -t.base {
            v += t.total * t.step();
        } else if v > t.base + self.max {
            v -= t.total * t.step();
        }
        let v = v.clamp(0, self.max);
        if self.p.lossless {
            assert_eq!(v, want);
        }
        self.lines[l][x + 1] = v;
        // the code
        let g = match at {
            At::Even => &mut self.even[k],
            At::Odd => &mut self.odd[k],
        };
        let n = grad.unsigned_abs() as usize;
        let g = match which {
            Some(i) => &mut g.lossy[i][n],
            None => &mut g.main[n],
        };
        let u = if c < 0 { -2 * c - 1 } else { 2 * c };
        let mut extra = 0;
        while extra < 15 && (g.1 << extra) < g.0 {
            extra += 1;
        }
        let limit = 4 * log2ceil(self.max + 1) - t.bits - 1;
        if (u >> extra) < limit as i64 {
            for _ in 0..u >> extra {
                self.o.put(0, 1);
            }
            self.o.put(1, 1);
            self.o.put((u & ((1 << extra) - 1)) as u32, extra);
        } else {
            for _ in 0..limit {
                self.o.put(0, 1);
            }
            self.o.put(1, 1);
            self.o.put((u - 1) as u32, t.bits);
        }
        g.0 += c.abs();
        if g.1 == 0x40 {
            g.0 >>= 1;
            g.1 >>= 1;
        }
        g.1 += 1;
    }

    fn extend(&mut self, from: usize, n: usize) {
        for l in from..from + n {
            self.lines[l][0] = self.lines[l - 1][1];
            self.lines[l][self.lw + 1] = self.lines[l - 1][self.lw];
        }
    }

    /// Six rows.
    fn rows(&mut self) {
        // Lines, table of gradients, which even samples aren't stored.
        type Skip = fn(usize) -> bool;
        let (all, none): (Skip, Skip) = (|_| true, |_| false);
        let (fourth, second): (Skip, Skip) = (|x| x % 4 == 0, |x| x % 4 == 2);
        let passes: [(usize, usize, usize, Skip, Skip); 6] = [
            (R2, G2, 0, all, none),
            (G2 + 1, B2, 1, none, all),
            (R2 + 1, G2 + 2, 2, fourth, all),
            (G2 + 3, B2 + 1, 0, none, second),
            (R2 + 2, G2 + 4, 1, second, none),
            (G2 + 5, B2 + 2, 2, all, fourth),
        ];
        for (n, (l0, l1, k, s0, s1)) in passes.into_iter().enumerate() {
            let (mut e, mut o) = (0, 1);
            while e < self.lw || o < self.lw {
                if e < self.lw {
                    for (l, skip) in [(l0, s0), (l1, s1)] {
                        if self.p.xtrans && skip(e) {
                            self.lines[l][e + 1] = self.around(l, e, At::Even).0;
                        } else {
                            self.sample(l, e, At::Even, k);
                        }
                    }
                    e += 2;
                }
                if e > 8 {
                    self.sample(l0, o, At::Odd, k);
                    self.sample(l1, o, At::Odd, k);
                    o += 2;
                }
            }
            self.extend(G2, 6);
            if n % 2 == 0 {
                self.extend(R2, 3);
            } else {
                self.extend(B2, 3);
            }
        }
    }
}

/// The data, and the samples it stands for.
pub fn encode(r: &mut Rng, p: &Params) -> (Vec<u8>, Vec<u16>) {
    let blocks = p.w.div_ceil(768);
    let lines = p.h / 6;
    let mut img = vec![0_u16; p.w * p.h];
    let max = (1_i64 << p.bits) - 1;
    let lw = if p.xtrans { 512 } else { 384 };
    let per_strip = lines.div_ceil(16) * 16;
    let mut bases = vec![0_u8; if p.lossless { 0 } else { per_strip * blocks }];
    let mut strips = vec![];
    for n in 0..blocks {
        let fixed: Vec<Table> = (0..3).map(|k| Table::fixed(max, k)).collect();
        let mut s = Strip {
            r: &mut *r,
            p,
            lw,
            max,
            main: Table::main(max, 0),
            fixed,
            even: vec![],
            odd: vec![],
            lines: vec![vec![0; lw + 2]; 18],
            o: BitW::new(false),
            noise: p.noise,
        };
        let g = Grads {
            main: [s.start(&s.main); 41],
            lossy: [0, 1, 2].map(|i| [s.start(&s.fixed[i]); 5]),
        };
        s.even = vec![g.clone(); 3];
        s.odd = vec![g; 3];
        for l in 0..lines {
            if !p.lossless {
                // a base now and then
                let base = if l > 0 && s.r.bool() { s.main.base } else { *s.r.pick(&[0, 1, 1, 2, 2, 3, 3, 5, 9]) };
                bases[n * per_strip + l] = base as u8;
                if l == 0 || base != s.main.base {
                    s.main = Table::main(max, base);
                    let start = s.start(&s.main);
                    for g in s.even.iter_mut().chain(s.odd.iter_mut()) {
                        g.main = [start; 41];
                    }
                }
            }
            s.noise = if s.r.one_in(3) { 0 } else { p.noise };
            s.rows();
            for y in 0..6 {
                for x in 0..768.min(p.w - n * 768) {
                    let line = match p.cfa.2[y % p.cfa.1 * p.cfa.0 + x % p.cfa.0] {
                        0 => R2 + y / 2,
                        1 => G2 + y,
                        _ => B2 + y / 2,
                    };
                    // of three columns, the last two are the same one
                    let at = if p.xtrans { x / 3 * 2 + [0, 1, 1][x % 3] } else { x / 2 };
                    img[(l * 6 + y) * p.w + n * 768 + x] = s.lines[line][at + 1] as u16;
                }
            }
            for (to, from) in [(0, 3), (1, 4), (5, 11), (6, 12), (13, 16), (14, 17)] {
                s.lines[to] = s.lines[from].clone();
            }
            for (first, n) in [(R2, 3), (G2, 6), (B2, 3)] {
                for l in first..first + n {
                    s.lines[l].iter_mut().for_each(|v| *v = 0);
                }
                s.extend(first, 1);
            }
        }
        s.o.flush(0);
        let mut d = s.o.out;
        while d.len() % 4 != 0 {
            d.push(0);
        }
        strips.push(d);
    }
    let mut o = vec![0x49, 0x53, p.lossless as u8, if p.xtrans { 16 } else { 0 }, p.bits as u8];
    for v in [p.h, blocks * 768, p.w, 768] {
        o.extend_from_slice(&(v as u16).to_be_bytes());
    }
    o.push(blocks as u8);
    o.extend_from_slice(&(lines as u16).to_be_bytes());
    for s in &strips {
        o.extend_from_slice(&(s.len() as u32).to_be_bytes());
    }
    while o.len() % 16 != 0 {
        o.push(0);
    }
    o.extend(bases);
    for s in strips {
        o.extend(s);
    }
    (o, img)
}
