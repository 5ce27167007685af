//! Hash-consed bit-vector terms over symbolic input bytes, with local simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u8(*x)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct T(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Var(u32), // one symbolic input byte
    Const(u128),
    Not(T),
    Bin(Op, T, T),
    Ite(T, T, T),
    Concat(T, T), // (high, low)
    Extract(T, u8, u8),
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn to_signed(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (to_signed(a, w), to_signed(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                (x.wrapping_div(y)) as u128 & m
            }
        }
        Op::SRem => {
            let (x, y) = (to_signed(a, w), to_signed(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y)) as u128 & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = to_signed(a, w);
            if b >= w as u128 {
                (if x < 0 { m } else { 0 }) & m
            } else {
                (x >> b) as u128 & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (to_signed(a, w) < to_signed(b, w)) as u128,
        Op::Sle => (to_signed(a, w) <= to_signed(b, w)) as u128,
    }
}

pub struct Pool {
    pub nodes: Vec<Node>,
    pub w: Vec<u8>,
    map: FxMap<(Node, u8), T>,
    // evaluation cache under the current model
    ev_stamp: Vec<u32>,
    ev_val: Vec<u128>,
    ev_gen: u32,
    constleaf: Vec<bool>, // Ite tree with only constant leaves (bounded size)
    leafcnt: Vec<u16>,
    range: Vec<Rng>,
}

/// Circular interval: the values `start, start+1, ..., start+len` modulo 2^w.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Rng {
    start: u128,
    len: u128,
}
impl Rng {
    fn full(w: u32) -> Rng {
        Rng { start: 0, len: mask(w) }
    }
    fn span(lo: u128, hi: u128) -> Rng {
        Rng { start: lo, len: hi - lo }
    }
    fn has(&self, v: u128, w: u32) -> bool {
        v.wrapping_sub(self.start) & mask(w) <= self.len
    }
    /// Unsigned bounds.
    fn unsigned(&self, w: u32) -> (u128, u128) {
        match self.start.checked_add(self.len) {
            Some(e) if e <= mask(w) => (self.start, e),
            _ => (0, mask(w)),
        }
    }
    /// Signed bounds.
    fn signed(&self, w: u32) -> (i128, i128) {
        let half = 1u128 << (w - 1);
        let s = self.start ^ half; // order-preserving shift of the circle
        match s.checked_add(self.len) {
            Some(e) if e <= mask(w) => (to_signed(self.start, w), to_signed(e ^ half, w)),
            _ => (to_signed(half, w), to_signed(half - 1, w)),
        }
    }
    fn end(&self, w: u32) -> u128 {
        self.start.wrapping_add(self.len) & mask(w)
    }
}

impl Pool {
    pub fn new() -> Pool {
        Pool {
            nodes: vec![],
            w: vec![],
            map: FxMap::default(),
            ev_stamp: vec![],
            ev_val: vec![],
            ev_gen: 1,
            constleaf: vec![],
            leafcnt: vec![],
            range: vec![],
        }
    }
    fn mk(&mut self, n: Node, w: u32) -> T {
        debug_assert!(w >= 1 && w <= 128);
        if let Some(t) = self.map.get(&(n, w as u8)) {
            return *t;
        }
        let r = self.range_of(&n, w);
        if r.len == 0 && !matches!(n, Node::Const(_)) {
            return self.cst(r.start, w);
        }
        let t = T(self.nodes.len() as u32);
        let (cl, lc) = match n {
            Node::Const(_) => (true, 1u16),
            Node::Ite(_, a, b) => {
                let l = self.leafcnt[a.0 as usize].saturating_add(self.leafcnt[b.0 as usize]);
                (
                    self.constleaf[a.0 as usize] && self.constleaf[b.0 as usize] && l <= 300,
                    l,
                )
            }
            _ => (false, 1),
        };
        self.nodes.push(n);
        self.w.push(w as u8);
        self.ev_stamp.push(0);
        self.ev_val.push(0);
        self.constleaf.push(cl);
        self.leafcnt.push(lc);
        self.range.push(r);
        self.map.insert((n, w as u8), t);
        t
    }
    fn rng(&self, t: T) -> Rng {
        self.range[t.0 as usize]
    }
    fn range_of(&self, n: &Node, w: u32) -> Rng {
        let m = mask(w);
        let full = Rng::full(w);
        match *n {
            Node::Var(_) => full,
            Node::Const(v) => Rng { start: v, len: 0 },
            Node::Not(a) => {
                let r = self.rng(a);
                Rng { start: !r.end(w) & m, len: r.len }
            }
            Node::Ite(_, a, b) => {
                let (x, y) = (self.rng(a), self.rng(b));
                // the shorter of the two circular hulls
                let hull = |p: Rng, q: Rng| {
                    let d = q.start.wrapping_sub(p.start) & m;
                    match d.checked_add(q.len) {
                        Some(l) if l <= m => p.len.max(l),
                        _ => m,
                    }
                };
                let (h1, h2) = (hull(x, y), hull(y, x));
                if h1 == m && h2 == m {
                    full
                } else if h1 <= h2 {
                    Rng { start: x.start, len: h1 }
                } else {
                    Rng { start: y.start, len: h2 }
                }
            }
            Node::Concat(h, l) => {
                let lw = self.width(l);
                let rl = self.rng(l);
                if let Node::Ite(c, p, q) = self.node(h) {
                    // sign extension
                    if let (Some(pv), Some(0), Node::Extract(x, eh, el)) =
                        (self.as_const(p), self.as_const(q), self.node(c))
                    {
                        if pv == mask(w - lw)
                            && x == l
                            && eh == el
                            && eh as u32 == lw - 1
                        {
                            let (a, b) = rl.signed(lw);
                            return Rng {
                                start: a as u128 & m,
                                len: (b - a) as u128,
                            };
                        }
                    }
                }
                let (a, b) = rl.unsigned(lw);
                let (ha, hb) = self.rng(h).unsigned(w - lw);
                Rng::span((ha << lw) | a, (hb << lw) | b)
            }
            Node::Extract(x, hi, lo) => {
                let xw = self.width(x);
                let (hi, lo) = (hi as u32, lo as u32);
                let mut r = self.rng(x);
                if lo > 0 {
                    let (a, b) = r.unsigned(xw);
                    r = Rng::span(a >> lo, b >> lo);
                }
                let _ = hi;
                if r.len >= m {
                    full
                } else {
                    Rng { start: r.start & m, len: r.len }
                }
            }
            Node::Bin(op, a, b) => {
                let (x, y) = (self.rng(a), self.rng(b));
                let ow = self.width(a);
                let cb = self.as_const(b);
                match op {
                    Op::Add | Op::Sub => match x.len.checked_add(y.len) {
                        Some(l) if l < m => Rng {
                            start: if op == Op::Add {
                                x.start.wrapping_add(y.start) & m
                            } else {
                                x.start.wrapping_sub(y.end(w)) & m
                            },
                            len: l,
                        },
                        _ => full,
                    },
                    Op::Mul => match cb {
                        Some(k) => {
                            // multiplication by a negative constant reverses the interval
                            let s = to_signed(k, w);
                            let mag = s.unsigned_abs();
                            match x.len.checked_mul(mag) {
                                Some(l) if l < m => Rng {
                                    start: if s >= 0 { x.start } else { x.end(w) }
                                        .wrapping_mul(k)
                                        & m,
                                    len: l,
                                },
                                _ => full,
                            }
                        }
                        None => {
                            let (_, p) = x.unsigned(w);
                            let (_, q) = y.unsigned(w);
                            match p.checked_mul(q) {
                                Some(v) if v <= m => Rng::span(0, v),
                                _ => full,
                            }
                        }
                    },
                    Op::UDiv => {
                        let (p, q) = x.unsigned(w);
                        let (c, d) = y.unsigned(w);
                        if c == 0 {
                            full
                        } else {
                            Rng::span(p / d, q / c)
                        }
                    }
                    Op::URem => {
                        let (p, q) = x.unsigned(w);
                        match cb {
                            Some(0) => x,
                            Some(k) if p / k == q / k => Rng::span(p % k, q % k),
                            Some(k) => Rng::span(0, (k - 1).min(q)),
                            None => Rng::span(0, q),
                        }
                    }
                    Op::SDiv => match cb {
                        Some(k) if to_signed(k, w) > 0 => {
                            let k = to_signed(k, w);
                            let (p, q) = x.signed(w);
                            let (p, q) = (p / k, q / k);
                            Rng { start: p as u128 & m, len: (q - p) as u128 }
                        }
                        _ => full,
                    },
                    Op::SRem => match cb {
                        Some(k) if to_signed(k, w) > 0 => {
                            let k = to_signed(k, w);
                            let (p, q) = x.signed(w);
                            if p / k == q / k && (p >= 0 || q <= 0) {
                                Rng { start: (p % k) as u128 & m, len: (q % k - p % k) as u128 }
                            } else {
                                let lo = if p >= 0 { 0 } else { p.max(-(k - 1)) };
                                let hi = if q <= 0 { 0 } else { q.min(k - 1) };
                                Rng { start: lo as u128 & m, len: (hi - lo) as u128 }
                            }
                        }
                        _ => full,
                    },
                    Op::And => {
                        let (_, p) = x.unsigned(w);
                        let (_, q) = y.unsigned(w);
                        Rng::span(0, p.min(q))
                    }
                    Op::LShr => {
                        let (_, p) = x.unsigned(w);
                        Rng::span(0, p)
                    }
                    Op::Shl | Op::AShr | Op::Or | Op::Xor => full,
                    Op::Eq => {
                        let apart = !x.has(y.start, ow) && !y.has(x.start, ow);
                        if apart {
                            Rng { start: 0, len: 0 }
                        } else {
                            full
                        }
                    }
                    Op::Ult | Op::Ule => {
                        let (p, q) = x.unsigned(ow);
                        let (c, d) = y.unsigned(ow);
                        let strict = op == Op::Ult;
                        if (strict && q < c) || (!strict && q <= c) {
                            Rng { start: 1, len: 0 }
                        } else if (strict && p >= d) || (!strict && p > d) {
                            Rng { start: 0, len: 0 }
                        } else {
                            full
                        }
                    }
                    Op::Slt | Op::Sle => {
                        let (p, q) = x.signed(ow);
                        let (c, d) = y.signed(ow);
                        let strict = op == Op::Slt;
                        if (strict && q < c) || (!strict && q <= c) {
                            Rng { start: 1, len: 0 }
                        } else if (strict && p >= d) || (!strict && p > d) {
                            Rng { start: 0, len: 0 }
                        } else {
                            full
                        }
                    }
                }
            }
        }
    }
    /// Adds `t * coef` to a linear sum; false if it has too many parts.
    fn linear(&self, t: T, coef: u128, depth: u32, out: &mut Vec<(T, u128)>, k: &mut u128) -> bool {
        let w = self.width(t);
        let m = mask(w);
        match self.node(t) {
            Node::Const(v) => *k = k.wrapping_add(v.wrapping_mul(coef)) & m,
            Node::Bin(Op::Add, a, b) if depth > 0 => {
                return self.linear(a, coef, depth - 1, out, k) && self.linear(b, coef, depth - 1, out, k)
            }
            Node::Bin(Op::Sub, a, b) if depth > 0 => {
                return self.linear(a, coef, depth - 1, out, k)
                    && self.linear(b, coef.wrapping_neg() & m, depth - 1, out, k)
            }
            Node::Bin(Op::Mul, a, b) if depth > 0 && self.as_const(b).is_some() => {
                let c = self.as_const(b).unwrap().wrapping_mul(coef) & m;
                return self.linear(a, c, depth - 1, out, k);
            }
            _ => {
                if out.len() >= 12 {
                    return false;
                }
                out.push((t, coef));
            }
        }
        true
    }
    /// a + b * sign as (what is added, what is subtracted), if something cancels.
    fn cancel(&mut self, a: T, b: T, sign: bool) -> Option<(T, T)> {
        let w = self.width(a);
        let m = mask(w);
        let inner = |s: &Pool, t: T| matches!(s.node(t), Node::Bin(Op::Add | Op::Sub | Op::Mul, ..));
        if !inner(self, a) && !inner(self, b) {
            return None;
        }
        let (mut v, mut k) = (vec![], 0);
        if !self.linear(a, 1, 8, &mut v, &mut k) || !self.linear(b, if sign { m } else { 1 }, 8, &mut v, &mut k) {
            return None;
        }
        v.sort_unstable();
        let mut r: Vec<(T, u128)> = vec![];
        for (t, c) in &v {
            match r.last_mut() {
                Some(l) if l.0 == *t => l.1 = l.1.wrapping_add(*c) & m,
                _ => r.push((*t, *c)),
            }
        }
        r.retain(|x| x.1 != 0);
        if r.len() == v.len() {
            return None;
        }
        let mut sides = [None; 2];
        for (t, c) in r {
            let neg = c >> (w - 1) == 1;
            let c = if neg { c.wrapping_neg() & m } else { c };
            let c = self.cst(c, w);
            let x = self.bin(Op::Mul, t, c);
            let side = &mut sides[neg as usize];
            *side = Some(match *side {
                None => x,
                Some(s) => self.bin(Op::Add, s, x),
            });
        }
        let c = self.cst(k, w);
        let p = match sides[0] {
            None => c,
            Some(s) => self.bin(Op::Add, s, c),
        };
        let n = match sides[1] {
            None => self.cst(0, w),
            Some(s) => s,
        };
        Some((p, n))
    }
    /// (a * k + y) divided by k, truncating, where nothing overflows and y is not negative.
    fn div_of_sum(&mut self, op: Op, t: T, k: i128) -> Option<T> {
        let w = self.width(t);
        let (p, q) = match self.node(t) {
            Node::Bin(Op::Add, p, q) => (p, q),
            _ => return None,
        };
        let kk = self.cst(k as u128, w);
        let times = |s: &Pool, x: T| match s.node(x) {
            Node::Bin(Op::Mul, a, b) if b == kk => Some(a),
            Node::Bin(Op::Mul, a, b) if a == kk => Some(b),
            _ => None,
        };
        let (a, y) = match (times(self, p), times(self, q)) {
            (Some(a), _) => (a, q),
            (_, Some(a)) => (a, p),
            _ => return None,
        };
        let (al, ah) = self.rng(a).signed(w);
        let (yl, yh) = self.rng(y).signed(w);
        if yl < 0 {
            return None;
        }
        let fits = |v: i128| w == 128 || (v >> (w - 1) == 0 || v >> (w - 1) == -1);
        let lo = al.checked_mul(k).filter(|v| fits(*v))?;
        let hi = ah.checked_mul(k).filter(|v| fits(*v))?;
        lo.checked_add(yl).filter(|v| fits(*v))?;
        hi.checked_add(yh).filter(|v| fits(*v))?;
        // floor first
        let d = self.bin(Op::UDiv, y, kk);
        let r = self.bin(Op::URem, y, kk);
        let f = self.bin(Op::Add, a, d);
        let z = self.cst(0, w);
        let neg = self.bin(Op::Slt, f, z);
        let exact = self.bin(Op::Eq, r, z);
        let part = self.not(exact);
        let up = self.bin(Op::And, neg, part);
        Some(if op == Op::SDiv {
            let one = self.cst(1, w);
            let g = self.ite(up, one, z);
            self.bin(Op::Add, f, g)
        } else {
            let g = self.ite(up, kk, z);
            self.bin(Op::Sub, r, g)
        })
    }
    /// Division of a term with a narrow range by a constant, as a choice between few quotients.
    fn narrow_div(&mut self, op: Op, a: T, k: u128) -> Option<T> {
        let w = self.width(a);
        if k == 0 {
            return None;
        }
        let r = self.rng(a);
        let c = |p: &mut Pool, v: i128| p.cst(v as u128, w);
        match op {
            Op::UDiv | Op::URem => {
                let (lo, hi) = r.unsigned(w);
                let (q0, q1) = (lo / k, hi / k);
                if q1 - q0 <= 8 {
                    let mut res: Option<T> = None;
                    for q in (q0..=q1).rev() {
                        let v = if op == Op::UDiv {
                            self.cst(q, w)
                        } else if q == q1 && hi == q * k {
                            self.cst(0, w)
                        } else {
                            // below k wherever this quotient is chosen
                            let s = self.cst(q.wrapping_mul(k), w);
                            let d = self.bin(Op::Sub, a, s);
                            let n = 128 - (k - 1).leading_zeros();
                            if q1 > q0 && n > 0 && n < w {
                                let x = self.extract(d, n - 1, 0);
                                self.zext(x, w)
                            } else {
                                d
                            }
                        };
                        res = Some(match res {
                            None => v,
                            Some(e) => {
                                let lim = self.cst((q + 1).wrapping_mul(k), w);
                                let t = self.bin(Op::Ult, a, lim);
                                self.ite(t, v, e)
                            }
                        });
                    }
                    return res;
                }
                let n = 128 - hi.leading_zeros();
                if n < w {
                    if k > hi {
                        return Some(if op == Op::UDiv { self.cst(0, w) } else { a });
                    }
                    let x = self.extract(a, n - 1, 0);
                    let kk = self.cst(k, n);
                    let d = self.bin(op, x, kk);
                    return Some(self.zext(d, w));
                }
                None
            }
            Op::SDiv | Op::SRem => {
                let k = to_signed(k, w);
                if k > 0 {
                    if let Some(t) = self.div_of_sum(op, a, k) {
                        return Some(t);
                    }
                    if w >= 127 {
                        // few enough bits
                        let (lo, hi) = r.signed(w);
                        let n = 130 - lo.max(!lo).max(hi.max(!hi)).leading_zeros();
                        if n < 126 && k >> (n - 1) == 0 {
                            let x = self.extract(a, n - 1, 0);
                            let kk = self.cst(k as u128, n);
                            let d = self.bin(op, x, kk);
                            return Some(self.sext(d, w));
                        }
                    }
                }
                if k < -1 && w < 127 && k > -(1i128 << (w - 1)) {
                    // the quotient changes its sign, the remainder does not
                    let kk = self.cst(-k as u128, w);
                    let d = self.bin(op, a, kk);
                    let z = self.cst(0, w);
                    return Some(if op == Op::SDiv { self.bin(Op::Sub, z, d) } else { d });
                }
                if k <= 0 || w >= 127 {
                    return None;
                }
                let (lo, hi) = r.signed(w);
                let kk = self.cst(k as u128, w);
                if lo >= 0 {
                    return Some(self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, kk));
                }
                if hi <= 0 {
                    let z = self.cst(0, w);
                    let na = self.bin(Op::Sub, z, a);
                    let d = self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, na, kk);
                    return Some(self.bin(Op::Sub, z, d));
                }
                let (q0, q1) = (lo / k, hi / k);
                if q1 - q0 <= 8 {
                    let mut res: Option<T> = None;
                    let mut q = q1;
                    while q >= q0 {
                        let v = if op == Op::SDiv {
                            c(self, q)
                        } else if (q == q1 && q > 0 && hi == q * k) || (q == q0 && q < 0 && lo == q * k) {
                            c(self, 0)
                        } else {
                            let s = c(self, q * k);
                            let d = self.bin(Op::Sub, a, s);
                            let n = 128 - ((k - 1) as u128).leading_zeros();
                            if q > 0 && n > 0 && n < w {
                                let x = self.extract(d, n - 1, 0);
                                self.zext(x, w)
                            } else {
                                d
                            }
                        };
                        res = Some(match res {
                            None => v,
                            Some(e) => {
                                // a/k <= q (truncating)
                                let lim = if q >= 0 { (q + 1) * k } else { q * k + 1 };
                                let lim = c(self, lim);
                                let t = self.bin(Op::Slt, a, lim);
                                self.ite(t, v, e)
                            }
                        });
                        q -= 1;
                    }
                    return res;
                }
                None
            }
            _ => None,
        }
    }
    pub fn width(&self, t: T) -> u32 {
        self.w[t.0 as usize] as u32
    }
    pub fn node(&self, t: T) -> Node {
        self.nodes[t.0 as usize]
    }
    pub fn cst(&mut self, v: u128, w: u32) -> T {
        self.mk(Node::Const(v & mask(w)), w)
    }
    pub fn tru(&mut self) -> T {
        self.cst(1, 1)
    }
    pub fn fls(&mut self) -> T {
        self.cst(0, 1)
    }
    pub fn var(&mut self, i: u32) -> T {
        self.mk(Node::Var(i), 8)
    }
    pub fn as_const(&self, t: T) -> Option<u128> {
        match self.node(t) {
            Node::Const(v) => Some(v),
            _ => None,
        }
    }
    fn pieces(&self, t: T, out: &mut Vec<T>) {
        match self.node(t) {
            Node::Concat(a, b) => {
                self.pieces(a, out);
                self.pieces(b, out);
            }
            _ => out.push(t),
        }
    }
    /// Builds a concatenation (most significant first), merging neighbours.
    pub fn concat_list(&mut self, ps: &[T]) -> T {
        let mut flat: Vec<T> = Vec::with_capacity(ps.len());
        for p in ps {
            self.pieces(*p, &mut flat);
        }
        let mut acc: Vec<T> = Vec::with_capacity(flat.len());
        for p in flat {
            if let Some(&l) = acc.last() {
                let wl = self.width(l);
                let wp = self.width(p);
                match (self.node(l), self.node(p)) {
                    (Node::Const(a), Node::Const(b)) if wl + wp <= 128 => {
                        acc.pop();
                        let c = self.cst((a << wp) | b, wl + wp);
                        acc.push(c);
                        continue;
                    }
                    (Node::Extract(x, h1, l1), Node::Extract(y, h2, l2))
                        if x == y && l1 as u32 == h2 as u32 + 1 =>
                    {
                        acc.pop();
                        let e = self.extract(x, h1 as u32, l2 as u32);
                        acc.push(e);
                        continue;
                    }
                    // a constant next to a choice between constants
                    (Node::Const(k), Node::Ite(..)) if self.constleaf[p.0 as usize] && wl + wp <= 128 => {
                        acc.pop();
                        let e = self.map_leaves(p, wl + wp, &mut |_p, v| (k << wp) | v);
                        acc.push(e);
                        continue;
                    }
                    (Node::Ite(..), Node::Const(k)) if self.constleaf[l.0 as usize] && wl + wp <= 128 => {
                        acc.pop();
                        let e = self.map_leaves(l, wl + wp, &mut |_p, v| (v << wp) | k);
                        acc.push(e);
                        continue;
                    }
                    // neighbours that depend on the same condition only
                    (Node::Ite(c, x, y), Node::Ite(d, u, v))
                        if c == d
                            && self.constleaf[l.0 as usize]
                            && self.constleaf[p.0 as usize] =>
                    {
                        acc.pop();
                        let (h, k) = (self.concat_list(&[x, u]), self.concat_list(&[y, v]));
                        let e = self.ite(c, h, k);
                        acc.push(e);
                        continue;
                    }
                    (Node::Ite(c, x, y), _) if c == p && self.constleaf[l.0 as usize] => {
                        acc.pop();
                        let (t, f) = (self.tru(), self.fls());
                        let (h, k) = (self.concat_list(&[x, t]), self.concat_list(&[y, f]));
                        let e = self.ite(c, h, k);
                        acc.push(e);
                        continue;
                    }
                    (_, Node::Ite(d, u, v)) if d == l && self.constleaf[p.0 as usize] => {
                        acc.pop();
                        let (t, f) = (self.tru(), self.fls());
                        let (h, k) = (self.concat_list(&[t, u]), self.concat_list(&[f, v]));
                        let e = self.ite(d, h, k);
                        acc.push(e);
                        continue;
                    }
                    _ => {}
                }
            }
            acc.push(p);
        }
        let mut r = acc.pop().unwrap();
        while let Some(h) = acc.pop() {
            let w = self.width(h) + self.width(r);
            r = self.mk(Node::Concat(h, r), w);
        }
        r
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        self.concat_list(&[hi, lo])
    }
    pub fn zext(&mut self, t: T, w: u32) -> T {
        let tw = self.width(t);
        if tw == w {
            return t;
        }
        if self.constleaf[t.0 as usize] {
            return self.map_leaves(t, w, &mut |_p, v| v);
        }
        let z = self.cst(0, w - tw);
        self.concat(z, t)
    }
    pub fn sext(&mut self, t: T, w: u32) -> T {
        let tw = self.width(t);
        if tw == w {
            return t;
        }
        if self.constleaf[t.0 as usize] {
            return self.map_leaves(t, w, &mut |_p, v| to_signed(v, tw) as u128 & mask(w));
        }
        // known non-negative?
        if let Node::Concat(h, _) = self.node(t) {
            if let Some(c) = self.as_const(h) {
                let hw = self.width(h);
                if c >> (hw - 1) == 0 {
                    return self.zext(t, w);
                }
            }
        }
        let s = self.extract(t, tw - 1, tw - 1);
        let a = self.cst(mask(w - tw), w - tw);
        let z = self.cst(0, w - tw);
        let h = self.ite(s, a, z);
        self.concat(h, t)
    }
    pub fn extract(&mut self, t: T, hi: u32, lo: u32) -> T {
        let w = self.width(t);
        debug_assert!(hi < w && lo <= hi);
        if lo == 0 && hi == w - 1 {
            return t;
        }
        let nw = hi - lo + 1;
        match self.node(t) {
            Node::Const(v) => self.cst(v >> lo, nw),
            Node::Extract(x, _, l) => self.extract(x, hi + l as u32, lo + l as u32),
            Node::Concat(..) => {
                let mut ps = vec![];
                self.pieces(t, &mut ps);
                let mut pos = w;
                let mut out = vec![];
                for p in ps {
                    let pw = self.width(p);
                    let (ph, pl) = (pos - 1, pos - pw);
                    pos -= pw;
                    if ph < lo || pl > hi {
                        continue;
                    }
                    let h = hi.min(ph) - pl;
                    let l = lo.max(pl) - pl;
                    let e = self.extract(p, h, l);
                    out.push(e);
                }
                self.concat_list(&out)
            }
            Node::Ite(c, a, b) => {
                if self.constleaf[t.0 as usize] {
                    return self.map_leaves(t, nw, &mut |_p, v| (v >> lo) & mask(nw));
                }
                let ca = matches!(self.node(a), Node::Const(_) | Node::Concat(..));
                let cb = matches!(self.node(b), Node::Const(_) | Node::Concat(..));
                if (ca && cb) || self.as_const(a).is_some() || self.as_const(b).is_some() {
                    let x = self.extract(a, hi, lo);
                    let y = self.extract(b, hi, lo);
                    return self.ite(c, x, y);
                }
                self.mk(Node::Extract(t, hi as u8, lo as u8), nw)
            }
            Node::Bin(o @ (Op::And | Op::Or | Op::Xor), a, b) => {
                let x = self.extract(a, hi, lo);
                let y = self.extract(b, hi, lo);
                self.bin(o, x, y)
            }
            Node::Bin(o @ (Op::Add | Op::Sub | Op::Mul), a, b) if lo == 0 => {
                let x = self.extract(a, hi, lo);
                let y = self.extract(b, hi, lo);
                self.bin(o, x, y)
            }
            Node::Not(a) => {
                let x = self.extract(a, hi, lo);
                self.not(x)
            }
            _ => self.mk(Node::Extract(t, hi as u8, lo as u8), nw),
        }
    }
    /// Applies a function to the constant leaves of an Ite tree.
    fn map_leaves(&mut self, t: T, w: u32, f: &mut dyn FnMut(&Pool, u128) -> u128) -> T {
        match self.node(t) {
            Node::Const(v) => {
                let r = f(self, v);
                self.cst(r, w)
            }
            Node::Ite(c, a, b) => {
                let x = self.map_leaves(a, w, f);
                let y = self.map_leaves(b, w, f);
                self.ite(c, x, y)
            }
            _ => unreachable!(),
        }
    }
    fn pair_leaves(&mut self, op: Op, a: T, b: T) -> T {
        match (self.node(a), self.node(b)) {
            (Node::Ite(c, x, y), Node::Ite(d, u, v)) if c == d => {
                let h = self.pair_leaves(op, x, u);
                let k = self.pair_leaves(op, y, v);
                self.ite(c, h, k)
            }
            (Node::Ite(c, x, y), _) => {
                let h = self.pair_leaves(op, x, b);
                let k = self.pair_leaves(op, y, b);
                self.ite(c, h, k)
            }
            _ => self.bin(op, a, b),
        }
    }
    pub fn not(&mut self, t: T) -> T {
        let w = self.width(t);
        match self.node(t) {
            Node::Const(v) => self.cst(!v & mask(w), w),
            Node::Not(x) => x,
            Node::Ite(..) if self.constleaf[t.0 as usize] => {
                self.map_leaves(t, w, &mut |_p, v| !v & mask(w))
            }
            Node::Bin(Op::Ult, a, b) => self.bin(Op::Ule, b, a),
            Node::Bin(Op::Ule, a, b) => self.bin(Op::Ult, b, a),
            Node::Bin(Op::Slt, a, b) => self.bin(Op::Sle, b, a),
            Node::Bin(Op::Sle, a, b) => self.bin(Op::Slt, b, a),
            Node::Concat(..) => {
                let mut ps = vec![];
                self.pieces(t, &mut ps);
                let q: Vec<T> = ps.iter().map(|p| self.not(*p)).collect();
                self.concat_list(&q)
            }
            _ => self.mk(Node::Not(t), w),
        }
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        match self.node(c) {
            Node::Const(1) => return a,
            Node::Const(_) => return b,
            Node::Not(x) => return self.ite(x, b, a),
            _ => {}
        }
        let w = self.width(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                _ => {}
            }
        }
        if let Node::Ite(c2, x, _) = self.node(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Node::Ite(c2, _, y) = self.node(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }
    /// Splits two equally wide terms into pieces with common boundaries, MSB first.
    fn align_pieces(&mut self, a: T, b: T) -> Vec<(T, T)> {
        let (mut pa, mut pb) = (vec![], vec![]);
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        let (mut i, mut j) = (0, 0);
        let mut out = vec![];
        let mut ra: Option<T> = None;
        let mut rb: Option<T> = None;
        loop {
            if ra.is_none() {
                if i >= pa.len() {
                    break;
                }
                ra = Some(pa[i]);
                i += 1;
            }
            if rb.is_none() {
                rb = Some(pb[j]);
                j += 1;
            }
            let (x, y) = (ra.take().unwrap(), rb.take().unwrap());
            let (wx, wy) = (self.width(x), self.width(y));
            if wx == wy {
                out.push((x, y));
            } else if wx > wy {
                let h = self.extract(x, wx - 1, wx - wy);
                let l = self.extract(x, wx - wy - 1, 0);
                out.push((h, y));
                ra = Some(l);
            } else {
                let h = self.extract(y, wy - 1, wy - wx);
                let l = self.extract(y, wy - wx - 1, 0);
                out.push((x, h));
                rb = Some(l);
            }
        }
        out
    }
    /// Splits a constant into maximal runs of equal bits so that And/Or become concatenations.
    fn const_runs(&mut self, v: u128, w: u32) -> T {
        // represent as a list of Const nodes that concat_list would merge again; callers use runs()
        self.cst(v, w)
    }
    fn runs(v: u128, w: u32) -> Vec<(u32, bool)> {
        let mut out: Vec<(u32, bool)> = vec![];
        let mut i = w;
        while i > 0 {
            i -= 1;
            let b = (v >> i) & 1 == 1;
            match out.last_mut() {
                Some((n, x)) if *x == b => *n += 1,
                _ => out.push((1, b)),
            }
        }
        out
    }
    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b), "{:?}", op);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        let ca = self.as_const(a);
        let cb = self.as_const(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(op, w, x, y);
            return self.cst(v, rw);
        }
        // constants to the right for commutative operators
        if ca.is_some() && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            return self.bin(op, b, a);
        }
        if cb.is_none()
            && a.0 > b.0
            && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
        {
            return self.bin(op, b, a);
        }
        // push operators into Ite trees with constant leaves
        if let Some(k) = cb {
            if self.constleaf[a.0 as usize] {
                return self.map_leaves(a, rw, &mut |_p, v| fold(op, w, v, k));
            }
        }
        if let Some(k) = ca {
            if self.constleaf[b.0 as usize] {
                return self.map_leaves(b, rw, &mut |_p, v| fold(op, w, k, v));
            }
        }
        if w > 1
            && self.constleaf[a.0 as usize]
            && self.constleaf[b.0 as usize]
            && self.leafcnt[a.0 as usize] as u32 * self.leafcnt[b.0 as usize] as u32 <= 32
        {
            return self.pair_leaves(op, a, b);
        }
        // ... and into a choice between a constant and something else
        if let (Some(_), Op::Add | Op::Sub | Op::Mul | Op::Ult | Op::Ule | Op::Slt | Op::Sle, Node::Ite(c, x, y)) =
            (cb, op, self.node(a))
        {
            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                let (p, q) = (self.bin(op, x, b), self.bin(op, y, b));
                return self.ite(c, p, q);
            }
        }
        if let (Some(_), Op::Sub | Op::Ult | Op::Ule | Op::Slt | Op::Sle, Node::Ite(c, x, y)) = (ca, op, self.node(b)) {
            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                let (p, q) = (self.bin(op, a, x), self.bin(op, a, y));
                return self.ite(c, p, q);
            }
        }
        let m = mask(w);
        if let (Some(k), Op::UDiv | Op::URem | Op::SDiv | Op::SRem) = (cb, op) {
            if let Some(t) = self.narrow_div(op, a, k) {
                return t;
            }
        }
        // x + k compared with a constant, when the sum does not wrap
        if let (Some(k), Op::Ult | Op::Ule, Node::Bin(Op::Add, x, y)) = (cb, op, self.node(a)) {
            if let Some(j) = self.as_const(y) {
                let (lo, hi) = self.rng(x).unsigned(w);
                let (l2, h2) = (lo.wrapping_add(j) & m, hi.wrapping_add(j) & m);
                if hi - lo < m && l2 <= h2 {
                    // as x ranges over [lo,hi], x+j ranges monotonically over [l2,h2]
                    if k >= l2 && k <= h2 {
                        let c = self.cst(k - l2 + lo, w);
                        return self.bin(op, x, c);
                    }
                }
            }
        }
        if let (Some(k), Op::Ult | Op::Ule, Node::Bin(Op::Add, x, y)) = (ca, op, self.node(b)) {
            if let Some(j) = self.as_const(y) {
                let (lo, hi) = self.rng(x).unsigned(w);
                let (l2, h2) = (lo.wrapping_add(j) & m, hi.wrapping_add(j) & m);
                if hi - lo < m && l2 <= h2 && k >= l2 && k <= h2 {
                    let c = self.cst(k - l2 + lo, w);
                    return self.bin(op, c, x);
                }
            }
        }
        if let (Some(k), Op::Slt | Op::Sle, Node::Bin(Op::Add, x, y)) = (cb, op, self.node(a)) {
            if let Some(j) = self.as_const(y) {
                if w < 127 {
                    let (lo, hi) = self.rng(x).signed(w);
                    let (j, k) = (to_signed(j, w), to_signed(k, w));
                    let (mn, mx) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                    let d = k - j;
                    if lo + j >= mn && hi + j <= mx && d >= mn && d <= mx {
                        let c = self.cst(d as u128, w);
                        return self.bin(op, x, c);
                    }
                }
            }
        }
        if let (Some(k), Op::Slt | Op::Sle, Node::Bin(Op::Add, x, y)) = (ca, op, self.node(b)) {
            if let Some(j) = self.as_const(y) {
                if w < 127 {
                    let (lo, hi) = self.rng(x).signed(w);
                    let (j, k) = (to_signed(j, w), to_signed(k, w));
                    let (mn, mx) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                    let d = k - j;
                    if lo + j >= mn && hi + j <= mx && d >= mn && d <= mx {
                        let c = self.cst(d as u128, w);
                        return self.bin(op, c, x);
                    }
                }
            }
        }
        if let Op::Ult | Op::Ule | Op::Slt | Op::Sle = op {
            // a common constant prefix decides nothing
            let head = |p: &Pool, t: T| match p.node(t) {
                Node::Concat(h, _) => p.as_const(h).map(|v| (v, p.width(h))),
                Node::Const(v) => Some((v, w)),
                _ => None,
            };
            if let (Some((x, wx)), Some((y, wy))) = (head(self, a), head(self, b)) {
                let n = wx.min(wy);
                if n < w && x >> (wx - n) == y >> (wy - n) {
                    let (p, q) = (self.extract(a, w - n - 1, 0), self.extract(b, w - n - 1, 0));
                    let u = match op {
                        Op::Slt => Op::Ult,
                        Op::Sle => Op::Ule,
                        o => o,
                    };
                    return self.bin(u, p, q);
                }
            }
        }
        if w >= 32 && matches!(op, Op::Add | Op::Sub | Op::Eq) && ca.is_none() && cb.is_none() {
            if let Some((p, n)) = self.cancel(a, b, op != Op::Add) {
                return self.bin(if op == Op::Eq { Op::Eq } else { Op::Sub }, p, n);
            }
        }
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (Some(k), Node::Bin(Op::Add, x, y)) = (cb, self.node(a)) {
                    if let Some(k2) = self.as_const(y) {
                        let c = self.cst(k.wrapping_add(k2), w);
                        return self.bin(Op::Add, x, c);
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(k) = cb {
                    let c = self.cst(k.wrapping_neg(), w);
                    return self.bin(Op::Add, a, c);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let c = self.cst(k - 1, w);
                        return self.bin(Op::And, a, c);
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        if op == Op::AShr {
                            let s = self.extract(a, w - 1, w - 1);
                            return self.sext(s, w);
                        }
                        return self.cst(0, w);
                    }
                    let k = k as u32;
                    return match op {
                        Op::Shl => {
                            let x = self.extract(a, w - 1 - k, 0);
                            let z = self.cst(0, k);
                            self.concat(x, z)
                        }
                        Op::LShr => {
                            let x = self.extract(a, w - 1, k);
                            self.zext(x, w)
                        }
                        _ => {
                            let x = self.extract(a, w - 1, k);
                            self.sext(x, w)
                        }
                    };
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if a == b {
                    return if op == Op::Xor { self.cst(0, w) } else { a };
                }
                if let Some(k) = cb {
                    match op {
                        Op::And if k == 0 => return b,
                        Op::And if k == m => return a,
                        Op::Or if k == 0 => return a,
                        Op::Or if k == m => return b,
                        Op::Xor if k == 0 => return a,
                        Op::Xor if k == m => return self.not(a),
                        _ => {}
                    }
                    if w > 1 {
                        let runs = Self::runs(k, w);
                        if runs.len() <= 20 {
                            let mut pos = w;
                            let mut out = vec![];
                            for (n, bit) in runs {
                                let x = self.extract(a, pos - 1, pos - n);
                                pos -= n;
                                let p = match (op, bit) {
                                    (Op::And, true) | (Op::Or, false) | (Op::Xor, false) => x,
                                    (Op::And, false) => self.cst(0, n),
                                    (Op::Or, true) => self.cst(mask(n), n),
                                    (_, _) => self.not(x),
                                };
                                out.push(p);
                            }
                            return self.concat_list(&out);
                        }
                    }
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return match op {
                            Op::And => self.cst(0, 1),
                            _ => self.cst(1, 1),
                        };
                    }
                }
                let conc = |p: &Pool, t: T| {
                    matches!(p.node(t), Node::Concat(..))
                };
                if conc(self, a) || conc(self, b) {
                    let prs = self.align_pieces(a, b);
                    if prs.len() > 1 {
                        let out: Vec<T> = prs.iter().map(|(x, y)| self.bin(op, *x, *y)).collect();
                        return self.concat_list(&out);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.tru();
                }
                if w == 1 {
                    if let Some(k) = cb {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                if matches!(self.node(a), Node::Concat(..))
                    || matches!(self.node(b), Node::Concat(..))
                {
                    let prs = self.align_pieces(a, b);
                    if prs.len() > 1 {
                        let mut acc = self.tru();
                        for (x, y) in prs {
                            let e = self.bin(Op::Eq, x, y);
                            if self.as_const(e) == Some(0) {
                                return e;
                            }
                            acc = self.bin(Op::And, acc, e);
                        }
                        return acc;
                    }
                }
                if let Some(k) = cb {
                    match self.node(a) {
                        Node::Bin(Op::Add, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                let c = self.cst(k.wrapping_sub(k2), w);
                                return self.bin(Op::Eq, x, c);
                            }
                        }
                        Node::Bin(Op::Xor, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                let c = self.cst(k ^ k2, w);
                                return self.bin(Op::Eq, x, c);
                            }
                        }
                        Node::Not(x) => {
                            let c = self.cst(!k, w);
                            return self.bin(Op::Eq, x, c);
                        }
                        Node::Bin(Op::Mul, x, y) => {
                            // an odd factor has an inverse
                            if let Some(k2) = self.as_const(y) {
                                if k2 & 1 == 1 {
                                    let mut inv = k2;
                                    for _ in 0..7 {
                                        inv = inv.wrapping_mul(2u128.wrapping_sub(k2.wrapping_mul(inv)));
                                    }
                                    let c = self.cst(k.wrapping_mul(inv) & m, w);
                                    return self.bin(Op::Eq, x, c);
                                }
                            }
                        }
                        Node::Ite(c, x, y) => {
                            let ex = self.bin(Op::Eq, x, b);
                            let ey = self.bin(Op::Eq, y, b);
                            if self.as_const(ex).is_some() || self.as_const(ey).is_some() {
                                return self.ite(c, ex, ey);
                            }
                        }
                        _ => {}
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.cst((op == Op::Ule) as u128, 1);
                }
                if op == Op::Ult && cb == Some(0) {
                    return self.fls();
                }
                if op == Op::Ule && ca == Some(0) {
                    return self.tru();
                }
                if op == Op::Ule && cb == Some(m) {
                    return self.tru();
                }
                if op == Op::Ult && ca == Some(m) {
                    return self.fls();
                }
                if op == Op::Ult && cb == Some(1) {
                    let z = self.cst(0, w);
                    return self.bin(Op::Eq, a, z);
                }
                if op == Op::Ult && ca == Some(0) {
                    let z = self.cst(0, w);
                    let e = self.bin(Op::Eq, b, z);
                    return self.not(e);
                }
                if op == Op::Ule && cb == Some(0) {
                    return self.bin(Op::Eq, a, b);
                }
                // comparison with an end of the range
                if let Some(k) = cb {
                    let (lo, hi) = self.rng(a).unsigned(w);
                    if lo < hi {
                        let k1 = if op == Op::Ult { k } else { k + 1 }; // a < k1
                        if k1 == hi {
                            let c = self.cst(hi, w);
                            let e = self.bin(Op::Eq, a, c);
                            return self.not(e);
                        }
                        if k1 == lo + 1 {
                            let c = self.cst(lo, w);
                            return self.bin(Op::Eq, a, c);
                        }
                    }
                }
                if let Some(k) = ca {
                    let (lo, hi) = self.rng(b).unsigned(w);
                    if lo < hi {
                        let k1 = if op == Op::Ult { k + 1 } else { k }; // k1 <= b
                        if k1 == hi {
                            let c = self.cst(hi, w);
                            return self.bin(Op::Eq, b, c);
                        }
                        if k1 == lo + 1 {
                            let c = self.cst(lo, w);
                            let e = self.bin(Op::Eq, b, c);
                            return self.not(e);
                        }
                    }
                }
                // zero-extended operands
                let ha = self.zext_width(a);
                let hb = self.zext_width(b);
                let n = ha.max(hb);
                if n < w && n > 0 {
                    let x = self.extract(a, n - 1, 0);
                    let y = self.extract(b, n - 1, 0);
                    return self.bin(op, x, y);
                }
                // comparison with a power of two boundary: a < 2^k  <=> high bits zero
                if let (Op::Ult, Some(k)) = (op, cb) {
                    if k.is_power_of_two() {
                        let s = k.trailing_zeros();
                        let h = self.extract(a, w - 1, s);
                        let z = self.cst(0, w - s);
                        return self.bin(Op::Eq, h, z);
                    }
                }
                if let (Op::Ule, Some(k)) = (op, ca) {
                    if k.is_power_of_two() {
                        let s = k.trailing_zeros();
                        let h = self.extract(b, w - 1, s);
                        let z = self.cst(0, w - s);
                        let e = self.bin(Op::Eq, h, z);
                        return self.not(e);
                    }
                }
                if let (Op::Ule, Some(k)) = (op, cb) {
                    if (k + 1).is_power_of_two() {
                        let c = self.cst(k + 1, w);
                        return self.bin(Op::Ult, a, c);
                    }
                }
                if let (Op::Ult, Some(k)) = (op, ca) {
                    if (k + 1).is_power_of_two() {
                        let c = self.cst(k + 1, w);
                        return self.bin(Op::Ule, c, b);
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.cst((op == Op::Sle) as u128, 1);
                }
                // sign test
                if op == Op::Slt && cb == Some(0) {
                    return self.extract(a, w - 1, w - 1);
                }
                if op == Op::Slt && ca == Some(m) {
                    let s = self.extract(b, w - 1, w - 1);
                    return self.not(s);
                }
                if op == Op::Sle && cb == Some(m) {
                    return self.extract(a, w - 1, w - 1);
                }
                if op == Op::Sle && ca == Some(0) {
                    let s = self.extract(b, w - 1, w - 1);
                    return self.not(s);
                }
                let ha = self.zext_width(a);
                let hb = self.zext_width(b);
                if ha < w && hb < w {
                    let u = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.bin(u, a, b);
                }
            }
            Op::SDiv | Op::SRem => {
                let ha = self.zext_width(a);
                let hb = self.zext_width(b);
                if ha < w && hb < w {
                    let u = if op == Op::SDiv { Op::UDiv } else { Op::URem };
                    return self.bin(u, a, b);
                }
            }
        }
        self.mk(Node::Bin(op, a, b), rw)
    }
    /// Number of low bits that may be non-zero.
    pub fn zext_width(&mut self, t: T) -> u32 {
        let w = self.width(t);
        match self.node(t) {
            Node::Const(v) => 128 - v.leading_zeros(),
            Node::Concat(h, _) => match self.node(h) {
                Node::Const(v) => w - self.width(h) + (128 - v.leading_zeros()),
                _ => w,
            },
            _ => w,
        }
    }
    pub fn ne(&mut self, a: T, b: T) -> T {
        let e = self.bin(Op::Eq, a, b);
        self.not(e)
    }
    /// False: `t` never has this value.
    pub fn may_be(&self, t: T, v: u128) -> bool {
        match self.node(t) {
            Node::Const(c) => c == v,
            Node::Ite(_, a, b) if self.constleaf[t.0 as usize] => self.may_be(a, v) || self.may_be(b, v),
            _ => self.rng(t).has(v, self.width(t)),
        }
    }
    /// Is this a choice between a few constants?
    pub fn few_values(&self, t: T) -> bool {
        self.constleaf[t.0 as usize] && self.leafcnt[t.0 as usize] <= 64 && self.as_const(t).is_none()
    }
    pub fn new_model(&mut self) {
        self.ev_gen += 1;
    }
    /// Value of a term when input byte i has value model[i].
    pub fn eval(&mut self, t: T, model: &[u8]) -> u128 {
        let gen = self.ev_gen;
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            let xi = x.0 as usize;
            if self.ev_stamp[xi] == gen {
                stack.pop();
                continue;
            }
            let w = self.w[xi] as u32;
            let ok = |p: &Pool, y: T| p.ev_stamp[y.0 as usize] == gen;
            let val = |p: &Pool, y: T| p.ev_val[y.0 as usize];
            let v = match self.nodes[xi] {
                Node::Var(i) => model.get(i as usize).copied().unwrap_or(0) as u128,
                Node::Const(v) => v,
                Node::Not(a) => {
                    if !ok(self, a) {
                        stack.push(a);
                        continue;
                    }
                    !val(self, a) & mask(w)
                }
                Node::Bin(op, a, b) => {
                    let (oa, ob) = (ok(self, a), ok(self, b));
                    if !oa {
                        stack.push(a);
                    }
                    if !ob {
                        stack.push(b);
                    }
                    if !oa || !ob {
                        continue;
                    }
                    fold(op, self.w[a.0 as usize] as u32, val(self, a), val(self, b))
                }
                Node::Ite(c, a, b) => {
                    if !ok(self, c) {
                        stack.push(c);
                        continue;
                    }
                    let y = if val(self, c) == 1 { a } else { b };
                    if !ok(self, y) {
                        stack.push(y);
                        continue;
                    }
                    val(self, y)
                }
                Node::Concat(h, l) => {
                    let (oa, ob) = (ok(self, h), ok(self, l));
                    if !oa {
                        stack.push(h);
                    }
                    if !ob {
                        stack.push(l);
                    }
                    if !oa || !ob {
                        continue;
                    }
                    (val(self, h) << self.w[l.0 as usize]) | val(self, l)
                }
                Node::Extract(a, hi, lo) => {
                    if !ok(self, a) {
                        stack.push(a);
                        continue;
                    }
                    (val(self, a) >> lo) & mask((hi - lo + 1) as u32)
                }
            };
            assert!(self.range[xi].has(v, w), "range analysis is wrong for {:?}", self.nodes[xi]);
            self.ev_stamp[xi] = gen;
            self.ev_val[xi] = v;
            stack.pop();
        }
        self.ev_val[t.0 as usize]
    }
    #[allow(dead_code)]
    fn _unused(&mut self) {
        let _ = self.const_runs(0, 1);
    }
}

/// Builds random terms and compares the simplified term's value with direct evaluation.
pub fn selftest(seed: u64, rounds: u32) -> usize {
    let mut s = seed | 1;
    let mut rnd = move |n: u64| {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        (s >> 11) % n
    };
    const M: usize = 6;
    let mut count = 0;
    for _ in 0..rounds {
        let mut p = Pool::new();
        let models: Vec<Vec<u8>> = (0..M)
            .map(|_| {
                (0..4)
                    .map(|_| match rnd(4) {
                        0 => 0,
                        1 => 255,
                        2 => rnd(8) as u8,
                        _ => rnd(256) as u8,
                    })
                    .collect()
            })
            .collect();
        let mut pool: Vec<(T, Vec<u128>)> = vec![];
        for i in 0..4 {
            let t = p.var(i);
            pool.push((t, models.iter().map(|m| m[i as usize] as u128).collect()));
        }
        for _ in 0..60 {
            let n = pool.len() as u64;
            let (a, va) = pool[rnd(n) as usize].clone();
            let w = p.width(a);
            let (t, v): (T, Vec<u128>) = match rnd(13) {
                0 => {
                    let k = match rnd(4) {
                        0 => rnd(16) as u128,
                        1 => mask(w) - rnd(8) as u128 % (mask(w) + (w < 128) as u128).max(1),
                        2 => (1u128 << rnd(w as u64)) - rnd(2) as u128,
                        _ => rnd(u64::MAX) as u128,
                    } & mask(w);
                    (p.cst(k, w), vec![k; M])
                }
                1 => {
                    let nw = w + 1 + rnd(64) as u32;
                    if nw > 128 {
                        continue;
                    }
                    (p.zext(a, nw), va)
                }
                2 => {
                    let nw = w + 1 + rnd(64) as u32;
                    if nw > 128 {
                        continue;
                    }
                    (
                        p.sext(a, nw),
                        va.iter().map(|x| to_signed(*x, w) as u128 & mask(nw)).collect(),
                    )
                }
                3 => {
                    let lo = rnd(w as u64) as u32;
                    let hi = lo + rnd((w - lo) as u64) as u32;
                    (
                        p.extract(a, hi, lo),
                        va.iter().map(|x| (x >> lo) & mask(hi - lo + 1)).collect(),
                    )
                }
                4 => {
                    let (b, vb) = pool[rnd(n) as usize].clone();
                    let wb = p.width(b);
                    if w + wb > 128 {
                        continue;
                    }
                    (
                        p.concat(a, b),
                        va.iter().zip(&vb).map(|(x, y)| (x << wb) | y).collect(),
                    )
                }
                5 => {
                    // (a * k + b) / k
                    let (b, vb) = pool[rnd(n) as usize].clone();
                    let wb = p.width(b);
                    let nw = (w.max(wb) + 1 + rnd(64) as u32).min(128);
                    let k = match rnd(3) {
                        0 => 1 + rnd(7),
                        1 => 1_000_000_000,
                        _ => 1 + rnd(400),
                    } as u128
                        & mask(nw - 1);
                    let op = [Op::SDiv, Op::SRem][rnd(2) as usize];
                    let c = p.cst(k, nw);
                    let x = p.sext(a, nw);
                    let x = p.bin(Op::Mul, x, c);
                    let y = p.zext(b, nw);
                    let s = p.bin(Op::Add, x, y);
                    (
                        p.bin(op, s, c),
                        va.iter()
                            .zip(&vb)
                            .map(|(x, y)| {
                                let m = fold(Op::Mul, nw, to_signed(*x, w) as u128 & mask(nw), k);
                                fold(op, nw, fold(Op::Add, nw, m, *y), k)
                            })
                            .collect(),
                    )
                }
                6 => (p.not(a), va.iter().map(|x| !x & mask(w)).collect()),
                7 => {
                    // ite over a one-bit term and two same-width terms
                    let c = pool.iter().rev().find(|(t, _)| p.width(*t) == 1).cloned();
                    let bs: Vec<_> =
                        pool.iter().filter(|(t, _)| p.width(*t) == w).cloned().collect();
                    let (b, vb) = bs[rnd(bs.len() as u64) as usize].clone();
                    match c {
                        None => continue,
                        Some((c, vc)) => (
                            p.ite(c, a, b),
                            (0..M).map(|i| if vc[i] == 1 { va[i] } else { vb[i] }).collect(),
                        ),
                    }
                }
                _ => {
                    let ops = [
                        Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::Shl,
                        Op::LShr, Op::AShr, Op::And, Op::Or, Op::Xor, Op::Eq, Op::Ult, Op::Ule,
                        Op::Slt, Op::Sle, Op::Add, Op::SDiv, Op::SRem, Op::UDiv, Op::URem,
                    ];
                    let op = ops[rnd(ops.len() as u64) as usize];
                    let (b, vb) = if rnd(2) == 0 {
                        let k = match rnd(3) {
                            0 => rnd(8) as u128,
                            1 => rnd(400) as u128,
                            _ => mask(w) - rnd(3) as u128 % 2,
                        } & mask(w);
                        (p.cst(k, w), vec![k; M])
                    } else {
                        let bs: Vec<_> =
                            pool.iter().filter(|(t, _)| p.width(*t) == w).cloned().collect();
                        bs[rnd(bs.len() as u64) as usize].clone()
                    };
                    // sums with offsets make windows around interesting values
                    (
                        p.bin(op, a, b),
                        va.iter().zip(&vb).map(|(x, y)| fold(op, w, *x, *y)).collect(),
                    )
                }
            };
            for (i, m) in models.iter().enumerate() {
                p.new_model();
                let e = p.eval(t, m);
                assert_eq!(e, v[i], "simplification changed a value (node {:?})", p.node(t));
                count += 1;
            }
            pool.push((t, v));
        }
    }
    count
}
