//! Hash-consed bit-vector expressions over byte-sized symbolic variables.
//!
//! Every expression (of at most 64 bits) that depends on exactly one variable is kept in the
//! canonical form `Tab(var, table)`: its value for each of the 256 values of the variable. Tables
//! are interned, so equal functions are equal nodes. Everything else is an ordinary DAG node.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
        self.0 ^= self.0 >> 29;
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Tab,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,
    Extract,
    ZExt,
    SExt,
    Ite,
    Not, // boolean negation (width 1)
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128, // const value; Tab: var in a, table in b; Extract: low bit in b
}

pub type Table = Rc<[u64; 256]>;
pub type Mask = [u64; 4];

pub const FULL: Mask = [!0; 4];
pub fn mask_get(m: &Mask, v: u8) -> bool {
    m[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
pub fn mask_and(a: &Mask, b: &Mask) -> Mask {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn mask_andn(a: &Mask, b: &Mask) -> Mask {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn mask_empty(a: &Mask) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn mask_count(a: &Mask) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn mask_first(a: &Mask) -> Option<u8> {
    for i in 0..4 {
        if a[i] != 0 {
            return Some((i * 64) as u8 + a[i].trailing_zeros() as u8);
        }
    }
    None
}
pub fn mask_iter(a: Mask) -> impl Iterator<Item = u8> {
    (0..=255u8).filter(move |v| mask_get(&a, *v))
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    cons: FxMap<Node, E>,
    pub tables: Vec<Table>,
    table_ids: FxMap<Rc<[u64; 256]>, u32>,
    pub masks: Vec<Option<Mask>>, // per table, for boolean use
    sup: Vec<u32>,
    pub sups: Vec<Rc<[u16]>>,
    sup_ids: FxMap<Rc<[u16]>, u32>,
    sup_union: FxMap<(u32, u32), u32>,
    memo: Vec<(u32, u128)>,
    stamp: u32,
    pub created: u64,
}

pub fn mask_of(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
fn m64(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn eval_op(op: Op, w: u32, aw: u32, a: u128, b: u128) -> u128 {
    // w: result width, aw: width of the operands
    let m = mask_of(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, aw), sx(b, aw));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, aw), sx(b, aw));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= aw as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= aw as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= aw as u128 { aw - 1 } else { b as u32 };
            (sx(a, aw) >> s) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
        Op::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
        _ => unreachable!(),
    }) & m
}

impl Exprs {
    pub fn new() -> Exprs {
        let mut e = Exprs {
            nodes: vec![],
            cons: Default::default(),
            tables: vec![],
            table_ids: Default::default(),
            masks: vec![],
            sup: vec![],
            sups: vec![],
            sup_ids: Default::default(),
            sup_union: Default::default(),
            memo: vec![],
            stamp: 0,
            created: 0,
        };
        e.sup_id(Rc::from(vec![]));
        // node 0 is reserved so that 0 can mean "concrete"
        e.konst(0, 1);
        e
    }
    fn sup_id(&mut self, s: Rc<[u16]>) -> u32 {
        if let Some(&i) = self.sup_ids.get(&s) {
            return i;
        }
        let i = self.sups.len() as u32;
        self.sups.push(s.clone());
        self.sup_ids.insert(s, i);
        i
    }
    pub fn supid(&self, e: E) -> u32 {
        self.sup[e as usize]
    }
    pub fn support(&self, e: E) -> &Rc<[u16]> {
        &self.sups[self.sup[e as usize] as usize]
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.sup_union.get(&k) {
            return r;
        }
        let mut v: Vec<u16> = self.sups[a as usize].iter().chain(self.sups[b as usize].iter()).cloned().collect();
        v.sort();
        v.dedup();
        let r = self.sup_id(Rc::from(v));
        self.sup_union.insert(k, r);
        r
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.cons.get(&n) {
            return e;
        }
        let s = match n.op {
            Op::Const => 0,
            Op::Tab => self.sup_id(Rc::from(vec![n.a as u16])),
            Op::Ite => {
                let x = self.union(self.sup[n.a as usize], self.sup[n.b as usize]);
                self.union(x, self.sup[n.c as usize])
            }
            Op::Not | Op::ZExt | Op::SExt | Op::Extract => self.sup[n.a as usize],
            _ => self.union(self.sup[n.a as usize], self.sup[n.b as usize]),
        };
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.cons.insert(n, e);
        self.sup.push(s);
        self.memo.push((0, 0));
        self.created += 1;
        e
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        self.intern(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, k: v & mask_of(w) })
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn var(&mut self, v: u32) -> E {
        let mut t = [0u64; 256];
        for i in 0..256 {
            t[i] = i as u64;
        }
        self.tab(v, t, 8)
    }
    fn table_id(&mut self, t: [u64; 256]) -> u32 {
        let r = Rc::new(t);
        if let Some(&i) = self.table_ids.get(&r) {
            return i;
        }
        let i = self.tables.len() as u32;
        self.tables.push(r.clone());
        self.table_ids.insert(r, i);
        self.masks.push(None);
        i
    }
    pub fn tab(&mut self, v: u32, t: [u64; 256], w: u32) -> E {
        let f = t[0];
        if t.iter().all(|x| *x == f) {
            return self.konst(f as u128, w);
        }
        let id = self.table_id(t);
        self.intern(Node { op: Op::Tab, w: w as u8, a: v, b: id, c: 0, k: 0 })
    }
    /// (var, table) of a single-variable node
    pub fn as_tab(&self, e: E) -> Option<(u32, u32)> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Tab {
            Some((n.a, n.b))
        } else {
            None
        }
    }
    pub fn mask(&mut self, tid: u32) -> Mask {
        if let Some(m) = self.masks[tid as usize] {
            return m;
        }
        let mut m = [0u64; 4];
        for i in 0..256 {
            if self.tables[tid as usize][i] & 1 == 1 {
                m[i >> 6] |= 1 << (i & 63);
            }
        }
        self.masks[tid as usize] = Some(m);
        m
    }
    /// If both are constants or tables on one variable (and one at least is a table)
    fn tab2(&self, a: E, b: E) -> Option<u32> {
        let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        match (na.op, nb.op) {
            (Op::Tab, Op::Tab) if na.a == nb.a => Some(na.a),
            (Op::Tab, Op::Const) if nb.w <= 64 => Some(na.a),
            (Op::Const, Op::Tab) if na.w <= 64 => Some(nb.a),
            _ => None,
        }
    }
    fn col(&self, e: E) -> Table {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Tab => self.tables[n.b as usize].clone(),
            _ => Rc::new([n.k as u64; 256]),
        }
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let aw = self.w(a);
        debug_assert_eq!(aw, self.w(b));
        let w = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => aw,
        };
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Const && nb.op == Op::Const {
            return self.konst(eval_op(op, w, aw, na.k, nb.k), w);
        }
        if aw <= 64 {
            if let Some(v) = self.tab2(a, b) {
                let (ca, cb) = (self.col(a), self.col(b));
                let mut t = [0u64; 256];
                match op {
                    // fast vectorisable cases
                    Op::Eq => {
                        for i in 0..256 {
                            t[i] = (ca[i] == cb[i]) as u64
                        }
                    }
                    Op::Ult => {
                        for i in 0..256 {
                            t[i] = (ca[i] < cb[i]) as u64
                        }
                    }
                    Op::And => {
                        for i in 0..256 {
                            t[i] = ca[i] & cb[i]
                        }
                    }
                    Op::Or => {
                        for i in 0..256 {
                            t[i] = ca[i] | cb[i]
                        }
                    }
                    Op::Xor => {
                        for i in 0..256 {
                            t[i] = ca[i] ^ cb[i]
                        }
                    }
                    Op::Add => {
                        let m = m64(w);
                        for i in 0..256 {
                            t[i] = ca[i].wrapping_add(cb[i]) & m
                        }
                    }
                    Op::Sub => {
                        let m = m64(w);
                        for i in 0..256 {
                            t[i] = ca[i].wrapping_sub(cb[i]) & m
                        }
                    }
                    _ => {
                        for i in 0..256 {
                            t[i] = eval_op(op, w, aw, ca[i] as u128, cb[i] as u128) as u64
                        }
                    }
                }
                return self.tab(v, t, w);
            }
        }
        match op {
            Op::Add => {
                if na.op == Op::Const {
                    return self.bin(Op::Add, b, a);
                }
                if nb.op == Op::Const {
                    if nb.k == 0 {
                        return a;
                    }
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let k = self.konst(k2.wrapping_add(nb.k), w);
                            return self.bin(Op::Add, na.a, k);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if nb.op == Op::Const {
                    let k = self.konst(nb.k.wrapping_neg(), w);
                    return self.bin(Op::Add, a, k);
                }
            }
            Op::Mul => {
                if na.op == Op::Const {
                    return self.bin(Op::Mul, b, a);
                }
                if nb.op == Op::Const {
                    if nb.k == 0 {
                        return b;
                    }
                    if nb.k == 1 {
                        return a;
                    }
                    if nb.k.is_power_of_two() {
                        let k = self.konst(nb.k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, k);
                    }
                }
            }
            Op::And => {
                if na.op == Op::Const {
                    return self.bin(Op::And, b, a);
                }
                if a == b {
                    return a;
                }
                if nb.op == Op::Const {
                    if nb.k == 0 {
                        return b;
                    }
                    if nb.k == mask_of(w) {
                        return a;
                    }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            let k = self.konst(nb.k, iw);
                            let x = self.bin(Op::And, na.a, k);
                            return self.zext(x, w);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = w - lw;
                            let kl = self.konst(nb.k, lw);
                            let kh = self.konst(nb.k >> lw, hw);
                            let h = self.bin(Op::And, na.a, kh);
                            let l = self.bin(Op::And, na.b, kl);
                            return self.concat(h, l);
                        }
                        Op::And => {
                            if let Some(k2) = self.as_const(na.b) {
                                let k = self.konst(k2 & nb.k, w);
                                return self.bin(Op::And, na.a, k);
                            }
                        }
                        Op::Ite => {
                            if self.as_const(na.b).is_some() || self.as_const(na.c).is_some() {
                                let x = self.bin(Op::And, na.b, b);
                                let y = self.bin(Op::And, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                    // low mask
                    if (nb.k + 1).is_power_of_two() {
                        let lo = nb.k.count_ones();
                        let x = self.extract(a, 0, lo);
                        return self.zext(x, w);
                    }
                }
                if w == 1 {
                    if self.is_not_of(a, b) {
                        return self.konst(0, 1);
                    }
                    if a > b {
                        // no id-dependent ordering: keep as is
                    }
                }
            }
            Op::Or => {
                if na.op == Op::Const {
                    return self.bin(Op::Or, b, a);
                }
                if a == b {
                    return a;
                }
                if nb.op == Op::Const {
                    if nb.k == 0 {
                        return a;
                    }
                    if nb.k == mask_of(w) {
                        return b;
                    }
                }
                if w == 1 {
                    // a | b == !(!a & !b): canonical negated conjunction
                    if self.is_not_of(a, b) {
                        return self.konst(1, 1);
                    }
                    let x = self.not(a);
                    let y = self.not(b);
                    let z = self.bin(Op::And, x, y);
                    return self.not(z);
                }
                if let Some(r) = self.split_bitwise(Op::Or, a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if na.op == Op::Const {
                    return self.bin(Op::Xor, b, a);
                }
                if a == b {
                    return self.konst(0, w);
                }
                if nb.op == Op::Const && nb.k == 0 {
                    return a;
                }
                if w == 1 {
                    if nb.op == Op::Const {
                        return self.not(a);
                    }
                    let x = self.bin(Op::Eq, a, b);
                    return self.not(x);
                }
                if let Some(r) = self.split_bitwise(Op::Xor, a, b) {
                    return r;
                }
            }
            Op::Shl => {
                if nb.op == Op::Const {
                    let s = nb.k;
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.konst(0, w);
                    }
                    let s = s as u32;
                    let x = self.extract(a, 0, w - s);
                    let z = self.konst(0, s);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if nb.op == Op::Const {
                    let s = nb.k;
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.konst(0, w);
                    }
                    let s = s as u32;
                    let x = self.extract(a, s, w - s);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if nb.op == Op::Const {
                    let s = nb.k.min(w as u128 - 1) as u32;
                    if s == 0 {
                        return a;
                    }
                    let x = self.extract(a, s, w - s);
                    return self.sext(x, w);
                }
            }
            Op::UDiv | Op::SDiv => {
                if nb.op == Op::Const && nb.k == 1 {
                    return a;
                }
                if op == Op::UDiv && nb.op == Op::Const && nb.k.is_power_of_two() {
                    let k = self.konst(nb.k.trailing_zeros() as u128, w);
                    return self.bin(Op::LShr, a, k);
                }
            }
            Op::URem => {
                if nb.op == Op::Const && nb.k.is_power_of_two() {
                    let k = self.konst(nb.k - 1, w);
                    return self.bin(Op::And, a, k);
                }
            }
            Op::SRem => {}
            Op::Eq => return self.eq(a, b),
            Op::Ult => {
                if a == b {
                    return self.konst(0, 1);
                }
                if let Some(k) = self.as_const(b) {
                    if k == 0 {
                        return self.konst(0, 1);
                    }
                    if k == 1 {
                        let z = self.konst(0, aw);
                        return self.eq(a, z);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k > mask_of(iw) {
                            return self.konst(1, 1);
                        }
                        let kk = self.konst(k, iw);
                        return self.bin(Op::Ult, na.a, kk);
                    }
                    if na.op == Op::Ite {
                        return self.cmp_ite(op, a, b);
                    }
                    if na.op == Op::Concat {
                        // high part decides when the low bits of k are zero
                        let lw = self.w(na.b);
                        if k & mask_of(lw) == 0 {
                            let kh = self.konst(k >> lw, aw - lw);
                            return self.bin(Op::Ult, na.a, kh);
                        }
                        if self.as_const(na.a) == Some(0) {
                            // cannot happen: concat(0,x) is zext
                        }
                    }
                }
                if let Some(k) = self.as_const(a) {
                    if k == mask_of(aw) {
                        return self.konst(0, 1);
                    }
                    if k == 0 {
                        let e = self.eq(b, a);
                        return self.not(e);
                    }
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        if k >= mask_of(iw) {
                            return self.konst(0, 1);
                        }
                        let kk = self.konst(k, iw);
                        return self.bin(Op::Ult, kk, nb.a);
                    }
                    if nb.op == Op::Ite {
                        return self.cmp_ite(op, a, b);
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ult, na.a, nb.a);
                }
            }
            Op::Ule => {
                // a <= b  ==  !(b < a)
                let x = self.bin(Op::Ult, b, a);
                return self.not(x);
            }
            Op::Slt => {
                if a == b {
                    return self.konst(0, 1);
                }
                // both known non-negative?
                let ap = self.nonneg(a);
                let bp = self.nonneg(b);
                if ap && bp {
                    return self.bin(Op::Ult, a, b);
                }
                if ap && self.as_const(b).is_some() && !bp {
                    return self.konst(0, 1);
                }
                if bp && self.as_const(a).is_some() && !ap {
                    return self.konst(1, 1);
                }
                if (na.op == Op::Ite && nb.op == Op::Const) || (nb.op == Op::Ite && na.op == Op::Const) {
                    return self.cmp_ite(op, a, b);
                }
            }
            Op::Sle => {
                let x = self.bin(Op::Slt, b, a);
                return self.not(x);
            }
            _ => {}
        }
        self.intern(Node { op, w: w as u8, a, b, c: 0, k: 0 })
    }
    fn nonneg(&self, e: E) -> bool {
        let n = &self.nodes[e as usize];
        let w = n.w as u32;
        match n.op {
            Op::Const => n.k >> (w - 1) == 0,
            Op::ZExt => true,
            Op::Concat => self.nonneg_top(n.a),
            Op::Tab => self.tables[n.b as usize].iter().all(|x| x >> (w - 1) == 0),
            Op::Ite => self.nonneg(n.b) && self.nonneg(n.c),
            _ => false,
        }
    }
    fn nonneg_top(&self, e: E) -> bool {
        self.nonneg(e)
    }
    /// comparison of an ite (with at least one constant arm) against a constant
    fn cmp_ite(&mut self, op: Op, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let (c, x, y) = if na.op == Op::Ite {
            if self.as_const(na.b).is_none() && self.as_const(na.c).is_none() {
                return self.intern(Node { op, w: 1, a, b, c: 0, k: 0 });
            }
            (na.a, self.bin(op, na.b, b), self.bin(op, na.c, b))
        } else {
            if self.as_const(nb.b).is_none() && self.as_const(nb.c).is_none() {
                return self.intern(Node { op, w: 1, a, b, c: 0, k: 0 });
            }
            (nb.a, self.bin(op, a, nb.b), self.bin(op, a, nb.c))
        };
        self.ite(c, x, y)
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a)
    }
    /// low part width if the node is a concat-like (Concat or ZExt)
    fn low_width(&self, e: E) -> Option<u32> {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Concat => Some(self.nodes[n.b as usize].w as u32),
            Op::ZExt => Some(self.nodes[n.a as usize].w as u32),
            _ => None,
        }
    }
    fn split_bitwise(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let lw = match (self.low_width(a), self.low_width(b)) {
            (Some(x), Some(y)) => {
                if x == y {
                    x
                } else {
                    // split at the point where one of the sides becomes constant zero
                    x.min(y)
                }
            }
            (Some(x), None) if self.as_const(b).is_some() => x,
            (None, Some(y)) if self.as_const(a).is_some() => y,
            _ => return None,
        };
        let w = self.w(a);
        let (ah, al) = (self.extract(a, lw, w - lw), self.extract(a, 0, lw));
        let (bh, bl) = (self.extract(b, lw, w - lw), self.extract(b, 0, lw));
        let h = self.bin(op, ah, bh);
        let l = self.bin(op, al, bl);
        Some(self.concat(h, l))
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.konst(1, 1);
        }
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        if na.op == Op::Const && nb.op == Op::Const {
            return self.konst((na.k == nb.k) as u128, 1);
        }
        if na.op == Op::Const {
            return self.eq(b, a);
        }
        if w <= 64 {
            if let Some(v) = self.tab2(a, b) {
                let (ca, cb) = (self.col(a), self.col(b));
                let mut t = [0u64; 256];
                for i in 0..256 {
                    t[i] = (ca[i] == cb[i]) as u64;
                }
                return self.tab(v, t, 1);
            }
        }
        if w == 1 {
            if nb.op == Op::Const {
                return if nb.k == 1 { a } else { self.not(a) };
            }
            if self.is_not_of(a, b) {
                return self.konst(0, 1);
            }
        }
        if nb.op == Op::Const {
            match na.op {
                Op::ZExt => {
                    let iw = self.w(na.a);
                    if nb.k > mask_of(iw) {
                        return self.konst(0, 1);
                    }
                    let k = self.konst(nb.k, iw);
                    return self.eq(na.a, k);
                }
                Op::SExt => {
                    let iw = self.w(na.a);
                    let k = nb.k & mask_of(iw);
                    if (sx(k, iw) as u128) & mask_of(w) != nb.k {
                        return self.konst(0, 1);
                    }
                    let k = self.konst(k, iw);
                    return self.eq(na.a, k);
                }
                Op::Concat => {
                    let lw = self.w(na.b);
                    let kl = self.konst(nb.k, lw);
                    let kh = self.konst(nb.k >> lw, w - lw);
                    let h = self.eq(na.a, kh);
                    if self.as_const(h) == Some(0) {
                        return h;
                    }
                    let l = self.eq(na.b, kl);
                    return self.bin(Op::And, h, l);
                }
                Op::Ite => {
                    if self.as_const(na.b).is_some() || self.as_const(na.c).is_some() {
                        let x = self.eq(na.b, b);
                        let y = self.eq(na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                Op::Add => {
                    if let Some(k2) = self.as_const(na.b) {
                        let k = self.konst(nb.k.wrapping_sub(k2), w);
                        return self.eq(na.a, k);
                    }
                }
                Op::Xor => {
                    if let Some(k2) = self.as_const(na.b) {
                        let k = self.konst(nb.k ^ k2, w);
                        return self.eq(na.a, k);
                    }
                    if nb.k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Sub => {
                    if nb.k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Or => {
                    if nb.k == 0 {
                        let x = self.eq(na.a, b);
                        let y = self.eq(na.b, b);
                        return self.bin(Op::And, x, y);
                    }
                }
                _ => {}
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.eq(na.a, nb.a);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            let h = self.eq(na.a, nb.a);
            let l = self.eq(na.b, nb.b);
            return self.bin(Op::And, h, l);
        }
        self.intern(Node { op: Op::Eq, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        debug_assert_eq!(n.w, 1);
        match n.op {
            Op::Const => self.konst(1 - n.k, 1),
            Op::Tab => {
                let src = self.tables[n.b as usize].clone();
                let mut t = [0u64; 256];
                for i in 0..256 {
                    t[i] = src[i] ^ 1;
                }
                self.tab(n.a, t, 1)
            }
            Op::Not => n.a,
            _ => self.intern(Node { op: Op::Not, w: 1, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn ite(&mut self, c: E, x: E, y: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { x } else { y };
        }
        if x == y {
            return x;
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, y, x);
        }
        let w = self.w(x);
        let (nx, ny) = (self.n(x), self.n(y));
        if nc.op == Op::Tab && w <= 64 {
            let okx = nx.op == Op::Const || (nx.op == Op::Tab && nx.a == nc.a);
            let oky = ny.op == Op::Const || (ny.op == Op::Tab && ny.a == nc.a);
            if okx && oky {
                let (cc, cx, cy) = (self.col(c), self.col(x), self.col(y));
                let mut t = [0u64; 256];
                for i in 0..256 {
                    t[i] = if cc[i] & 1 == 1 { cx[i] } else { cy[i] };
                }
                return self.tab(nc.a, t, w);
            }
        }
        if w == 1 {
            match (self.as_const(x), self.as_const(y)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, y);
                }
                (Some(_), _) => return self.bin(Op::Or, c, y),
                (_, Some(0)) => return self.bin(Op::And, c, x),
                (_, Some(_)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, x);
                }
                _ => {}
            }
        }
        // nested ite on the same condition
        if nx.op == Op::Ite && nx.a == c {
            return self.ite(c, nx.b, y);
        }
        if ny.op == Op::Ite && ny.a == c {
            return self.ite(c, x, ny.c);
        }
        self.intern(Node { op: Op::Ite, w: w as u8, a: c, b: x, c: y, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n(a);
        let aw = n.w as u32;
        debug_assert!(lo + w <= aw && w > 0);
        if lo == 0 && w == aw {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(n.k >> lo, w),
            Op::Tab => {
                let src = self.tables[n.b as usize].clone();
                let m = m64(w);
                let mut t = [0u64; 256];
                for i in 0..256 {
                    t[i] = (src[i] >> lo) & m;
                }
                return self.tab(n.a, t, w);
            }
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w: w as u8, a, b: lo, c: 0, k: 0 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (nh, nl) = (self.n(h), self.n(l));
        let w = nh.w as u32 + nl.w as u32;
        let lw = nl.w as u32;
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.konst(nh.k << lw | nl.k, w);
        }
        if w <= 64 {
            if let Some(v) = self.tab2(h, l) {
                let (ch, cl) = (self.col(h), self.col(l));
                let mut t = [0u64; 256];
                for i in 0..256 {
                    t[i] = ch[i] << lw | cl[i];
                }
                return self.tab(v, t, w);
            }
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(l, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw {
            return self.extract(nh.a, nl.b, w);
        }
        // same ite condition on both halves
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        // right-associate so that adjacent pieces can merge
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, l);
            return self.concat(nh.a, r);
        }
        if nl.op == Op::Concat {
            let m = self.n(nl.a);
            let merge = (nh.op == Op::Const && m.op == Op::Const)
                || (nh.op == Op::Extract && m.op == Op::Extract && nh.a == m.a && nh.b == m.b + m.w as u32)
                || (nh.op == Op::Tab && m.op == Op::Tab && nh.a == m.a && nh.w as u32 + m.w as u32 <= 64);
            if merge {
                let x = self.concat(h, nl.a);
                return self.concat(x, nl.b);
            }
        }
        if nh.op == Op::ZExt {
            let x = self.concat(nh.a, l);
            return self.zext(x, w);
        }
        self.intern(Node { op: Op::Concat, w: w as u8, a: h, b: l, c: 0, k: 0 })
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        let aw = n.w as u32;
        if aw == w {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(n.k, w),
            Op::Tab if w <= 64 => {
                return self.intern(Node { op: Op::Tab, w: w as u8, a: n.a, b: n.b, c: 0, k: 0 });
            }
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let x = self.zext(n.b, w);
                    let y = self.zext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.intern(Node { op: Op::ZExt, w: w as u8, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        let aw = n.w as u32;
        if aw == w {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(sx(n.k, aw) as u128, w),
            Op::Tab if w <= 64 => {
                let src = self.tables[n.b as usize].clone();
                let mut t = [0u64; 256];
                for i in 0..256 {
                    t[i] = (sx(src[i] as u128, aw) as u64) & m64(w);
                }
                return self.tab(n.a, t, w);
            }
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.intern(Node { op: Op::SExt, w: w as u8, a, b: 0, c: 0, k: 0 })
    }

    // ---- evaluation
    pub fn begin_eval(&mut self) {
        self.stamp += 1;
        if self.stamp == u32::MAX {
            self.stamp = 1;
            for m in self.memo.iter_mut() {
                m.0 = 0
            }
        }
    }
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.begin_eval();
        self.ev(e, model)
    }
    pub fn ev(&mut self, e: E, model: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Tab => return self.tables[n.b as usize][model.get(n.a as usize).cloned().unwrap_or(0) as usize] as u128,
            _ => {}
        }
        let m = self.memo[e as usize];
        if m.0 == self.stamp {
            return m.1;
        }
        let v = match n.op {
            Op::Concat => {
                let h = self.ev(n.a, model);
                let l = self.ev(n.b, model);
                h << self.w(n.b) | l
            }
            Op::Extract => (self.ev(n.a, model) >> n.b) & mask_of(n.w as u32),
            Op::ZExt => self.ev(n.a, model),
            Op::SExt => {
                let iw = self.w(n.a);
                (sx(self.ev(n.a, model), iw) as u128) & mask_of(n.w as u32)
            }
            Op::Ite => {
                if self.ev(n.a, model) == 1 {
                    self.ev(n.b, model)
                } else {
                    self.ev(n.c, model)
                }
            }
            Op::Not => 1 - self.ev(n.a, model),
            op => {
                let a = self.ev(n.a, model);
                let b = self.ev(n.b, model);
                eval_op(op, n.w as u32, self.w(n.a), a, b)
            }
        };
        self.memo[e as usize] = (self.stamp, v);
        v
    }
}
