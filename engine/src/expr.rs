//! Hash-consed bit-vector expressions with an eager simplifier.
//! Width-1 expressions are booleans.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct E(pub u32);
pub const NONE: E = E(u32::MAX);

impl std::fmt::Debug for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", show(*self, 4))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Udiv,
    Urem,
    And,
    Or,
    Xor,
    Shl,
    Lshr,
    Ashr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u16, u128),
    Var(u16, u32),
    Not(E),
    Bin(Op, E, E),
    Ite(E, E, E),
    Extract(u16, u16, E), // hi, lo
    Concat(E, E),         // high, low
    Zext(u16, E),
    Sext(u16, E),
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub widths: Vec<u16>,
    map: HashMap<Node, E>,
    pub vars: Vec<(String, u16)>,
    varsets: HashMap<E, Rc<Vec<u32>>>,
}

thread_local! {
    pub static A: RefCell<Arena> = RefCell::new(Arena{nodes:vec![],widths:vec![],map:HashMap::new(),vars:vec![],varsets:HashMap::new()});
}

fn intern(n: Node, w: u16) -> E {
    A.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(e) = a.map.get(&n) {
            return *e;
        }
        let e = E(a.nodes.len() as u32);
        a.nodes.push(n);
        a.widths.push(w);
        a.map.insert(n, e);
        e
    })
}
pub fn node(e: E) -> Node {
    A.with(|a| a.borrow().nodes[e.0 as usize])
}
pub fn width(e: E) -> u16 {
    A.with(|a| a.borrow().widths[e.0 as usize])
}
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn konst(w: u16, v: u128) -> E {
    intern(Node::Const(w, v & mask(w)), w)
}
pub fn k64(v: u64) -> E {
    konst(64, v as u128)
}
pub fn k8(v: u8) -> E {
    konst(8, v as u128)
}
pub fn tru() -> E {
    konst(1, 1)
}
pub fn fls() -> E {
    konst(1, 0)
}
pub fn var(name: &str, w: u16) -> E {
    let id = A.with(|a| {
        let mut a = a.borrow_mut();
        a.vars.push((name.to_string(), w));
        (a.vars.len() - 1) as u32
    });
    intern(Node::Var(w, id), w)
}
pub fn var_by_id(id: u32, w: u16) -> E {
    intern(Node::Var(w, id), w)
}
pub fn var_name(id: u32) -> String {
    A.with(|a| a.borrow().vars[id as usize].0.clone())
}
pub fn as_const(e: E) -> Option<u128> {
    match node(e) {
        Node::Const(_, v) => Some(v),
        _ => None,
    }
}
pub fn is_true(e: E) -> bool {
    as_const(e) == Some(1) && width(e) == 1
}
pub fn is_false(e: E) -> bool {
    as_const(e) == Some(0) && width(e) == 1
}

fn sx(v: u128, w: u16) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

fn fold(op: Op, w: u16, a: u128, b: u128) -> (u16, u128) {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::Udiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::Urem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::Lshr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::Ashr => {
            let s = sx(a, w);
            let sh = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            (s >> sh) as u128
        }
        Op::Eq => return (1, (a == b) as u128),
        Op::Ult => return (1, (a < b) as u128),
        Op::Ule => return (1, (a <= b) as u128),
        Op::Slt => return (1, (sx(a, w) < sx(b, w)) as u128),
        Op::Sle => return (1, (sx(a, w) <= sx(b, w)) as u128),
    };
    (w, r & m)
}

pub fn not(a: E) -> E {
    match node(a) {
        Node::Const(w, v) => konst(w, !v),
        Node::Not(x) => x,
        Node::Bin(Op::Ult, x, y) => ule(y, x),
        Node::Bin(Op::Ule, x, y) => ult(y, x),
        Node::Bin(Op::Slt, x, y) => sle(y, x),
        Node::Bin(Op::Sle, x, y) => slt(y, x),
        _ => {
            let w = width(a);
            intern(Node::Not(a), w)
        }
    }
}
pub fn add(a: E, b: E) -> E {
    bin(Op::Add, a, b)
}
pub fn sub(a: E, b: E) -> E {
    bin(Op::Sub, a, b)
}
pub fn mul(a: E, b: E) -> E {
    bin(Op::Mul, a, b)
}
pub fn and(a: E, b: E) -> E {
    bin(Op::And, a, b)
}
pub fn or(a: E, b: E) -> E {
    bin(Op::Or, a, b)
}
pub fn xor(a: E, b: E) -> E {
    bin(Op::Xor, a, b)
}
pub fn eq(a: E, b: E) -> E {
    bin(Op::Eq, a, b)
}
pub fn ne(a: E, b: E) -> E {
    not(eq(a, b))
}
pub fn ult(a: E, b: E) -> E {
    bin(Op::Ult, a, b)
}
pub fn ule(a: E, b: E) -> E {
    bin(Op::Ule, a, b)
}
pub fn slt(a: E, b: E) -> E {
    bin(Op::Slt, a, b)
}
pub fn sle(a: E, b: E) -> E {
    bin(Op::Sle, a, b)
}
pub fn implies(a: E, b: E) -> E {
    or(not(a), b)
}
pub fn all(v: &[E]) -> E {
    let mut r = tru();
    for &e in v {
        r = and(r, e);
    }
    r
}
pub fn any(v: &[E]) -> E {
    let mut r = fls();
    for &e in v {
        r = or(r, e);
    }
    r
}

/// segments of an expression from low to high: (expr, width) where zero runs are Const.
fn segs(e: E, out: &mut Vec<E>) {
    match node(e) {
        Node::Concat(h, l) => {
            segs(l, out);
            segs(h, out);
        }
        Node::Zext(w, x) => {
            segs(x, out);
            out.push(konst(w - width(x), 0));
        }
        _ => out.push(e),
    }
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b), "width mismatch {:?} {} {}", op, w, width(b));
    if w != width(b) {
        panic!("width mismatch {:?} {:?} {:?}", op, a, b);
    }
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        let (rw, r) = fold(op, w, x, y);
        return konst(rw, r);
    }
    // commutative: constant to the right, else order by id
    let commut = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
    let (a, b, ca, cb) = if commut && (ca.is_some() || (cb.is_none() && a.0 > b.0)) {
        (b, a, cb, ca)
    } else {
        (a, b, ca, cb)
    };
    let m = mask(w);
    match op {
        Op::Add => {
            if cb == Some(0) {
                return a;
            }
            if let (Node::Bin(Op::Add, x, c), Some(k)) = (node(a), cb) {
                if let Some(k0) = as_const(c) {
                    return add(x, konst(w, k0.wrapping_add(k)));
                }
            }
            if let Some(nw) = narrow(a, b, w, |x, y| x.max(y) + 1) {
                return zext(w, add(resize(nw, a), resize(nw, b)));
            }
            // (x - y) + y = x
            if let Node::Bin(Op::Sub, x, y) = node(a) {
                if y == b {
                    return x;
                }
            }
            if let Node::Bin(Op::Sub, x, y) = node(b) {
                if y == a {
                    return x;
                }
            }
        }
        Op::Sub => {
            if cb == Some(0) {
                return a;
            }
            if a == b {
                return konst(w, 0);
            }
            if let Some(k) = cb {
                return add(a, konst(w, k.wrapping_neg()));
            }
            if let Node::Bin(Op::Add, x, y) = node(a) {
                if x == b {
                    return y;
                }
                if y == b {
                    return x;
                }
            }
        }
        Op::Mul => {
            if cb == Some(0) {
                return b;
            }
            if cb == Some(1) {
                return a;
            }
            if let Some(k) = cb {
                if k.is_power_of_two() {
                    return bin(Op::Shl, a, konst(w, k.trailing_zeros() as u128));
                }
            }
            if let Some(nw) = narrow(a, b, w, |x, y| x + y) {
                return zext(w, mul(resize(nw, a), resize(nw, b)));
            }
        }
        Op::Udiv => {
            if cb == Some(1) {
                return a;
            }
            if let Some(k) = cb {
                if k.is_power_of_two() {
                    return bin(Op::Lshr, a, konst(w, k.trailing_zeros() as u128));
                }
                // narrow the division when the dividend is zero-extended
                if let Node::Zext(_, x) = node(a) {
                    let xw = width(x);
                    if k <= mask(xw) && xw >= 8 {
                        return zext(w, bin(Op::Udiv, x, konst(xw, k)));
                    }
                    if k > mask(xw) {
                        return konst(w, 0);
                    }
                }
            }
        }
        Op::Urem => {
            if let Some(k) = cb {
                if k.is_power_of_two() {
                    return and(a, konst(w, k - 1));
                }
                if let Node::Zext(_, x) = node(a) {
                    let xw = width(x);
                    if k <= mask(xw) && xw >= 8 {
                        return zext(w, bin(Op::Urem, x, konst(xw, k)));
                    }
                    if k > mask(xw) {
                        return a;
                    }
                }
            }
        }
        Op::And => {
            if a == b {
                return a;
            }
            if let Some(k) = cb {
                if k == 0 {
                    return b;
                }
                if k == m {
                    return a;
                }
                if w > 1 {
                    // contiguous mask
                    let lo = k.trailing_zeros() as u16;
                    let hi = 127 - k.leading_zeros() as u16;
                    let run = mask(hi - lo + 1) << lo;
                    if run == k {
                        let mid = extract(hi, lo, a);
                        let r = if lo > 0 { concat(mid, konst(lo, 0)) } else { mid };
                        return zext(w, r);
                    }
                }
            }
            if w == 1 {
                if node(a) == Node::Not(b) || node(b) == Node::Not(a) || not(a) == b {
                    return fls();
                }
                // absorb duplicates in one level
                if let Node::Bin(Op::And, x, y) = node(a) {
                    if x == b || y == b {
                        return a;
                    }
                }
                if let Node::Bin(Op::And, x, y) = node(b) {
                    if x == a || y == a {
                        return b;
                    }
                }
            }
        }
        Op::Or => {
            if a == b {
                return a;
            }
            if let Some(k) = cb {
                if k == 0 {
                    return a;
                }
                if k == m {
                    return b;
                }
            }
            if w == 1 {
                if not(a) == b {
                    return tru();
                }
            } else if let Some(r) = or_disjoint(a, b, w) {
                return r;
            }
        }
        Op::Xor => {
            if a == b {
                return konst(w, 0);
            }
            if cb == Some(0) {
                return a;
            }
            if cb == Some(m) {
                return not(a);
            }
            if let (Node::Bin(Op::Xor, x, c), Some(k)) = (node(a), cb) {
                if let Some(k0) = as_const(c) {
                    return xor(x, konst(w, k0 ^ k));
                }
            }
            if w > 1 {
                if let (Node::Zext(_, x), Some(k)) = (node(a), cb) {
                    let xw = width(x);
                    if k <= mask(xw) {
                        return zext(w, xor(x, konst(xw, k)));
                    }
                }
            }
        }
        Op::Shl => {
            if let Some(k) = cb {
                if k == 0 {
                    return a;
                }
                if k >= w as u128 {
                    return konst(w, 0);
                }
                let k = k as u16;
                return concat(extract(w - 1 - k, 0, a), konst(k, 0));
            }
        }
        Op::Lshr => {
            if let Some(k) = cb {
                if k == 0 {
                    return a;
                }
                if k >= w as u128 {
                    return konst(w, 0);
                }
                let k = k as u16;
                return zext(w, extract(w - 1, k, a));
            }
        }
        Op::Ashr => {
            if let Some(k) = cb {
                if k == 0 {
                    return a;
                }
                let k = (k as u16).min(w - 1);
                return sext(w, extract(w - 1, k, a));
            }
        }
        Op::Eq => {
            if a == b {
                return tru();
            }
            if w == 1 {
                if let Some(k) = cb {
                    return if k == 1 { a } else { not(a) };
                }
            }
            if let Some(k) = cb {
                match node(a) {
                    Node::Bin(Op::Or, _, c) if as_const(c).map(|c| c & !k != 0).unwrap_or(false) => return fls(),
                    Node::Zext(_, x) => {
                        let xw = width(x);
                        return if k > mask(xw) { fls() } else { eq(x, konst(xw, k)) };
                    }
                    Node::Sext(_, x) => {
                        let xw = width(x);
                        let low = k & mask(xw);
                        return if (sx(low, xw) as u128) & m == k {
                            eq(x, konst(xw, low))
                        } else {
                            fls()
                        };
                    }
                    Node::Concat(h, l) => {
                        let lw = width(l);
                        let hc = eq(h, konst(width(h), k >> lw));
                        if is_false(hc) {
                            return fls();
                        }
                        return and(hc, eq(l, konst(lw, k)));
                    }
                    Node::Ite(c, t, f) => {
                        if as_const(t).is_some() || as_const(f).is_some() {
                            let et = eq(t, b);
                            let ef = eq(f, b);
                            if as_const(et).is_some() || as_const(ef).is_some() {
                                return ite(c, et, ef);
                            }
                        }
                    }
                    Node::Bin(Op::Add, x, c) => {
                        if let Some(k0) = as_const(c) {
                            return eq(x, konst(w, k.wrapping_sub(k0)));
                        }
                    }
                    Node::Bin(Op::Xor, x, y) => {
                        if k == 0 {
                            return eq(x, y);
                        }
                        if let Some(k0) = as_const(y) {
                            return eq(x, konst(w, k ^ k0));
                        }
                    }
                    Node::Bin(Op::Or, x, y) => {
                        if k == 0 {
                            return and(eq(x, b), eq(y, b));
                        }
                    }
                    Node::Bin(Op::Sub, x, y) => {
                        if k == 0 {
                            return eq(x, y);
                        }
                    }
                    Node::Not(x) => return eq(x, konst(w, !k)),
                    _ => {}
                }
            } else {
                match (node(a), node(b)) {
                    (Node::Zext(_, x), Node::Zext(_, y)) => {
                        let (xw, yw) = (width(x), width(y));
                        let tw = xw.max(yw);
                        return eq(zext(tw, x), zext(tw, y));
                    }
                    (Node::Concat(h1, l1), Node::Concat(h2, l2)) if width(l1) == width(l2) => {
                        return and(eq(h1, h2), eq(l1, l2));
                    }
                    (Node::Concat(_, l1), _) => {
                        if splittable(b) {
                            let lw = width(l1);
                            return and(
                                eq(extract(w - 1, lw, a), extract(w - 1, lw, b)),
                                eq(l1, extract(lw - 1, 0, b)),
                            );
                        }
                    }
                    (_, Node::Concat(_, l2)) => {
                        if splittable(a) {
                            let lw = width(l2);
                            return and(
                                eq(extract(w - 1, lw, a), extract(w - 1, lw, b)),
                                eq(l2, extract(lw - 1, 0, a)),
                            );
                        }
                    }
                    _ => {}
                }
            }
        }
        Op::Ult => {
            if a == b {
                return fls();
            }
            if cb == Some(0) {
                return fls();
            }
            if cb == Some(1) {
                return eq(a, konst(w, 0));
            }
            if ca == Some(m) {
                return fls();
            }
            if ca == Some(0) {
                return ne(b, a);
            }
            match (node(a), node(b)) {
                (Node::Zext(_, x), Node::Zext(_, y)) => {
                    let tw = width(x).max(width(y));
                    return ult(zext(tw, x), zext(tw, y));
                }
                (Node::Zext(_, x), Node::Const(_, k)) => {
                    let xw = width(x);
                    if k > mask(xw) {
                        return tru();
                    }
                    return ult(x, konst(xw, k));
                }
                (Node::Const(_, k), Node::Zext(_, y)) => {
                    let yw = width(y);
                    if k >= mask(yw) {
                        return fls();
                    }
                    return ult(konst(yw, k), y);
                }
                (Node::Ite(c, t, f), Node::Const(..)) => {
                    if as_const(t).is_some() && as_const(f).is_some() {
                        return ite(c, ult(t, b), ult(f, b));
                    }
                }
                (Node::Const(..), Node::Ite(c, t, f)) => {
                    if as_const(t).is_some() && as_const(f).is_some() {
                        return ite(c, ult(a, t), ult(a, f));
                    }
                }
                _ => {}
            }
        }
        Op::Ule => {
            // canonicalise a <= b as not (b < a) only when it folds
            if a == b {
                return tru();
            }
            if ca == Some(0) || cb == Some(m) {
                return tru();
            }
            if let Some(k) = cb {
                return ult(a, konst(w, k + 1));
            }
            if let Some(k) = ca {
                return ult(konst(w, k - 1), b);
            }
            match (node(a), node(b)) {
                (Node::Zext(_, x), Node::Zext(_, y)) => {
                    let tw = width(x).max(width(y));
                    return ule(zext(tw, x), zext(tw, y));
                }
                _ => {}
            }
        }
        Op::Slt => {
            if a == b {
                return fls();
            }
            // both non-negative
            if nonneg(a) && nonneg(b) {
                return ult(a, b);
            }
            if cb == Some(0) {
                return eq(extract(w - 1, w - 1, a), tru());
            }
            if ca == Some(m) {
                // -1 < b
                return not(extract(w - 1, w - 1, b));
            }
            if let (Node::Ite(c, t, f), Some(_)) = (node(a), cb) {
                if as_const(t).is_some() || as_const(f).is_some() {
                    return ite(c, slt(t, b), slt(f, b));
                }
            }
            if let (Some(_), Node::Ite(c, t, f)) = (ca, node(b)) {
                if as_const(t).is_some() || as_const(f).is_some() {
                    return ite(c, slt(a, t), slt(a, f));
                }
            }
        }
        Op::Sle => {
            if a == b {
                return tru();
            }
            if nonneg(a) && nonneg(b) {
                return ule(a, b);
            }
            if let Some(k) = cb {
                if sx(k, w) < sx(m >> 1, w) {
                    return slt(a, konst(w, k.wrapping_add(1)));
                }
                return tru();
            }
            if let Some(k) = ca {
                if k != (m >> 1) + 1 {
                    return slt(konst(w, k.wrapping_sub(1)), b);
                }
                return tru();
            }
        }
    }
    let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
    intern(Node::Bin(op, a, b), rw)
}

/// bits that can be non-zero
fn active(a: E) -> u16 {
    match node(a) {
        Node::Const(_, v) => (128 - v.leading_zeros() as u16).max(1),
        Node::Zext(_, x) => width(x),
        _ => width(a),
    }
}
/// smaller width for wide (more than 64-bit) arithmetic on zero-extended operands
fn narrow(a: E, b: E, w: u16, f: impl Fn(u16, u16) -> u16) -> Option<u16> {
    if w <= 64 {
        return None;
    }
    let nw = f(active(a), active(b)).max(65);
    if nw < w {
        Some(nw)
    } else {
        None
    }
}

fn nonneg(a: E) -> bool {
    match node(a) {
        Node::Const(w, v) => (v >> (w - 1)) & 1 == 0,
        Node::Zext(..) => true,
        _ => false,
    }
}
fn splittable(e: E) -> bool {
    matches!(node(e), Node::Concat(..) | Node::Zext(..) | Node::Var(..) | Node::Extract(..))
}

fn or_disjoint(a: E, b: E, w: u16) -> Option<E> {
    let (mut sa, mut sb) = (vec![], vec![]);
    segs(a, &mut sa);
    segs(b, &mut sb);
    if sa.len() == 1 && sb.len() == 1 {
        return None;
    }
    if sa.len() == 1 && as_const(sa[0]).is_none() || sb.len() == 1 && as_const(sb[0]).is_none() {
        return None;
    }
    // cut points
    let mut cuts: Vec<u16> = vec![0];
    for s in [&sa, &sb] {
        let mut p = 0;
        for e in s.iter() {
            p += width(*e);
            cuts.push(p);
        }
    }
    cuts.sort();
    cuts.dedup();
    let mut parts = vec![];
    for i in 0..cuts.len() - 1 {
        let (lo, hi) = (cuts[i], cuts[i + 1] - 1);
        let x = extract(hi, lo, a);
        let y = extract(hi, lo, b);
        let p = if as_const(x) == Some(0) {
            y
        } else if as_const(y) == Some(0) {
            x
        } else if let (Some(p), Some(q)) = (as_const(x), as_const(y)) {
            konst(hi - lo + 1, p | q)
        } else {
            return None;
        };
        parts.push(p);
    }
    let mut r = parts[0];
    for p in &parts[1..] {
        r = concat(*p, r);
    }
    debug_assert_eq!(width(r), w);
    Some(r)
}

pub fn ite(c: E, t: E, f: E) -> E {
    if let Some(k) = as_const(c) {
        return if k == 1 { t } else { f };
    }
    if t == f {
        return t;
    }
    let w = width(t);
    assert_eq!(w, width(f));
    if let Node::Not(x) = node(c) {
        return ite(x, f, t);
    }
    if w == 1 {
        match (as_const(t), as_const(f)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return or(c, f),
            (Some(0), _) => return and(not(c), f),
            (_, Some(1)) => return or(not(c), t),
            (_, Some(0)) => return and(c, t),
            _ => {}
        }
    } else {
        match (as_const(t), as_const(f)) {
            (Some(1), Some(0)) => return zext(w, c),
            (Some(0), Some(1)) => return zext(w, not(c)),
            _ => {}
        }
        if let (Node::Zext(_, x), Node::Zext(_, y)) = (node(t), node(f)) {
            let tw = width(x).max(width(y));
            return zext(w, ite(c, zext(tw, x), zext(tw, y)));
        }
        if let (Node::Zext(_, x), Some(k)) = (node(t), as_const(f)) {
            let xw = width(x);
            if k <= mask(xw) {
                return zext(w, ite(c, x, konst(xw, k)));
            }
        }
        if let (Some(k), Node::Zext(_, x)) = (as_const(t), node(f)) {
            let xw = width(x);
            if k <= mask(xw) {
                return zext(w, ite(c, konst(xw, k), x));
            }
        }
    }
    // ite(c, ite(c, x, y), z)
    if let Node::Ite(c2, x, _) = node(t) {
        if c2 == c {
            return ite(c, x, f);
        }
    }
    if let Node::Ite(c2, _, y) = node(f) {
        if c2 == c {
            return ite(c, t, y);
        }
    }
    intern(Node::Ite(c, t, f), w)
}

pub fn extract(hi: u16, lo: u16, a: E) -> E {
    let w = width(a);
    assert!(hi < w && lo <= hi, "extract {} {} of width {}", hi, lo, w);
    if lo == 0 && hi == w - 1 {
        return a;
    }
    let rw = hi - lo + 1;
    match node(a) {
        Node::Const(_, v) => return konst(rw, v >> lo),
        Node::Extract(_, l2, x) => return extract(hi + l2, lo + l2, x),
        Node::Concat(h, l) => {
            let lw = width(l);
            if hi < lw {
                return extract(hi, lo, l);
            }
            if lo >= lw {
                return extract(hi - lw, lo - lw, h);
            }
            return concat(extract(hi - lw, 0, h), extract(lw - 1, lo, l));
        }
        Node::Zext(_, x) => {
            let xw = width(x);
            if lo >= xw {
                return konst(rw, 0);
            }
            if hi < xw {
                return extract(hi, lo, x);
            }
            return zext(rw, extract(xw - 1, lo, x));
        }
        Node::Sext(_, x) => {
            let xw = width(x);
            if hi < xw {
                return extract(hi, lo, x);
            }
            if lo < xw {
                return sext(rw, extract(xw - 1, lo, x));
            }
            return sext(rw, extract(xw - 1, xw - 1, x));
        }
        Node::Ite(c, t, f) => {
            let et = extract(hi, lo, t);
            let ef = extract(hi, lo, f);
            return ite(c, et, ef);
        }
        Node::Not(x) => return not(extract(hi, lo, x)),
        Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
            return bin(op, extract(hi, lo, x), extract(hi, lo, y));
        }
        Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 && hi >= 7 && w <= 64 => {
            return bin(op, extract(hi, 0, x), extract(hi, 0, y));
        }
        _ => {}
    }
    intern(Node::Extract(hi, lo, a), rw)
}

pub fn concat(h: E, l: E) -> E {
    let (hw, lw) = (width(h), width(l));
    let w = hw + lw;
    assert!(w <= 128);
    match (node(h), node(l)) {
        (Node::Const(_, x), Node::Const(_, y)) => return konst(w, (x << lw) | y),
        (Node::Const(_, 0), _) => return zext(w, l),
        (Node::Extract(h1, l1, x), Node::Extract(h2, l2, y)) if x == y && l1 == h2 + 1 => {
            return extract(h1, l2, x)
        }
        // concat(zext(x), l) => zext(concat(x,l))
        (Node::Zext(_, x), _) => return zext(w, concat(x, l)),
        (Node::Ite(c1, a, b), Node::Ite(c2, x, y)) if c1 == c2 => {
            return ite(c1, concat(a, x), concat(b, y));
        }
        // concat(a, concat(b, c)) with a,b adjacent
        (Node::Extract(_, l1, x), Node::Concat(b, c)) => {
            if let Node::Extract(h2, _, y) = node(b) {
                if x == y && l1 == h2 + 1 {
                    return concat(concat(h, b), c);
                }
            }
        }
        (Node::Const(..), Node::Concat(b, c)) if as_const(b).is_some() => {
            return concat(concat(h, b), c);
        }
        _ => {}
    }
    // distribute over concat to keep right-nested: concat(concat(a,b),c) = concat(a,concat(b,c))
    if let Node::Concat(a, b) = node(h) {
        let low = concat(b, l);
        return concat_raw(a, low);
    }
    // the low part of x in a form an extract was pushed into
    if let Node::Extract(h1, l1, x) = node(h) {
        if l1 == lw && extract(l1 - 1, 0, x) == l {
            return extract(h1, 0, x);
        }
    }
    intern(Node::Concat(h, l), w)
}
fn concat_raw(h: E, l: E) -> E {
    if let (Some(x), Some(y)) = (as_const(h), as_const(l)) {
        return konst(width(h) + width(l), (x << width(l)) | y);
    }
    // try adjacency with the head of l
    if let (Node::Extract(_, l1, x), Node::Extract(h2, _, y)) = (node(h), node(l)) {
        if x == y && l1 == h2 + 1 {
            return concat(h, l);
        }
    }
    let w = width(h) + width(l);
    if as_const(h) == Some(0) {
        return zext(w, l);
    }
    if let Node::Extract(h1, l1, x) = node(h) {
        if l1 == width(l) && extract(l1 - 1, 0, x) == l {
            return extract(h1, 0, x);
        }
    }
    intern(Node::Concat(h, l), w)
}

pub fn zext(w: u16, a: E) -> E {
    let aw = width(a);
    if w == aw {
        return a;
    }
    assert!(w > aw);
    match node(a) {
        Node::Const(_, v) => konst(w, v),
        Node::Zext(_, x) => zext(w, x),
        _ => intern(Node::Zext(w, a), w),
    }
}
pub fn sext(w: u16, a: E) -> E {
    let aw = width(a);
    if w == aw {
        return a;
    }
    match node(a) {
        Node::Const(_, v) => konst(w, sx(v, aw) as u128),
        Node::Zext(..) => zext(w, a),
        Node::Sext(_, x) => sext(w, x),
        _ => intern(Node::Sext(w, a), w),
    }
}
/// resize (truncate or zero-extend)
pub fn resize(w: u16, a: E) -> E {
    let aw = width(a);
    if aw > w {
        extract(w - 1, 0, a)
    } else {
        zext(w, a)
    }
}

/// little-endian bytes to one value
pub fn from_bytes(bs: &[E]) -> E {
    let mut r = bs[0];
    for b in &bs[1..] {
        r = concat(*b, r);
    }
    r
}
pub fn to_bytes(e: E) -> Vec<E> {
    let n = width(e) / 8;
    (0..n).map(|i| extract(8 * i + 7, 8 * i, e)).collect()
}
/// equality of two byte strings (same length), compared in 8-byte chunks
pub fn bytes_eq(a: &[E], b: &[E]) -> E {
    if a.len() != b.len() {
        return fls();
    }
    let mut r = tru();
    let mut i = 0;
    while i < a.len() {
        let n = (a.len() - i).min(8);
        let c = eq(from_bytes(&a[i..i + n]), from_bytes(&b[i..i + n]));
        r = and(r, c);
        if is_false(r) {
            return r;
        }
        i += n;
    }
    r
}

pub fn vars_of(e: E) -> Rc<Vec<u32>> {
    if let Some(v) = A.with(|a| a.borrow().varsets.get(&e).cloned()) {
        return v;
    }
    let v: Vec<u32> = match node(e) {
        Node::Const(..) => vec![],
        Node::Var(_, id) => vec![id],
        Node::Not(a) | Node::Extract(_, _, a) | Node::Zext(_, a) | Node::Sext(_, a) => {
            let r = vars_of(a);
            A.with(|x| x.borrow_mut().varsets.insert(e, r.clone()));
            return r;
        }
        Node::Bin(_, a, b) | Node::Concat(a, b) => merge(&vars_of(a), &vars_of(b)),
        Node::Ite(c, a, b) => merge(&merge(&vars_of(a), &vars_of(b)), &vars_of(c)),
    };
    let r = Rc::new(v);
    A.with(|x| x.borrow_mut().varsets.insert(e, r.clone()));
    r
}
fn merge(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] == b[j] {
            r.push(a[i]);
            i += 1;
            j += 1;
        } else if a[i] < b[j] {
            r.push(a[i]);
            i += 1;
        } else {
            r.push(b[j]);
            j += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}

pub type Model = HashMap<u32, u128>;

pub struct Eval<'a> {
    pub m: &'a Model,
    memo: HashMap<E, u128>,
}
impl<'a> Eval<'a> {
    pub fn new(m: &'a Model) -> Self {
        Eval { m, memo: HashMap::new() }
    }
    pub fn get(&mut self, e: E) -> u128 {
        match node(e) {
            Node::Const(_, v) => return v,
            Node::Var(_, id) => return *self.m.get(&id).unwrap_or(&0),
            _ => {}
        }
        if let Some(v) = self.memo.get(&e) {
            return *v;
        }
        let w = width(e);
        let r = match node(e) {
            Node::Const(..) | Node::Var(..) => unreachable!(),
            Node::Not(a) => !self.get(a) & mask(w),
            Node::Bin(op, a, b) => {
                let x = self.get(a);
                if op == Op::And && x == 0 {
                    0
                } else {
                    let y = self.get(b);
                    fold(op, width(a), x, y).1
                }
            }
            Node::Ite(c, t, f) => {
                if self.get(c) == 1 {
                    self.get(t)
                } else {
                    self.get(f)
                }
            }
            Node::Extract(_, lo, a) => (self.get(a) >> lo) & mask(w),
            Node::Concat(h, l) => (self.get(h) << width(l)) | self.get(l),
            Node::Zext(_, a) => self.get(a),
            Node::Sext(_, a) => {
                let aw = width(a);
                (sx(self.get(a), aw) as u128) & mask(w)
            }
        };
        self.memo.insert(e, r);
        r
    }
}
pub fn eval(m: &Model, e: E) -> u128 {
    if let Some(k) = as_const(e) {
        return k;
    }
    Eval::new(m).get(e)
}

pub fn show(e: E, depth: u32) -> String {
    match node(e) {
        Node::Const(w, v) => {
            if w == 1 {
                (if v == 1 { "T" } else { "F" }).into()
            } else {
                format!("0x{:x}:{}", v, w)
            }
        }
        Node::Var(_, id) => var_name(id),
        _ if depth == 0 => format!("..#{}", e.0),
        Node::Not(a) => format!("!{}", show(a, depth - 1)),
        Node::Bin(op, a, b) => format!("({:?} {} {})", op, show(a, depth - 1), show(b, depth - 1)),
        Node::Ite(c, a, b) => {
            format!("(ite {} {} {})", show(c, depth - 1), show(a, depth - 1), show(b, depth - 1))
        }
        Node::Extract(h, l, a) => format!("{}[{}:{}]", show(a, depth - 1), h, l),
        Node::Concat(a, b) => format!("({} ++ {})", show(a, depth - 1), show(b, depth - 1)),
        Node::Zext(w, a) => format!("zx{}({})", w, show(a, depth - 1)),
        Node::Sext(w, a) => format!("sx{}({})", w, show(a, depth - 1)),
    }
}
