//! Exact geometry on scaled integer coordinates (oracles only).
use crate::num::*;

pub type P3 = [Int; 3];

pub fn sgn(x: f64) -> i32 {
    if x > 0.0 {
        1
    } else if x < 0.0 {
        -1
    } else {
        0
    }
}
/// k representable numbers away; around zero steps of 2^-80 (no underflow in products)
pub fn ulps(mut v: f64, k: i32) -> f64 {
    if v == 0.0 {
        return k as f64 * 2f64.powi(-80);
    }
    for _ in 0..k.abs() {
        v = if k > 0 { v.next_up() } else { v.next_down() };
    }
    v
}
/// All points scaled by one common power of two.
pub fn scale3(pts: &[&[f64]]) -> Vec<P3> {
    let flat: Vec<f64> = pts.iter().flat_map(|p| p[..3].iter().copied()).collect();
    let v = ints(&flat);
    v.chunks(3).map(|c| [c[0].clone(), c[1].clone(), c[2].clone()]).collect()
}
pub fn scale2(pts: &[&[f64]]) -> Vec<[Int; 2]> {
    let flat: Vec<f64> = pts.iter().flat_map(|p| p[..2].iter().copied()).collect();
    let v = ints(&flat);
    v.chunks(2).map(|c| [c[0].clone(), c[1].clone()]).collect()
}
pub fn sub3(a: &P3, b: &P3) -> P3 {
    [&a[0] - &b[0], &a[1] - &b[1], &a[2] - &b[2]]
}
pub fn cross3(a: &P3, b: &P3) -> P3 {
    [
        &a[1] * &b[2] - &a[2] * &b[1],
        &a[2] * &b[0] - &a[0] * &b[2],
        &a[0] * &b[1] - &a[1] * &b[0],
    ]
}
pub fn dot3(a: &P3, b: &P3) -> Int {
    &a[0] * &b[0] + &a[1] * &b[1] + &a[2] * &b[2]
}
pub fn det2(a: &Int, b: &Int, c: &Int, d: &Int) -> Int {
    a * d - b * c
}
pub fn zero3(a: &P3) -> bool {
    a.iter().all(|x| x.is_zero())
}
/// Determinant by cofactor expansion (small n).
pub fn det(m: &[Vec<Int>]) -> Int {
    let n = m.len();
    if n == 1 {
        return m[0][0].clone();
    }
    if n == 2 {
        return det2(&m[0][0], &m[0][1], &m[1][0], &m[1][1]);
    }
    let mut r = Int::S(0);
    for j in 0..n {
        if m[0][j].is_zero() {
            continue;
        }
        let sub: Vec<Vec<Int>> = m[1..]
            .iter()
            .map(|row| row.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, v)| v.clone()).collect())
            .collect();
        let t = &m[0][j] * &det(&sub);
        r = if j % 2 == 0 { r + t } else { r - t };
    }
    r
}
/// sign of (b-a) x (c-a)
pub fn o2(a: &[Int; 2], b: &[Int; 2], c: &[Int; 2]) -> i32 {
    det2(&(&b[0] - &a[0]), &(&b[1] - &a[1]), &(&c[0] - &a[0]), &(&c[1] - &a[1])).sign()
}
/// sign of det(a-d, b-d, c-d)
pub fn o3(a: &P3, b: &P3, c: &P3, d: &P3) -> i32 {
    dot3(&sub3(a, d), &cross3(&sub3(b, d), &sub3(c, d))).sign()
}
/// Exact in-circle: > 0 when d is inside the circle through counter-clockwise a,b,c.
pub fn incirc(p: &[[Int; 2]]) -> i32 {
    let rows: Vec<Vec<Int>> = (0..3)
        .map(|i| {
            let x = &p[i][0] - &p[3][0];
            let y = &p[i][1] - &p[3][1];
            let l = &x * &x + &y * &y;
            vec![x, y, l]
        })
        .collect();
    det(&rows).sign()
}
/// det of rows (x, y, z, h) relative to the last point
pub fn det4h(p: &[P3], h: &[Int]) -> i32 {
    let rows: Vec<Vec<Int>> = (0..4)
        .map(|i| {
            let d = sub3(&p[i], &p[4]);
            vec![d[0].clone(), d[1].clone(), d[2].clone(), &h[i] - &h[4]]
        })
        .collect();
    det(&rows).sign()
}
pub fn insph(p: &[P3]) -> i32 {
    let rows: Vec<Vec<Int>> = (0..4)
        .map(|i| {
            let d = sub3(&p[i], &p[4]);
            let l = dot3(&d, &d);
            vec![d[0].clone(), d[1].clone(), d[2].clone(), l]
        })
        .collect();
    det(&rows).sign()
}

/// Homogeneous exact point, w > 0.
#[derive(Clone, Debug)]
pub struct HP {
    pub c: P3,
    pub w: Int,
}
impl HP {
    pub fn explicit(p: &P3) -> HP {
        HP { c: p.clone(), w: Int::S(1) }
    }
    fn norm(c: P3, w: Int) -> Option<HP> {
        match w.sign() {
            0 => None,
            1 => Some(HP { c, w }),
            _ => Some(HP { c: [-&c[0], -&c[1], -&c[2]], w: -w }),
        }
    }
    /// line p,q with plane r,s,t
    pub fn lpi(p: &P3, q: &P3, r: &P3, s: &P3, t: &P3) -> Option<HP> {
        let n = cross3(&sub3(s, r), &sub3(t, r));
        let dir = sub3(q, p);
        let den = dot3(&n, &dir);
        let num = dot3(&n, &sub3(r, p));
        let c = [0, 1, 2].map(|k| &p[k] * &den + &dir[k] * &num);
        HP::norm(c, den)
    }
    /// intersection of three planes given by three points each
    pub fn tpi(pl: [[&P3; 3]; 3]) -> Option<HP> {
        let n: Vec<P3> = pl.iter().map(|t| cross3(&sub3(t[1], t[0]), &sub3(t[2], t[0]))).collect();
        let d: Vec<Int> = (0..3).map(|i| dot3(&n[i], pl[i][0])).collect();
        let c12 = cross3(&n[1], &n[2]);
        let c20 = cross3(&n[2], &n[0]);
        let c01 = cross3(&n[0], &n[1]);
        let w = dot3(&n[0], &c12);
        let c = [0, 1, 2].map(|k| &d[0] * &c12[k] + &d[1] * &c20[k] + &d[2] * &c01[k]);
        HP::norm(c, w)
    }
}
/// sign of det(a-d, b-d, c-d) for homogeneous points
pub fn o3h(p: [&HP; 4]) -> i32 {
    // det of 4x4 [x y z w] has the sign of det(a-d,b-d,c-d) for positive w
    let rows: Vec<Vec<Int>> = p.iter().map(|h| vec![h.c[0].clone(), h.c[1].clone(), h.c[2].clone(), h.w.clone()]).collect();
    det(&rows).sign()
}
/// sign of the 2D orientation of the projections onto axes (u, v)
pub fn o2h(p: [&HP; 3], u: usize, v: usize) -> i32 {
    let rows: Vec<Vec<Int>> = p.iter().map(|h| vec![h.c[u].clone(), h.c[v].clone(), h.w.clone()]).collect();
    det(&rows).sign()
}
pub fn cmph(a: &HP, b: &HP, k: usize) -> i32 {
    (&a.c[k] * &b.w - &b.c[k] * &a.w).sign()
}

// ---------------------------------------------------------------- exact incidence queries
pub fn collinear(a: &P3, b: &P3, c: &P3) -> bool {
    zero3(&cross3(&sub3(b, a), &sub3(c, a)))
}
/// p strictly inside segment a b (a != b)
pub fn in_open_seg(p: &P3, a: &P3, b: &P3) -> bool {
    if !collinear(p, a, b) {
        return false;
    }
    let ab = sub3(b, a);
    let t = dot3(&sub3(p, a), &ab);
    t.sign() > 0 && (&dot3(&ab, &ab) - &t).sign() > 0
}
pub fn in_closed_seg(p: &P3, a: &P3, b: &P3) -> bool {
    zero3(&sub3(p, a)) || zero3(&sub3(p, b)) || in_open_seg(p, a, b)
}
/// coplanar p strictly inside non-degenerate triangle
pub fn in_open_tri(p: &P3, a: &P3, b: &P3, c: &P3) -> bool {
    let n = cross3(&sub3(b, a), &sub3(c, a));
    [(a, b), (b, c), (c, a)].iter().all(|(u, v)| dot3(&cross3(&sub3(v, u), &sub3(p, u)), &n).sign() > 0)
}
pub fn in_closed_tri(p: &P3, a: &P3, b: &P3, c: &P3) -> bool {
    let n = cross3(&sub3(b, a), &sub3(c, a));
    dot3(&n, &sub3(p, a)).is_zero()
        && [(a, b), (b, c), (c, a)].iter().all(|(u, v)| dot3(&cross3(&sub3(v, u), &sub3(p, u)), &n).sign() >= 0)
}
/// open segments cross in exactly one point and are not collinear
pub fn open_segs_cross(a: &P3, b: &P3, c: &P3, d: &P3) -> bool {
    let (ab, cd) = (sub3(b, a), sub3(d, c));
    let n = cross3(&ab, &cd);
    if zero3(&n) || !dot3(&n, &sub3(c, a)).is_zero() {
        return false;
    }
    let side = |p: &P3, u: &P3, uv: &P3| dot3(&cross3(uv, &sub3(p, u)), &n).sign();
    side(c, a, &ab) * side(d, a, &ab) < 0 && side(a, c, &cd) * side(b, c, &cd) < 0
}
/// open segment u1 u2 crosses the open triangle transversally
pub fn open_seg_cross_open_tri(u1: &P3, u2: &P3, a: &P3, b: &P3, c: &P3) -> bool {
    let s1 = o3(a, b, c, u1);
    let s2 = o3(a, b, c, u2);
    if s1 * s2 >= 0 {
        return false;
    }
    let e = [o3(u1, u2, a, b), o3(u1, u2, b, c), o3(u1, u2, c, a)];
    e[0] != 0 && e[0] == e[1] && e[1] == e[2]
}
