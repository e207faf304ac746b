//! C05-C07: predicates over explicit and implicit (LPI / TPI) points.
use crate::core::*;
use crate::enumr::*;
use crate::geo::*;
use crate::num::*;
use crate::p_pred::with_bump;
use gpf::predicates as gp;
use gp::{ExplicitPoint3D, ImplicitPoint3D, ImplicitPointLPI, ImplicitPointTPI, Orientation, Point3D};
use std::sync::Arc;

type G = [u8; 3];
#[derive(Clone, Debug)]
enum Spec {
    E(G),
    L([G; 5]),
    T([G; 9]),
}
use Spec::*;

fn specs() -> Vec<Spec> {
    vec![
        E([0, 0, 0]),
        E([1, 0, 0]),
        E([0, 1, 0]),
        E([1, 1, 1]),
        E([2, 1, 0]),
        E([1, 2, 3]),
        E([3, 3, 1]),
        E([2, 1, 2]),
        // line-plane intersections
        L([[0, 0, 0], [3, 3, 3], [0, 0, 1], [1, 0, 1], [0, 1, 1]]), // (1,1,1)
        L([[0, 0, 0], [3, 2, 1], [1, 0, 0], [1, 1, 0], [1, 0, 1]]), // (1,2/3,1/3)
        L([[0, 1, 0], [3, 2, 3], [3, 0, 0], [0, 3, 0], [0, 0, 3]]), // (6/7,9/7,6/7)
        L([[2, 0, 3], [1, 3, 0], [0, 0, 0], [1, 0, 1], [0, 1, 0]]), // (3/2,3/2,3/2)
        L([[3, 3, 3], [0, 0, 0], [0, 1, 1], [1, 0, 1], [0, 0, 1]]), // (1,1,1) again
        L([[0, 0, 1], [3, 0, 1], [1, 0, 0], [2, 1, 0], [1, 0, 3]]), // (1,0,1)
        L([[0, 3, 2], [3, 0, 2], [0, 1, 0], [1, 1, 0], [0, 1, 1]]), // (2,1,2)
        L([[1, 0, 0], [1, 3, 1], [0, 0, 1], [3, 0, 0], [0, 3, 0]]), // (1,1,1/3)
        // three-plane intersections
        T([[1, 0, 0], [1, 1, 0], [1, 0, 1], [0, 1, 0], [1, 1, 0], [0, 1, 1], [0, 0, 1], [1, 0, 1], [0, 1, 1]]), // (1,1,1)
        T([[1, 0, 0], [1, 0, 1], [1, 1, 0], [0, 2, 0], [1, 2, 0], [0, 2, 1], [3, 0, 0], [0, 3, 0], [0, 0, 3]]), // (1,2,0)
        T([[3, 0, 0], [0, 3, 0], [0, 0, 3], [0, 0, 0], [1, 1, 0], [0, 0, 1], [0, 0, 0], [1, 0, 0], [0, 1, 1]]), // (1,1,1)
        T([[3, 0, 0], [0, 3, 0], [0, 0, 3], [0, 0, 1], [3, 0, 0], [0, 3, 0], [0, 0, 0], [1, 1, 0], [0, 0, 1]]), // (3/2,3/2,0)
        T([[0, 0, 0], [3, 1, 0], [1, 0, 3], [3, 3, 3], [0, 2, 1], [1, 0, 0], [2, 0, 0], [0, 2, 1], [1, 3, 3]]),
        T([[0, 3, 1], [2, 1, 1], [3, 2, 0], [1, 1, 0], [0, 2, 3], [3, 0, 2], [3, 3, 0], [1, 2, 2], [0, 0, 3]]),
        T([[0, 0, 0], [1, 0, 0], [0, 0, 1], [0, 0, 0], [0, 1, 0], [1, 0, 0], [1, 0, 0], [2, 1, 0], [1, 0, 3]]), // (1,0,0)
        T([[0, 0, 2], [1, 0, 2], [0, 1, 2], [0, 1, 0], [0, 1, 1], [1, 1, 0], [3, 0, 0], [0, 3, 0], [3, 0, 1]]), // (2,1,2)
    ]
}

pub struct Pt {
    kind: u8,
    f: Vec<[f64; 3]>,
    hp: HP,
    desc: String,
    /// exponent of the granularity of the (normalised) coordinates the exact stage works with
    gran: i32,
}
/// The exact stage multiplies expansions of doubles: its result is exact as long as no partial
/// product needs a bit below 2^-1074. Below that a vanishing determinant may come out nonzero.
fn below_range(q: &[&Pt]) -> bool {
    let sum: i32 = q.iter().map(|p| p.gran).sum();
    let low = q.iter().map(|p| p.gran).min().unwrap();
    sum + low * (q.len() as i32 - 2) < -1074
}
const RANGE_KEY: &str = "exact-stage-underflow";
impl Pt {
    fn make(&self) -> Point3D {
        let e = |i: usize| ExplicitPoint3D { data: self.f[i] };
        match self.kind {
            0 => Point3D::Explicit(e(0)),
            1 => Point3D::LPI(ImplicitPointLPI::new(e(0), e(1), e(2), e(3), e(4))),
            _ => Point3D::TPI(ImplicitPointTPI::new(e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8))),
        }
    }
}
type Map = [[f64; 4]; 3];
fn maps(th: bool) -> Vec<(&'static str, Map)> {
    let u = f64::EPSILON;
    let same = |v: [f64; 4]| [v, v, v];
    let k = [0.0, 1.0, 2.0, 3.0];
    let p = |e: i32| 2f64.powi(e);
    let mut m = vec![
        ("integers", same(k)),
        ("ulps at 1", same([1.0, 1.0 + u, 1.0 + 2.0 * u, 1.0 + 3.0 * u])),
        ("offset 2^30", same(k.map(|x| x + p(30)))),
        ("anisotropic", [k.map(|x| x * p(20)), k, k.map(|x| x * p(-20))]),
        ("tenths", same([0.1, 0.4, 0.7, 1.0])),
        ("ulp-moved integers", [[0.0, 1.0 + u, 2.0, 3.0], [0.0, 1.0, 2.0 - u, 3.0], [0.0, 1.0 - u / 2.0, 2.0, 3.0 + 2.0 * u]]),
    ];
    if th {
        m.push(("far tenths", [k.map(|x| 1000.3 + 0.1 * x), k.map(|x| x * 1e-3), k.map(|x| x * 0.7 - 5.0)]));
        m.push(("negated", same([3.0, 2.0, 1.0, 0.0])));
        m.push(("thirds", same([-1.0 / 3.0, 0.0, 1.0 / 3.0, 2.0 / 3.0])));
        m.push(("scaled 2^-20", same(k.map(|x| x * p(-20) - p(-19)))));
        m.push(("shuffled", [[1.0, 3.0, 0.0, 2.0], [2.0, 0.0, 3.0, 1.0], [0.5, 0.0, 2.0, 1.0]]));
    }
    m
}
/// A point from its defining coordinates, in units 2^e; None when it is not a proper intersection.
fn mk_pt(kind: u8, f: Vec<[f64; 3]>, e: i32) -> Option<Pt> {
    let ip = |p: &[f64; 3]| -> P3 { p.map(|v| if v == 0.0 { Int::S(0) } else { to_int(v, e) }) };
    let i: Vec<P3> = f.iter().map(ip).collect();
    let hp = match kind {
        0 => Some(HP::explicit(&i[0])),
        1 => HP::lpi(&i[0], &i[1], &i[2], &i[3], &i[4]),
        _ => HP::tpi([[&i[0], &i[1], &i[2]], [&i[3], &i[4], &i[5]], [&i[6], &i[7], &i[8]]]),
    }?;
    let gran = match kind {
        0 => e,
        _ => {
            let (dw, dc) = if kind == 1 { (3, 4) } else { (6, 7) };
            let top = |v: &Int, k: i32| if v.is_zero() { i32::MIN } else { let (m, x) = v.approx(); m.abs().log2().floor() as i32 + x + k * e };
            let t = hp.c.iter().map(|v| top(v, dc)).max().unwrap().max(top(&hp.w, dw));
            dc * e - t
        }
    };
    Some(Pt { gran, kind, desc: format!("{}{:?}", ["E", "LPI", "TPI"][kind as usize], f), f, hp })
}
fn pool(m: &Map) -> Vec<Pt> {
    let sp = specs();
    let conv = |g: &G| [m[0][g[0] as usize], m[1][g[1] as usize], m[2][g[2] as usize]];
    let all: Vec<f64> = m.iter().flatten().copied().collect();
    let e = min_exp(&all);
    sp.iter()
        .filter_map(|s| {
            let (kind, g): (u8, Vec<G>) = match s {
                E(g) => (0, vec![*g]),
                L(g) => (1, g.to_vec()),
                T(g) => (2, g.to_vec()),
            };
            mk_pt(kind, g.iter().map(conv).collect(), e)
        })
        .collect()
}
/// The same few points defined by nearby data and by data far away (line and plane points moved
/// along their line or plane by large integers): equal points and exactly degenerate tuples whose
/// members have very different error bounds.
fn far_pool(th: bool) -> Vec<Pt> {
    let mut out: Vec<Pt> = Vec::new();
    let mut seed = 7u64;
    let mut rnd = move |k: i64| -> i64 {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let v = (seed >> 20) as i64 % k;
        if v.abs() < 2 { k - 1 } else if seed & 1 == 0 { v } else { -v }
    };
    let int = |g: &G| g.map(|x| x as i64);
    let comb = |r: [i64; 3], t: &[(i64, [i64; 3])]| [0, 1, 2].map(|k| r[k] + t.iter().map(|(m, q)| m * (q[k] - r[k])).sum::<i64>());
    let mut plane = |t: &[[i64; 3]], k: i64| -> Vec<[i64; 3]> {
        if k == 0 {
            return t.to_vec();
        }
        vec![t[0], comb(t[0], &[(rnd(k), t[1]), (rnd(k), t[2])]), comb(t[0], &[(rnd(k), t[1]), (rnd(k), t[2])])]
    };
    let mut push = |kind: u8, f: Vec<[i64; 3]>| {
        if let Some(p) = mk_pt(kind, f.iter().map(|p| p.map(|x| x as f64)).collect(), 0) {
            out.push(p)
        }
    };
    let sp = specs();
    for i in [0usize, 3, 4, 6] {
        let E(g) = &sp[i] else { unreachable!() };
        push(0, vec![int(g)]);
    }
    let lk: &[i64] = if th { &[0, 1 << 12, 1 << 20, 1 << 36] } else { &[0, 1 << 20, 1 << 36] };
    for i in [8usize, 9, 14] {
        let L(g) = &sp[i] else { unreachable!() };
        let g: Vec<[i64; 3]> = g.iter().map(int).collect();
        for &k in lk {
            let mut f = vec![g[0], g[1]];
            if k > 0 {
                f = vec![comb(g[0], &[(k - 3, g[1])]), comb(g[0], &[(7 - k / 2, g[1])])];
            }
            f.extend(plane(&g[2..5], k));
            push(1, f);
        }
    }
    let tk: &[i64] = if th { &[0, 1 << 9, 1 << 20] } else { &[0, 1 << 20] };
    for i in [18usize, 23, 16] {
        let T(g) = &sp[i] else { unreachable!() };
        let g: Vec<[i64; 3]> = g.iter().map(int).collect();
        for &k in tk {
            push(2, [0, 3, 6].iter().flat_map(|&j| plane(&g[j..j + 3], k)).collect());
        }
    }
    out
}
/// Every named pool of points, with the exponent of its unit.
fn pools(th: bool, th_far: bool) -> Vec<(&'static str, Vec<Pt>, i32)> {
    let mut v: Vec<_> = maps(th).iter().map(|(n, m)| (*n, pool(m), min_exp(&m.iter().flatten().copied().collect::<Vec<_>>()))).collect();
    v.push(("near and far representations", far_pool(th_far), 0));
    v
}
fn sg(o: Orientation) -> i32 {
    match o {
        Orientation::Positive => 1,
        Orientation::Negative => -1,
        Orientation::Zero => 0,
        Orientation::Undefined => 9,
    }
}
/// Runs a query on cold points, on the same points again (warm), and on points whose filters were
/// already evaluated in every other order.
fn warm(p: &Point3D, mode: usize) {
    fn go<T: ImplicitPoint3D>(p: &T, mode: usize) {
        match mode {
            1 => {
                let _ = p.exact(std::alloc::Global);
            }
            2 => {
                let _ = p.dynamic_filter();
            }
            3 => {
                let _ = p.exact(std::alloc::Global);
                let _ = p.static_filter();
                let _ = p.dynamic_filter();
            }
            _ => {}
        }
    }
    match p {
        Point3D::Explicit(_) => {}
        Point3D::LPI(p) => go(p, mode),
        Point3D::TPI(p) => go(p, mode),
    }
}
const NMODES: usize = 4;

pub fn c05(th: bool) -> Check {
    let mut fam = Vec::new();
    for (name, pl, e) in pools(th, th) {
        let pl = Arc::new(pl);
        let n = pl.len() as u64;
        let p2 = pl.clone();
        let p3 = pl.clone();
        fam.push(Family::new(format!("orient3d all 4-tuples, {name}"), format!("every ordered 4-tuple of {n} explicit/LPI/TPI points (shared, coincident, collinear and coplanar ones included); cold, warm, and pre-evaluated filter caches"), pow(n, 4), move |idx, ctx| {
            let d = digits(idx, n, 4);
            let q: Vec<&Pt> = d.iter().map(|&i| &pl[i]).collect();
            let want = -o3h([&q[0].hp, &q[1].hp, &q[2].hp, &q[3].hp]);
            ctx.state(1);
            ctx.trace(1);
            if want == 0 {
                ctx.nontrivial += 1;
            }
            let mode = (idx as usize / 7) % NMODES; // caches: every tuple cold+warm, pre-evaluation modes in turn
            let r = guarded(|| {
                let pts: Vec<Point3D> = q.iter().map(|p| p.make()).collect();
                let a = with_bump(|b| sg(gp::orient3d::orient3d(&pts[0], &pts[1], &pts[2], &pts[3], b)));
                let w = with_bump(|b| sg(gp::orient3d::orient3d(&pts[0], &pts[1], &pts[2], &pts[3], b)));
                let pts: Vec<Point3D> = q.iter().map(|p| p.make()).collect();
                pts.iter().enumerate().for_each(|(i, p)| warm(p, (mode + i * (mode % 2)) % NMODES));
                let c = with_bump(|b| sg(gp::orient3d::orient3d(&pts[0], &pts[1], &pts[2], &pts[3], b)));
                (a, w, c)
            });
            ctx.step(3);
            match r {
                Ok((a, w, c)) if a == want && w == want && c == want => {
                    ctx.sample(|| format!("{} {} {} {} -> {want}", q[0].desc, q[1].desc, q[2].desc, q[3].desc));
                    Ok(())
                }
                Ok(x) => ctx.fail(if want == 0 && below_range(&q) { RANGE_KEY.into() } else { idx.to_string() }, format!("orient3d = {x:?} (cold, warm, pre-evaluated mode {mode}), exact {want}\n a={}\n b={}\n c={}\n d={}", q[0].desc, q[1].desc, q[2].desc, q[3].desc)),
                Err(e) => ctx.fail(idx.to_string(), e),
            }
        }));
        fam.push(Family::new(format!("exact coordinates, {name}"), "the exact homogeneous coordinates of every implicit point denote its exact intersection".to_string(), n, move |idx, ctx| {
            let p = &p3[idx as usize];
            let ex = match p.make() {
                Point3D::Explicit(_) => return Ok(()),
                Point3D::LPI(l) => l.exact(std::alloc::Global),
                Point3D::TPI(t) => t.exact(std::alloc::Global),
            };
            ctx.state(1);
            ctx.step(1);
            ctx.trace(1);
            let Some(ex) = ex else { return ctx.fail(idx.to_string(), format!("{}: exact() denies the intersection exists", p.desc)) };
            let sum = |v: &[f64]| v.iter().fold(Dy::zero(), |a, &x| a.add(&Dy::new(x)));
            let d = sum(&ex.d);
            if d.sign() <= 0 {
                return ctx.fail(idx.to_string(), format!("{}: denominator of the exact coordinates is not positive", p.desc));
            }
            for (k, v) in [&ex.x, &ex.y, &ex.z].into_iter().enumerate() {
                let l = sum(v).mul(&Dy { m: p.hp.w.clone(), e: 0 });
                let r = d.mul(&Dy { m: p.hp.c[k].clone(), e });
                if l.sub(&r).sign() != 0 {
                    return ctx.fail(idx.to_string(), format!("{}: exact coordinate {k} = {:?} / {:?} is not the exact intersection", p.desc, &v[..], &ex.d[..]));
                }
            }
            Ok(())
        }));
        fam.push(Family::new(format!("explicit coordinates, {name}"), "reported coordinates of every implicit point against the exact intersection (16 ulps)".to_string(), n, move |idx, ctx| {
            let p = &p2[idx as usize];
            let mut out = [0.0; 3];
            match p.make() {
                Point3D::Explicit(_) => return Ok(()),
                Point3D::LPI(l) => l.to_explicit(&mut out),
                Point3D::TPI(t) => t.to_explicit(&mut out),
            }
            ctx.state(1);
            ctx.step(1);
            ctx.trace(1);
            for k in 0..3 {
                // |out * w - c| <= 16 ulp(out) * w   (c in units 2^e)
                let o = Dy::new(out[k]);
                let w = Dy { m: p.hp.w.clone(), e: 0 };
                let c = Dy { m: p.hp.c[k].clone(), e };
                let diff = o.mul(&w).sub(&c);
                let tol = Dy::new((out[k].abs() * 16.0 * f64::EPSILON).max(0.0)).mul(&w);
                let ad = Dy { m: diff.m.abs(), e: diff.e };
                if ad.cmp(&tol) == std::cmp::Ordering::Greater {
                    return ctx.fail(idx.to_string(), format!("{}: coordinate {k} reported as {} is not within rounding of the exact intersection", p.desc, out[k]));
                }
            }
            Ok(())
        }));
    }
    Check { id: "C05", families: fam, assumptions: vec!["implicit points are proper intersections (non-parallel line/planes)".into(), "intermediate products stay inside the exponent range".into(), "sign convention: positive means d lies below the plane abc, as documented in orient3d.rs".into()] }
}

pub fn c06(th: bool) -> Check {
    let mut fam = Vec::new();
    for (name, pl, _) in pools(true, th) {
        let pl = Arc::new(pl);
        let n = pl.len() as u64;
        fam.push(Family::new(format!("orient2d all triples, {name}"), format!("every ordered triple of {n} explicit/LPI/TPI points, the three projections and the by-axis form, all four filter-cache modes"), pow(n, 3) * 3, move |idx, ctx| {
            let mut i = idx;
            let ax = take(&mut i, 3);
            let d = digits(i, n, 3);
            let q: Vec<&Pt> = d.iter().map(|&i| &pl[i]).collect();
            let (u, v) = ((ax + 1) % 3, (ax + 2) % 3);
            let want = o2h([&q[0].hp, &q[1].hp, &q[2].hp], u, v);
            ctx.state(1);
            ctx.trace(1);
            if want == 0 {
                ctx.nontrivial += 1;
            }
            let r = guarded(|| {
                let mut got = Vec::new();
                for mode in 0..NMODES {
                    let pts: Vec<Point3D> = q.iter().map(|p| p.make()).collect();
                    pts.iter().enumerate().for_each(|(i, p)| warm(p, (mode + i * (mode % 2)) % NMODES));
                    let call = || {
                        with_bump(|b| {
                            sg(match ax {
                                0 => gp::orient2d_yz(&pts[0], &pts[1], &pts[2], b),
                                1 => gp::orient2d_zx(&pts[0], &pts[1], &pts[2], b),
                                _ => gp::orient2d_xy(&pts[0], &pts[1], &pts[2], b),
                            })
                        })
                    };
                    got.push(call());
                    got.push(with_bump(|b| sg(gp::orient2d::orient2d_by_axis(&pts[0], &pts[1], &pts[2], ax, b))));
                }
                got
            });
            ctx.step(8);
            match r {
                Ok(g) if g.iter().all(|&x| x == want) => {
                    ctx.sample(|| format!("axis {ax}: {} {} {} -> {want}", q[0].desc, q[1].desc, q[2].desc));
                    Ok(())
                }
                Ok(g) => ctx.fail(if want == 0 && below_range(&q) { RANGE_KEY.into() } else { idx.to_string() }, format!("orient2d (projection along axis {ax}) = {g:?} (per cache mode: direct, by-axis), exact {want}\n a={}\n b={}\n c={}", q[0].desc, q[1].desc, q[2].desc)),
                Err(e) => ctx.fail(idx.to_string(), e),
            }
        }));
    }
    Check { id: "C06", families: fam, assumptions: vec!["implicit points are proper intersections".into(), "intermediate products stay inside the exponent range".into()] }
}

pub fn c07(th: bool) -> Check {
    let mut fam = Vec::new();
    for (name, pl, _) in pools(true, th) {
        let pl = Arc::new(pl);
        let n = pl.len() as u64;
        let p2 = pl.clone();
        fam.push(Family::new(format!("comparisons, {name}"), format!("every ordered pair of {n} points, three axes, all filter-cache modes; antisymmetry and transitivity follow from agreement with the exact order"), n * n * 3, move |idx, ctx| {
            let mut i = idx;
            let ax = take(&mut i, 3);
            let q = [&pl[take(&mut i, n)], &pl[take(&mut i, n)]];
            let want = cmph(&q[0].hp, &q[1].hp, ax);
            ctx.state(1);
            ctx.trace(1);
            if want == 0 {
                ctx.nontrivial += 1;
            }
            let r = guarded(|| {
                let mut got = Vec::new();
                for mode in 0..NMODES * NMODES {
                    let pts: Vec<Point3D> = q.iter().map(|p| p.make()).collect();
                    warm(&pts[0], mode % NMODES);
                    warm(&pts[1], mode / NMODES);
                    for _ in 0..2 {
                        got.push(with_bump(|b| {
                            sg(match ax {
                                0 => gp::less_than_on_x(&pts[0], &pts[1], b),
                                1 => gp::less_than_on_y(&pts[0], &pts[1], b),
                                _ => gp::less_than_on_z(&pts[0], &pts[1], b),
                            })
                        }));
                    }
                }
                got
            });
            ctx.step(32);
            match r {
                Ok(g) if g.iter().all(|&x| x == want) => {
                    ctx.sample(|| format!("axis {ax}: {} {} -> {want}", q[0].desc, q[1].desc));
                    Ok(())
                }
                Ok(g) => ctx.fail(idx.to_string(), format!("less_than on axis {ax} = {g:?}, exact {want}\n a={}\n b={}", q[0].desc, q[1].desc)),
                Err(e) => ctx.fail(idx.to_string(), e),
            }
        }));
        fam.push(Family::new(format!("collinear point in closed segment, {name}"), format!("every collinear triple (p, v1, v2), v1 != v2, among {n} points"), pow(n, 3), move |idx, ctx| {
            let d = digits(idx, n, 3);
            let q: Vec<&Pt> = d.iter().map(|&i| &p2[i]).collect();
            if (0..3).any(|ax| o2h([&q[0].hp, &q[1].hp, &q[2].hp], (ax + 1) % 3, (ax + 2) % 3) != 0) {
                return Ok(());
            }
            if (0..3).all(|ax| cmph(&q[1].hp, &q[2].hp, ax) == 0) {
                return Ok(());
            }
            let want = (0..3).all(|ax| cmph(&q[0].hp, &q[1].hp, ax) * cmph(&q[0].hp, &q[2].hp, ax) <= 0);
            ctx.state(1);
            ctx.step(2);
            ctx.trace(1);
            let pts: Vec<Point3D> = q.iter().map(|p| p.make()).collect();
            for (a, b) in [(1, 2), (2, 1)] {
                let g = with_bump(|bp| gp::point_in_segment_general(&pts[0], &pts[a], &pts[b], bp));
                if g != want {
                    return ctx.fail(idx.to_string(), format!("point_in_segment_general = {g}, exact {want}\n p={}\n v1={}\n v2={}", q[0].desc, q[a].desc, q[b].desc));
                }
            }
            Ok(())
        }));
    }
    Check { id: "C07", families: fam, assumptions: vec!["implicit points are proper intersections; the segment query gets collinear points (its documented use)".into()] }
}
