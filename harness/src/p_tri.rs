//! C16-C18: planar triangulation (Delaunay, constrained, polygons in 3D).
use crate::core::*;
use crate::enumr::*;
use crate::geo;
use gpf::triangle as gt;
use std::collections::HashMap;
use std::sync::Arc;

type Q = [i64; 2];
fn o2(a: Q, b: Q, c: Q) -> i64 {
    let v = (b[0] - a[0]) as i128 * (c[1] - a[1]) as i128 - (b[1] - a[1]) as i128 * (c[0] - a[0]) as i128;
    v.signum() as i64
}
fn area2(a: Q, b: Q, c: Q) -> i128 {
    (b[0] - a[0]) as i128 * (c[1] - a[1]) as i128 - (b[1] - a[1]) as i128 * (c[0] - a[0]) as i128
}
fn incirc(p: [Q; 4]) -> i32 {
    let r: Vec<[i128; 3]> = (0..3)
        .map(|i| {
            let x = (p[i][0] - p[3][0]) as i128;
            let y = (p[i][1] - p[3][1]) as i128;
            [x, y, x * x + y * y]
        })
        .collect();
    let d = r[0][2] * (r[1][0] * r[2][1] - r[1][1] * r[2][0]) - r[1][2] * (r[0][0] * r[2][1] - r[0][1] * r[2][0])
        + r[2][2] * (r[0][0] * r[1][1] - r[0][1] * r[1][0]);
    d.signum() as i32
}
fn flat(p: &[Q], m: &Map) -> Vec<f64> {
    p.iter().flat_map(|q| m.at(*q)).collect()
}
/// exact affine map of the integer lattice into doubles (positive determinant)
#[derive(Clone, Copy)]
pub struct Map {
    name: &'static str,
    a: [f64; 4],
    o: [f64; 2],
    /// integer image used by the oracle when the map is not a similarity
    im: [i64; 4],
}
impl Map {
    fn at(&self, q: Q) -> [f64; 2] {
        let (x, y) = (q[0] as f64, q[1] as f64);
        [self.a[0] * x + self.a[1] * y + self.o[0], self.a[2] * x + self.a[3] * y + self.o[1]]
    }
    fn int(&self, q: Q) -> Q {
        [self.im[0] * q[0] + self.im[1] * q[1], self.im[2] * q[0] + self.im[3] * q[1]]
    }
}
fn maps() -> Vec<Map> {
    let p = |e: i32| 2f64.powi(e);
    let m = |name, a: [f64; 4], o: [f64; 2], im: [i64; 4]| Map { name, a, o, im };
    vec![
        m("integers", [1., 0., 0., 1.], [0., 0.], [1, 0, 0, 1]),
        m("turned by 90 degrees", [0., -1., 1., 0.], [0., 0.], [0, -1, 1, 0]),
        m("turned by 45 degrees", [1., -1., 1., 1.], [0., 0.], [1, -1, 1, 1]),
        m("one-ulp lattice at 1", [p(-52), 0., 0., p(-52)], [1., 1.], [1, 0, 0, 1]),
        m("flattened", [p(4), 0., 0., p(-4)], [-7., 0.], [256, 0, 0, 1]),
        m("upright", [p(-4), 0., 0., p(4)], [0., -3.], [1, 0, 0, 256]),
        m("sheared, offset 2^40", [1., 3., 0., 1.], [p(40), -p(40)], [1, 3, 0, 1]),
        m("half turn, 2^-30", [-p(-30), 0., 0., -p(-30)], [0., 0.], [-1, 0, 0, -1]),
        m("lattice basis (2,1),(-1,2)", [2., -1., 1., 2.], [-5., 1.], [2, -1, 1, 2]),
        m("steep shear", [1., 0., 7., 1.], [0., 0.], [1, 0, 7, 1]),
        m("one-ulp lattice at 2^20", [p(-32), 0., 0., p(-32)], [p(20), -p(20)], [1, 0, 0, 1]),
        m("sheared flat", [p(8), p(8), 0., 1.], [0.5, 0.5], [256, 256, 0, 1]),
    ]
}

fn call(pts: &[f64], segs: &[usize]) -> Result<Vec<usize>, String> {
    guarded(|| {
        let b = bumpalo::Bump::new();
        let r: Vec<usize> = gt::triangulate(pts, segs, &b).iter().copied().collect();
        r
    })
}

/// twice the hull area and whether all points are collinear
fn hull_area2(p: &[Q]) -> i128 {
    let mut s: Vec<Q> = p.to_vec();
    s.sort();
    s.dedup();
    if s.len() < 3 {
        return 0;
    }
    let mut chain = |it: &mut dyn Iterator<Item = Q>| {
        let mut h: Vec<Q> = Vec::new();
        for q in it {
            while h.len() >= 2 && o2(h[h.len() - 2], h[h.len() - 1], q) <= 0 {
                h.pop();
            }
            h.push(q);
        }
        h.pop();
        h
    };
    let mut h = chain(&mut s.iter().copied());
    h.extend(chain(&mut s.iter().rev().copied()));
    (1..h.len().saturating_sub(1)).map(|i| area2(h[0], h[i], h[i + 1])).sum()
}

/// The Delaunay property, exactly (integer coordinates).
fn check_delaunay(p: &[Q], t: &[usize]) -> Result<(), String> {
    let n = p.len();
    let ha = hull_area2(p);
    if ha == 0 {
        return if t.is_empty() { Ok(()) } else { Err(format!("collinear input gives {} triangles", t.len() / 3)) };
    }
    if t.len() % 3 != 0 {
        return Err(format!("{} indices", t.len()));
    }
    let mut used = vec![false; n];
    let mut edges: HashMap<(usize, usize), usize> = HashMap::with_capacity(t.len());
    let mut area = 0i128;
    for tr in t.chunks(3) {
        if tr.iter().any(|&v| v >= n) {
            return Err(format!("triangle {tr:?} refers to a point that does not exist"));
        }
        let a = area2(p[tr[0]], p[tr[1]], p[tr[2]]);
        if a <= 0 {
            return Err(format!("triangle {tr:?} is not counter-clockwise"));
        }
        area += a;
        for k in 0..3 {
            used[tr[k]] = true;
            if edges.insert((tr[k], tr[(k + 1) % 3]), tr[(k + 2) % 3]).is_some() {
                return Err(format!("directed edge {:?} belongs to two triangles", (tr[k], tr[(k + 1) % 3])));
            }
        }
    }
    if area != ha {
        return Err(format!("triangles cover twice the area {area}, hull has {ha}"));
    }
    if let Some(v) = used.iter().position(|u| !u) {
        return Err(format!("point {v} is not used"));
    }
    for (&(u, v), &w) in &edges {
        match edges.get(&(v, u)) {
            None => {
                if let Some(k) = (0..n).find(|&k| o2(p[u], p[v], p[k]) < 0) {
                    return Err(format!("edge {u},{v} has no neighbour but point {k} is outside of it"));
                }
            }
            Some(&x) => {
                if u < v && incirc([p[u], p[v], p[w], p[x]]) > 0 {
                    return Err(format!("point {x} is inside the circle of triangle {u},{v},{w}"));
                }
            }
        }
    }
    if n <= 24 {
        for tr in t.chunks(3) {
            for k in 0..n {
                if incirc([p[tr[0]], p[tr[1]], p[tr[2]], p[k]]) > 0 {
                    return Err(format!("point {k} is inside the circle of triangle {tr:?}"));
                }
            }
        }
    }
    Ok(())
}

fn delaunay_case(p: &[Q], m: &Map, cx: &mut Ctx) -> Res {
    let f = flat(p, m);
    let q: Vec<Q> = p.iter().map(|x| m.int(*x)).collect();
    let r = call(&f, &[]);
    cx.state(1);
    cx.trace(1);
    let e = match r {
        Err(e) => Err(format!("failure: {e}")),
        Ok(t) => {
            cx.step(t.len() as u64 / 3);
            if t.len() > 6 {
                cx.nontrivial += 1;
            }
            cx.sample(|| format!("{} points ({}) -> {} triangles", p.len(), m.name, t.len() / 3));
            check_delaunay(&q, &t)
        }
    };
    if let Err(e) = e {
        let show: Vec<&Q> = p.iter().take(60).collect();
        return cx.fail(format!("{}:{:?}", m.name, show), format!("triangulate on {} points {:?} under map {}: {e}", p.len(), show, m.name));
    }
    Ok(())
}

fn lcg(s: &mut u64) -> u64 {
    *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    *s >> 33
}

/// structured larger sets
fn structured(th: bool) -> Vec<(String, Vec<Q>)> {
    let mut v: Vec<(String, Vec<Q>)> = Vec::new();
    let mut add = |n: String, p: Vec<Q>| v.push((n, p));
    let sizes: &[(i64, i64)] = &[(2, 30), (30, 2), (3, 17), (17, 3), (5, 5), (7, 9), (16, 16), (31, 33), (1, 40), (40, 1)];
    for &(a, b) in sizes {
        add(format!("grid {a}x{b}"), (0..a * b).map(|i| [i / b, i % b]).collect());
        // rows shifted by half
        add(format!("staggered grid {a}x{b}"), (0..a * b).map(|i| [2 * (i / b) + (i % b) % 2, i % b]).collect());
    }
    for n in [5i64, 12, 40, 101] {
        add(format!("line of {n}"), (0..n).map(|i| [3 * i, 2 * i]).collect());
        add(format!("line of {n} and a point"), (0..n).map(|i| [3 * i, 2 * i]).chain([[1, 50]]).collect());
        add(format!("line of {n} between two points"), (0..n).map(|i| [i, 0]).chain([[n / 2, 7], [n / 3, -9]]).collect());
        add(format!("vertical line of {n} between two points"), (0..n).map(|i| [0, i]).chain([[-7, n / 2], [9, n / 3]]).collect());
        add(format!("two parallel lines of {n}"), (0..n).flat_map(|i| [[i, 0], [i, 1]]).collect());
        add(format!("cross of {n}"), (-n..=n).flat_map(|i| if i == 0 { vec![[0, 0]] } else { vec![[i, 0], [0, i]] }).collect());
        add(format!("parabola of {n}"), (0..n).map(|i| [i, i * i]).collect());
        add(format!("cubic of {n}"), (-n..n).map(|i| [i, i * i * i]).collect());
        add(format!("zigzag of {n}"), (0..n).map(|i| [i, if i % 2 == 0 { 0 } else { 1000 }]).collect());
        add(format!("chevron of {n}"), (0..n).flat_map(|i| [[i, i], [-i - 1, i + 1]]).collect());
        add(format!("wedge of {n}"), (1..n).flat_map(|i| [[i, i * i], [i, -i * i]]).chain([[0, 0]]).collect());
    }
    // cocircular lattice points: x^2 + y^2 = r2
    for r2 in [25i64, 325, 5525, 27625, 160225] {
        let mut p = Vec::new();
        let r = (r2 as f64).sqrt() as i64 + 1;
        for x in -r..=r {
            for y in -r..=r {
                if x * x + y * y == r2 {
                    p.push([x, y]);
                }
            }
        }
        add(format!("{} cocircular points, r2={r2}", p.len()), p.clone());
        let mut q = p.clone();
        q.push([0, 0]);
        add(format!("{} cocircular points and centre, r2={r2}", p.len()), q.clone());
        q.extend(p.iter().map(|c| [2 * c[0], 2 * c[1]]));
        add(format!("two rings, r2={r2}"), q.clone());
        q.extend(p.iter().map(|c| [c[0] + 3 * r, c[1]]));
        add(format!("ring clusters, r2={r2}"), q);
    }
    // deterministic scattered sets
    for (k, (n, w)) in [(20usize, 6i64), (60, 12), (200, 20), (500, 4000), (1000, 40), (3000, 1 << 20)].iter().enumerate() {
        let reps = if th { 40 } else { 6 };
        for s in 0..reps {
            let mut st = 77 + 1000 * k as u64 + s;
            let mut set = std::collections::BTreeSet::new();
            while set.len() < *n {
                set.insert([lcg(&mut st) as i64 % w, lcg(&mut st) as i64 % w]);
                if set.len() as i64 >= w * w - 2 {
                    break;
                }
            }
            let mut p: Vec<Q> = set.into_iter().collect();
            for i in (1..p.len()).rev() {
                p.swap(i, lcg(&mut st) as usize % (i + 1));
            }
            add(format!("scattered {n} in {w} #{s}"), p);
        }
    }
    v
}

pub fn c16(th: bool) -> Check {
    let mut fams = Vec::new();
    let ms = Arc::new(maps());
    {
        let m = ms.clone();
        let nm = m.len() as u64;
        fams.push(Family::new(
            "subsets-3x3",
            "every subset (also empty) of the 3x3 lattice, in natural and reverse order, under every map",
            512 * nm,
            move |idx, cx| {
                let mut i = idx;
                let mk = take(&mut i, nm);
                let mut p: Vec<Q> = (0..9).filter(|b| i >> b & 1 == 1).map(|b| [b as i64 % 3, b as i64 / 3]).collect();
                delaunay_case(&p, &m[mk], cx)?;
                p.reverse();
                delaunay_case(&p, &m[mk], cx)
            },
        ));
    }
    {
        let m = ms.clone();
        let nm = m.len() as u64;
        fams.push(Family::new(
            "orders",
            "every 4- and 5-point subset of the 3x3 lattice in every order, under every map",
            (binom(9, 4) + binom(9, 5)) * nm,
            move |idx, cx| {
                let mut i = idx;
                let mk = take(&mut i, nm);
                let (k, i) = if i < binom(9, 4) { (4, i) } else { (5, i - binom(9, 4)) };
                let c = combo(i, 9, k);
                for pm in all_perms(k as usize) {
                    let p: Vec<Q> = pm.iter().map(|&j| [c[j] as i64 % 3, c[j] as i64 / 3]).collect();
                    delaunay_case(&p, &m[mk], cx)?;
                }
                Ok(())
            },
        ));
    }
    {
        let m = ms.clone();
        let nm = m.len() as u64;
        fams.push(Family::new(
            "subsets-4x4",
            format!("every subset of the 4x4 lattice under {nm} maps"),
            65536 * nm,
            move |idx, cx| {
                let mut i = idx;
                let mk = take(&mut i, nm);
                let p: Vec<Q> = (0..16).filter(|b| i >> b & 1 == 1).map(|b| [b as i64 % 4, b as i64 / 4]).collect();
                delaunay_case(&p, &m[mk], cx)
            },
        ));
    }
    for k in if th { 3..=11u64 } else { 3..=8 } {
        let m = ms.clone();
        fams.push(Family::new(
            format!("5x5-choose-{k}"),
            format!("every {k}-point subset of the 5x5 lattice"),
            binom(25, k),
            move |idx, cx| {
                let c = combo(idx, 25, k);
                let p: Vec<Q> = c.iter().map(|&b| [b as i64 % 5, b as i64 / 5]).collect();
                delaunay_case(&p, &m[(idx % 3) as usize], cx)
            },
        ));
    }
    if th {
        let m = ms.clone();
        fams.push(Family::new("8x2-3x6", "every subset of the 8x2 and 3x6 lattices", 65536 + (1 << 18), move |idx, cx| {
            let (w, i) = if idx < 65536 { (8, idx) } else { (3, idx - 65536) };
            let n = if w == 8 { 16 } else { 18 };
            let p: Vec<Q> = (0..n).filter(|b| i >> b & 1 == 1).map(|b| [b as i64 % w, b as i64 / w]).collect();
            delaunay_case(&p, &m[0], cx)
        }));
    }
    {
        // every point of a base set moved by -1..1 ulps in each coordinate
        let bases: Arc<Vec<Vec<[f64; 2]>>> = Arc::new(vec![
            vec![[1., 1.], [2., 1.], [2., 2.], [1., 2.]],
            vec![[1., 1.], [2., 2.], [3., 3.], [4., 4.]],
            vec![[1., 3.], [2., 3.], [3., 3.], [5., 3.]],
            vec![[5., 0.25], [3., 4.], [-3., 4.], [-4., -3.]],
            vec![[0.1, 0.1], [0.2, 0.2], [0.3, 0.3], [0.1, 0.3]],
            vec![[12., 12.], [24., 24.], [0.5, 0.5], [16., 8.]],
        ]);
        let n = bases.len() as u64;
        fams.push(Family::new(
            "ulp-moved",
            "6 degenerate 4-point sets, each coordinate of each point moved by -1, 0 or 1 ulp, with and without a fifth point",
            n * 6561 * 2,
            move |idx, cx| {
                let mut i = idx;
                let b = &bases[take(&mut i, n)];
                let fifth = take(&mut i, 2) == 1;
                let d = digits(i, 3, 8);
                let mut p: Vec<[f64; 2]> = (0..4).map(|k| [geo::ulps(b[k][0], d[2 * k] as i32 - 1), geo::ulps(b[k][1], d[2 * k + 1] as i32 - 1)]).collect();
                if fifth {
                    p.push([(b[0][0] + b[2][0]) / 2., (b[0][1] + b[2][1]) / 2.]);
                }
                if (0..p.len()).any(|i| (0..i).any(|j| p[i] == p[j])) {
                    return Ok(());
                }
                ulp_case(&p, cx)
            },
        ));
    }
    {
        let st = Arc::new(structured(th));
        let m = ms.clone();
        let nm = m.len() as u64;
        let n = st.len() as u64;
        let mut f = Family::new(
            "structured",
            "larger grids, lines, rings, curves and scattered sets under every map",
            n * nm,
            move |idx, cx| {
                let mut i = idx;
                let mk = take(&mut i, nm);
                let (_, p) = &st[i as usize];
                // stay within exactly representable coordinates
                let lim = match m[mk].name {
                    "sheared, offset 2^40" => 1 << 10,
                    "one-ulp lattice at 1" | "one-ulp lattice at 2^20" => 1 << 50,
                    _ => 1 << 30,
                };
                if p.iter().flatten().any(|c| c.abs() > lim) {
                    return Ok(());
                }
                delaunay_case(p, &m[mk], cx)
            },
        );
        f.timeout_s = 120;
        fams.push(f);
    }
    Check {
        id: "C16",
        families: fams,
        assumptions: vec![
            "coordinates are finite; inputs whose circle test needs bits below the double range are outside the bounds".into(),
            "larger sets are listed structures, not all sets of that size".into(),
        ],
    }
}

/// 4 or 5 points in doubles, exact oracle on scaled integers
fn ulp_case(p: &[[f64; 2]], cx: &mut Ctx) -> Res {
    let f: Vec<f64> = p.iter().flatten().copied().collect();
    let refs: Vec<&[f64]> = p.iter().map(|x| &x[..]).collect();
    let q = geo::scale2(&refs);
    let n = q.len();
    cx.state(1);
    cx.trace(1);
    let bad = |cx: &mut Ctx, e: String| cx.fail(format!("{p:?}"), format!("triangulate {p:?}: {e}"));
    let t = match call(&f, &[]) {
        Err(e) => return bad(cx, e),
        Ok(t) => t,
    };
    let or = |a: usize, b: usize, c: usize| geo::o2(&q[a], &q[b], &q[c]);
    let coll = (0..n).all(|k| or(0, 1, k) == 0);
    if coll {
        return if t.is_empty() { Ok(()) } else { bad(cx, format!("collinear, yet {t:?}")) };
    }
    // h hull points (counting those on hull edges) => 2n-2-h triangles
    let mut h = 0;
    for k in 0..n {
        // on the hull boundary iff some other point j has everything on one closed side of line kj
        if (0..n).any(|j| j != k && (0..n).all(|l| or(k, j, l) >= 0)) {
            h += 1;
        }
    }
    if t.len() != 3 * (2 * n - 2 - h) {
        return bad(cx, format!("{} triangles, expected {}: {t:?}", t.len() / 3, 2 * n - 2 - h));
    }
    cx.step(t.len() as u64 / 3);
    cx.nontrivial += 1;
    let mut e = HashMap::new();
    for tr in t.chunks(3) {
        if or(tr[0], tr[1], tr[2]) <= 0 {
            return bad(cx, format!("triangle {tr:?} not counter-clockwise"));
        }
        for k in 0..n {
            let s = geo::incirc(&[q[tr[0]].clone(), q[tr[1]].clone(), q[tr[2]].clone(), q[k].clone()]);
            if s > 0 {
                return bad(cx, format!("point {k} inside the circle of {tr:?}"));
            }
        }
        for k in 0..3 {
            if e.insert((tr[k], tr[(k + 1) % 3]), ()).is_some() {
                return bad(cx, format!("edge twice in {t:?}"));
            }
        }
    }
    for &(u, v) in e.keys() {
        if !e.contains_key(&(v, u)) && (0..n).any(|k| or(u, v, k) < 0) {
            return bad(cx, format!("open edge {u},{v} inside the hull"));
        }
    }
    if (0..n).any(|k| !t.contains(&k)) {
        return bad(cx, "unused point".into());
    }
    Ok(())
}

// ---------------------------------------------------------------- constrained
fn on_seg(p: Q, a: Q, b: Q) -> bool {
    o2(a, b, p) == 0 && p[0] >= a[0].min(b[0]) && p[0] <= a[0].max(b[0]) && p[1] >= a[1].min(b[1]) && p[1] <= a[1].max(b[1])
}
/// closed segments meet anywhere
fn segs_meet(a: Q, b: Q, c: Q, d: Q) -> bool {
    let (s1, s2, s3, s4) = (o2(a, b, c), o2(a, b, d), o2(c, d, a), o2(c, d, b));
    (s1 * s2 < 0 && s3 * s4 < 0) || on_seg(c, a, b) || on_seg(d, a, b) || on_seg(a, c, d) || on_seg(b, c, d)
}
/// segments cross, or overlap along a piece (touching in a single point that is an endpoint of one is fine)
fn segs_conflict(a: Q, b: Q, c: Q, d: Q) -> bool {
    let (s1, s2, s3, s4) = (o2(a, b, c), o2(a, b, d), o2(c, d, a), o2(c, d, b));
    if s1 * s2 < 0 && s3 * s4 < 0 {
        return true;
    }
    if s1 == 0 && s2 == 0 {
        let k = if a[0] != b[0] { 0 } else { 1 };
        let lo = a[k].min(b[k]).max(c[k].min(d[k]));
        let hi = a[k].max(b[k]).min(c[k].max(d[k]));
        return lo < hi;
    }
    false
}
pub type Poly = Vec<Q>;
fn poly_area2(p: &[Q]) -> i128 {
    (1..p.len() - 1).map(|i| area2(p[0], p[i], p[i + 1])).sum()
}
/// All simple counter-clockwise polygons with 3..=kmax vertices among the lattice points.
pub fn simple_polys(w: i64, h: i64, kmax: usize) -> Vec<Poly> {
    let pts: Vec<Q> = (0..w * h).map(|i| [i % w, i / w]).collect();
    let mut out = Vec::new();
    fn rec(pts: &[Q], path: &mut Vec<usize>, kmax: usize, out: &mut Vec<Poly>) {
        let k = path.len();
        let last = pts[path[k - 1]];
        if k >= 3 {
            // close
            let first = pts[path[0]];
            let mut ok = true;
            for i in 0..k - 1 {
                let (a, b) = (pts[path[i]], pts[path[i + 1]]);
                if i == 0 {
                    // shares `first`
                    if o2(first, b, last) == 0 && ((b[0] - first[0]) * (last[0] - first[0]) + (b[1] - first[1]) * (last[1] - first[1]) > 0) {
                        ok = false;
                    }
                } else if i == k - 2 {
                    if o2(last, a, first) == 0 && ((a[0] - last[0]) * (first[0] - last[0]) + (a[1] - last[1]) * (first[1] - last[1]) > 0) {
                        ok = false;
                    }
                } else if segs_meet(a, b, last, first) {
                    ok = false;
                }
                if !ok {
                    break;
                }
            }
            if ok {
                let p: Poly = path.iter().map(|&i| pts[i]).collect();
                if poly_area2(&p) > 0 {
                    out.push(p);
                }
            }
        }
        if k == kmax {
            return;
        }
        for v in path[0] + 1..pts.len() {
            if path.contains(&v) {
                continue;
            }
            let nv = pts[v];
            let mut ok = true;
            for i in 0..k.saturating_sub(1) {
                let (a, b) = (pts[path[i]], pts[path[i + 1]]);
                if i == k - 2 {
                    if o2(last, a, nv) == 0 && ((a[0] - last[0]) * (nv[0] - last[0]) + (a[1] - last[1]) * (nv[1] - last[1]) > 0) {
                        ok = false;
                    }
                } else if segs_meet(a, b, last, nv) {
                    ok = false;
                }
                if !ok {
                    break;
                }
            }
            if ok {
                path.push(v);
                rec(pts, path, kmax, out);
                path.pop();
            }
        }
    }
    for f in 0..pts.len() {
        let mut path = vec![f];
        rec(&pts, &mut path, kmax, &mut out);
    }
    out
}
/// 1 inside, 0 on the boundary, -1 outside
pub fn in_poly(q: Q, p: &[Q]) -> i32 {
    let n = p.len();
    let mut w = 0;
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        if on_seg(q, a, b) {
            return 0;
        }
        if a[1] <= q[1] {
            if b[1] > q[1] && o2(a, b, q) > 0 {
                w += 1;
            }
        } else if b[1] <= q[1] && o2(a, b, q) < 0 {
            w -= 1;
        }
    }
    if w != 0 {
        1
    } else {
        -1
    }
}

/// What the boundary of the covered region has to be: every segment split at the points on it.
fn split_boundary(p: &[Q], segs: &[usize]) -> HashMap<(usize, usize), i32> {
    let mut want: HashMap<(usize, usize), i32> = HashMap::new();
    for s in segs.chunks(2) {
        let (a, b) = (p[s[0]], p[s[1]]);
        let mut on: Vec<usize> = (0..p.len()).filter(|&k| on_seg(p[k], a, b)).collect();
        on.sort_by_key(|&k| (p[k][0] - a[0]).abs() + (p[k][1] - a[1]).abs());
        for w in on.windows(2) {
            *want.entry((w[0], w[1])).or_insert(0) += 1;
        }
    }
    // what is run through in both directions bounds nothing
    for (u, v) in want.keys().copied().collect::<Vec<_>>() {
        if let (Some(&a), Some(&b)) = (want.get(&(u, v)), want.get(&(v, u))) {
            want.insert((u, v), a - a.min(b));
            want.insert((v, u), b - a.min(b));
        }
    }
    want.retain(|_, c| *c > 0);
    want
}

/// Exactly the region bounded by the segments: the net boundary chain of the triangles equals the
/// (split) segments, every triangle is counter-clockwise, and no point lies inside a triangle or edge.
fn check_region(p: &[Q], segs: &[usize], t: &[usize], all_points: bool) -> Result<(), String> {
    let n = p.len();
    if (2..n).all(|k| o2(p[0], p[1], p[k]) == 0) {
        return if t.is_empty() { Ok(()) } else { Err("points on one line have no area".into()) };
    }
    if t.len() % 3 != 0 {
        return Err(format!("{} indices", t.len()));
    }
    let mut net: HashMap<(usize, usize), i32> = HashMap::new();
    for tr in t.chunks(3) {
        if tr.iter().any(|&v| v >= n) {
            return Err(format!("triangle {tr:?} refers to a point that does not exist"));
        }
        if o2(p[tr[0]], p[tr[1]], p[tr[2]]) <= 0 {
            return Err(format!("triangle {tr:?} is not counter-clockwise"));
        }
        for k in 0..3 {
            let c = net.entry((tr[k], tr[(k + 1) % 3])).or_insert(0);
            *c += 1;
            if *c > 1 {
                return Err(format!("directed edge {:?} belongs to two triangles", (tr[k], tr[(k + 1) % 3])));
            }
        }
    }
    let want = split_boundary(p, segs);
    for (&(u, v), _) in &net {
        if !net.contains_key(&(v, u)) && !want.contains_key(&(u, v)) {
            return Err(format!("the covered region ends at edge {u}->{v}, which is not a boundary piece"));
        }
        if net.contains_key(&(v, u)) && (want.contains_key(&(u, v)) || want.contains_key(&(v, u))) {
            return Err(format!("both sides of boundary piece {u}->{v} are covered"));
        }
    }
    for (&(u, v), _) in &want {
        if !net.contains_key(&(u, v)) {
            return Err(format!("boundary piece {u}->{v} is not an edge of the triangulation"));
        }
    }
    if all_points {
        for k in 0..n {
            for tr in t.chunks(3) {
                if !tr.contains(&k) && (0..3).all(|i| o2(p[tr[i]], p[tr[(i + 1) % 3]], p[k]) >= 0) {
                    return Err(format!("point {k} lies in triangle {tr:?}"));
                }
            }
        }
    }
    Ok(())
}

/// Every edge between two triangles of the region, not on a segment, is locally Delaunay.
fn check_cdt(p: &[Q], t: &[usize]) -> Result<usize, String> {
    let mut apex: HashMap<(usize, usize), usize> = HashMap::with_capacity(t.len());
    for tr in t.chunks(3) {
        for k in 0..3 {
            apex.insert((tr[k], tr[(k + 1) % 3]), tr[(k + 2) % 3]);
        }
    }
    let mut n = 0;
    for (&(u, v), &w) in &apex {
        if u < v {
            if let Some(&x) = apex.get(&(v, u)) {
                n += 1;
                if incirc([p[u], p[v], p[w], p[x]]) > 0 {
                    return Err(format!("edge {u}-{v} is not locally Delaunay: point {x} is inside the circle of {u},{v},{w}"));
                }
            }
        }
    }
    Ok(n)
}

fn region_case(cdt: bool, p: &[Q], segs: &[usize], m: &Map, cx: &mut Ctx) -> Res {
    let f = flat(p, m);
    cx.state(1);
    cx.trace(1);
    let e = match call(&f, segs) {
        Err(e) => Err(format!("failure: {e}")),
        Ok(t) => {
            cx.step(segs.len() as u64 / 2);
            if t.len() > 6 {
                cx.nontrivial += 1;
            }
            cx.sample(|| format!("points {p:?} segments {segs:?} ({}) -> {} triangles", m.name, t.len() / 3));
            let q: Vec<Q> = p.iter().map(|x| m.int(*x)).collect();
            let r = if cdt { check_cdt(&q, &t).map(|n| cx.step(n as u64)) } else { check_region(p, segs, &t, p.len() <= 60) };
            r.map_err(|e| format!("{e}; triangles {t:?}"))
        }
    };
    if let Err(e) = e {
        return cx.fail(format!("{}:{p:?}:{segs:?}", m.name), format!("points {p:?} segments {segs:?} map {}: {e}", m.name));
    }
    Ok(())
}

/// point list for polygons plus extra points; returns points and directed segments
fn assemble(polys: &[(&Poly, bool)], extra: &[Q]) -> (Vec<Q>, Vec<usize>) {
    let mut pts: Vec<Q> = Vec::new();
    let mut segs = Vec::new();
    let mut id = |q: Q, pts: &mut Vec<Q>| match pts.iter().position(|x| *x == q) {
        Some(i) => i,
        None => {
            pts.push(q);
            pts.len() - 1
        }
    };
    for (p, ccw) in polys {
        let n = p.len();
        for i in 0..n {
            let (a, b) = (p[i], p[(i + 1) % n]);
            let (a, b) = if *ccw { (a, b) } else { (b, a) };
            let (a, b) = (id(a, &mut pts), id(b, &mut pts));
            segs.extend([a, b]);
        }
    }
    for &e in extra {
        id(e, &mut pts);
    }
    (pts, segs)
}
fn permute_segs(s: &[usize], k: usize) -> Vec<usize> {
    let n = s.len() / 2;
    let ord: Vec<usize> = match k {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
        k => (0..n).map(|i| (i + k - 2) % n).collect(),
    };
    ord.iter().flat_map(|&i| [s[2 * i], s[2 * i + 1]]).collect()
}
fn relabel(p: &[Q], s: &[usize], k: usize) -> (Vec<Q>, Vec<usize>) {
    let n = p.len();
    let new_of = |i: usize| match k {
        0 => i,
        1 => n - 1 - i,
        _ => (i + n / 2) % n,
    };
    let mut q = vec![[0, 0]; n];
    for i in 0..n {
        q[new_of(i)] = p[i];
    }
    (q, s.iter().map(|&i| new_of(i)).collect())
}

/// pairs of polygons that may be combined: (a, b, b_is_hole)
fn poly_pairs(ps: &[Poly]) -> Vec<(u32, u32, bool)> {
    pairs_that(ps, |a, b, c, d| !segs_conflict(a, b, c, d))
}
fn pairs_that(ps: &[Poly], allowed: impl Fn(Q, Q, Q, Q) -> bool + Sync) -> Vec<(u32, u32, bool)> {
    let out: std::sync::Mutex<Vec<(u32, u32, bool)>> = Default::default();
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                let mut loc = Vec::new();
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= ps.len() {
                        break;
                    }
                    for j in 0..ps.len() {
                        if i == j {
                            continue;
                        }
                        let (a, b) = (&ps[i], &ps[j]);
                        let mut ok = true;
                        'x: for u in 0..a.len() {
                            for v in 0..b.len() {
                                if !allowed(a[u], a[(u + 1) % a.len()], b[v], b[(v + 1) % b.len()]) {
                                    ok = false;
                                    break 'x;
                                }
                            }
                        }
                        if !ok {
                            continue;
                        }
                        match nested(a, b) {
                            Nest::BinA => loc.push((i as u32, j as u32, true)),
                            Nest::Apart if i < j => loc.push((i as u32, j as u32, false)),
                            _ => {}
                        }
                    }
                }
                out.lock().unwrap().extend(loc);
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort();
    v
}
#[derive(PartialEq)]
enum Nest {
    BinA,
    AinB,
    Apart,
    Unclear,
}
/// relation of two polygons whose boundaries do not cross
fn nested(a: &Poly, b: &Poly) -> Nest {
    // boundary pieces between touching points lie entirely inside or outside the other polygon
    let rel = |p: &Poly, o: &Poly| -> (bool, bool) {
        let (mut inn, mut out) = (false, false);
        let o2x: Poly = o.iter().map(|q| [2 * q[0], 2 * q[1]]).collect();
        for i in 0..p.len() {
            let (u, v) = (p[i], p[(i + 1) % p.len()]);
            let mut on: Vec<Q> = o.iter().copied().filter(|&q| on_seg(q, u, v)).chain([u, v]).collect();
            on.sort_by_key(|q| (q[0] - u[0]).abs() + (q[1] - u[1]).abs());
            on.dedup();
            for w in on.windows(2) {
                match in_poly([w[0][0] + w[1][0], w[0][1] + w[1][1]], &o2x) {
                    1 => inn = true,
                    -1 => out = true,
                    _ => {}
                }
            }
        }
        (inn, out)
    };
    match (rel(b, a), rel(a, b)) {
        ((true, false), (false, true)) => Nest::BinA,
        ((false, true), (true, false)) => Nest::AinB,
        ((false, true), (false, true)) => Nest::Apart,
        _ => Nest::Unclear,
    }
}

/// larger structured boundaries
fn structured_regions() -> Vec<(String, Vec<Q>, Vec<usize>)> {
    let mut v = Vec::new();
    let mut add = |name: String, polys: &[(&Poly, bool)], extra: &[Q]| {
        let (p, s) = assemble(polys, extra);
        v.push((name, p, s));
    };
    let grid = |w: i64, h: i64| -> Vec<Q> { (0..w * h).map(|i| [i % w, i / w]).collect() };
    for n in [4i64, 9, 25] {
        // comb
        let mut c: Poly = vec![[0, 0], [4 * n, 0]];
        for i in (0..n).rev() {
            c.extend([[4 * i + 3, 20], [4 * i + 2, 20], [4 * i + 1, 1]]);
        }
        c.push([0, 1]);
        c.dedup();
        add(format!("comb {n}"), &[(&c, true)], &[]);
        add(format!("comb {n} with grid points"), &[(&c, true)], &(0..4 * n + 1).flat_map(|x| (0..20).step_by(3).map(move |y| [x, y])).collect::<Vec<_>>());
        // staircase
        let mut s: Poly = vec![[0, 0]];
        for i in 0..n {
            s.push([i + 1, i]);
            s.push([i + 1, i + 1]);
        }
        s.push([0, n]);
        add(format!("staircase {n}"), &[(&s, true)], &grid(n + 1, n + 1));
        // long thin slivers with many grid points: constraint edges cross many triangles
        let g = grid(2 * n + 1, 2 * n + 1);
        let big = 2 * n;
        for (k, t) in [
            vec![[0, 0], [big, 1], [big, big], [0, big]],
            vec![[0, 0], [big, big - 1], [big, big]],
            vec![[0, 1], [big, big - 2], [1, big]],
            vec![[0, 0], [big, 0], [big, big], [0, big]],
            vec![[0, 0], [n, 1], [big, 0], [big - 1, n], [big, big], [n, big - 1], [0, big], [1, n]],
            vec![[n, 0], [big, n], [n, big], [0, n]],
            vec![[0, 0], [big, 2], [big - 2, big], [3, big - 1]],
            vec![[0, 0], [n - 1, 0], [n - 1, big - 1], [n + 1, big - 1], [n + 1, 0], [big, 0], [big, big], [0, big]],
        ]
        .iter()
        .enumerate()
        {
            add(format!("slanted {k} on grid {big}"), &[(t, true)], &g);
            add(format!("slanted {k} bare {big}"), &[(t, true)], &[]);
            // every second lattice point
            let half: Vec<Q> = g.iter().copied().filter(|q| (q[0] + q[1]) % 2 == 0).collect();
            add(format!("slanted {k} half grid {big}"), &[(t, true)], &half);
        }
        // square with many square holes
        let w = 4 * n;
        let outer: Poly = vec![[0, 0], [w, 0], [w, w], [0, w]];
        let mut holes: Vec<Poly> = Vec::new();
        for i in 0..n.min(9) {
            for j in 0..n.min(9) {
                let (x, y) = (4 * i + 1, 4 * j + 1);
                holes.push(vec![[x, y], [x + 2, y], [x + 2, y + 2], [x, y + 2]]);
            }
        }
        let mut all: Vec<(&Poly, bool)> = vec![(&outer, true)];
        all.extend(holes.iter().map(|h| (h, false)));
        add(format!("{} holes", holes.len()), &all, &[]);
        let isl: Vec<Poly> = holes.iter().map(|h| { let (x, y) = (h[0][0], h[0][1]); vec![[x + 1, y], [x + 2, y + 1], [x + 1, y + 2], [x, y + 1]] }).collect();
        all.extend(isl.iter().map(|h| (h, true)));
        add(format!("{} holes with touching islands", holes.len()), &all, &[]);
        // spiral
        let mut o: Poly = Vec::new();
        let mut i_: Poly = Vec::new();
        let k = n.min(9);
        for r in 0..k {
            let (a, b) = (2 * r, 4 * k - 2 * r);
            o.extend([[a, if r == 0 { 0 } else { a - 2 }], [b, a], [b, b], [a, b]]);
            i_.extend([[a + 1, if r == 0 { 1 } else { a - 1 }], [b - 1, a + 1], [b - 1, b - 1], [a + 1, b - 1]]);
        }
        // make axis-parallel: each turn enters at its own row
        let mut sp: Poly = Vec::new();
        for r in 0..k {
            let (a, b) = (2 * r, 4 * k - 2 * r);
            sp.extend([[a.max(1) - if r == 0 { 1 } else { 1 }, a], [b, a], [b, b], [a + 1, b]]);
        }
        let _ = (o, i_);
        let dup = { let mut s = sp.clone(); s.sort(); s.windows(2).any(|w| w[0] == w[1]) };
        let simple = !dup && sp.len() > 3 && (0..sp.len()).all(|i| (i + 2..sp.len()).all(|j| (i == 0 && j == sp.len() - 1) || !segs_meet(sp[i], sp[i + 1], sp[j], sp[(j + 1) % sp.len()])));
        if simple && poly_area2(&sp) > 0 {
            add(format!("spiral {k}"), &[(&sp, true)], &[]);
        }
    }
    // circle-like polygon of cocircular points with a cocircular hole
    let ring = |r2: i64, f: i64| -> Poly {
        let mut p: Vec<Q> = Vec::new();
        let r = (r2 as f64).sqrt() as i64 + 1;
        for x in -r..=r {
            for y in -r..=r {
                if x * x + y * y == r2 {
                    p.push([f * x, f * y]);
                }
            }
        }
        p.sort_by(|a, b| (a[1] as f64).atan2(a[0] as f64).partial_cmp(&(b[1] as f64).atan2(b[0] as f64)).unwrap());
        p
    };
    for r2 in [25, 325, 5525, 160225] {
        let (o, i) = (ring(r2, 2), ring(r2, 1));
        add(format!("ring {r2}"), &[(&o, true), (&i, false)], &[]);
        add(format!("ring {r2} with centre"), &[(&o, true), (&i, false)], &[[0, 0]]);
        add(format!("disc {r2}"), &[(&o, true)], &i);
    }
    v
}

pub fn c17(th: bool) -> Check {
    regions(th, false)
}
pub fn c24(th: bool) -> Check {
    regions(th, true)
}
fn regions(th: bool, cdt: bool) -> Check {
    let mut fams = Vec::new();
    let ms = Arc::new(maps());
    let p33 = Arc::new(simple_polys(3, 3, 9));
    let p44 = Arc::new(simple_polys(4, 4, if th { 7 } else { 6 }));
    {
        let (ps, m) = (p33.clone(), ms.clone());
        let nm = m.len() as u64;
        fams.push(Family::new(
            "polygons-3x3",
            format!("all {} simple polygons on the 3x3 lattice x every subset of the other lattice points x 3 point orders x every map", ps.len()),
            ps.len() as u64 * nm,
            move |idx, cx| {
                let mut i = idx;
                let mk = take(&mut i, nm);
                let p = &ps[i as usize];
                let rest: Vec<Q> = (0..9).map(|b| [b % 3, b / 3]).filter(|q| !p.contains(q)).collect();
                for sub in 0..1u32 << rest.len() {
                    let ex: Vec<Q> = (0..rest.len()).filter(|b| sub >> b & 1 == 1).map(|b| rest[b]).collect();
                    let (pts, segs) = assemble(&[(p, true)], &ex);
                    for k in 0..3 {
                        let (q, s) = relabel(&pts, &permute_segs(&segs, k), k);
                        region_case(cdt, &q, &s, &m[mk], cx)?;
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let ps: Arc<Vec<Poly>> = Arc::new(p33.iter().filter(|p| p.len() <= if th { 6 } else { 5 }).cloned().collect());
        let m = ms.clone();
        fams.push(Family::new(
            "segment-orders",
            "3x3 polygons with up to 5 (6) sides x every order of the segments x {no, all} extra points",
            ps.len() as u64 * 2,
            move |idx, cx| {
                let p = &ps[idx as usize / 2];
                let rest: Vec<Q> = if idx % 2 == 0 { vec![] } else { (0..9).map(|b| [b % 3, b / 3]).filter(|q| !p.contains(q)).collect() };
                let (pts, segs) = assemble(&[(p, true)], &rest);
                for pm in all_perms(segs.len() / 2) {
                    let s: Vec<usize> = pm.iter().flat_map(|&i| [segs[2 * i], segs[2 * i + 1]]).collect();
                    region_case(cdt, &pts, &s, &m[0], cx)?;
                }
                Ok(())
            },
        ));
    }
    {
        let (ps, m) = (p44.clone(), ms.clone());
        let nm = if th { 5 } else { 2 };
        fams.push(Family::new(
            "polygons-4x4",
            format!("all {} simple polygons with up to 6 (7) vertices on the 4x4 lattice x extra points {{none, all, inside, outside, each checkerboard half}}", ps.len()),
            ps.len() as u64 * nm,
            move |idx, cx| {
                let mut i = idx;
                let mk = [0, 2, 4, 6, 8][take(&mut i, nm)];
                let p = &ps[i as usize];
                let rest: Vec<Q> = (0..16).map(|b| [b % 4, b / 4]).filter(|q| !p.contains(q)).collect();
                for k in 0..6 {
                    let ex: Vec<Q> = rest
                        .iter()
                        .copied()
                        .filter(|q| match k {
                            0 => false,
                            1 => true,
                            2 => in_poly(*q, p) == 1,
                            3 => in_poly(*q, p) == -1,
                            4 => (q[0] + q[1]) % 2 == 0,
                            _ => (q[0] + q[1]) % 2 == 1,
                        })
                        .collect();
                    let (pts, segs) = assemble(&[(p, true)], &ex);
                    let s = permute_segs(&segs, k % 3 + if k > 3 { 2 } else { 0 });
                    region_case(cdt, &pts, &s, &m[mk], cx)?;
                }
                Ok(())
            },
        ));
    }
    for (name, w, h, k) in if th { vec![("pairs-4x4", 4, 4, 5), ("pairs-5x5", 5, 5, 4), ("pairs-4x4-deep", 4, 4, 6)] } else { vec![("pairs-4x4", 4, 4, 4), ("pairs-5x5-triangles", 5, 5, 3)] } {
        let ps = Arc::new(simple_polys(w, h, k));
        // keep the pair list bounded: lists above the limit are thinned by taking every n-th outer polygon
        let pairs = Arc::new(pairs_bounded(&ps, if th { 6_000_000 } else { 400_000 }));
        let m = ms.clone();
        fams.push(Family::new(
            name,
            format!("{} pairs (hole inside outer, or side by side; touching in points allowed) of simple polygons with up to {k} vertices on the {w}x{h} lattice, out of {} polygons; with no / all other lattice points", pairs.len(), ps.len()),
            pairs.len() as u64,
            move |idx, cx| {
                let (a, b, hole) = pairs[idx as usize];
                let (a, b) = (&ps[a as usize], &ps[b as usize]);
                let mk = (idx % 3) as usize * 2;
                let rest: Vec<Q> = (0..w * h).map(|i| [i % w, i / w]).collect();
                let (p, s) = assemble(&[(a, true), (b, !hole)], &[]);
                region_case(cdt, &p, &permute_segs(&s, (idx % 5) as usize), &m[mk], cx)?;
                let (p, s) = assemble(&[(b, !hole), (a, true)], &rest);
                region_case(cdt, &p, &permute_segs(&s, (idx % 4) as usize), &m[mk], cx)?;
                cx.count(if hole { "with hole" } else { "two outers" }, 1);
                Ok(())
            },
        ));
    }
    {
        // outer square ring + two or three polygons inside: holes and islands nested
        let ps = Arc::new(simple_polys(3, 3, if th { 5 } else { 4 }));
        let pairs = Arc::new(poly_pairs(&ps));
        let m = ms.clone();
        fams.push(Family::new(
            "nested",
            format!("a 5x5 square with every pair ({}) of 3x3 polygons inside it: island in hole, or two holes", pairs.len()),
            pairs.len() as u64,
            move |idx, cx| {
                let (a, b, nest) = pairs[idx as usize];
                let sh = |p: &Poly| -> Poly { p.iter().map(|q| [q[0] + 1, q[1] + 1]).collect() };
                let (a, b) = (sh(&ps[a as usize]), sh(&ps[b as usize]));
                let o: Poly = vec![[0, 0], [4, 0], [4, 4], [0, 4]];
                let rest: Vec<Q> = (0..25).map(|i| [i % 5, i / 5]).collect();
                for (k, ex) in [&[][..], &rest].iter().enumerate() {
                    let (p, s) = assemble(&[(&b, nest), (&o, true), (&a, false)], ex);
                    region_case(cdt, &p, &permute_segs(&s, (idx as usize + k) % 5), &m[(idx % 9) as usize], cx)?;
                }
                Ok(())
            },
        ));
    }
    {
        let st = Arc::new(structured_regions());
        let m = ms.clone();
        let nm = m.len() as u64;
        fams.push(Family::new(
            "structured",
            format!("{} larger boundaries (combs, stairs, slanted polygons over full lattices, many holes, rings) x maps x 4 segment orders", st.len()),
            st.len() as u64 * nm * 4,
            move |idx, cx| {
                let mut i = idx;
                let k = take(&mut i, 4);
                let mk = take(&mut i, nm);
                let (_, p, s) = &st[i as usize];
                let (p, s) = relabel(p, &permute_segs(s, k), k % 3);
                region_case(cdt, &p, &s, &m[mk], cx)
            },
        ));
    }
    for (name, hs, kmax) in [("crossing", &[-3i64, -2, -1, 1, 2, 3][..], if th { 7u64 } else { 6 }), ("crossing-on", &[-2, -1, 0, 1, 3], if th { 8 } else { 7 }), ("crossing-long", &[-2, -1, 1, 2], if th { 10 } else { 8 }), ("crossing-steep", &[-7, -1, 1, 7], if th { 10 } else { 8 })] {
        // one long side, drawn through every pattern of points above and below it
        let nh = hs.len() as u64;
        let sizes: Vec<u64> = (1..=kmax).map(|k| pow(nh, k as u32)).collect();
        let m = ms.clone();
        fams.push(Family::new(
            name,
            format!("a triangle whose base runs between 1..{kmax} further points, one per column, every pattern of heights out of {hs:?}; apex near or far; {} stretchings", 4),
            sizes.iter().sum::<u64>() * 2,
            move |idx, cx| {
                let mut i = idx;
                let far = take(&mut i, 2);
                let mut k = 0;
                while i >= sizes[k] {
                    i -= sizes[k];
                    k += 1;
                }
                let k = k as i64 + 1;
                let mut ex: Vec<Q> = (1..=k).map(|x| [x, hs[take(&mut i, nh)]]).collect();
                let top = if far == 1 { 40 } else { 8 };
                // the extra points must not lie on the other two sides
                let poly: Poly = vec![[0, 0], [k + 1, 0], [(k + 1) / 2, top]];
                ex.retain(|&q| in_poly(q, &poly) != 0);
                let (pts, segs) = assemble(&[(&poly, true)], &ex);
                let (pts, segs) = relabel(&pts, &permute_segs(&segs, (idx % 4) as usize), (idx / 4 % 3) as usize);
                region_case(cdt, &pts, &segs, &m[[0, 4, 5, 8][(idx / 2 % 4) as usize]], cx)
            },
        ));
    }
    if !cdt {
        // pieces of boundary that are run through in both directions
        let crossing = |a: Q, b: Q, c: Q, d: Q| o2(a, b, c) * o2(a, b, d) < 0 && o2(c, d, a) * o2(c, d, b) < 0;
        for (name, ps, thin) in [("shared-sides-3x3", p33.clone(), 1), ("shared-sides-4x4", Arc::new(simple_polys(4, 4, 4)), if th { 1 } else { 10 })] {
            let pairs: Vec<_> = pairs_that(&ps, |a, b, c, d| !crossing(a, b, c, d))
                .into_iter()
                .filter(|&(a, b, _)| {
                    let (a, b) = (&ps[a as usize], &ps[b as usize]);
                    (0..a.len()).any(|i| (0..b.len()).any(|j| segs_conflict(a[i], a[(i + 1) % a.len()], b[j], b[(j + 1) % b.len()])))
                })
                .step_by(thin)
                .collect();
            let pairs = Arc::new(pairs);
            let m = ms.clone();
            let w = if thin == 1 && name.ends_with("3x3") { 3i64 } else { 4 };
            fams.push(Family::new(
                name,
                format!("{} pairs of polygons (side by side, or the second cut out of the first) that share parts of their sides, out of {}; with no / all other lattice points, segment orders in turn", pairs.len(), ps.len()),
                pairs.len() as u64,
                move |idx, cx| {
                    let (a, b, hole) = pairs[idx as usize];
                    let (a, b) = (&ps[a as usize], &ps[b as usize]);
                    let mk = (idx % 3) as usize * 2;
                    let rest: Vec<Q> = (0..w * w).map(|i| [i % w, i / w]).collect();
                    let (p, s) = assemble(&[(a, true), (b, !hole)], &[]);
                    region_case(cdt, &p, &permute_segs(&s, (idx % 5) as usize), &m[mk], cx)?;
                    let (p, s) = assemble(&[(b, !hole), (a, true)], &rest);
                    region_case(cdt, &p, &permute_segs(&s, (idx % 4) as usize), &m[mk], cx)
                },
            ));
        }
        let ps = p33.clone();
        let m = ms.clone();
        fams.push(Family::new(
            "bridges",
            "every 3x3 polygon with a path to each lattice point that a corner sees (slits, and antennas outside) and back, through the middle or not, at every place of the segment list; every polygon together with its reverse",
            ps.len() as u64,
            move |idx, cx| {
                // doubled, so that middles are lattice points
                let p: Poly = ps[idx as usize].iter().map(|q| [2 * q[0], 2 * q[1]]).collect();
                let n = p.len();
                for ex in [vec![], (0..25).map(|c| [c % 5, c / 5]).collect()] {
                    let (q, s) = assemble(&[(&p, true), (&p, false)], &ex);
                    region_case(cdt, &q, &permute_segs(&s, (idx % 4) as usize), &m[0], cx)?;
                }
                for v in 0..n {
                    for c in 0..25 {
                        let q: Q = [c % 5, c / 5];
                        if q == p[v] || (0..n).any(|i| segs_conflict(p[v], q, p[i], p[(i + 1) % n])) || (0..n).any(|i| i != v && p[i] != q && on_seg(p[i], p[v], q)) {
                            continue;
                        }
                        let mid = [(p[v][0] + q[0]) / 2, (p[v][1] + q[1]) / 2];
                        let even = (p[v][0] + q[0]) % 2 == 0 && (p[v][1] + q[1]) % 2 == 0;
                        for k in 0..if even { 4 } else { 1 } {
                            let (mut pts, segs) = assemble(&[(&p, true)], &[q]);
                            let (iv, iq) = (v, pts.iter().position(|x| *x == q).unwrap());
                            let im = pts.len();
                            if k > 0 {
                                if pts.contains(&mid) {
                                    continue;
                                }
                                pts.push(mid);
                            }
                            let path: Vec<[usize; 2]> = match k {
                                0 | 1 => vec![[iv, iq], [iq, iv]],
                                2 => vec![[iv, iq], [iq, im], [im, iv]],
                                _ => vec![[iv, im], [im, iq], [iq, im], [im, iv]],
                            };
                            for at in 0..=segs.len() / 2 {
                                let mut s: Vec<[usize; 2]> = segs.chunks(2).map(|s| [s[0], s[1]]).collect();
                                if at % 2 == 0 {
                                    s.splice(at..at, path.iter().copied());
                                } else {
                                    // the two ways apart
                                    s.splice(at..at, path[..1].iter().copied());
                                    s.extend(&path[1..]);
                                }
                                let (q, s) = relabel(&pts, &s.concat(), at % 3);
                                region_case(cdt, &q, &s, &m[at % m.len()], cx)?;
                            }
                        }
                    }
                }
                Ok(())
            },
        ));
        let m = ms.clone();
        let nm = m.len() as u64;
        let orders: Vec<Vec<usize>> = (2..=6).flat_map(all_perms).collect();
        fams.push(Family::new(
            "flat",
            "2 to 6 points of a line, joined to a closed walk in every order or to an open one, four directions, every map: no triangle",
            orders.len() as u64 * 8 * nm,
            move |idx, cx| {
                let mut i = idx;
                let mk = take(&mut i, nm);
                let dir = [[1, 0], [0, 1], [1, 1], [-2, 3]][take(&mut i, 4)];
                let open = take(&mut i, 2) == 1;
                let o = &orders[i as usize];
                // uneven distances
                let p: Vec<Q> = (0..o.len() as i64).map(|k| [dir[0] * k * (k + 1) / 2, dir[1] * k * (k + 1) / 2]).collect();
                let n = o.len();
                let s: Vec<usize> = (0..n - open as usize).flat_map(|k| [o[k], o[(k + 1) % n]]).collect();
                region_case(cdt, &p, &s, &m[mk], cx)
            },
        ));
    }
    Check {
        id: if cdt { "C24" } else { "C17" },
        families: fams,
        assumptions: vec![
            "boundaries may touch in points and share pieces of edges only in opposite directions".into(),
            "coordinates are exact images of lattice points, so that touching and collinearity are exact".into(),
        ],
    }
}
fn pairs_bounded(ps: &[Poly], cap: usize) -> Vec<(u32, u32, bool)> {
    let v = poly_pairs(ps);
    if v.len() <= cap {
        return v;
    }
    let st = v.len().div_ceil(cap);
    v.into_iter().step_by(st).collect()
}

// ---------------------------------------------------------------- polygons in 3D
#[derive(Clone, Copy)]
struct Frame {
    name: &'static str,
    o: [f64; 3],
    x: [f64; 3],
    y: [f64; 3],
    /// embedding of lattice coordinates
    ex: [f64; 3],
    ey: [f64; 3],
    exact: bool,
}
impl Frame {
    fn at(&self, q: Q) -> [f64; 3] {
        let (a, b) = (q[0] as f64, q[1] as f64);
        [0, 1, 2].map(|k| self.o[k] + a * self.ex[k] + b * self.ey[k])
    }
}
fn frames() -> Vec<Frame> {
    let f = |name, o, x, y| Frame { name, o, x, y, ex: x, ey: y, exact: true };
    let r2 = 0.5f64.sqrt();
    let (a, b) = ([1., -1., 0.], [1., 1., -2.]);
    let l = |v: [f64; 3]| {
        let n = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
        v.map(|c| c / n)
    };
    vec![
        f("xy", [0., 0., 0.], [1., 0., 0.], [0., 1., 0.]),
        f("yz at 5", [5., 0., 0.], [0., 1., 0.], [0., 0., 1.]),
        f("zx", [0., -2., 0.], [0., 0., 1.], [1., 0., 0.]),
        f("flipped xy", [3., 3., 1.], [0., 1., 0.], [1., 0., 0.]),
        f("x+y+z=0", [0., 0., 0.], a, b),
        f("slanted", [1., 2., 3.], [2., 1., 2.], [1., 2., -2.]),
        Frame { name: "diagonal, unit frame", o: [1., 1., 0.], x: [r2, r2, 0.], y: [0., 0., 1.], ex: [1., 1., 0.], ey: [0., 0., 1.], exact: false },
        Frame { name: "x+y+z=3, unit frame", o: [1., 1., 1.], x: l(a), y: l(b), ex: a, ey: b, exact: false },
    ]
}
struct Item {
    points: Vec<Q>,
    segs: Vec<usize>,
    frame: usize,
}
/// lays several polygons out in one point array (with unused points in between) and checks the soup
fn soup_case(items: &[Item], fr: &[Frame], shared: bool, cx: &mut Ctx) -> Res {
    let mut points: Vec<f64> = Vec::new();
    let mut edges: Vec<Vec<usize>> = Vec::new();
    let mut axes: Vec<f64> = Vec::new();
    let mut maps: Vec<Vec<usize>> = Vec::new();
    for it in items {
        points.extend([99., 98., 97.]); // unused
        let f = &fr[it.frame];
        let mut ids = Vec::new();
        for q in &it.points {
            let p = f.at(*q);
            let found = if shared { points.chunks(3).position(|c| c == p) } else { None };
            match found {
                Some(i) => ids.push(i),
                None => {
                    ids.push(points.len() / 3);
                    points.extend(p);
                }
            }
        }
        edges.push(it.segs.iter().map(|&s| ids[s]).collect());
        maps.push(ids);
        axes.extend(f.o.iter().chain(&f.x).chain(&f.y));
    }
    cx.state(1);
    cx.trace(1);
    let desc = || {
        items.iter().map(|i| format!("[{} {:?} {:?}]", fr[i.frame].name, i.points, i.segs)).collect::<Vec<_>>().join(" ")
    };
    let r = guarded(|| gt::triangulate_polygon_soup(&points, &edges, &axes));
    let bad = |cx: &mut Ctx, e: String| cx.fail(desc(), format!("soup {}: {e}", desc()));
    let (t, par) = match r {
        Err(e) => return bad(cx, e),
        Ok(x) => x,
    };
    if t.len() != 3 * par.len() {
        return bad(cx, format!("{} indices for {} parents", t.len(), par.len()));
    }
    cx.step(par.len() as u64);
    if par.len() > 2 {
        cx.nontrivial += 1;
    }
    if let Some(p) = par.iter().find(|&&p| p >= items.len()) {
        return bad(cx, format!("parent {p} does not exist"));
    }
    for (k, it) in items.iter().enumerate() {
        let mut loc: Vec<usize> = Vec::new();
        for (tr, &pa) in t.chunks(3).zip(&par) {
            if pa != k {
                continue;
            }
            for v in tr {
                match maps[k].iter().position(|i| i == v) {
                    Some(i) => loc.push(i),
                    None => return bad(cx, format!("triangle {tr:?} reported for polygon {k} uses point {v} of something else")),
                }
            }
        }
        if let Err(e) = check_region(&it.points, &it.segs, &loc, true) {
            return bad(cx, format!("polygon {k}: {e}; triangles {loc:?}"));
        }
        // single-polygon entry point
        let f = &fr[it.frame];
        let one = guarded(|| {
            let b = bumpalo::Bump::new();
            let r: Vec<usize> = gt::triangulate_polygon(&points, &edges[k], &f.o, &f.x, &f.y, &b).iter().copied().collect();
            r
        });
        let one = match one {
            Err(e) => return bad(cx, format!("triangulate_polygon fails: {e}")),
            Ok(o) => o,
        };
        let mut loc = Vec::new();
        for v in &one {
            match maps[k].iter().position(|i| i == v) {
                Some(i) => loc.push(i),
                None => return bad(cx, format!("triangulate_polygon returns point {v}, not in the polygon")),
            }
        }
        if let Err(e) = check_region(&it.points, &it.segs, &loc, true) {
            return bad(cx, format!("triangulate_polygon on polygon {k}: {e}; triangles {loc:?}"));
        }
    }
    Ok(())
}
/// no vertex lies inside another segment of the polygon (safe for inexact frames)
fn strict_poly(p: &[Q], segs: &[usize]) -> bool {
    segs.chunks(2).all(|s| (0..p.len()).all(|k| k == s[0] || k == s[1] || !on_seg(p[k], p[s[0]], p[s[1]])))
}

pub fn c18(th: bool) -> Check {
    let mut fams = Vec::new();
    let fr = Arc::new(frames());
    let nf = fr.len() as u64;
    let p33 = Arc::new(simple_polys(3, 3, 9));
    {
        let (ps, fr) = (p33.clone(), fr.clone());
        fams.push(Family::new(
            "polygons-3x3",
            format!("all {} simple polygons of the 3x3 lattice in {nf} plane frames x every rotation of the edge list and its reverse", ps.len()),
            ps.len() as u64 * nf,
            move |idx, cx| {
                let mut i = idx;
                let f = take(&mut i, nf);
                let (p, s) = assemble(&[(&ps[i as usize], true)], &[]);
                if !fr[f].exact && !strict_poly(&p, &s) {
                    return Ok(());
                }
                for k in 0..s.len() / 2 + 2 {
                    let (q, s) = relabel(&p, &permute_segs(&s, k), k % 3);
                    soup_case(&[Item { points: q, segs: s, frame: f }], &fr, false, cx)?;
                }
                Ok(())
            },
        ));
    }
    {
        let ps = Arc::new(simple_polys(4, 4, if th { 5 } else { 4 }));
        let pairs = Arc::new(pairs_bounded(&ps, if th { 4_000_000 } else { 250_000 }));
        let fr = fr.clone();
        fams.push(Family::new(
            "with-holes-4x4",
            format!("{} polygons with a hole or with two parts, 4x4 lattice, plane frames in turn", pairs.len()),
            pairs.len() as u64,
            move |idx, cx| {
                let (a, b, hole) = pairs[idx as usize];
                let (p, s) = assemble(&[(&ps[a as usize], true), (&ps[b as usize], !hole)], &[]);
                let f = (idx % nf) as usize;
                let f = if !fr[f].exact && !strict_poly(&p, &s) { 4 } else { f };
                soup_case(&[Item { points: p, segs: permute_segs(&s, (idx % 5) as usize), frame: f }], &fr, false, cx)
            },
        ));
    }
    {
        let ps: Arc<Vec<Poly>> = Arc::new(p33.iter().filter(|p| p.len() <= 4).cloned().collect());
        let n = ps.len() as u64;
        let fr = fr.clone();
        fams.push(Family::new(
            "soups",
            format!("every ordered pair of the {n} 3x3 polygons with up to 4 vertices in two planes, plus a third polygon with a hole; points shared between polygons where they coincide"),
            n * n,
            move |idx, cx| {
                let (a, b) = (&ps[(idx / n) as usize], &ps[(idx % n) as usize]);
                let f1 = (idx % 6) as usize;
                let f2 = ((idx / 6) % 6) as usize;
                let item = |p: &Poly, f| {
                    let (p, s) = assemble(&[(p, true)], &[]);
                    Item { points: p, segs: s, frame: f }
                };
                let o: Poly = vec![[0, 0], [4, 0], [4, 4], [0, 4]];
                let h: Poly = vec![[1, 1], [2, 1], [3, 2], [1, 3]];
                let (hp, hs) = assemble(&[(&o, true), (&h, false)], &[]);
                let hole = Item { points: hp, segs: hs, frame: (idx % 5) as usize };
                let mut v = vec![item(a, f1), item(b, f2), hole];
                if idx % 3 == 1 {
                    v.rotate_left(1);
                }
                if idx % 3 == 2 {
                    v.rotate_left(2);
                }
                soup_case(&v, &fr, idx % 2 == 0, cx)
            },
        ));
    }
    {
        // holes reached by a bridge: the boundary is one loop
        let ps = Arc::new(simple_polys(4, 4, 4));
        let pairs: Arc<Vec<_>> = Arc::new(pairs_bounded(&ps, if th { 4_000_000 } else { 250_000 }).into_iter().filter(|x| x.2).collect());
        let fr = fr.clone();
        fams.push(Family::new(
            "keyholes",
            format!("{} polygons with a hole, 4x4 lattice, as a single loop with a bridge between each pair of corners that see each other, plane frames and rotations of the edge list in turn", pairs.len()),
            pairs.len() as u64,
            move |idx, cx| {
                let (a, b, _) = pairs[idx as usize];
                let (a, mut b) = (&ps[a as usize], ps[b as usize].clone());
                b.reverse();
                let b = &b;
                for i in 0..a.len() {
                    for j in 0..b.len() {
                        let (p, q) = (a[i], b[j]);
                        let free = |c: &Poly| (0..c.len()).all(|k| !segs_conflict(p, q, c[k], c[(k + 1) % c.len()]) && (c[k] == p || c[k] == q || !on_seg(c[k], p, q)));
                        if p == q || !free(a) || !free(b) {
                            continue;
                        }
                        let mut walk: Vec<Q> = (0..=a.len()).map(|k| a[(i + k) % a.len()]).collect();
                        walk.extend((0..=b.len()).map(|k| b[(j + k) % b.len()]));
                        let mut pts: Vec<Q> = vec![];
                        let id: Vec<usize> = walk
                            .iter()
                            .map(|w| {
                                pts.iter().position(|x| x == w).unwrap_or_else(|| {
                                    pts.push(*w);
                                    pts.len() - 1
                                })
                            })
                            .collect();
                        let s: Vec<usize> = (0..id.len()).flat_map(|k| [id[k], id[(k + 1) % id.len()]]).collect();
                        let k = idx as usize + 3 * i + j;
                        let f = k % nf as usize;
                        let f = if !fr[f].exact && !strict_poly(&pts, &s) { 4 } else { f };
                        for h in 0..2 {
                            let (q, s) = relabel(&pts, &permute_segs(&s, (k / 2 + 3 * h) % 6), (k + h) % 3);
                            soup_case(&[Item { points: q, segs: s, frame: f }], &fr, false, cx)?;
                        }
                    }
                }
                Ok(())
            },
        ));
    }
    {
        // every order of the edges: the list need not follow the boundary
        let mx = if th { 7 } else { 6 };
        let ps: Arc<Vec<Poly>> = Arc::new(p33.iter().filter(|p| p.len() <= mx).cloned().collect());
        let n = ps.len() as u64;
        let fr = fr.clone();
        fams.push(Family::new(
            "edge-orders",
            format!("{n} 3x3 polygons with up to {mx} sides x every order of the edge list, exact plane frames in turn"),
            n * 6,
            move |idx, cx| {
                let (p, s) = assemble(&[(&ps[(idx / 6) as usize], true)], &[]);
                let m = s.len() / 2;
                // the six indices of a polygon share its permutations
                let f = fact(m as u64);
                let step = 6;
                let mut k = idx % 6;
                while k < f {
                    let s2: Vec<usize> = perm(k, m).into_iter().flat_map(|i| [s[2 * i], s[2 * i + 1]]).collect();
                    soup_case(&[Item { points: p.clone(), segs: s2, frame: (k % 6) as usize }], &fr, false, cx)?;
                    k += step;
                }
                Ok(())
            },
        ));
    }
    {
        let ps: Arc<Vec<Poly>> = Arc::new(p33.iter().filter(|p| p.len() <= 4).cloned().collect());
        let n = ps.len() as u64;
        let fr = fr.clone();
        fams.push(Family::new(
            "soups-with-empty-polygons",
            format!("soups of {n} polygons in turn and polygons without edges or without area at every set of positions among 6"),
            n * 64,
            move |idx, cx| {
                let mask = idx % 64;
                let items: Vec<Item> = (0..6u64)
                    .map(|k| {
                        if mask >> k & 1 > 0 {
                            // without edges, or without area
                            let n = ((idx / 64 + k) % 4) as usize;
                            let n = if n == 1 { 0 } else { n };
                            return Item {
                                points: (0..n as i64).map(|k| [2 * k * k, k * k]).collect(),
                                segs: (0..n).flat_map(|a| [a, (a + 1) % n]).collect(),
                                frame: (k % 6) as usize,
                            };
                        }
                        let (p, s) = assemble(&[(&ps[((idx / 64 + k * 37) % n) as usize], true)], &[]);
                        Item { points: p, segs: s, frame: ((idx / 64 + k) % 6) as usize }
                    })
                    .collect();
                soup_case(&items, &fr, idx % 2 == 0, cx)
            },
        ));
    }
    {
        // long soups: many polygons, parents must stay in step
        let ps = p33.clone();
        let fr = fr.clone();
        fams.push(Family::new("long-soups", "soups of 1..80 polygons", 80, move |idx, cx| {
            let items: Vec<Item> = (0..=idx as usize)
                .map(|k| {
                    let (p, s) = assemble(&[(&ps[(k * 97 + idx as usize * 13) % ps.len()], true)], &[]);
                    Item { points: p, segs: s, frame: k % 6 }
                })
                .collect();
            soup_case(&items, &fr, idx % 2 == 1, cx)
        }));
    }
    {
        let st: Arc<Vec<_>> = Arc::new(structured_regions().into_iter().filter(|s| {
            // every point must be on a segment here
            let mut used = vec![false; s.1.len()];
            s.2.iter().for_each(|&i| used[i] = true);
            used.iter().all(|u| *u)
        }).collect());
        let fr = fr.clone();
        let n = st.len() as u64;
        fams.push(Family::new("structured", format!("{n} larger polygons (combs, rings, many holes) in every exact frame"), n * 6, move |idx, cx| {
            let (_, p, s) = &st[(idx / 6) as usize];
            soup_case(&[Item { points: p.clone(), segs: s.clone(), frame: (idx % 6) as usize }], &fr, false, cx)
        }));
    }
    Check {
        id: "C18",
        families: fams,
        assumptions: vec![
            "a plane frame is two independent vectors spanning the polygon's plane; with rounded unit frames only polygons without vertices on other edges are explored".into(),
        ],
    }
}
