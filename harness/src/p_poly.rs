//! C21-C23: duplicate removal, Boolean union of triangle shells, polyhedral meshes.
use crate::core::*;
use crate::enumr::*;
use crate::geo::ulps;
use crate::p_tet::Q;
use crate::seed;
use gpf::polygonlization as gp;
use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;

// ------------------------------------------------------------------ C21
fn cells(p: &[f64; 3], eps: f64) -> [u64; 3] {
    if eps == 0.0 {
        return p.map(|x| if x == 0.0 { 0 } else { x.to_bits() });
    }
    let base = 2f64.powi(eps.log2().floor() as i32 - 1);
    // the rounded coordinate (base is a power of two, so the quotient is exact)
    p.map(|x| {
        let r = (x / base).round() * base;
        if r == 0.0 { 0 } else { r.to_bits() }
    })
}
fn dup_case(pts: &[[f64; 3]], eps: f64, cx: &mut Ctx) -> Res {
    let flat: Vec<f64> = pts.iter().flatten().copied().collect();
    let n = pts.len();
    let d = || format!("remove_duplicates({pts:?}, {eps:e})");
    let (out, map) = match guarded(|| gp::remove_duplicates(&flat, eps)) {
        Ok(r) => r,
        Err(e) => return cx.fail("panic", format!("{}: {e}", d())),
    };
    cx.state(1);
    cx.step(n as u64);
    cx.trace(1);
    let m = out.len() / 3;
    if map.len() != n || out.len() % 3 != 0 {
        return cx.fail("shape", format!("{}: map {map:?} out {out:?}", d()));
    }
    let o: Vec<[f64; 3]> = out.chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
    let mut used = vec![false; m];
    for (i, &k) in map.iter().enumerate() {
        if k >= m {
            return cx.fail("range", format!("{}: point {i} -> {k} of {m}", d()));
        }
        used[k] = true;
        let want = cells(&pts[i], eps);
        let got = o[k].map(|x| if x == 0.0 { 0 } else { x.to_bits() });
        if want != got {
            return cx.fail("moved", format!("{}: point {i} -> {:?}, not its grid point", d(), o[k]));
        }
    }
    if !used.iter().all(|&u| u) {
        return cx.fail("unused", format!("{}: unused output point, map {map:?} out {o:?}", d()));
    }
    for i in 0..n {
        for j in 0..i {
            if (map[i] == map[j]) != (cells(&pts[i], eps) == cells(&pts[j], eps)) {
                return cx.fail("merge", format!("{}: points {j},{i} -> {},{}", d(), map[j], map[i]));
            }
        }
    }
    for i in 0..m {
        for j in 0..i {
            if o[i] == o[j] {
                return cx.fail("equal-outputs", format!("{}: outputs {j},{i} equal {:?}", d(), o[i]));
            }
        }
    }
    if n > m {
        cx.nontrivial += 1;
    }
    Ok(())
}
pub fn c21(th: bool) -> Check {
    let mut fams = vec![];
    let epss = [1e-6, 0.0, 1.0, 0.5, 0.75, 1e-3, 4.0, 1e-9];
    let pool = |eps: f64, big: bool| -> Vec<f64> {
        let b = if eps == 0.0 { 1.0 } else { 2f64.powi(eps.log2().floor() as i32 - 1) };
        let mut v = vec![0.0, b, 0.5 * b, ulps(0.5 * b, -1), ulps(0.5 * b, 1), 0.25 * b, -0.5 * b];
        if big {
            v.extend([-0.0, -b, ulps(-0.5 * b, 1), 1.5 * b, 1.0, ulps(1.0, 1), 1.0 + b / 4.0, 1e9, 1e9 + b, ulps(b, -1)]);
        }
        v
    };
    let ne = epss.len() as u64;
    for (k, dims, big) in [(1usize, 1usize, true), (2, 1, true), (3, 1, true), (4, 1, th), (2, 2, th), (3, 2, false)] {
        let np = pool(1.0, big).len() as u64;
        let per = pow(np, dims as u32);
        fams.push(Family::new(
            format!("lists-{k}x{dims}"),
            format!("every list of {k} points (all orders, repetitions) whose {dims} varying coordinates, on each choice of axes, come from {np} values on, between and one ulp around grid boundaries; 8 tolerances incl. 0"),
            pow(per, k as u32) * ne,
            move |idx, cx| {
                let mut i = idx;
                let eps = epss[take(&mut i, ne)];
                let v = pool(eps, big);
                let dg = digits(i, np, k * dims);
                for ax in 0..3 {
                    let pts: Vec<[f64; 3]> = (0..k)
                        .map(|a| {
                            let mut p = [0.5, 0.25, 2.0];
                            for t in 0..dims {
                                p[(ax + t) % 3] = v[dg[a * dims + t]];
                            }
                            p
                        })
                        .collect();
                    dup_case(&pts, eps, cx)?;
                }
                cx.sample(|| format!("eps {eps} coords {dg:?}"));
                Ok(())
            },
        ));
    }
    {
        let k = if th { 7 } else { 6 };
        fams.push(Family::new(
            "binary-lists",
            format!("every list of up to {k} points over a near pair per axis (8 points of two cells each way), tolerances 1e-6 and 0"),
            (0..=k).map(|j| pow(8, j)).sum::<u64>() * 2,
            move |idx, cx| {
                let mut i = idx;
                let eps = [1e-6, 0.0][take(&mut i, 2)];
                let mut j = 0;
                while i >= pow(8, j) {
                    i -= pow(8, j);
                    j += 1;
                }
                let pts: Vec<[f64; 3]> = digits(i, 8, j as usize)
                    .iter()
                    .map(|&c| [[1.0, 1.0 + 1e-9][c & 1], [2.0, 2.5][c >> 1 & 1], [-3.0, -3.0 - 1e-8][c >> 2]])
                    .collect();
                dup_case(&pts, eps, cx)
            },
        ));
    }
    fams.push(Family::new("cluster", "n copies of each of m cells in shuffled positions, n*m up to 5000", 24, move |idx, cx| {
        let n = [1usize, 7, 33, 64][(idx % 4) as usize];
        let m = [1usize, 2, 21, 50, 64, 75][(idx / 4) as usize];
        let tot = n * m;
        let pts: Vec<[f64; 3]> = (0..tot)
            .map(|k| {
                let k = k * 7919 % tot;
                let (c, r) = (k % m, k / m);
                [c as f64 * 0.1, (c % 5) as f64, r as f64 * 1e-10]
            })
            .collect();
        if m > 1 && tot % 7919 == 0 {
            return Ok(());
        }
        dup_case(&pts, 1e-6, cx)
    }));
    Check {
        id: "C21",
        families: fams,
        assumptions: vec!["coordinates are finite and below 2^53 grid cells; the rounding grid is the power of two 2^(floor(log2 eps)-1)".into()],
    }
}

// ------------------------------------------------------------------ solids
pub type Tri = [Q; 3];
/// A closed, outward oriented triangle shell.
#[derive(Clone, Debug)]
pub struct Shell(pub Vec<Tri>);

fn quad(s: &mut Vec<Tri>, a: Q, b: Q, c: Q, d: Q, other: bool) {
    if other {
        s.push([a, b, d]);
        s.push([b, c, d]);
    } else {
        s.push([a, b, c]);
        s.push([a, c, d]);
    }
}
/// Box [lo,hi]; bit f of `diag` turns the diagonal of face f.
pub fn boxx(lo: Q, hi: Q, diag: usize) -> Shell {
    let v = |x: usize, y: usize, z: usize| [[lo[0], hi[0]][x], [lo[1], hi[1]][y], [lo[2], hi[2]][z]];
    let mut s = vec![];
    quad(&mut s, v(0, 0, 0), v(0, 0, 1), v(0, 1, 1), v(0, 1, 0), diag & 1 > 0);
    quad(&mut s, v(1, 0, 0), v(1, 1, 0), v(1, 1, 1), v(1, 0, 1), diag & 2 > 0);
    quad(&mut s, v(0, 0, 0), v(1, 0, 0), v(1, 0, 1), v(0, 0, 1), diag & 4 > 0);
    quad(&mut s, v(0, 1, 0), v(0, 1, 1), v(1, 1, 1), v(1, 1, 0), diag & 8 > 0);
    quad(&mut s, v(0, 0, 0), v(0, 1, 0), v(1, 1, 0), v(1, 0, 0), diag & 16 > 0);
    quad(&mut s, v(0, 0, 1), v(1, 0, 1), v(1, 1, 1), v(0, 1, 1), diag & 32 > 0);
    Shell(s)
}
fn dt(a: Q, b: Q, c: Q, e: Q) -> i64 {
    let s = |p: Q| [p[0] - e[0], p[1] - e[1], p[2] - e[2]];
    let (a, b, c) = (s(a), s(b), s(c));
    a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
}
/// Tetrahedron, outward oriented; None when flat.
pub fn tet(a: Q, b: Q, c: Q, e: Q) -> Option<Shell> {
    let v = dt(a, b, c, e);
    if v == 0 {
        return None;
    }
    // v > 0: det(a-e,b-e,c-e) > 0, so (a,b,c) seen from outside is counter-clockwise
    let (a, b) = if v > 0 { (a, b) } else { (b, a) };
    Some(Shell(vec![[a, b, c], [b, a, e], [c, b, e], [a, c, e]]))
}
/// Boundary of a set of unit voxels (faces between a member and a non-member).
pub fn voxels(set: &BTreeSet<Q>, diag: usize) -> Shell {
    let mut s = vec![];
    for &c in set {
        let b = boxx(c, [c[0] + 1, c[1] + 1, c[2] + 1], diag);
        for (f, n) in [[-1, 0, 0], [1, 0, 0], [0, -1, 0], [0, 1, 0], [0, 0, -1], [0, 0, 1]].iter().enumerate() {
            if !set.contains(&[c[0] + n[0], c[1] + n[1], c[2] + n[2]]) {
                s.extend_from_slice(&b.0[2 * f..2 * f + 2]);
            }
        }
    }
    Shell(s)
}
/// Star-shaped w.r.t. apex: cone over a simple polygon's triangulation is not needed; a prism over a
/// polygon in the xy plane with the given triangulation.
pub fn prism(poly: &[[i64; 2]], tris: &[[usize; 3]], z0: i64, z1: i64) -> Shell {
    let p = |k: usize, z: i64| [poly[k][0], poly[k][1], z];
    let mut s = vec![];
    for t in tris {
        s.push([p(t[0], z1), p(t[1], z1), p(t[2], z1)]);
        s.push([p(t[0], z0), p(t[2], z0), p(t[1], z0)]);
    }
    for i in 0..poly.len() {
        let j = (i + 1) % poly.len();
        quad(&mut s, p(i, z0), p(j, z0), p(j, z1), p(i, z1), i % 2 == 1);
    }
    Shell(s)
}

// ------------------------------------------------------------------ oracle
pub type P = [f64; 3];
fn sub(a: P, b: P) -> P {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn cross(a: P, b: P) -> P {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: P, b: P) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn len(a: P) -> f64 {
    dot(a, a).sqrt()
}
/// Winding number by solid angles; NaN-like 0.5 values appear only on the surface itself.
pub fn winding(tris: &[[P; 3]], p: P) -> f64 {
    let mut w = 0.0;
    for t in tris {
        let (a, b, c) = (sub(t[0], p), sub(t[1], p), sub(t[2], p));
        let (la, lb, lc) = (len(a), len(b), len(c));
        let num = dot(a, cross(b, c));
        let den = la * lb * lc + dot(a, b) * lc + dot(b, c) * la + dot(c, a) * lb;
        if den <= 0.0 && num.abs() < 1e-13 * la * lb * lc {
            return f64::NAN; // on (or too near to) the triangle
        }
        w += 2.0 * num.atan2(den);
    }
    w / (4.0 * std::f64::consts::PI)
}
/// Distance of a point from a triangle.
fn distance(q: P, t: &[P; 3]) -> f64 {
    let n = cross(sub(t[1], t[0]), sub(t[2], t[0]));
    let mut inside = true;
    let mut best = f64::MAX;
    for k in 0..3 {
        let (a, b) = (t[k], t[(k + 1) % 3]);
        let (e, v) = (sub(b, a), sub(q, a));
        inside &= dot(cross(e, v), n) >= 0.0;
        let u = (dot(v, e) / dot(e, e)).clamp(0.0, 1.0);
        best = best.min(len([0, 1, 2].map(|k| v[k] - u * e[k])));
    }
    if inside && len(n) > 0.0 {
        best = best.min(dot(sub(q, t[0]), n).abs() / len(n));
    }
    best
}
fn int(w: f64) -> Option<i64> {
    let r = w.round();
    if (w - r).abs() < 1e-3 {
        Some(r as i64)
    } else {
        None
    }
}
/// How the integer configuration is placed in space.
#[derive(Clone, Copy)]
pub struct Place {
    pub name: &'static str,
    m: [[f64; 3]; 3],
    o: P,
    /// coordinates are rounded to the library's grid, so exact coplanarities are lost
    pub loose: bool,
    /// added to every coordinate before the call and taken off the result: the checks work near the origin
    pub far: f64,
}
impl Place {
    pub fn at(&self, q: Q) -> P {
        let p = [0, 1, 2].map(|k| self.m[k][0] * q[0] as f64 + self.m[k][1] * q[1] as f64 + self.m[k][2] * q[2] as f64 + self.o[k]);
        if self.loose {
            p.map(|x| (x * 2097152.0).round() / 2097152.0)
        } else {
            p
        }
    }
    pub fn det(&self) -> f64 {
        det33(self.m)
    }
    pub fn size(&self) -> f64 {
        (0..3).map(|k| (0..3).map(|j| self.m[j][k].powi(2)).sum::<f64>().sqrt()).fold(f64::MAX, f64::min)
    }
}
/// All entries are multiples of 2^-21, so the library's 1e-6 rounding does not move the points;
/// all matrices keep orientation.
pub fn places() -> Vec<Place> {
    let di = |s: f64| [[s, 0., 0.], [0., s, 0.], [0., 0., s]];
    vec![
        Place { name: "integer grid", m: di(1.0), o: [0.; 3], loose: false, far: 0.0 },
        Place { name: "turned", m: [[1., 2., 2.], [2., 1., -2.], [-2., 2., -1.]].map(|r| r.map(|x: f64| x)), o: [0.25, -1., 3.], loose: false, far: 0.0 },
        Place { name: "axes cycled, 2^-10", m: [[0., 0.0009765625, 0.], [0., 0., 0.0009765625], [0.0009765625, 0., 0.]], o: [0.; 3], loose: false, far: 0.0 },
        Place { name: "sheared", m: [[1., 0.5, 0.25], [0., 1., 0.75], [0., 0., 1.]], o: [100., -50., 7.], loose: false, far: 0.0 },
        Place { name: "stretched", m: [[64., 0., 0.], [0., 1., 0.], [0., 0., 0.125]], o: [0.; 3], loose: false, far: 0.0 },
        Place { name: "turned, 31-bit mantissas", m: [[1., 2., 2.], [2., 1., -2.], [-2., 2., -1.]].map(|r| r.map(|x: f64| x * (2250571493. / 2097152.))), o: [0.25, -1., 3.], loose: false, far: 0.0 },
        Place { name: "scale 1000, far", m: di(1000.0), o: [1048576., -2097152., 0.5], loose: false, far: 0.0 },
    ]
}
/// The integer grid with a unit of 2^k.
pub fn scaled(k: i32, name: &'static str) -> Place {
    let s = 2f64.powi(k);
    Place { name, m: [[s, 0., 0.], [0., s, 0.], [0., 0., s]], o: [0.; 3], loose: false, far: 0.0 }
}
/// Placements whose coordinates are rounded: faces that should coincide are off by rounding.
pub fn loose_places() -> Vec<Place> {
    let c = |a: [[f64; 3]; 3], o: P, name| Place { name, m: a, o, loose: true, far: 0.0 };
    vec![
        c([[0.1, 0., 0.], [0., 0.1, 0.], [0., 0., 0.1]], [0.3, 0.7, -0.1], "decimal"),
        c([[0.36, 0.48, -0.8], [-0.8, 0.6, 0.], [0.48, 0.64, 0.6]], [0.1, 0.2, 0.3], "turned, decimal"),
        c([[0.936, 0.352, 0.], [-0.352, 0.936, 0.], [0., 0., 1.]], [10.1, -20.2, 5.], "turned about z, decimal"),
        c([[0.707106, -0.707106, 0.], [0.408248, 0.408248, -0.816496], [0.57735, 0.57735, 0.57735]], [0.; 3], "turned to 111"),
    ]
}

fn det33(m: [[f64; 3]; 3]) -> f64 {
    dot(m[0], cross(m[1], m[2]))
}

pub struct Opt<'a> {
    pub place: &'a Place,
    pub seed: u64,
    /// 0: as listed, 1: reversed, other: rotated by that much
    pub order: usize,
    /// exact insertion order, when given
    pub perm: Option<Vec<usize>>,
    /// 0: per-shell points, 1: triangle soup, 2: shared points, reversed triangle order
    pub layout: usize,
}
struct Input {
    pts: Vec<f64>,
    tris: Vec<usize>,
    ids: Vec<usize>,
    uniq: usize,
}
fn assemble(shells: &[Shell], o: &Opt) -> Input {
    let mut pts: Vec<Q> = vec![];
    let mut tris = vec![];
    let mut ids = vec![];
    let mut map: HashMap<(usize, Q), usize> = HashMap::new();
    for (s, sh) in shells.iter().enumerate() {
        for (t, tri) in sh.0.iter().enumerate() {
            for (j, &v) in tri.iter().enumerate() {
                let tag = match o.layout {
                    0 => s,
                    1 => (s * 1000 + t) * 4 + j,
                    _ => 0,
                };
                let k = *map.entry((tag, v)).or_insert_with(|| {
                    pts.push(v);
                    pts.len() - 1
                });
                tris.push(k);
            }
            // shell numbers need not be consecutive or start at 0
            ids.push(s * (1 + (o.seed % 3) as usize) + (o.seed / 3 % 2) as usize);
        }
    }
    if o.layout == 2 {
        let n = ids.len();
        let mut t2 = vec![];
        for i in (0..n).rev() {
            t2.extend([tris[3 * i + 1], tris[3 * i + 2], tris[3 * i]]);
        }
        tris = t2;
        ids.reverse();
    }
    let uniq = pts.iter().collect::<BTreeSet<_>>().len();
    Input { pts: pts.iter().flat_map(|&q| o.place.at(q).map(|x| x + o.place.far)).collect(), tris, ids, uniq }
}

/// What the output must bound: union of the shells' solids (winding number of a shell > 0).
pub fn check_output(
    out: &(Vec<f64>, Vec<usize>),
    shells: &[Vec<[P; 3]>],
    unit: f64,
    loose: bool,
    extra: &[P],
    volume: Option<f64>,
    cx: &mut Ctx,
) -> Result<(), (String, String)> {
    let e = |k: &str, m: String| Err((k.to_string(), m));
    let n = out.0.len() / 3;
    if out.0.len() % 3 != 0 || out.1.len() % 3 != 0 || out.1.iter().any(|&k| k >= n) || out.0.iter().any(|x| !x.is_finite()) {
        return e("shape", format!("bad shape: {n} points, indices {:?}", out.1));
    }
    let p: Vec<P> = out.0.chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
    let t: Vec<[P; 3]> = out.1.chunks(3).map(|c| [p[c[0]], p[c[1]], p[c[2]]]).collect();
    let mut bal: HashMap<(usize, usize), i32> = HashMap::new();
    for c in out.1.chunks(3) {
        for j in 0..3 {
            let (a, b) = (c[j], c[(j + 1) % 3]);
            if a == b {
                return e("degenerate", format!("triangle {c:?} repeats a point"));
            }
            *bal.entry((a.min(b), a.max(b))).or_insert(0) += if a < b { 1 } else { -1 };
        }
    }
    if let Some((k, v)) = bal.iter().find(|(_, &v)| v != 0) {
        return e("open-edge", format!("edge {:?}-{:?} is unbalanced by {v}", p[k.0], p[k.1]));
    }
    let mut samples: Vec<P> = extra.to_vec();
    let d = unit * 1e-3;
    if loose {
        // only points well away from every given triangle are decided
        samples.retain(|&q| shells.iter().flatten().all(|tr| distance(q, tr) > 5e-4 * unit));
    }
    let near = if loose { &[][..] } else { &t[..] };
    for (k, tr) in near.iter().enumerate() {
        let nn = cross(sub(tr[1], tr[0]), sub(tr[2], tr[0]));
        let l = len(nn);
        if !(l > unit * unit * 1e-9) {
            return e("degenerate", format!("triangle {k} {tr:?} has no area"));
        }
        let c: P = [0, 1, 2].map(|i| 0.3917 * tr[0][i] + 0.3541 * tr[1][i] + 0.2542 * tr[2][i]);
        // next to the surface: inside below, outside above
        let dd = d.min(1e-2 * l / (len(sub(tr[1], tr[0])) + len(sub(tr[2], tr[0])) + len(sub(tr[2], tr[1]))));
        for s in [-1.0, 1.0] {
            samples.push([0, 1, 2].map(|i| c[i] + s * dd * nn[i] / l));
        }
    }
    for &q in samples.iter() {
        let mut inside = Some(false);
        for sh in shells {
            match int(winding(sh, q)) {
                None => inside = None,
                Some(w) => inside = inside.map(|i| i || w > 0),
            }
        }
        // a sample (nearly) on a surface decides nothing
        let w = winding(&t, q);
        let (Some(inside), Some(wi)) = (inside, int(w)) else {
            cx.count("undetermined-samples", 1);
            continue;
        };
        if wi != inside as i64 {
            return e(
                "winding",
                format!("at {q:?} the output's winding number is {w:.4}, but the point is {} the union", if inside { "inside" } else { "outside" }),
            );
        }
        cx.step(1);
    }
    // each sample pair next to an output triangle must straddle the union's boundary
    for k in 0..near.len() {
        let q = [samples[extra.len() + 2 * k], samples[extra.len() + 2 * k + 1]];
        let wins = q.map(|q| shells.iter().map(|s| winding(s, q)).collect::<Vec<_>>());
        if wins.iter().flatten().any(|&w| int(w).is_none()) {
            continue;
        }
        let ins = wins.map(|w| w.iter().any(|&w| w > 0.5));
        if ins != [true, false] {
            return e("not-boundary", format!("output triangle {:?} is not on the boundary of the union with its outside outward ({ins:?})", t[k]));
        }
    }
    if let Some(v) = volume {
        let got: f64 = t.iter().map(|x| dot(x[0], cross(x[1], x[2]))).sum::<f64>() / 6.0;
        // cancellation grows with the distance from the origin
        let r = t.iter().flatten().map(|x| len(*x)).fold(0.0, f64::max);
        let tol = if loose { 1e-4 * v.abs() + 1e-5 * unit * unit * unit } else { 1e-9 * v.abs() };
        if (got - v).abs() > tol + 1e-12 * r * r * r {
            return e("volume", format!("output volume {got}, union volume {v}"));
        }
    }
    Ok(())
}

fn flat(t: &Tri) -> bool {
    let [a, b, c] = t;
    let (u, v) = ([0, 1, 2].map(|k| b[k] - a[k]), [0, 1, 2].map(|k| c[k] - a[k]));
    (0..3).all(|k| u[k] * v[(k + 1) % 3] == u[(k + 1) % 3] * v[k])
}
/// The placed shells, and points to decide: the placed grid and points next to every triangle.
pub fn probes(shells: &[Shell], place: &Place, grid: &[P]) -> (Vec<Vec<[P; 3]>>, Vec<P>) {
    let pl: Vec<Vec<[P; 3]>> = shells.iter().map(|s| s.0.iter().filter(|t| !flat(t)).map(|t| t.map(|q| place.at(q))).collect()).collect();
    let at = |g: &P| -> P { [0, 1, 2].map(|k| place.m[k][0] * g[0] + place.m[k][1] * g[1] + place.m[k][2] * g[2] + place.o[k]) };
    let mut extra: Vec<P> = grid.iter().map(at).collect();
    for tr in pl.iter().flatten() {
        let nn = cross(sub(tr[1], tr[0]), sub(tr[2], tr[0]));
        let l = len(nn);
        for b in [[0.41, 0.33], [0.07, 0.11], [0.83, 0.09]] {
            let c: P = [0, 1, 2].map(|i| tr[0][i] * (1.0 - b[0] - b[1]) + tr[1][i] * b[0] + tr[2][i] * b[1]);
            for s in [-1.0, 1.0] {
                extra.push([0, 1, 2].map(|i| c[i] + s * 1e-3 * place.size() * nn[i] / l));
            }
        }
    }
    (pl, extra)
}
/// `samples`: integer-grid positions (before placement), volume in grid units.
pub fn union_case(shells: &[Shell], o: &Opt, grid: &[P], volume: Option<f64>, cx: &mut Ctx) -> Res {
    let inp = assemble(shells, o);
    let n = inp.uniq;
    let order: Vec<usize> = match &o.perm {
        Some(p) => p.clone(),
        None => match o.order {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            k => (0..n).map(|i| (i + k) % n).collect(),
        },
    };
    let desc = || clip(format!("place '{}' seed {} order {order:?} layout {}: make_mesh_for_triangles(&{:?}, &{:?}, &{:?})", o.place.name, o.seed, o.layout, inp.pts, inp.tris, inp.ids), 900);
    let r = seed::with_seed(o.seed, || {
        gpf::mc_hook::set_insertion_order(Some(order.clone()));
        gp::make_mesh_for_triangles(&inp.pts, &inp.tris, &inp.ids)
    });
    let mut out = match r {
        Ok(x) => x,
        Err(m) => return cx.fail("panic", format!("{m}\n  {}", desc())),
    };
    out.0.iter_mut().for_each(|x| *x -= o.place.far);
    cx.state(1);
    cx.trace(1);
    let (pl, extra) = probes(shells, o.place, grid);
    if let Err((k, m)) = check_output(&out, &pl, o.place.size(), o.place.loose, &extra, volume.map(|v| v * det33(o.place.m)), cx) {
        return cx.fail(k, format!("{m}\n  {}\n  output {}", desc(), clip(format!("{:?} {:?}", out.0, out.1), 400)));
    }
    if shells.len() > 1 {
        cx.nontrivial += 1;
    }
    cx.sample(|| desc());
    Ok(())
}
/// One generic point in every unit cell of the box.
pub fn cell_grid(lo: i64, hi: i64) -> Vec<P> {
    let mut v = vec![];
    for x in lo..hi {
        for y in lo..hi {
            for z in lo..hi {
                v.push([x as f64 + 0.5341, y as f64 + 0.4729, z as f64 + 0.4413]);
            }
        }
    }
    v
}
pub fn vox_volume(shells: &[Shell]) -> f64 {
    let pl: Vec<Vec<[P; 3]>> = shells.iter().map(|s| s.0.iter().map(|t| t.map(|q| q.map(|x| x as f64))).collect()).collect();
    let (mut lo, mut hi) = (i64::MAX, i64::MIN);
    for q in shells.iter().flat_map(|s| s.0.iter().flatten().flatten()) {
        lo = lo.min(*q);
        hi = hi.max(*q);
    }
    cell_grid(lo, hi).iter().filter(|g| pl.iter().any(|s| winding(s, **g) > 0.5)).count() as f64
}
/// Interval pairs (a,b),(c,d) up to order type: the 13 relations, on coordinates 0..=3.
pub fn relations() -> Vec<[i64; 4]> {
    let mut v = vec![];
    let mut seen = BTreeSet::new();
    for a in 0..4i64 {
        for b in a + 1..4 {
            for c in 0..4 {
                for d in c + 1..4 {
                    let mut s = vec![a, b, c, d];
                    s.sort();
                    s.dedup();
                    let r = [a, b, c, d].map(|x| s.iter().position(|&y| y == x).unwrap() as i64);
                    if seen.insert(r) {
                        v.push(r);
                    }
                }
            }
        }
    }
    v
}

/// Octahedron subdivided n-fold per edge, pushed out to a sphere of radius r, rounded to integers.
pub fn ball(n: i64, r: f64, c: Q) -> Shell {
    let mut t = vec![];
    for oct in 0..8 {
        let sg = [0, 1, 2].map(|k| if oct >> k & 1 == 1 { -1 } else { 1 });
        let at = |i: i64, j: i64| -> Q {
            let v = [i, j, n - i - j];
            let l = v.iter().map(|x| (x * x) as f64).sum::<f64>().sqrt();
            [0, 1, 2].map(|k| c[k] + sg[k] * (r * v[k] as f64 / l).round() as i64)
        };
        for i in 0..n {
            for j in 0..n - i {
                let mut add = |a: Q, b: Q, d: Q| t.push(if sg[0] * sg[1] * sg[2] > 0 { [a, b, d] } else { [b, a, d] });
                add(at(i, j), at(i + 1, j), at(i, j + 1));
                if i + j + 2 <= n {
                    add(at(i + 1, j), at(i + 1, j + 1), at(i, j + 1));
                }
            }
        }
    }
    Shell(t)
}
/// Ring around the z axis: n sections of m corners.
pub fn ring(n: i64, m: i64, r: f64, s: f64, c: Q) -> Shell {
    use std::f64::consts::PI;
    let at = |i: i64, j: i64| -> Q {
        let (a, b) = (2.0 * PI * (i % n) as f64 / n as f64, 2.0 * PI * (j % m) as f64 / m as f64);
        let d = r + s * b.cos();
        let v = [d * a.cos(), d * a.sin(), s * b.sin()];
        [0, 1, 2].map(|k| c[k] + v[k].round() as i64)
    };
    let mut t = vec![];
    for i in 0..n {
        for j in 0..m {
            quad(&mut t, at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1), (i + j) % 2 == 1);
        }
    }
    Shell(t)
}
/// Box whose faces are n x n squares of two triangles.
pub fn fine_box(n: i64, w: i64, c: Q) -> Shell {
    let mut t = vec![];
    for f in boxx([0; 3], [1; 3], 0).0.chunks(2) {
        // quad a b c d
        let (a, b, d) = (f[0][0], f[0][1], f[1][2]);
        let at = |i: i64, j: i64| -> Q { [0, 1, 2].map(|k| c[k] + w * (n * a[k] + i * (b[k] - a[k]) + j * (d[k] - a[k]))) };
        for i in 0..n {
            for j in 0..n {
                quad(&mut t, at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1), (i * 3 + j) % 2 == 1);
            }
        }
    }
    Shell(t)
}

pub type Base = (Vec<[i64; 2]>, Vec<[usize; 3]>);
/// Polygons (counter-clockwise) with a triangulation of each.
pub fn prism_bases() -> Vec<Base> {
    vec![
        (vec![[0, 0], [4, 0], [4, 2], [2, 2], [2, 4], [0, 4]], vec![[0, 1, 3], [1, 2, 3], [0, 3, 5], [3, 4, 5]]),
        (vec![[0, 0], [6, 0], [6, 4], [4, 4], [4, 2], [2, 2], [2, 4], [0, 4]], vec![[0, 1, 4], [1, 2, 4], [2, 3, 4], [0, 4, 5], [0, 5, 7], [5, 6, 7]]),
        (vec![[0, 0], [3, 1], [6, 0], [4, 3], [3, 6], [2, 3]], vec![[0, 1, 5], [1, 2, 3], [3, 4, 5], [1, 3, 5]]),
        (vec![[0, 0], [2, 0], [4, 2], [4, 4], [2, 6], [0, 4]], vec![[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 5]]),
    ]
}
pub fn c22(th: bool) -> Check {
    let mut fams = vec![];
    let pls = places();
    let np = pls.len() as u64;
    {
        let p = pls.clone();
        fams.push(Family::new(
            "one-box",
            "a single box, all 64 choices of face diagonals, all placements, layouts, 4 insertion orders",
            64 * np * 3,
            move |idx, cx| {
                let mut i = idx;
                let k = take(&mut i, np);
                let layout = take(&mut i, 3);
                for order in 0..4 {
                    union_case(&[boxx([0; 3], [1, 1, 1], i as usize)], &Opt { place: &p[k], seed: idx, order, perm: None, layout }, &cell_grid(-1, 2), Some(1.0), cx)?;
                }
                Ok(())
            },
        ));
    }
    {
        let p = pls.clone();
        let rel = Arc::new(relations());
        let nr = rel.len() as u64;
        let reps = if th { np * 4 } else { 2 };
        fams.push(Family::new(
            "box-pairs",
            format!("two boxes in every combination of the {nr} interval relations per axis, several face diagonals, orders, layouts and placements"),
            nr * nr * nr * reps,
            move |idx, cx| {
                let mut i = idx;
                let r = [0, 1, 2].map(|_| rel[take(&mut i, nr)]);
                let k = if cx.thorough { take(&mut i, np) } else if i == 0 { 0 } else { 1 };
                let v = (idx % 7) as usize;
                let a = boxx([r[0][0], r[1][0], r[2][0]], [r[0][1], r[1][1], r[2][1]], [0, 63, 21, 42, 7, 5, 60][v]);
                let b = boxx([r[0][2], r[1][2], r[2][2]], [r[0][3], r[1][3], r[2][3]], [0, 21, 63, 11, 35, 50, 3][(idx / 7 % 7) as usize]);
                let s = [a, b];
                let vol = vox_volume(&s);
                union_case(&s, &Opt { place: &p[k], seed: idx, order: (idx % 5) as usize, perm: None, layout: (idx % 3) as usize }, &cell_grid(-1, 4), Some(vol), cx)
            },
        ));
    }
    {
        let rel = Arc::new(relations());
        let nr = rel.len() as u64;
        fams.push(Family::new(
            "box-pairs-scales",
            "two boxes in every combination of the interval relations per axis, one unit being 2^-19 (twice the tolerance of 1e-6, the smallest that keeps all points apart), 2^-14, 2^14 and 2^30 in turn",
            nr * nr * nr,
            move |idx, cx| {
                let mut i = idx;
                let r = [0, 1, 2].map(|_| rel[take(&mut i, nr)]);
                let (u, name) = [(-19, "2^-19"), (-14, "2^-14"), (14, "2^14"), (30, "2^30")][(idx / 3 % 4) as usize];
                let place = scaled(u, name);
                let s = [boxx([r[0][0], r[1][0], r[2][0]], [r[0][1], r[1][1], r[2][1]], 21), boxx([r[0][2], r[1][2], r[2][2]], [r[0][3], r[1][3], r[2][3]], 42)];
                let vol = vox_volume(&s);
                union_case(&s, &Opt { place: &place, seed: idx, order: (idx % 5) as usize, perm: None, layout: (idx % 3) as usize }, &cell_grid(-1, 4), Some(vol), cx)
            },
        ));
    }
    {
        let rel = Arc::new(relations());
        let nr = rel.len() as u64;
        // the grid's unit is the last or one of the last bits of the coordinates
        // (offsets with few bits: the vertices' approximate coordinates are exact; otherwise the unit is 2^16 last bits)
        let far = |u: i32, far: f64, loose: bool, name: &'static str| Place { far, loose, ..scaled(u, name) };
        let places: Vec<Place> = vec![
            far(0, 2f64.powi(51), false, "2^51"),
            far(0, 2f64.powi(52), false, "2^52"),
            far(16, 6004799503160661.0, true, "6004799503160661, unit 2^16"),
            far(3, 2f64.powi(55), false, "2^55, unit 8"),
            far(-10, 2f64.powi(42), false, "2^42, unit 2^-10"),
            far(-19, 2f64.powi(33), false, "2^33, unit 2^-19"),
        ];
        let n = places.len() as u64;
        let reps = if th { n } else { 1 };
        {
            let places = places.clone();
            fams.push(Family::new(
                "last-bits-boxes",
                "two boxes in every combination of the interval relations per axis, the unit being the last or one of the last bits of the coordinates (six offsets, in turn)",
                nr * nr * nr * reps,
                move |idx, cx| {
                    let mut i = idx;
                    let r = [0, 1, 2].map(|_| rel[take(&mut i, nr)]);
                    let place = &places[((i + idx / 5) % n) as usize];
                    let s = [boxx([r[0][0], r[1][0], r[2][0]], [r[0][1], r[1][1], r[2][1]], 21), boxx([r[0][2], r[1][2], r[2][2]], [r[0][3], r[1][3], r[2][3]], 42)];
                    let vol = vox_volume(&s);
                    union_case(&s, &Opt { place, seed: idx, order: (idx % 5) as usize, perm: None, layout: (idx % 3) as usize }, &cell_grid(-1, 4), Some(vol), cx)
                },
            ));
        }
        fams.push(Family::new("last-bits-tets", "every non-flat tetrahedron of the 3x3x3 lattice, the unit being one of the last bits of the coordinates", binom(27, 4), move |idx, cx| {
            let q: Vec<Q> = combo(idx, 27, 4).iter().map(|&b| b as i64).map(|b| [b % 3, b / 3 % 3, b / 9]).collect();
            let Some(t) = tet(q[0], q[1], q[2], q[3]) else { return Ok(()) };
            let v = dt(q[0], q[1], q[2], q[3]).abs() as f64 / 6.0;
            union_case(&[t], &Opt { place: &places[(idx % n) as usize], seed: idx, order: (idx % 3) as usize, perm: None, layout: (idx % 3) as usize }, &cell_grid(-1, 3), Some(v), cx)
        }));
    }
    {
        let p = pls.clone();
        let iv = [[0i64, 1], [0, 2], [1, 2]];
        let reps = if th { np } else { 1 };
        fams.push(Family::new(
            "box-triples",
            "three boxes with corners in 0..2, every combination",
            pow(3, 9) * reps,
            move |idx, cx| {
                let mut i = idx;
                let d: Vec<usize> = (0..9).map(|_| take(&mut i, 3)).collect();
                let s: Vec<Shell> = (0..3)
                    .map(|b| {
                        let r = [0, 1, 2].map(|a| iv[d[3 * b + a]]);
                        boxx(r.map(|x| x[0]), r.map(|x| x[1]), [0, 63, 37][b] ^ (idx % 5) as usize)
                    })
                    .collect();
                let vol = vox_volume(&s);
                union_case(&s, &Opt { place: &p[((i + idx) % np) as usize], seed: idx, order: (idx % 4) as usize, perm: None, layout: (idx % 3) as usize }, &cell_grid(-1, 3), Some(vol), cx)
            },
        ));
    }
    {
        let p = pls.clone();
        fams.push(Family::new("one-tet", "every non-flat tetrahedron of the 3x3x3 lattice, placements in turn", binom(27, 4), move |idx, cx| {
            let q: Vec<Q> = combo(idx, 27, 4).iter().map(|&b| b as i64).map(|b| [b % 3, b / 3 % 3, b / 9]).collect();
            let Some(t) = tet(q[0], q[1], q[2], q[3]) else { return Ok(()) };
            let v = dt(q[0], q[1], q[2], q[3]).abs() as f64 / 6.0;
            union_case(&[t], &Opt { place: &p[(idx % np) as usize], seed: idx, order: (idx % 3) as usize, perm: None, layout: (idx % 3) as usize }, &cell_grid(-1, 3), Some(v), cx)
        }));
    }
    let cube_tets: Vec<[Q; 4]> = (0..binom(8, 4))
        .map(|i| combo(i, 8, 4))
        .map(|c| [0, 1, 2, 3].map(|k| { let b = c[k] as i64; [b & 1, b >> 1 & 1, b >> 2 & 1] }))
        .filter(|q| dt(q[0], q[1], q[2], q[3]) != 0)
        .collect();
    let ct = Arc::new(cube_tets);
    let nt = ct.len() as u64;
    {
        let p = pls.clone();
        let ct = ct.clone();
        let reps = if th { np } else { 1 };
        fams.push(Family::new(
            "tet-pairs",
            format!("every pair of the {nt} tetrahedra of the cube's corners, the second moved by every half-cell offset in -1..1 per axis"),
            nt * nt * 27 * reps,
            move |idx, cx| {
                let mut i = idx;
                let a = ct[take(&mut i, nt)].map(|q| q.map(|x| 2 * x));
                let off = [0, 1, 2].map(|_| take(&mut i, 3) as i64 - 1);
                let b = ct[take(&mut i, nt)].map(|q| [0, 1, 2].map(|k| 2 * q[k] + off[k]));
                let s = [tet(a[0], a[1], a[2], a[3]).unwrap(), tet(b[0], b[1], b[2], b[3]).unwrap()];
                let k = if cx.thorough { i } else { idx / 29 } % np;
                union_case(&s, &Opt { place: &p[k as usize], seed: idx, order: (idx % 5) as usize, perm: None, layout: (idx % 3) as usize }, &cell_grid(-1, 3), None, cx)
            },
        ));
    }
    {
        let p = pls.clone();
        let reps = if th { np } else { 1 };
        fams.push(Family::new(
            "box-and-tet",
            "a box over [0,2]^3 or [0,1]x[0,2]x[0,2] with every tetrahedron of the lattice {-1,1,3}^3, {0,1,2}^3",
            4 * binom(27, 4) * reps,
            move |idx, cx| {
                let mut i = idx;
                let w = take(&mut i, 2);
                let l = take(&mut i, 2);
                let c = combo(i % binom(27, 4), 27, 4);
                i /= binom(27, 4);
                let q: Vec<Q> = c.iter().map(|&b| b as i64).map(|b| [b % 3, b / 3 % 3, b / 9].map(|x| if l == 0 { x } else { 2 * x - 1 })).collect();
                let Some(t) = tet(q[0], q[1], q[2], q[3]) else { return Ok(()) };
                let b = boxx([0; 3], [[2, 2, 2], [1, 2, 2]][w], (idx / 4 % 64) as usize);
                let k = if cx.thorough { i } else { idx / 31 } % np;
                let s = if idx % 2 == 0 { [b, t] } else { [t, b] };
                union_case(&s, &Opt { place: &p[k as usize], seed: idx, order: (idx % 5) as usize, perm: None, layout: (idx % 3) as usize }, &cell_grid(-1, 3), None, cx)
            },
        ));
    }
    let vox = |m: usize, o: Q| -> BTreeSet<Q> {
        (0..8).filter(|b| m >> b & 1 == 1).map(|b| [o[0] + (b & 1) as i64, o[1] + (b >> 1 & 1) as i64, o[2] + (b >> 2) as i64]).collect()
    };
    {
        let p = pls.clone();
        fams.push(Family::new(
            "voxel-shell",
            "every non-empty set of the 2x2x2 voxels as one shell (also edge- and corner-touching ones), 4 diagonal patterns, all placements; and the same voxels as one shell each",
            255 * 4 * np * 2,
            move |idx, cx| {
                let mut i = idx;
                let m = take(&mut i, 255) + 1;
                let dg = [0, 63, 21, 44][take(&mut i, 4)];
                let k = take(&mut i, np);
                let set = vox(m, [0; 3]);
                let s: Vec<Shell> = if i == 0 { vec![voxels(&set, dg)] } else { set.iter().map(|&c| voxels(&[c].into_iter().collect(), dg)).collect() };
                union_case(&s, &Opt { place: &p[k], seed: idx, order: (idx % 5) as usize, perm: None, layout: (idx % 3) as usize }, &cell_grid(-1, 3), Some(set.len() as f64), cx)
            },
        ));
    }
    {
        let p = pls.clone();
        let shifts: Vec<Q> = if th { vec![[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 0, 1], [0, 1, 1], [1, 1, 1]] } else { vec![[0, 0, 0], [1, 1, 0]] };
        let ns = shifts.len() as u64;
        let step = if th { 1 } else { 5 };
        fams.push(Family::new(
            "voxel-pairs",
            format!("pairs of 2x2x2 voxel sets as two shells, relative shift from {ns} offsets{}", if th { "" } else { " (every fifth second set)" }),
            255 * 255 / step * ns,
            move |idx, cx| {
                let mut i = idx;
                let o = shifts[take(&mut i, ns)];
                let m = take(&mut i, 255) + 1;
                let m2 = (i * step + m as u64 % step) as usize % 255 + 1;
                let (a, b) = (vox(m, [0; 3]), vox(m2, o));
                let vol = a.union(&b).count() as f64;
                let dg = [0, 63, 21, 44][(idx % 4) as usize];
                let s = [voxels(&a, dg), voxels(&b, 63 ^ dg)];
                union_case(&s, &Opt { place: &p[(idx % np) as usize], seed: idx, order: (idx % 5) as usize, perm: None, layout: (idx / 3 % 3) as usize }, &cell_grid(-1, 4), Some(vol), cx)
            },
        ));
    }
    {
        let p = pls.clone();
        fams.push(Family::new(
            "cavities",
            "a 3x3x3 block without its centre and any of the six face neighbours / edges, alone, with each voxel added back as its own shell, or with a box pushed through",
            64 * 4 * np,
            move |idx, cx| {
                let mut i = idx;
                let k = take(&mut i, np);
                let kind = take(&mut i, 4);
                let all: BTreeSet<Q> = (0..27i64).map(|b| [b % 3, b / 3 % 3, b / 9]).collect();
                let nb: [Q; 6] = [[0, 1, 1], [2, 1, 1], [1, 0, 1], [1, 2, 1], [1, 1, 0], [1, 1, 2]];
                let mut hole: BTreeSet<Q> = (0..6).filter(|b| i >> b & 1 == 1).map(|b| nb[b]).collect();
                hole.insert([1, 1, 1]);
                let body: BTreeSet<Q> = all.difference(&hole).copied().collect();
                let mut s = vec![voxels(&body, (idx % 64) as usize)];
                let mut vol = body.len() as f64;
                match kind {
                    0 => (),
                    1 => {
                        for &h in &hole {
                            s.push(voxels(&[h].into_iter().collect(), 0));
                        }
                        vol = 27.0;
                    }
                    2 => {
                        s.insert(0, boxx([1, 1, -1], [2, 2, 4], 9));
                        vol = 27.0 - hole.iter().filter(|h| h[0] != 1 || h[1] != 1).count() as f64 + 2.0;
                    }
                    _ => {
                        s.push(voxels(&hole, 63));
                        vol = 27.0;
                    }
                }
                union_case(&s, &Opt { place: &p[k], seed: idx, order: (idx % 5) as usize, perm: None, layout: (idx % 3) as usize }, &cell_grid(-1, 5), Some(vol), cx)
            },
        ));
    }
    {
        // all insertion orders of a few small configurations
        let p = pls.clone();
        let t = |a: Q, b: Q, c: Q, d: Q| tet(a, b, c, d).unwrap();
        let sets: Vec<(Vec<Shell>, usize)> = vec![
            (vec![t([0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2])], 4),
            (vec![t([0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2]), t([0, 0, 0], [2, 0, 0], [0, 2, 0], [1, 1, -2])], 5),
            (vec![t([0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2]), t([0, 0, 0], [2, 0, 0], [0, 2, 0], [1, 0, 1])], 5),
            (vec![t([0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2]), t([0, 0, 0], [2, 0, 0], [1, 1, 3], [-1, -1, 2])], 6),
            (vec![t([0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2]), t([0, 0, 0], [2, 2, 2], [1, -1, 1], [-1, 1, 1])], 7),
            (vec![prism(&[[0, 0], [2, 0], [0, 2]], &[[0, 1, 2]], 0, 1)], 6),
            (vec![boxx([0; 3], [1, 1, 1], 0)], 8),
            (vec![t([0, 0, 0], [2, 2, 0], [2, 0, 2], [0, 2, 2]), t([2, 2, 2], [0, 0, 2], [0, 2, 0], [2, 0, 0])], 8),
            (vec![t([0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4]), t([1, 1, -1], [3, 1, 1], [1, 3, 1], [1, 1, 3])], 8),
        ];
        let lim = if th { 40320 } else { 5040 };
        let starts: Vec<u64> = sets.iter().scan(0, |a, s| { let r = *a; *a += fact(s.1 as u64).min(lim); Some(r) }).collect();
        let total: u64 = sets.iter().map(|s| fact(s.1 as u64).min(lim)).sum();
        fams.push(Family::new(
            "insertion-orders",
            format!("9 small configurations (one and two shells) under every point insertion order (for 8 points {lim} orders)"),
            total,
            move |idx, cx| {
                let k = starts.iter().rposition(|&s| s <= idx).unwrap();
                let (s, n) = &sets[k];
                let o = perm(idx - starts[k], *n);
                union_case(s, &Opt { place: &p[(idx % 2) as usize], seed: idx, order: 0, perm: Some(o), layout: (idx / 2 % 3) as usize }, &cell_grid(-1, 5), None, cx)
            },
        ));
    }
    {
        let p = pls.clone();
        let polys = prism_bases();
        let npo = polys.len() as u64;
        let offs: i64 = if th { 7 } else { 4 };
        fams.push(Family::new(
            "prisms",
            "pairs of concave/convex polygon prisms: the second lies, is turned to stand on its side, or stands crosswise, at every offset",
            npo * npo * 3 * pow(offs as u64, 3),
            move |idx, cx| {
                let mut i = idx;
                let (a, b) = (&polys[take(&mut i, npo)], &polys[take(&mut i, npo)]);
                let r = take(&mut i, 3);
                let o = [0, 1, 2].map(|_| take(&mut i, offs as u64) as i64 * if offs == 4 { 2 } else { 1 } - 2);
                let sa = prism(&a.0, &a.1, 0, 2);
                let mut sb = prism(&b.0, &b.1, -1, 3);
                for q in sb.0.iter_mut().flatten() {
                    let t = *q;
                    let t = [t, [t[2], t[0], t[1]], [t[1], t[2], t[0]]][r];
                    *q = [0, 1, 2].map(|k| t[k] + o[k]);
                }
                union_case(&[sa, sb], &Opt { place: &p[(idx % np) as usize], seed: idx, order: (idx % 5) as usize, perm: None, layout: (idx % 3) as usize }, &cell_grid(-3, 7), None, cx)
            },
        ));
    }
    {
        let p = pls.clone();
        fams.push(Family::new(
            "rows-and-copies",
            "n boxes in a row / staircase / nested / identical (n up to 10), in every shell rotation, 6 hash seeds each",
            5 * 9 * 6 * np,
            move |idx, cx| {
                let mut i = idx;
                let kind = take(&mut i, 5);
                let n = take(&mut i, 9) as i64 + 2;
                let sd = take(&mut i, 6);
                let k = take(&mut i, np);
                let mut s: Vec<Shell> = (0..n)
                    .map(|j| match kind {
                        0 => boxx([j, 0, 0], [j + 1, 2, 1], (j * 11 % 64) as usize),
                        1 => boxx([j, j, 0], [j + 2, j + 2, 2], (j * 5 % 64) as usize),
                        2 => boxx([j; 3], [2 * n + 1 - j; 3], (j * 7 % 64) as usize),
                        3 => boxx([0; 3], [2, 1, 1], (j * 13 % 64) as usize),
                        _ => boxx([j % 2, j / 2 % 2, j / 4], [j % 2 + 1, j / 2 % 2 + 1, j / 4 + 1], (j * 3 % 64) as usize),
                    })
                    .collect();
                let vol = vox_volume(&s);
                s.rotate_left(sd % n as usize);
                union_case(&s, &Opt { place: &p[k], seed: idx, order: sd, perm: None, layout: (idx % 3) as usize }, &[], Some(vol), cx)
            },
        ));
    }
    {
        let p = pls.clone();
        let reps = if th { np } else { 1 };
        fams.push(Family::new(
            "pinched-face",
            "tetrahedra standing on one large triangle (or on a box), any two of four at each of up to three neighbouring points, which they touch or overlap: the uncovered part of the triangle touches itself at several points joined by inner edges",
            343 * 3 * 2 * 2 * reps,
            move |idx, cx| {
                let mut i = idx;
                let sp = [4i64, 6, 8][take(&mut i, 3)];
                let skew = take(&mut i, 2) as i64;
                let body = take(&mut i, 2);
                let mut s = vec![if body == 0 { tet([-20, -16, 0], [24, -16, 0], [2, 30, 0], [2, 0, -20]).unwrap() } else { boxx([-9, -8, -5], [14, 15, 0], (idx % 64) as usize) }];
                for c in [[0, 0], [sp, 0], [sp / 2, sp]] {
                    let k = take(&mut i, 7);
                    if k == 6 {
                        continue;
                    }
                    for d in combo(k as u64, 4, 2) {
                        let o = [[[1, 3], [-1, 3]], [[-3, 1], [-3, -1]], [[-1, -3], [1, -3]], [[3, -1], [3, 1]]][d as usize];
                        let q = |x: [i64; 2]| -> Q { [c[0] + x[0], c[1] + x[1], 0] };
                        s.push(tet([c[0], c[1], 0], q(o[0]), q(o[1]), [c[0] + o[0][0] * skew, c[1] + o[0][1] * (1 - skew), 2 + skew]).unwrap());
                    }
                }
                let k = if cx.thorough { i } else { idx / 12 } % np;
                let r = idx as usize % s.len();
                s.rotate_left(r);
                union_case(&s, &Opt { place: &p[k as usize], seed: idx, order: (idx % 5) as usize, perm: None, layout: (idx / 2 % 3) as usize }, &[], None, cx)
            },
        ));
    }
    {
        // triangles without area are dropped: what is left has to stay with its shell
        let p = pls.clone();
        let rel = Arc::new(relations());
        let nr = rel.len() as u64;
        fams.push(Family::new(
            "degenerate-triangles",
            "two boxes in every combination of the 13 interval relations per axis, one shell with 1..13 triangles of two equal corners, with triangles split at an edge's midpoint and closed by a triangle without area, or with a shell (before, between or after) that has only such triangles or none",
            nr * nr * nr * 4,
            move |idx, cx| {
                let mut i = idx;
                let mode = take(&mut i, 4);
                let r = [0, 1, 2].map(|_| rel[take(&mut i, nr)]);
                let two = |x: [i64; 3]| x.map(|v| 2 * v);
                let mut s = vec![
                    boxx(two([r[0][0], r[1][0], r[2][0]]), two([r[0][1], r[1][1], r[2][1]]), (idx % 64) as usize),
                    boxx(two([r[0][2], r[1][2], r[2][2]]), two([r[0][3], r[1][3], r[2][3]]), (idx % 61) as usize),
                ];
                let vol = vox_volume(&s);
                let h = idx as usize / 4;
                let flat = |t: Tri, k: usize| -> Tri { [[t[0], t[0], t[1]], [t[1], t[2], t[2]], [t[2], t[1], t[2]], [t[0]; 3]][k % 4] };
                let w = h % 2;
                match mode {
                    0 => {
                        // spread over the shell
                        let n = 1 + h % 13;
                        for k in 0..n {
                            let t = s[w].0[(k * 5) % s[w].0.len()];
                            let at = (h / 13 * k * 3) % (s[w].0.len() + 1);
                            s[w].0.insert(at, flat(t, k + h));
                        }
                    }
                    1 => {
                        let n = 1 + h % 6;
                        for k in 0..n {
                            let j = (k * 3) % s[w].0.len();
                            let [a, b, c] = s[w].0[j];
                            let m = [0, 1, 2].map(|x| (a[x] + b[x]) / 2);
                            if m == a || m == b || [0, 1, 2].iter().any(|&x| 2 * m[x] != a[x] + b[x]) {
                                continue;
                            }
                            s[w].0[j] = [a, b, m];
                            s[w].0.extend([[a, m, c], [m, b, c]]);
                        }
                        if h % 3 == 0 {
                            s[w].0.reverse();
                        }
                    }
                    2 => {
                        let only = Shell((0..1 + h % 4).map(|k| flat(s[w].0[k], k + h)).collect());
                        s.insert(h % 3, only);
                    }
                    _ => s.insert(h % 2, Shell(vec![])),
                }
                union_case(&s, &Opt { place: &p[(idx % np) as usize], seed: idx, order: (idx % 5) as usize, perm: None, layout: (idx / 2 % 3) as usize }, &[], Some(vol), cx)
            },
        ));
    }
    {
        let p = loose_places();
        let np = p.len() as u64;
        let rel = Arc::new(relations());
        let nr = rel.len() as u64;
        let polys = Arc::new(prism_bases());
        fams.push(Family::new(
            "rounded-box-pairs",
            format!("two boxes in every combination of the {nr} interval relations per axis, {np} placements whose coordinates are rounded (coincident faces differ by rounding); watertight, points away from the surfaces classified, volume within rounding"),
            nr * nr * nr * np,
            {
                let p = p.clone();
                move |idx, cx| {
                    let mut i = idx;
                    let r = [0, 1, 2].map(|_| rel[take(&mut i, nr)]);
                    let k = take(&mut i, np);
                    let a = boxx([r[0][0], r[1][0], r[2][0]], [r[0][1], r[1][1], r[2][1]], (idx % 64) as usize);
                    let b = boxx([r[0][2], r[1][2], r[2][2]], [r[0][3], r[1][3], r[2][3]], (idx / 64 % 64) as usize);
                    let s = [a, b];
                    let vol = vox_volume(&s);
                    union_case(&s, &Opt { place: &p[k], seed: idx, order: (idx % 5) as usize, perm: None, layout: (idx % 3) as usize }, &cell_grid(-1, 4), Some(vol), cx)
                }
            },
        ));
        let npo = polys.len() as u64;
        let offs: i64 = if th { 7 } else { 3 };
        fams.push(Family::new(
            "rounded-prisms",
            "pairs of concave/convex polygon prisms, crosswise, in rounded placements",
            npo * npo * 3 * pow(offs as u64, 3),
            move |idx, cx| {
                let mut i = idx;
                let (a, b) = (&polys[take(&mut i, npo)], &polys[take(&mut i, npo)]);
                let r = take(&mut i, 3);
                let o = [0, 1, 2].map(|_| take(&mut i, offs as u64) as i64 * if offs == 3 { 2 } else { 1 } - 2);
                let sa = prism(&a.0, &a.1, 0, 2);
                let mut sb = prism(&b.0, &b.1, -1, 3);
                for q in sb.0.iter_mut().flatten() {
                    let t = *q;
                    let t = [t, [t[2], t[0], t[1]], [t[1], t[2], t[0]]][r];
                    *q = [0, 1, 2].map(|k| t[k] + o[k]);
                }
                union_case(&[sa, sb], &Opt { place: &p[(idx % np) as usize], seed: idx, order: (idx % 5) as usize, perm: None, layout: (idx % 3) as usize }, &cell_grid(-3, 7), None, cx)
            },
        ));
    }
    {
        let p: Vec<Place> = [(0, "integers"), (-9, "2^-9")].map(|(k, n)| Place { loose: true, ..scaled(k, n) }).to_vec();
        fams.push(Family::new(
            "dense-solids",
            "finely triangulated solids (balls of 128..512 triangles, rings of 96..200, boxes of 192..432): every pair of six at offsets on a 3x3x3 grid, hundreds of vertices of the result are no doubles",
            36 * 27 / if th { 1 } else { 9 },
            move |idx, cx| {
                let idx = if cx.thorough { idx } else { idx * 9 + idx % 9 };
                let mut i = idx;
                let make = |k: usize, c: Q| match k {
                    0 => ball(4, 300.0, c),
                    1 => ball(6, 512.0, c),
                    2 => ring(12, 4, 400.0, 150.0, c),
                    3 => ring(20, 5, 256.0, 200.0, c),
                    4 => fine_box(4, 128, [c[0] - 256, c[1] - 256, c[2] - 256]),
                    _ => fine_box(6, 64, [c[0] - 192, c[1] - 192, c[2] - 192]),
                };
                let off = [0, 1, 2].map(|_| take(&mut i, 3) as i64 * 128);
                let s = [make(take(&mut i, 6), [0; 3]), make(take(&mut i, 6), off)];
                let grid: Vec<P> = (0..512).map(|k| [k % 8, k / 8 % 8, k / 64].map(|x| x as f64 * 171.3 - 583.7)).collect();
                union_case(&s, &Opt { place: &p[(idx % 2) as usize], seed: idx, order: (idx % 5) as usize, perm: None, layout: (idx % 3) as usize }, &grid, None, cx)
            },
        ));
    }
    Check {
        id: "C22",
        families: fams,
        assumptions: vec!["input points lie on the library's rounding grid; winding numbers are computed in doubles at points away from all surfaces".into()],
    }
}
pub fn clip(mut s: String, n: usize) -> String {
    if std::env::var("GPFMC_FULL").is_err() && s.len() > n {
        s.truncate(n);
        s.push_str("...");
    }
    s
}
