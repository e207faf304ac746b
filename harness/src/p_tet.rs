//! C19-C20: Delaunay tetrahedralization for every insertion order, and its navigation.
use crate::core::*;
use crate::enumr::*;
use crate::geo;
use gpf::triangle::{self as gt, TetMesh, TriFace};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

pub type Q = [i64; 3];
fn det3(a: [i128; 3], b: [i128; 3], c: [i128; 3]) -> i128 {
    a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
}
fn d(a: Q, b: Q) -> [i128; 3] {
    [(a[0] - b[0]) as i128, (a[1] - b[1]) as i128, (a[2] - b[2]) as i128]
}
/// sign of det(a-d, b-d, c-d)
pub fn o3(a: Q, b: Q, c: Q, e: Q) -> i32 {
    det3(d(a, e), d(b, e), d(c, e)).signum() as i32
}
/// > 0: e inside the sphere of a,b,c,f when o3(a,b,c,f) > 0
fn insph(p: [Q; 5]) -> i32 {
    let r: Vec<[i128; 3]> = (0..4).map(|i| d(p[i], p[4])).collect();
    let l: Vec<i128> = r.iter().map(|v| v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).collect();
    let m = |a: usize, b: usize, c: usize| det3(r[a], r[b], r[c]);
    // expansion along the last column
    let det = -l[0] * m(1, 2, 3) + l[1] * m(0, 2, 3) - l[2] * m(0, 1, 3) + l[3] * m(0, 1, 2);
    det.signum() as i32
}
#[derive(Clone, Copy)]
pub struct Map3 {
    pub name: &'static str,
    a: [[f64; 3]; 3],
    o: [f64; 3],
    im: [[i64; 3]; 3],
    lim: i64,
}
impl Map3 {
    pub fn at(&self, q: Q) -> [f64; 3] {
        [0, 1, 2].map(|k| self.a[k][0] * q[0] as f64 + self.a[k][1] * q[1] as f64 + self.a[k][2] * q[2] as f64 + self.o[k])
    }
    fn int(&self, q: Q) -> Q {
        [0, 1, 2].map(|k| self.im[k][0] * q[0] + self.im[k][1] * q[1] + self.im[k][2] * q[2])
    }
}
pub fn maps3() -> Vec<Map3> {
    let p = |e: i32| 2f64.powi(e);
    let diag = |a: f64, b: f64, c: f64| [[a, 0., 0.], [0., b, 0.], [0., 0., c]];
    let id = [[1, 0, 0], [0, 1, 0], [0, 0, 1]];
    let lim = 1 << 20;
    let fm = |m: [[i64; 3]; 3]| m.map(|r| r.map(|x| x as f64));
    let rot = [[1, 2, 2], [2, 1, -2], [2, -2, 1]];
    let cyc = [[0, 1, 0], [0, 0, 1], [1, 0, 0]];
    let shear = [[1, 2, 0], [0, 1, 3], [0, 0, 1]];
    vec![
        Map3 { name: "integers", a: diag(1., 1., 1.), o: [0.; 3], im: id, lim },
        Map3 { name: "one-ulp lattice at 1", a: diag(p(-52), p(-52), p(-52)), o: [1.; 3], im: id, lim },
        Map3 { name: "turned", a: fm(rot), o: [0.; 3], im: rot, lim },
        Map3 { name: "axes exchanged", a: fm(cyc), o: [0., 1., -7.], im: cyc, lim },
        Map3 { name: "stretched", a: diag(256., 1., 1.), o: [0.; 3], im: [[256, 0, 0], [0, 1, 0], [0, 0, 1]], lim },
        Map3 { name: "flattened", a: diag(1., 1., p(-6)), o: [0.; 3], im: [[64, 0, 0], [0, 64, 0], [0, 0, 1]], lim },
        Map3 { name: "sheared, offset 2^40", a: fm(shear), o: [p(40), -p(40), p(39)], im: shear, lim: 1 << 10 },
        Map3 { name: "mirrored 2^-30", a: diag(-p(-30), p(-30), p(-30)), o: [0.; 3], im: [[-1, 0, 0], [0, 1, 0], [0, 0, 1]], lim },
        Map3 { name: "one-ulp lattice at 2^20", a: diag(p(-32), p(-32), p(-32)), o: [p(20), -p(20), p(20)], im: id, lim },
    ]
}

/// Runs the builder under a chosen insertion order and hands the mesh to `f`.
fn build<T>(pts: &[f64], order: Option<&[usize]>, f: impl FnOnce(&mut TetMesh) -> T) -> Result<T, String> {
    gpf::mc_hook::set_insertion_order(Some(match order {
        Some(o) => o.to_vec(),
        None => (0..pts.len() / 3).collect(),
    }));
    let r = guarded(|| {
        let mut m = gt::tetrahedralize(pts);
        f(&mut m)
    });
    gpf::mc_hook::set_insertion_order(None);
    r
}
fn coplanar(p: &[Q]) -> bool {
    let n = p.len();
    if n < 4 {
        return true;
    }
    let Some(b) = (1..n).find(|&i| p[i] != p[0]) else { return true };
    let cr = |u: [i128; 3], v: [i128; 3]| [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]];
    let Some(c) = (1..n).find(|&i| cr(d(p[b], p[0]), d(p[i], p[0])) != [0, 0, 0]) else { return true };
    (0..n).all(|i| o3(p[0], p[b], p[c], p[i]) == 0)
}

const FACES: [[usize; 3]; 4] = [[1, 2, 3], [0, 3, 2], [0, 1, 3], [0, 2, 1]];

/// C19 on integer coordinates. `tets`: vertex lists of the non-ghost tetrahedra.
fn check_delaunay(p: &[Q], tets: &[[usize; 4]]) -> Result<(), String> {
    let n = p.len();
    if coplanar(p) {
        return if tets.is_empty() { Ok(()) } else { Err(format!("coplanar input gives {} tetrahedra", tets.len())) };
    }
    if tets.is_empty() {
        return Err("no tetrahedra".into());
    }
    let mut used = vec![false; n];
    let mut faces: HashMap<[usize; 3], usize> = HashMap::with_capacity(tets.len() * 4);
    let canon = |f: [usize; 3]| {
        let k = (0..3).min_by_key(|&i| f[i]).unwrap();
        [f[k], f[(k + 1) % 3], f[(k + 2) % 3]]
    };
    for t in tets {
        if t.iter().any(|&v| v >= n) {
            return Err(format!("tetrahedron {t:?} refers to a point that does not exist"));
        }
        // the builder's convention: det(a-d, b-d, c-d) < 0
        let s = o3(p[t[0]], p[t[1]], p[t[2]], p[t[3]]);
        if s >= 0 {
            return Err(format!("tetrahedron {t:?} is {}", if s == 0 { "flat" } else { "inside out" }));
        }
        t.iter().for_each(|&v| used[v] = true);
        for (k, f) in FACES.iter().enumerate() {
            if faces.insert(canon([t[f[0]], t[f[1]], t[f[2]]]), t[k]).is_some() {
                return Err(format!("oriented face of {t:?} belongs to two tetrahedra"));
            }
        }
    }
    if let Some(v) = used.iter().position(|u| !u) {
        return Err(format!("point {v} is not used"));
    }
    let small = n <= 24;
    for (f, &w) in &faces {
        let back = canon([f[0], f[2], f[1]]);
        match faces.get(&back) {
            None => {
                let s = o3(p[f[0]], p[f[1]], p[f[2]], p[w]);
                if let Some(k) = (0..n).find(|&k| o3(p[f[0]], p[f[1]], p[f[2]], p[k]) * s < 0) {
                    return Err(format!("face {f:?} has no neighbour but point {k} is outside of it"));
                }
            }
            Some(&x) => {
                let s = o3(p[f[0]], p[f[1]], p[f[2]], p[w]);
                if o3(p[f[0]], p[f[1]], p[f[2]], p[x]) * s >= 0 {
                    return Err(format!("tetrahedra on face {f:?} overlap"));
                }
                if !small && f[0] < back[1] && insph([p[f[0]], p[f[1]], p[f[2]], p[w], p[x]]) * s > 0 {
                    return Err(format!("point {x} is inside the sphere of {f:?},{w}"));
                }
            }
        }
    }
    if small {
        for t in tets {
            let s = o3(p[t[0]], p[t[1]], p[t[2]], p[t[3]]);
            for k in 0..n {
                if !t.contains(&k) && insph([p[t[0]], p[t[1]], p[t[2]], p[t[3]], p[k]]) * s > 0 {
                    return Err(format!("point {k} is inside the sphere of {t:?}"));
                }
            }
        }
    }
    // the covering has constant degree inside the hull; it is 1 at a point of the first tetrahedron
    let w = [1, 2, 4, 8];
    let q: Q = [0, 1, 2].map(|c| (0..4).map(|k| w[k] * p[tets[0][k]][c]).sum());
    for t in &tets[1..] {
        let v: Vec<Q> = t.iter().map(|&k| p[k].map(|c| 15 * c)).collect();
        if FACES.iter().all(|f| o3(v[f[0]], v[f[1]], v[f[2]], q) * o3(v[f[0]], v[f[1]], v[f[2]], [0, 1, 2].map(|c| v.iter().map(|u| u[c]).sum::<i64>() / 4)) >= 0)
            && inside_closed(&v, q)
        {
            return Err(format!("tetrahedra {:?} and {t:?} overlap", tets[0]));
        }
    }
    Ok(())
}
fn inside_closed(v: &[Q], q: Q) -> bool {
    let s = o3(v[0], v[1], v[2], v[3]);
    (0..4).all(|k| {
        let mut w = [v[0], v[1], v[2], v[3]];
        w[k] = q;
        o3(w[0], w[1], w[2], w[3]) * s >= 0
    })
}

fn real_tets(m: &TetMesh) -> Vec<[usize; 4]> {
    (0..m.tets.len()).filter(|&t| !m.is_hull_tet(t)).map(|t| m.tets[t].data).collect()
}

/// C20: adjacency and navigation laws of the whole mesh.
fn check_nav(m: &mut TetMesh) -> Result<u64, String> {
    let n = m.n_points;
    let nt = m.tets.len();
    let mut laws = 0u64;
    if nt == 0 {
        return Ok(0);
    }
    let ghost: Vec<bool> = (0..nt).map(|t| m.is_hull_tet(t)).collect();
    let set = |m: &TetMesh, f: &TriFace| {
        let mut v = [m.org(f), m.dest(f), m.apex(f)];
        v.sort();
        v
    };
    let mut hull_faces: HashMap<[usize; 3], usize> = HashMap::new();
    for t in 0..nt {
        let data = m.tets[t].data;
        for i in 0..4 {
            for j in 0..i {
                if data[i] == data[j] {
                    return Err(format!("tetrahedron {t} repeats a vertex: {data:?}"));
                }
            }
            if data[i] > n || (data[i] == n && (i != 3 || !ghost[t])) {
                return Err(format!("tetrahedron {t} has vertices {data:?} (ghost vertex {n} has to be last)"));
            }
            if m.tets[t].index(data[i]) != Some(i) {
                return Err(format!("index({}) of tetrahedron {t} {data:?}", data[i]));
            }
            let vp = TriFace::new(t, gt::VPIVOT[i]);
            if m.org(&vp) != data[i] {
                return Err(format!("VPIVOT[{i}] does not start at vertex {i}"));
            }
        }
        if m.tets[t].index(n + 7).is_some() {
            return Err("index() finds a foreign vertex".into());
        }
        for i in 0..4 {
            let nf = m.tets[t].nei[i].clone();
            if nf.tet >= nt || nf.ver >= 12 {
                return Err(format!("tetrahedron {t} {data:?} neighbour {i} is {},{}", nf.tet, nf.ver));
            }
            let back = &m.tets[nf.tet].nei[nf.ver & 3];
            if back.tet != t || back.ver & 3 != i {
                return Err(format!("neighbour {i} of {t} is {}, which does not point back", nf.tet));
            }
            let mut a: Vec<usize> = (0..4).filter(|&k| k != i).map(|k| data[k]).collect();
            let mut b: Vec<usize> = (0..4).filter(|&k| k != nf.ver & 3).map(|k| m.tets[nf.tet].data[k]).collect();
            a.sort();
            b.sort();
            if a != b {
                return Err(format!("tetrahedra {t} {data:?} and {} {:?} do not share face {i}", nf.tet, m.tets[nf.tet].data));
            }
            if i == 3 && ghost[t] {
                if ghost[nf.tet] {
                    return Err(format!("ghost {t} sits on a ghost"));
                }
            } else if ghost[t] && !ghost[nf.tet] {
                return Err(format!("ghost {t} touches a real tetrahedron over face {i}"));
            }
            if !ghost[t] && ghost[nf.tet] {
                *hull_faces.entry([a[0], a[1], a[2]]).or_insert(0) += 1;
            }
        }
        for ver in 0..12 {
            laws += 1;
            let f = TriFace::new(t, ver);
            let (o, de, ap, op) = (m.org(&f), m.dest(&f), m.apex(&f), m.oppo(&f));
            let mut s = [o, de, ap, op];
            s.sort();
            let mut ds = data;
            ds.sort();
            if s != ds {
                return Err(format!("version {ver} of {t} does not name its four vertices"));
            }
            if data[ver & 3] != op {
                return Err(format!("version {ver} is not the face opposite to vertex {}", ver & 3));
            }
            // every version keeps the tetrahedron's orientation
            let perm: Vec<usize> = [o, de, ap, op].iter().map(|v| data.iter().position(|x| x == v).unwrap()).collect();
            let par = perm_parity(&perm);
            let f0 = TriFace::new(t, 11);
            let p0: Vec<usize> = [m.org(&f0), m.dest(&f0), m.apex(&f0), m.oppo(&f0)].iter().map(|v| data.iter().position(|x| x == v).unwrap()).collect();
            if par != perm_parity(&p0) {
                return Err(format!("version {ver} flips the orientation"));
            }
            let v4 = |g: &TriFace| [m.org(g), m.dest(g), m.apex(g), m.oppo(g)];
            let chk = |name: &str, g: &TriFace, want: [usize; 4]| {
                if g.tet != t || v4(g) != want {
                    Err(format!("{name} of version {ver}: {:?}, expected {want:?} (from {:?})", v4(g), [o, de, ap, op]))
                } else {
                    Ok(())
                }
            };
            let mut g = f.clone();
            g.enext_self();
            chk("enext", &g, [de, ap, o, op])?;
            let mut h = TriFace::default();
            gt::enext(&f, &mut h);
            chk("enext", &h, [de, ap, o, op])?;
            let mut g = f.clone();
            g.eprev_self();
            chk("eprev", &g, [ap, o, de, op])?;
            let mut h = TriFace::default();
            gt::eprev(&f, &mut h);
            chk("eprev", &h, [ap, o, de, op])?;
            let mut g = f.clone();
            g.esym_self();
            chk("esym", &g, [de, o, op, ap])?;
            g.esym_self();
            if g.ver != ver {
                return Err(format!("esym twice changes version {ver}"));
            }
            let mut g = f.clone();
            g.enext_esym_self();
            chk("enext_esym", &g, [ap, de, op, o])?;
            let mut g = f.clone();
            g.eprev_esym_self();
            chk("eprev_esym", &g, [o, ap, op, de])?;
            // across the face and back
            let mut g = TriFace::default();
            m.fsym(&f, &mut g);
            if g.tet != m.tets[t].nei[ver & 3].tet || [m.org(&g), m.dest(&g), m.apex(&g)] != [de, o, ap] {
                return Err(format!("fsym of {t},{ver} is {},{}: {:?} for {:?}", g.tet, g.ver, v4(&g), [o, de, ap, op]));
            }
            let mut h = f.clone();
            m.fsym_self(&mut h);
            if (h.tet, h.ver) != (g.tet, g.ver) {
                return Err("fsym_self differs from fsym".into());
            }
            m.fsym_self(&mut h);
            if (h.tet, h.ver) != (t, ver) {
                return Err(format!("fsym twice leads from {t},{ver} to {},{}", h.tet, h.ver));
            }
            // around the edge
            let mut h = f.clone();
            m.fnext_self(&mut h);
            if m.org(&h) != o || m.dest(&h) != de || m.apex(&h) != op {
                return Err(format!("fnext of {t},{ver}"));
            }
            let mut ring = HashSet::new();
            let mut h = f.clone();
            loop {
                if !ring.insert(h.tet) {
                    return Err(format!("turning around edge {o},{de} visits {} twice", h.tet));
                }
                m.fnext_self(&mut h);
                if h.tet == t {
                    break;
                }
            }
            if h.ver != ver {
                return Err(format!("turning around edge {o},{de} returns with version {}", h.ver));
            }
            if nt <= 64 {
                for u in 0..nt {
                    if m.tets[u].data.contains(&o) && m.tets[u].data.contains(&de) && !ring.contains(&u) {
                        return Err(format!("turning around edge {o},{de} misses tetrahedron {u}"));
                    }
                }
            }
            let _ = set(m, &f);
        }
    }
    let ng = ghost.iter().filter(|g| **g).count();
    if hull_faces.len() != ng || hull_faces.values().any(|c| *c != 1) {
        return Err(format!("{} hull faces, {ng} ghosts", hull_faces.len()));
    }
    // vertex map and stars
    let mut star: Vec<Vec<usize>> = vec![Vec::new(); n + 1];
    for t in 0..nt {
        for &v in &m.tets[t].data {
            star[v].push(t);
        }
    }
    for v in 0..n {
        let t = m.p2t[v];
        if t >= nt || !m.tets[t].data.contains(&v) || ghost[t] {
            return Err(format!("p2t[{v}] = {t} is not a real tetrahedron of the vertex"));
        }
        for round in 0..2 {
            let b = bumpalo::Bump::new();
            let mut got: Vec<usize> = m.incident(v, &b).iter().copied().collect();
            let want: Vec<usize> = star[v].iter().copied().filter(|&t| !ghost[t]).collect();
            got.sort();
            if got != want {
                return Err(format!("incident({v}) = {got:?}, expected {want:?} (call {round})"));
            }
        }
        laws += 1;
    }
    // marks are independent of each other and of other tetrahedra
    for t in 0..nt.min(3) {
        if m.infected(t) || m.mark_tested(t) {
            return Err(format!("tetrahedron {t} is marked after construction"));
        }
        m.infect(t);
        let a = (m.infected(t), m.mark_tested(t));
        m.mark_test(t);
        let b = (m.infected(t), m.mark_tested(t));
        m.uninfect(t);
        let c = (m.infected(t), m.mark_tested(t));
        m.unmark_test(t);
        let e = (m.infected(t), m.mark_tested(t));
        if (a, b, c, e) != ((true, false), (true, true), (false, true), (false, false)) {
            return Err("marks interfere".into());
        }
    }
    for t in 0..nt {
        if m.infected(t) || m.mark_tested(t) {
            return Err(format!("tetrahedron {t} is left marked"));
        }
    }
    Ok(laws)
}

fn case(p: &[Q], m: &Map3, order: Option<&[usize]>, nav: bool, cx: &mut Ctx) -> Res {
    if p.iter().flatten().any(|c| c.abs() > m.lim) {
        return Ok(());
    }
    let f: Vec<f64> = p.iter().flat_map(|q| m.at(*q)).collect();
    cx.state(1);
    cx.trace(1);
    let r = if nav {
        build(&f, order, |t| check_nav(t)).and_then(|x| x)
    } else {
        let q: Vec<Q> = p.iter().map(|x| m.int(*x)).collect();
        build(&f, order, |t| real_tets(t)).and_then(|t| check_delaunay(&q, &t).map(|_| t.len() as u64))
    };
    match r {
        Ok(k) => {
            cx.step(k);
            if k > 1 {
                cx.nontrivial += 1;
            }
            cx.sample(|| format!("{} points ({}), order {:?} -> {k} {}", p.len(), m.name, order.map(|o| &o[..o.len().min(9)]), if nav { "laws" } else { "tetrahedra" }));
            Ok(())
        }
        Err(e) => {
            let show: Vec<&Q> = p.iter().take(10).collect();
            let ord: Option<Vec<usize>> = order.map(|o| o.iter().copied().take(10).collect());
            cx.fail(format!("{}:{show:?}:{ord:?}", m.name), format!("{} points {show:?}.. map {} insertion order {ord:?}: {e}", p.len(), m.name))
        }
    }
}

/// A set of distinct points small enough to be explored under every insertion order.
fn named_sets() -> Vec<(&'static str, Vec<Q>)> {
    vec![
        ("cube", (0..8).map(|b| [b & 1, b >> 1 & 1, b >> 2 & 1]).collect()),
        ("octahedron and centre", vec![[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [0, 0, 0]]),
        ("flat grid and apex", vec![[0, 0, 0], [1, 0, 0], [2, 0, 0], [0, 1, 0], [1, 1, 0], [2, 1, 0], [0, 0, 1]]),
        ("line and two points", vec![[0, 0, 0], [1, 0, 0], [2, 0, 0], [3, 0, 0], [4, 0, 0], [0, 1, 0], [0, 0, 1]]),
        ("tetrahedron with points on edges, face and inside", vec![[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4], [2, 0, 0], [1, 1, 0], [1, 1, 1]]),
        ("two skew lines", vec![[0, 0, 0], [1, 0, 0], [2, 0, 0], [3, 0, 0], [0, 0, 1], [0, 1, 1], [0, 2, 1]]),
        ("prism", vec![[0, 0, 0], [2, 0, 0], [1, 2, 0], [0, 0, 3], [2, 0, 3], [1, 2, 3], [1, 1, 1]]),
        ("cocircular base with two apexes", vec![[5, 0, 0], [3, 4, 0], [-3, 4, 0], [-5, 0, 0], [0, -5, 0], [0, 0, 5], [0, 0, -5]]),
        ("cube faces' centres", vec![[1, 1, 0], [1, 1, 2], [1, 0, 1], [1, 2, 1], [0, 1, 1], [2, 1, 1], [0, 0, 0], [2, 2, 2]]),
        ("spiral", (0..7).map(|i| [i, i * i, i * i * i]).collect()),
    ]
}
fn lcg(s: &mut u64) -> u64 {
    *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    *s >> 33
}
/// integer points of a sphere
fn sphere(r2: i64) -> Vec<Q> {
    let r = (r2 as f64).sqrt() as i64 + 1;
    let mut v = Vec::new();
    for x in -r..=r {
        for y in -r..=r {
            let z2 = r2 - x * x - y * y;
            if z2 < 0 {
                continue;
            }
            let z = (z2 as f64).sqrt().round() as i64;
            if z * z == z2 {
                v.push([x, y, z]);
                if z != 0 {
                    v.push([x, y, -z]);
                }
            }
        }
    }
    v
}
fn structured(th: bool) -> Vec<(String, Vec<Q>)> {
    let mut v: Vec<(String, Vec<Q>)> = Vec::new();
    let grid = |a: i64, b: i64, c: i64| -> Vec<Q> { (0..a * b * c).map(|i| [i % a, i / a % b, i / a / b]).collect() };
    for (a, b, c) in [(2, 2, 9), (9, 2, 2), (3, 3, 3), (4, 4, 4), (5, 5, 5), (2, 7, 6), (8, 8, 2), (7, 7, 7)] {
        v.push((format!("grid {a}x{b}x{c}"), grid(a, b, c)));
        v.push((format!("body-centred grid {a}x{b}x{c}"), grid(a, b, c).into_iter().flat_map(|q| [q.map(|x| 2 * x), q.map(|x| 2 * x + 1)]).collect()));
    }
    for n in [6i64, 30, 80] {
        v.push((format!("line of {n} and two points"), (0..n).map(|i| [i, i, 2 * i]).chain([[1, 50, 0], [-7, 1, 3]]).collect()));
        v.push((format!("two skew lines of {n}"), (0..n).map(|i| [i, 0, 0]).chain((0..n).map(|i| [0, i, 1])).collect()));
        v.push((format!("moment curve of {n}"), (0..n).map(|i| [i, i * i, (i * i * i) % 100003]).collect()));
        v.push((format!("flat grid of {n} and apex"), (0..n).map(|i| [i % 7, i / 7, 0]).chain([[3, 3, 5]]).collect()));
        v.push((format!("flat grid of {n} between two"), (0..n).map(|i| [i % 7, i / 7, 0]).chain([[3, 3, 5], [2, 1, -4]]).collect()));
        v.push((format!("coplanar {n}"), (0..n).map(|i| [i % 7, i / 7, 2 * (i % 7) - i / 7]).collect()));
        v.push((format!("cone of {n}"), (1..n).flat_map(|i| [[i, i * i, 0], [-i, i * i, 0]]).chain([[0, 0, 9]]).collect()));
    }
    for r2 in [9i64, 41, 101, 506, 2009, 10001] {
        let s = sphere(r2);
        v.push((format!("sphere of {} (r2={r2})", s.len()), s.clone()));
        let mut c = s.clone();
        c.push([0, 0, 0]);
        v.push((format!("sphere of {} and centre", s.len()), c.clone()));
        c.extend(sphere(4 * r2));
        c.sort();
        c.dedup();
        v.push((format!("two spheres (r2={r2})"), c));
    }
    let reps = if th { 12 } else { 2 };
    for (n, w) in [(12usize, 4i64), (40, 5), (63, 9), (64, 10), (65, 8), (100, 1000), (300, 9), (600, 30), (1500, 4000)] {
        for s in 0..reps {
            let mut st = 1234 + s + 977 * n as u64;
            let mut set = std::collections::BTreeSet::new();
            while set.len() < n {
                set.insert([0, 0, 0].map(|_: i64| lcg(&mut st) as i64 % w));
            }
            v.push((format!("scattered {n} in {w}^3 #{s}"), set.into_iter().collect()));
        }
    }
    // inserting a point near the centre removes everything: cavities with thousands of faces
    for (k, r2) in [(0u64, 101_801i64), (1, 99_998)].iter() {
        let s = sphere(*r2);
        let mut c = s.clone();
        c.extend([[0, 0, 0], [7, -3, 2], [-5, 11, 1], [20, 20, 20], [-60, 3, -9], [1, 1, 1]]);
        let mut st = 5 + k;
        for i in (1..c.len()).rev() {
            c.swap(i, lcg(&mut st) as usize % (i + 1));
        }
        v.push((format!("sphere of {} with points inside", s.len()), c));
    }
    v
}
fn ulp_check(p: &[[f64; 3]], order: Option<&[usize]>, cx: &mut Ctx) -> Res {
    let n = p.len();
    let f: Vec<f64> = p.iter().flatten().copied().collect();
    let refs: Vec<&[f64]> = p.iter().map(|x| &x[..]).collect();
    let q = geo::scale3(&refs);
    cx.state(1);
    cx.trace(1);
    let bad = |cx: &mut Ctx, e: String| cx.fail(format!("{p:?}:{order:?}"), format!("points {p:?} order {order:?}: {e}"));
    let t = match build(&f, order, |t| real_tets(t)) {
        Err(e) => return bad(cx, e),
        Ok(t) => t,
    };
    cx.step(t.len() as u64);
    cx.nontrivial += 1;
    let flat = {
        let mut fl = true;
        'x: for i in 0..n {
            for j in 0..i {
                for k in 0..j {
                    for l in 0..k {
                        if geo::o3(&q[i], &q[j], &q[k], &q[l]) != 0 {
                            fl = false;
                            break 'x;
                        }
                    }
                }
            }
        }
        fl
    };
    if flat {
        return if t.is_empty() { Ok(()) } else { bad(cx, format!("coplanar, yet {t:?}")) };
    }
    if t.is_empty() {
        return bad(cx, "no tetrahedra".into());
    }
    let mut faces: HashMap<[usize; 3], [usize; 4]> = HashMap::new();
    for x in &t {
        let s = geo::o3(&q[x[0]], &q[x[1]], &q[x[2]], &q[x[3]]);
        if s >= 0 {
            return bad(cx, format!("tetrahedron {x:?} is flat or inside out"));
        }
        for k in 0..n {
            if !x.contains(&k) {
                let i = geo::insph(&[q[x[0]].clone(), q[x[1]].clone(), q[x[2]].clone(), q[x[3]].clone(), q[k].clone()]);
                // insph > 0 inside when positively oriented
                if -i * s < 0 {
                    return bad(cx, format!("point {k} inside the sphere of {x:?}"));
                }
            }
        }
        for fc in FACES {
            let g = [x[fc[0]], x[fc[1]], x[fc[2]]];
            let k = (0..3).min_by_key(|&i| g[i]).unwrap();
            if faces.insert([g[k], g[(k + 1) % 3], g[(k + 2) % 3]], *x).is_some() {
                return bad(cx, "oriented face twice".into());
            }
        }
    }
    for (g, x) in &faces {
        if !faces.contains_key(&[g[0], g[2], g[1]]) {
            let w = *x.iter().find(|v| !g.contains(v)).unwrap();
            let s = geo::o3(&q[g[0]], &q[g[1]], &q[g[2]], &q[w]);
            if (0..n).any(|k| geo::o3(&q[g[0]], &q[g[1]], &q[g[2]], &q[k]) * s < 0) {
                return bad(cx, format!("open face {g:?}"));
            }
        }
    }
    if (0..n).any(|k| !t.iter().any(|x| x.contains(&k))) {
        return bad(cx, "unused point".into());
    }
    Ok(())
}

fn families(th: bool, nav: bool) -> Vec<Family> {
    let mut fams = Vec::new();
    let ms = Arc::new(maps3());
    let nm = ms.len() as u64;
    {
        let m = ms.clone();
        fams.push(Family::new(
            "cube-subsets",
            "every subset of the unit cube's corners with the points numbered in every order (ties are broken by number), two insertion orders, maps in turn",
            256 * nm,
            move |idx, cx| {
                let mut i = idx;
                let mk = take(&mut i, nm);
                let c: Vec<Q> = (0..8).filter(|b| i >> b & 1 == 1).map(|b| [b & 1, b >> 1 & 1, b >> 2 & 1]).collect();
                if c.is_empty() {
                    return Ok(());
                }
                let k = c.len();
                let full = c.len() < 8 || cx.thorough || mk == 0;
                for (j, pm) in all_perms(k).into_iter().enumerate() {
                    if !full && j % 9 != mk {
                        continue;
                    }
                    let p: Vec<Q> = pm.iter().map(|&x| c[x]).collect();
                    let rev: Vec<usize> = (0..k).rev().collect();
                    case(&p, &m[mk], if j % 2 == 0 { None } else { Some(&rev) }, nav, cx)?;
                }
                Ok(())
            },
        ));
    }
    {
        // far away points keep the cluster inside one cell of the spatial sort: the random order is used as is
        let sets = Arc::new(named_sets());
        let m = ms.clone();
        let n = sets.len() as u64;
        let orders = if th { 40320 } else { 5040 };
        fams.push(Family::new(
            "all-insertion-orders",
            format!("{} degenerate 7/8-point sets plus one distant point, inserted in every order ({} for 8-point sets), maps", n, if th { "all 40320" } else { "the 5040 that insert point 0 first" }),
            n * orders * if th { nm } else { 3 },
            move |idx, cx| {
                let mut i = idx;
                let s = take(&mut i, n);
                let mk = take(&mut i, if cx.thorough { nm } else { 3 });
                let (_, p) = &sets[s];
                let k = p.len();
                let total = fact(k as u64);
                if i >= total {
                    return Ok(());
                }
                let mut p = p.clone();
                p.push([-100, -100, -100]);
                let mut o = perm(i, k);
                // the distant point is sorted to its own cell; give it varying positions anyway
                o.insert(idx as usize % (k + 1), k);
                case(&p, &m[mk], Some(&o), nav, cx)
            },
        ));
    }
    for k in if th { 4..=7u64 } else { 4..=if nav { 5 } else { 6 } } {
        let m = ms.clone();
        fams.push(Family::new(
            format!("3x3x3-choose-{k}"),
            format!("every {k}-point subset of the 3x3x3 lattice, forward and backward insertion and numbering"),
            binom(27, k),
            move |idx, cx| {
                let c = combo(idx, 27, k);
                let mut p: Vec<Q> = c.iter().map(|&b| b as i64).map(|b| [b % 3, b / 3 % 3, b / 9]).collect();
                let rev: Vec<usize> = (0..p.len()).rev().collect();
                case(&p, &m[(idx % 9) as usize], None, nav, cx)?;
                case(&p, &m[(idx / 9 % 9) as usize], Some(&rev), nav, cx)?;
                p.reverse();
                case(&p, &m[0], None, nav, cx)
            },
        ));
    }
    {
        let m = ms.clone();
        let k = if th { 5 } else { 4 };
        fams.push(Family::new(
            "3x3x3-orders",
            format!("every {k}-point subset of the 3x3x3 lattice plus one distant point in every insertion order"),
            binom(27, k) / if nav { 3 } else { 1 },
            move |idx, cx| {
                let c = combo(if nav { idx * 3 } else { idx }, 27, k);
                let mut p: Vec<Q> = c.iter().map(|&b| b as i64).map(|b| [b % 3, b / 3 % 3, b / 9]).collect();
                p.push([60, 70, 80]);
                for mut o in all_perms(k as usize) {
                    o.push(k as usize);
                    case(&p, &m[(idx % 9) as usize], Some(&o), nav, cx)?;
                }
                Ok(())
            },
        ));
    }
    if !nav {
        // nearly degenerate: ulp moves; close pairs far from the rest
        let bases: Arc<Vec<Vec<[f64; 3]>>> = Arc::new(vec![
            vec![[1., 1., 1.], [2., 1., 1.], [1., 2., 1.], [2., 2., 1.]],
            vec![[1., 1., 1.], [2., 2., 2.], [3., 3., 3.], [1., 3., 2.]],
            vec![[0.1, 0.2, 0.3], [0.2, 0.4, 0.6], [0.3, 0.6, 0.9], [0.7, 0.1, 0.2]],
        ]);
        let n = bases.len() as u64;
        fams.push(Family::new(
            "ulp-moved",
            "3 coplanar 4-point sets, every coordinate of the first three points and z of the fourth moved by -1, 0 or 1 ulp, alone / with an apex",
            n * 59049 * 2,
            move |idx, cx| {
                let mut i = idx;
                let b = &bases[take(&mut i, n)];
                let apex = take(&mut i, 2) == 1;
                let dg = digits(i, 3, 10);
                let mut p: Vec<[f64; 3]> = b.clone();
                for k in 0..10 {
                    p[k / 3][if k == 9 { 2 } else { k % 3 }] = geo::ulps(p[k / 3][if k == 9 { 2 } else { k % 3 }], dg[k] as i32 - 1);
                }
                if apex {
                    p.push([1.5, 1.25, 4.]);
                }
                let o: Vec<usize> = (0..p.len()).map(|j| (j + idx as usize) % p.len()).collect();
                ulp_check(&p, Some(&o), cx)
            },
        ));
        fams.push(Family::new(
            "close-pairs",
            "a unit cube with a companion at distance 10^-k (k=1..16, direction by index) of one corner, and slabs of thickness 10^-k, every order of the first points",
            16 * 2 * 8 * 24,
            move |idx, cx| {
                let mut i = idx;
                let k = 1 + take(&mut i, 16) as i32;
                let slab = take(&mut i, 2) == 1;
                let c = take(&mut i, 8);
                let pm = perm(i, 4);
                let e = 10f64.powi(-k);
                let mut p: Vec<[f64; 3]> = if slab {
                    (0..8).map(|b: i64| [1. + (b & 1) as f64, 1. + (b >> 1 & 1) as f64, 1. + e * (b >> 2 & 1) as f64]).collect()
                } else {
                    let mut p: Vec<[f64; 3]> = (0..8).map(|b: i64| [1. + (b & 1) as f64, 1. + (b >> 1 & 1) as f64, 1. + (b >> 2 & 1) as f64]).collect();
                    let q = p[c];
                    p.push([q[0] - e, q[1] - e / 3., q[2] + e / 7.]);
                    p
                };
                if slab && c > 0 {
                    p.truncate(8 - c / 2);
                    if c % 2 == 1 {
                        p.push([1.5, 1.5, 1. + e * 3.]);
                    }
                }
                p.dedup();
                let n = p.len();
                p.sort_by(|a, b| a.partial_cmp(b).unwrap());
                p.dedup();
                if p.len() != n {
                    return Ok(());
                }
                let mut o: Vec<usize> = (0..n).collect();
                for j in 0..4 {
                    o[j] = (pm[j] + c) % n;
                }
                for j in 4..n {
                    o[j] = (0..n).find(|v| !o[..j].contains(v)).unwrap();
                }
                ulp_check(&p, Some(&o), cx)
            },
        ));
    }
    {
        let st = Arc::new(structured(th));
        let m = ms.clone();
        let n = st.len() as u64;
        let no = if th { 6u64 } else { 3 };
        let nmm = if th { nm } else { 4 };
        let mut f = Family::new(
            "structured",
            format!("{n} larger sets (lattices, lines, curves, spheres with points inside, scattered) x {no} insertion orders x {nmm} maps"),
            n * no * nmm,
            move |idx, cx| {
                let mut i = idx;
                let o = take(&mut i, no);
                let mk = take(&mut i, nmm);
                // largest first keeps the cores busy
                let (_, p) = &st[st.len() - 1 - i as usize];
                if p.len() > 900 && (mk > 1 || o > 1) && !cx.thorough {
                    return Ok(());
                }
                let k = p.len();
                let ord: Vec<usize> = match o {
                    0 => (0..k).collect(),
                    1 => (0..k).rev().collect(),
                    o => {
                        let mut s = 31 * o as u64;
                        let mut v: Vec<usize> = (0..k).collect();
                        for i in (1..k).rev() {
                            v.swap(i, lcg(&mut s) as usize % (i + 1));
                        }
                        v
                    }
                };
                case(p, &m[mk], Some(&ord), nav, cx)
            },
        );
        f.timeout_s = 180;
        fams.push(f);
    }
    fams
}

pub fn c19(th: bool) -> Check {
    Check {
        id: "C19",
        families: families(th, false),
        assumptions: vec![
            "the builder's random shuffle is replaced by every order of the bound through the guarded hook; the spatial sort after it is the real one".into(),
            "sets of more than 9 points: listed structures and orders only".into(),
        ],
    }
}
pub fn c20(th: bool) -> Check {
    Check {
        id: "C20",
        families: families(th, true),
        assumptions: vec!["meshes reachable by the builder within the bounds of C19's families".into()],
    }
}
