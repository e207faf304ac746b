//! C26: histories of unions. The state is the last result; a transition joins it with a further solid, with itself or
//! with another result, through either entry point. Every state must be the union of all the solids joined so far.
use crate::core::*;
use crate::enumr::*;
use crate::p_poly::{boxx, cell_grid, check_output, clip, loose_places, places, probes, tet, vox_volume, voxels, Place, Shell, P};
use crate::seed;
use gpf::polygonlization as gp;
use std::collections::BTreeSet;
use std::sync::Arc;

type Q = [i64; 3];
type Mesh = (Vec<f64>, Vec<usize>);

fn sub(a: &[f64], b: &[f64]) -> P {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn cross(a: P, b: P) -> P {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
/// A solid as a mesh with points of its own.
fn mesh(s: &Shell, place: &Place) -> Mesh {
    let mut pts: Vec<Q> = vec![];
    let mut t = vec![];
    for q in s.0.iter().flatten() {
        let k = pts.iter().position(|p| p == q).unwrap_or_else(|| {
            pts.push(*q);
            pts.len() - 1
        });
        t.push(k);
    }
    (pts.iter().flat_map(|&q| place.at(q)).collect(), t)
}
#[derive(Clone, Copy)]
struct How {
    /// 0: make_mesh_for_triangles, 1: make_polyhedral_mesh with the triangles as faces
    entry: usize,
    order: usize,
    seed: u64,
}
fn join(parts: &[&Mesh], h: How) -> Result<Mesh, String> {
    let (mut p, mut t, mut ids) = (vec![], vec![], vec![]);
    for (k, m) in parts.iter().enumerate() {
        let base = p.len() / 3;
        p.extend_from_slice(&m.0);
        t.extend(m.1.iter().map(|i| i + base));
        // shell numbers need not be consecutive
        ids.extend((0..m.1.len() / 3).map(|_| k * (1 + h.order % 3) + h.order / 3));
    }
    let n = gp::remove_duplicates(&p, 1e-6).0.len() / 3;
    let order: Vec<usize> = match h.order {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        k => (0..n).map(|i| (i + k) % n).collect(),
    };
    seed::with_seed(h.seed, || {
        gpf::mc_hook::set_insertion_order(Some(order));
        if h.entry == 0 {
            return gp::make_mesh_for_triangles(&p, &t, &ids);
        }
        let mut axes = vec![];
        let mut edges = vec![];
        let mut own = vec![];
        for (k, c) in t.chunks(3).enumerate() {
            let [a, b, d] = [0, 1, 2].map(|j| &p[3 * c[j]..3 * c[j] + 3]);
            let (u, v) = (sub(b, a), sub(d, a));
            let y = cross(cross(u, v), u);
            if y == [0.0; 3] {
                continue; // no plane to name
            }
            axes.extend(a.iter().copied().chain(u).chain(y));
            edges.push(vec![c[0], c[1], c[1], c[2], c[2], c[0]]);
            own.push(ids[k]);
        }
        gp::make_polyhedral_mesh(&p, &axes, &own, &edges, 1e-6)
    })
}
/// Crossings of face diagonals need more bits than the tolerance keeps, so the second step starts from rounded points.
fn fine(p: &Place) -> bool {
    p.name.contains("31-bit")
}
/// One state of a history: what has been joined, and the result.
struct Hist<'a> {
    place: &'a Place,
    grid: &'a [P],
    loose: bool,
    what: String,
}
impl Hist<'_> {
    /// Joins the parts and checks the result against the union of `solids`.
    fn step(&self, parts: &[&Mesh], solids: &[Shell], volume: Option<f64>, h: How, cx: &mut Ctx) -> Result<Mesh, Fail> {
        let desc = || clip(format!("{}; last step: place '{}' entry {} order {} seed {}: {parts:?}", self.what, self.place.name, h.entry, h.order, h.seed), 1200);
        let out = match join(parts, h) {
            Ok(x) => x,
            Err(m) => return Err(cx.fail("panic", format!("{m}\n  {}", desc())).unwrap_err()),
        };
        cx.state(1);
        cx.trace(1);
        cx.nontrivial += 1;
        let (pl, extra) = probes(solids, self.place, self.grid);
        if let Err((k, m)) = check_output(&out, &pl, self.place.size(), self.loose, &extra, volume.map(|v| v * self.place.det()), cx) {
            return Err(cx.fail(k, format!("{m}\n  {}\n  output {}", desc(), clip(format!("{:?} {:?}", out.0, out.1), 400))).unwrap_err());
        }
        cx.sample(|| desc());
        Ok(out)
    }
}

pub fn c26(th: bool) -> Check {
    let mut fams = vec![];
    let pls = Arc::new(places());
    let np = pls.len() as u64;
    let iv = [[0i64, 1], [0, 2], [1, 2]];
    let bx = move |i: u64, diag: usize| -> Shell {
        let r = [i % 3, i / 3 % 3, i / 9].map(|k| iv[k as usize]);
        boxx(r.map(|x| x[0]), r.map(|x| x[1]), diag)
    };
    {
        let p = pls.clone();
        let last = if th { 27 } else { 9 };
        fams.push(Family::new(
            "box-histories",
            format!("boxes with corners in 0..2: every sequence of two of the 27 joined one after the other, then each of {last} further ones, then the result with itself; entry points, orders and placements in turn"),
            27 * 27,
            move |idx, cx| {
                let (a, b) = (idx / 27, idx % 27);
                let place = &p[(idx % np) as usize];
                let g = cell_grid(-1, 3);
                let (sa, sb) = (bx(a, 21), bx(b, 42));
                let h = |k: u64| How { entry: ((idx + k) % 2) as usize, order: ((idx / 2 + k) % 4) as usize, seed: idx + k };
                let hist = Hist { place, grid: &g, loose: fine(place), what: format!("box {a} with box {b}") };
                let (ma, mb) = (mesh(&sa, place), mesh(&sb, place));
                let two = [sa, sb];
                let r = hist.step(&[&ma, &mb], &two, Some(vox_volume(&two)), h(0), cx)?;
                for k in 0..last {
                    let c = if last == 27 { k } else { (k * 3 + idx % 3) % 27 };
                    let mut all = two.to_vec();
                    all.push(bx(c, (idx % 64) as usize));
                    let mc = mesh(&all[2], place);
                    let vol = vox_volume(&all);
                    let hist = Hist { place, grid: &g, loose: fine(place), what: format!("box {a} with box {b}, then box {c}") };
                    let r3 = if k % 2 == 0 { hist.step(&[&r, &mc], &all, Some(vol), h(k + 1), cx)? } else { hist.step(&[&mc, &r], &all, Some(vol), h(k + 1), cx)? };
                    if k % 3 == 0 {
                        let hist = Hist { what: format!("{}, then the result with itself", hist.what), ..hist };
                        let r4 = hist.step(&[&r3, &r3], &all, Some(vol), h(k + 2), cx)?;
                        hist.step(&[&r4], &all, Some(vol), h(k + 3), cx)?;
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let p = pls.clone();
        fams.push(Family::new(
            "box-groupings",
            "four boxes with corners in 0..2, the last two in all 27x27 ways, the first two in four: joined as (a+b)+(c+d), as ((a+b)+c)+d, and with both results and their parts together as separate shells",
            27 * 27 * if th { 4 } else { 1 },
            move |idx, cx| {
                let (c, d, k) = (idx % 27, idx / 27 % 27, idx / 729 + idx % 4);
                let place = &p[(idx / 3 % np) as usize];
                let g = cell_grid(-1, 3);
                let (a, b) = [(0, 26), (4, 22), (1, 13), (8, 18)][k as usize % 4];
                let s = [bx(a, 5), bx(b, 63), bx(c, 21), bx(d, (idx % 64) as usize)];
                let vol = |r: &[Shell]| Some(vox_volume(r));
                let h = |k: u64| How { entry: ((idx + k) % 2) as usize, order: ((idx / 2 + k) % 4) as usize, seed: idx + k };
                let hist = Hist { place, grid: &g, loose: fine(place), what: format!("boxes {a}, {b}, {c}, {d} in several groupings") };
                let m: Vec<Mesh> = s.iter().map(|s| mesh(s, place)).collect();
                let ab = hist.step(&[&m[0], &m[1]], &s[..2], vol(&s[..2]), h(0), cx)?;
                let cd = hist.step(&[&m[2], &m[3]], &s[2..], vol(&s[2..]), h(1), cx)?;
                let x = hist.step(&[&ab, &cd], &s, vol(&s), h(2), cx)?;
                let abc = hist.step(&[&m[2], &ab], &s[..3], vol(&s[..3]), h(3), cx)?;
                let y = hist.step(&[&abc, &m[3]], &s, vol(&s), h(4), cx)?;
                hist.step(&[&x, &ab, &y, &m[3]], &s, vol(&s), h(5), cx)?;
                Ok(())
            },
        ));
    }
    {
        let p = pls.clone();
        let len = if th { 8u64 } else { 5 };
        let n: u64 = (0..len.min(7)).map(|k| 8 - k).product();
        let lastn = 9 - len.min(7);
        fams.push(Family::new(
            "voxel-growth",
            format!("a solid grown voxel by voxel within 2x2x2: every sequence of {len} different voxels, checked after every step (touching at corners and edges on the way)"),
            n / lastn,
            move |idx, cx| {
                // an index is a sequence but for its last choice, which is made in every way at the end
                let mut i = idx * lastn;
                let g = cell_grid(-1, 3);
                let place = &p[(idx % np) as usize];
                let mut left: Vec<i64> = (0..8).collect();
                let mut seq = vec![];
                let mut base = n;
                for k in 0..len.min(7) - 1 {
                    base /= 8 - k;
                    let d = (i / base) as usize;
                    i %= base;
                    seq.push(left.remove(d));
                }
                let vx = |v: i64| [v & 1, v >> 1 & 1, v >> 2];
                let one = |v: i64| boxx(vx(v), vx(v).map(|c| c + 1), 42);
                let mut cur = mesh(&one(seq[0]), place);
                let mut set: BTreeSet<Q> = [vx(seq[0])].into();
                let mut go = |cur: &Mesh, set: &BTreeSet<Q>, v: i64, k: usize, cx: &mut Ctx| -> Result<Mesh, Fail> {
                    let hist = Hist { place, grid: &g, loose: fine(place), what: format!("voxels {seq:?} of 2x2x2 and {v} joined one after the other, step {k}") };
                    hist.step(&[cur, &mesh(&one(v), place)], &[voxels(set, 0)], Some(set.len() as f64), How { entry: (idx as usize + k) % 2, order: k % 3, seed: idx + k as u64 }, cx)
                };
                for (k, &v) in seq.iter().enumerate().skip(1) {
                    set.insert(vx(v));
                    cur = go(&cur, &set, v, k, cx)?;
                }
                let rest = left.clone();
                for v in rest {
                    let mut s = set.clone();
                    s.insert(vx(v));
                    let r = go(&cur, &s, v, seq.len(), cx)?;
                    if len == 8 {
                        let w = *left.iter().find(|w| **w != v).unwrap();
                        s.insert(vx(w));
                        go(&r, &s, w, seq.len() + 1, cx)?;
                    }
                }
                Ok(())
            },
        ));
    }
    let cube_tets: Vec<[Q; 4]> = (0..binom(8, 4))
        .map(|i| combo(i, 8, 4))
        .map(|c| [0, 1, 2, 3].map(|k| { let b = c[k] as i64; [b & 1, b >> 1 & 1, b >> 2 & 1] }))
        .filter(|q| tet(q[0], q[1], q[2], q[3]).is_some())
        .collect();
    let ct = Arc::new(cube_tets);
    let nt = ct.len() as u64;
    {
        let p = pls.clone();
        let ct = ct.clone();
        let lp = Arc::new(loose_places());
        fams.push(Family::new(
            "tet-histories",
            format!("every pair of the {nt} tetrahedra of the cube's corners, the second moved by half a cell in one of four ways, then a third, a box, and the result with itself; intersections that are no doubles are rounded between the steps"),
            nt * nt * if th { 4 } else { 1 },
            move |idx, cx| {
                let mut i = idx;
                let g = cell_grid(-1, 4);
                let (ia, ib) = (take(&mut i, nt), take(&mut i, nt));
                let off = [[1, 0, 0], [0, 1, 1], [1, 1, 1], [0, 0, 0]][(i + idx) as usize % 4];
                let mv = |t: &[Q; 4], o: Q| { let q = t.map(|q| [0, 1, 2].map(|k| 2 * q[k] + o[k])); tet(q[0], q[1], q[2], q[3]).unwrap() };
                let s = [mv(&ct[ia], [0; 3]), mv(&ct[ib], off), mv(&ct[(ia * 7 + ib * 3) % nt as usize], [1, 0, 1]), boxx([0, 1, 0], [1, 3, 2], 0)];
                let place = if idx % 3 == 0 { lp[idx as usize / 3 % lp.len()] } else { p[(idx % np) as usize] };
                let hist = Hist { place: &place, grid: &g, loose: true, what: format!("solids {s:?} one after the other") };
                let h = |k: u64| How { entry: ((idx + k) % 2) as usize, order: ((idx / 2 + k) % 4) as usize, seed: idx + k };
                let m: Vec<Mesh> = s.iter().map(|s| mesh(s, &place)).collect();
                let mut r = hist.step(&[&m[0], &m[1]], &s[..2], None, h(0), cx)?;
                r = hist.step(&[&r, &m[2]], &s[..3], None, h(1), cx)?;
                r = hist.step(&[&m[3], &r], &s, None, h(2), cx)?;
                hist.step(&[&r, &r], &s, None, h(3), cx)?;
                Ok(())
            },
        ));
    }
    Check {
        id: "C26",
        families: fams,
        assumptions: vec!["points closer than 5e-4 of a unit to a given face are not decided where coordinates are rounded".into()],
    }
}
