//! C23: polyhedral meshes from polygon faces.
use crate::core::*;
use crate::enumr::*;
use crate::p_poly::*;
use crate::p_tet::Q;
use crate::seed;
use gpf::polygonlization as gp;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

/// A planar polygon face (possibly with holes and several parts), outward oriented.
#[derive(Clone, Debug)]
pub struct Face {
    pub edges: Vec<(Q, Q)>,
    /// two in-plane vectors, counter-clockwise seen from outside
    u: Q,
    v: Q,
}
fn qs(a: Q, b: Q) -> Q {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn qc(a: Q, b: Q) -> Q {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn qd(a: Q, b: Q) -> i64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
/// Polygon faces of a shell. `parts`: one face per edge-connected part of a plane instead of one
/// per plane; `merge`: drop vertices in the middle of straight edges.
pub fn faces(sh: &Shell, parts: bool, merge: bool) -> Vec<Face> {
    let mut planes: BTreeMap<(Q, i64), Vec<[Q; 3]>> = BTreeMap::new();
    for t in &sh.0 {
        let n = qc(qs(t[1], t[0]), qs(t[2], t[0]));
        let g = gcd(gcd(n[0], n[1]), n[2]);
        let n = n.map(|x| x / g);
        planes.entry((n, qd(n, t[0]))).or_default().push(*t);
    }
    let mut out = vec![];
    for ts in planes.values() {
        let groups: Vec<Vec<[Q; 3]>> = if parts {
            let mut g: Vec<Vec<[Q; 3]>> = vec![];
            for t in ts {
                let e = |t: &[Q; 3]| -> BTreeSet<(Q, Q)> { (0..3).map(|k| (t[k].min(t[(k + 1) % 3]), t[k].max(t[(k + 1) % 3]))).collect() };
                let (mut same, rest): (Vec<_>, Vec<_>) = g.into_iter().partition(|q| q.iter().any(|s| !e(s).is_disjoint(&e(t))));
                let mut n: Vec<[Q; 3]> = same.drain(..).flatten().collect();
                n.push(*t);
                g = rest;
                g.push(n);
            }
            g
        } else {
            vec![ts.clone()]
        };
        for g in groups {
            let mut cnt: BTreeMap<(Q, Q), i64> = BTreeMap::new();
            for t in &g {
                for k in 0..3 {
                    let (a, b) = (t[k], t[(k + 1) % 3]);
                    if let Some(c) = cnt.get_mut(&(b, a)) {
                        *c -= 1;
                        if *c == 0 {
                            cnt.remove(&(b, a));
                        }
                    } else {
                        *cnt.entry((a, b)).or_insert(0) += 1;
                    }
                }
            }
            let mut e: Vec<(Q, Q)> = cnt.into_keys().collect();
            while merge {
                let mut hit = None;
                'o: for i in 0..e.len() {
                    for j in 0..e.len() {
                        if e[i].1 == e[j].0 && qc(qs(e[i].1, e[i].0), qs(e[j].1, e[j].0)) == [0; 3] && qd(qs(e[i].1, e[i].0), qs(e[j].1, e[j].0)) > 0 && e.iter().filter(|x| x.0 == e[i].1).count() == 1 {
                            hit = Some((i, j));
                            break 'o;
                        }
                    }
                }
                let Some((i, j)) = hit else { break };
                e[i].1 = e[j].1;
                e.remove(j);
            }
            out.push(Face { edges: e, u: qs(g[0][1], g[0][0]), v: qs(g[0][2], g[0][0]) });
        }
    }
    out
}

pub struct FOpt<'a> {
    pub place: &'a Place,
    pub seed: u64,
    pub order: usize,
    pub perm: Option<Vec<usize>>,
    /// 0 shared points, 1 per face, 2 per edge end, moved within the tolerance, 3 as 2 with every
    /// vertex split in two joined by a tiny edge
    pub layout: usize,
    /// 0 exact frame, 1 unit frame, 2 skew frame, 3 far origin
    pub frame: usize,
    pub eps: f64,
    /// permutation of the edges of each face: 0 sorted, 1 reversed, k: rotated by k
    pub edge_order: usize,
    pub face_order: Option<Vec<usize>>,
}
fn sub(a: P, b: P) -> P {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn cross(a: P, b: P) -> P {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: P, b: P) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
/// What is claimed of the output.
pub enum Want<'a> {
    /// it bounds the union of the shells
    Union(&'a [Shell], &'a [P], Option<f64>),
    /// it is watertight
    Closed,
}
/// `fs`: faces with their shell number.
pub fn face_case(fs: &[(usize, Face)], want: Want, o: &FOpt, cx: &mut Ctx) -> Res {
    let mut pts: Vec<P> = vec![];
    let mut map: HashMap<(usize, Q), usize> = HashMap::new();
    let (mut axes, mut shell_of, mut edges) = (vec![], vec![], vec![]);
    let ord: Vec<usize> = o.face_order.clone().unwrap_or((0..fs.len()).collect());
    let mut jig = 0usize;
    let mut jit = |p: P| -> P {
        jig += 1;
        let h = jig * 2654435761 % 4294967296;
        [0, 1, 2].map(|k| p[k] + o.eps / 16.0 * ((h >> (8 * k) & 255) as f64 / 128.0 - 1.0))
    };
    for &fi in &ord {
        let (sh, f) = &fs[fi];
        let mut es = f.edges.clone();
        match o.edge_order {
            0 => (),
            1 => es.reverse(),
            k => {
                let m = es.len();
                es.rotate_left(k % m)
            }
        }
        let mut list: Vec<usize> = vec![];
        for (a, b) in es {
            let mut add = |p: P| {
                pts.push(p);
                pts.len() - 1
            };
            match o.layout {
                0 | 1 => {
                    for q in [a, b] {
                        let k = *map.entry((if o.layout == 0 { 0 } else { fi + 1 }, q)).or_insert_with(|| add(o.place.at(q)));
                        list.push(k);
                    }
                }
                _ => {
                    let ia = add(jit(o.place.at(a)));
                    let ib = add(jit(o.place.at(b)));
                    list.extend([ia, ib]);
                    if o.layout == 3 {
                        let ic = add(jit(o.place.at(b)));
                        list.extend([ib, ic]);
                    }
                }
            }
        }
        edges.push(list);
        shell_of.push(*sh);
        let q0 = f.edges[0].0;
        let at = |d: Q| sub(o.place.at([q0[0] + d[0], q0[1] + d[1], q0[2] + d[2]]), o.place.at(q0));
        let (u, v) = (at(f.u), at(f.v));
        let mut org = o.place.at(q0);
        let mut x = u;
        let mut y = cross(cross(u, v), u);
        match o.frame {
            1 => {
                let n = |a: P| a.map(|c| c / dot(a, a).sqrt());
                x = n(x);
                y = n(y);
            }
            2 => y = v,
            3 => org = [0, 1, 2].map(|k| org[k] + 4096.0 * u[k] - 512.0 * v[k]),
            _ => (),
        }
        axes.extend(org.into_iter().chain(x).chain(y));
    }
    let uniq = fs.iter().flat_map(|f| f.1.edges.iter().flat_map(|e| [e.0, e.1])).collect::<BTreeSet<_>>().len();
    let order: Vec<usize> = match &o.perm {
        Some(p) => p.clone(),
        None => match o.order {
            0 => (0..uniq).collect(),
            1 => (0..uniq).rev().collect(),
            k => (0..uniq).map(|i| (i + k) % uniq).collect(),
        },
    };
    let flat: Vec<f64> = pts.iter().flatten().copied().collect();
    let desc = || {
        clip(
            format!("place '{}' seed {} order {order:?} layout {} frame {}: make_polyhedral_mesh(&{flat:?}, &{axes:?}, &{shell_of:?}, &{edges:?}, {:e})", o.place.name, o.seed, o.layout, o.frame, o.eps),
            900,
        )
    };
    let r = seed::with_seed(o.seed, || {
        gpf::mc_hook::set_insertion_order(Some(order.clone()));
        gp::make_polyhedral_mesh(&flat, &axes, &shell_of, &edges, o.eps)
    });
    let out = match r {
        Ok(x) => x,
        Err(m) => return cx.fail("panic", format!("{m}\n  {}", desc())),
    };
    cx.state(1);
    cx.trace(1);
    let res = match want {
        Want::Closed => check_output(&out, &[], o.place.size(), true, &[], None, cx),
        Want::Union(shells, grid, vol) => {
            let (pl, extra) = probes(shells, o.place, grid);
            check_output(&out, &pl, o.place.size(), o.place.loose, &extra, vol.map(|v| v * o.place.det()), cx)
        }
    };
    if let Err((k, m)) = res {
        return cx.fail(k, format!("{m}\n  {}\n  output {}", desc(), clip(format!("{:?} {:?}", out.0, out.1), 400)));
    }
    cx.sample(|| desc());
    Ok(())
}
pub fn all_faces(s: &[Shell], parts: bool, merge: bool) -> Vec<(usize, Face)> {
    s.iter().enumerate().flat_map(|(k, s)| faces(s, parts, merge).into_iter().map(move |f| (k, f))).collect()
}
fn vox(m: usize, d: [usize; 3], o: Q) -> BTreeSet<Q> {
    (0..d[0] * d[1] * d[2]).filter(|b| m >> b & 1 == 1).map(|b| [o[0] + (b % d[0]) as i64, o[1] + (b / d[0] % d[1]) as i64, o[2] + (b / d[0] / d[1]) as i64]).collect()
}

pub fn c23(th: bool) -> Check {
    let mut fams = vec![];
    let mut pls = places();
    let n_exact = pls.len() as u64;
    pls.extend(loose_places());
    let np = pls.len() as u64;
    let std = |idx: u64, p: &'static str| {
        let _ = (idx, p);
    };
    let _ = std;
    fn fopt<'a>(place: &'a Place, idx: u64) -> FOpt<'a> {
        FOpt {
            place,
            seed: idx,
            order: (idx % 5) as usize,
            perm: None,
            layout: (idx / 5 % 4) as usize,
            frame: (idx / 3 % 4) as usize,
            eps: 1e-6,
            edge_order: (idx / 7 % 5) as usize,
            face_order: None,
        }
    }
    {
        let p = pls.clone();
        fams.push(Family::new(
            "box-face-orders",
            format!("a box under all 720 face orders, {np} placements, 4 point layouts in turn, 4 plane frames in turn"),
            720 * np,
            move |idx, cx| {
                let mut i = idx;
                let k = take(&mut i, np);
                let s = [boxx([0; 3], [1, 2, 3], 0)];
                let mut o = fopt(&p[k], idx / np);
                o.face_order = Some(perm(i, 6));
                face_case(&all_faces(&s, false, true), Want::Union(&s, &cell_grid(-1, 4), Some(6.0)), &o, cx)
            },
        ));
    }
    {
        let p = pls.clone();
        fams.push(Family::new(
            "edge-orders",
            "a box and an L-prism, every order of the edges of one face, every face, every frame and layout",
            (6 * 24 + 2 * 720) * 16,
            move |idx, cx| {
                let mut i = idx;
                let frame = take(&mut i, 4);
                let layout = take(&mut i, 4);
                let (s, f, pm) = if i < 144 {
                    (boxx([0; 3], [1, 2, 3], 0), (i / 24) as usize, perm(i % 24, 4))
                } else {
                    let b = &prism_bases()[0];
                    let i = i - 144;
                    (prism(&b.0, &b.1, 0, 1), 100 + (i / 720) as usize, perm(i % 720, 6))
                };
                let s = [s];
                let mut fs = all_faces(&s, false, true);
                let f = if f < 100 { f } else { fs.iter().enumerate().filter(|x| x.1 .1.edges.len() == 6).nth(f - 100).unwrap().0 };
                let e = fs[f].1.edges.clone();
                fs[f].1.edges = pm.iter().map(|&k| e[k]).collect();
                let mut o = fopt(&p[(idx / 16 % np) as usize], idx);
                o.frame = frame;
                o.layout = layout;
                o.edge_order = 0;
                let vol = vox_volume(&s);
                face_case(&fs, Want::Union(&s, &cell_grid(-1, 5), Some(vol)), &o, cx)
            },
        ));
    }
    {
        let p = pls.clone();
        fams.push(Family::new(
            "tolerances",
            "box, tetrahedron, L-prism and a block with a through hole: tolerance 0, 1e-9, 1e-6, 1e-3 with every layout it allows, all frames, 20 edge/insertion orders",
            4 * 4 * 4 * 4 * 20 * 3,
            move |idx, cx| {
                let mut i = idx;
                let mut o = fopt(&p[0], idx);
                o.frame = take(&mut i, 4);
                o.layout = take(&mut i, 4);
                o.eps = [0.0, 1e-9, 1e-6, 1e-3][take(&mut i, 4)];
                if o.eps == 0.0 && o.layout > 1 {
                    return Ok(());
                }
                let kind = take(&mut i, 4);
                o.place = &p[[0, 1, 4][take(&mut i, 3)]];
                o.order = (i % 5) as usize;
                o.edge_order = (i / 5) as usize;
                let s = [match kind {
                    0 => boxx([0; 3], [2, 1, 1], 0),
                    1 => tet([0; 3], [2, 0, 0], [0, 2, 0], [0, 0, 2]).unwrap(),
                    2 => {
                        let b = &prism_bases()[0];
                        prism(&b.0, &b.1, 0, 2)
                    }
                    _ => voxels(&(0..9).filter(|&b| b != 4).map(|b| [b % 3, b / 3, 0]).collect(), 0),
                }];
                face_case(&all_faces(&s, false, true), Want::Union(&s, &cell_grid(-1, 5), None), &o, cx)
            },
        ));
    }
    {
        let rel = Arc::new(relations());
        let nr = rel.len() as u64;
        fams.push(Family::new(
            "scales",
            "two boxes in every combination of the interval relations per axis, one unit being 2^-40, 2^-25, 2^-10, 1, 2^10 and 2^25 in turn and the tolerance 0, 1e-9, 1e-6, 1e-3 or 0.2 of it, in the layouts it allows",
            nr * nr * nr,
            move |idx, cx| {
                let mut i = idx;
                let r = [0, 1, 2].map(|_| rel[take(&mut i, nr)]);
                let (u, name) = [(-40, "2^-40"), (-25, "2^-25"), (-10, "2^-10"), (0, "1"), (10, "2^10"), (25, "2^25")][(idx / 2 % 6) as usize];
                let place = scaled(u, name);
                let mut o = fopt(&place, idx);
                let e = idx as usize / 7 % 5;
                o.eps = 2f64.powi(u) * [0.0, 1e-9, 1e-6, 1e-3, 0.2][e];
                if e == 0 {
                    o.layout %= 2;
                }
                let s = [boxx([r[0][0], r[1][0], r[2][0]], [r[0][1], r[1][1], r[2][1]], 0), boxx([r[0][2], r[1][2], r[2][2]], [r[0][3], r[1][3], r[2][3]], 0)];
                let vol = vox_volume(&s);
                cx.nontrivial += 1;
                face_case(&all_faces(&s, false, true), Want::Union(&s, &cell_grid(-1, 4), Some(vol)), &o, cx)
            },
        ));
    }
    {
        let p = pls.clone();
        let reps = if th { np } else { 2 };
        fams.push(Family::new(
            "voxel-solids",
            "every non-empty set of 2x2x2 voxels as one shell with polygon faces (non-convex, several parts, corner-touching), one face per plane or per part, straight edges merged or not",
            255 * 4 * reps,
            move |idx, cx| {
                let mut i = idx;
                let mode = take(&mut i, 4);
                let m = take(&mut i, 255) + 1;
                let set = vox(m, [2, 2, 2], [0; 3]);
                let s = [voxels(&set, 0)];
                let k = if reps == np { i } else { idx / 2 % np };
                face_case(&all_faces(&s, mode & 1 > 0, mode & 2 > 0), Want::Union(&s, &cell_grid(-1, 3), Some(set.len() as f64)), &fopt(&p[k as usize], idx), cx)
            },
        ));
    }
    {
        let p = pls.clone();
        let d = if th { [3usize, 4, 1] } else { [3usize, 3, 1] };
        let n = (1u64 << (d[0] * d[1])) - 1;
        fams.push(Family::new(
            "plates",
            format!("every non-empty set of {d:?} voxels (faces with holes), one face per plane or per part, straight edges merged or not"),
            n * 4,
            move |idx, cx| {
                let mut i = idx;
                let mode = take(&mut i, 4);
                let set = vox(i as usize + 1, d, [0; 3]);
                let s = [voxels(&set, 0)];
                face_case(&all_faces(&s, mode & 1 > 0, mode & 2 > 0), Want::Union(&s, &cell_grid(-1, 5), Some(set.len() as f64)), &fopt(&p[(idx / 4 % np) as usize], idx / 3), cx)
            },
        ));
    }
    {
        let p = pls.clone();
        let rel = Arc::new(relations());
        let nr = rel.len() as u64;
        let reps = if th { np } else { 1 };
        fams.push(Family::new(
            "box-pairs",
            format!("two boxes with quadrilateral faces in every combination of the {nr} interval relations per axis"),
            nr * nr * nr * reps,
            move |idx, cx| {
                let mut i = idx;
                let r = [0, 1, 2].map(|_| rel[take(&mut i, nr)]);
                let s = [boxx([r[0][0], r[1][0], r[2][0]], [r[0][1], r[1][1], r[2][1]], 0), boxx([r[0][2], r[1][2], r[2][2]], [r[0][3], r[1][3], r[2][3]], 0)];
                let vol = vox_volume(&s);
                let k = if reps == np { i } else { idx % np };
                cx.nontrivial += 1;
                face_case(&all_faces(&s, false, true), Want::Union(&s, &cell_grid(-1, 4), Some(vol)), &fopt(&p[k as usize], idx), cx)
            },
        ));
    }
    {
        let pair = {
            let p = pls.clone();
            move |step: u64, idx: u64, cx: &mut Ctx| {
                let mut i = idx;
                let o = [[0, 0, 0], [1, 1, 0]][take(&mut i, 2)];
                let m = take(&mut i, 255) + 1;
                let m2 = (i * step + m as u64 % step) as usize % 255 + 1;
                let (a, b) = (vox(m, [2, 2, 2], [0; 3]), vox(m2, [2, 2, 2], o));
                let vol = a.union(&b).count() as f64;
                let s = [voxels(&a, 0), voxels(&b, 0)];
                cx.nontrivial += 1;
                face_case(&all_faces(&s, idx % 3 == 0, idx % 5 != 0), Want::Union(&s, &cell_grid(-1, 4), Some(vol)), &fopt(&p[(idx % np) as usize], idx), cx)
            }
        };
        let step = if th { 5 } else { 41 };
        let q = pair.clone();
        fams.push(Family::new(
            "voxel-pairs",
            format!("pairs of 2x2x2 voxel solids with polygon faces as two shells, shifted by (0,0,0) or (1,1,0) (every {step}th second set)"),
            255 * (255 / step) * 2,
            move |idx, cx| q(step, idx, cx),
        ));
        // output vertices that differ only along the projection axis (after rounding)
        let known = [11899u64];
        fams.push(Family::new("voxel-pairs-recorded", "pairs of the thorough tier that failed once", known.len() as u64, move |idx, cx| pair(5, known[idx as usize], cx)));
    }
    {
        let p = pls.clone();
        let rel = Arc::new(relations());
        let nr = rel.len() as u64;
        fams.push(Family::new(
            "collapsed-faces",
            "two boxes in every combination of the interval relations per axis, with 1..4 further faces that are smaller than the tolerance, or thinner than it (their points merge to one point or to the two ends of an edge), at every place of the face list in turn",
            nr * nr * nr * 2,
            move |idx, cx| {
                let mut i = idx;
                let mode = take(&mut i, 2);
                let r = [0, 1, 2].map(|_| rel[take(&mut i, nr)]);
                let s = [boxx([r[0][0], r[1][0], r[2][0]], [r[0][1], r[1][1], r[2][1]], 0), boxx([r[0][2], r[1][2], r[2][2]], [r[0][3], r[1][3], r[2][3]], 0)];
                let vol = vox_volume(&s);
                let mut fs = all_faces(&s, false, true);
                let n = fs.len();
                let h = idx as usize / 2;
                for k in 0..1 + h % 4 {
                    let mut f = fs[(h + 5 * k) % n].clone();
                    let (a, b) = f.1.edges[h % f.1.edges.len()];
                    f.1.edges = if mode == 0 { vec![(a, a); 3 + h % 2] } else { vec![(a, b), (b, b), (b, a), (a, a)][..if h % 3 == 0 { 4 } else { 3 }].to_vec() };
                    let at = (h / 3 + 2 * k) % (fs.len() + 1);
                    fs.insert(at, f);
                }
                let mut o = fopt(&p[(idx % np) as usize], idx);
                o.layout = idx as usize / 5 % 2 + 2;
                cx.nontrivial += 1;
                face_case(&fs, Want::Union(&s, &cell_grid(-1, 4), Some(vol)), &o, cx)
            },
        ));
    }
    {
        // a ring whose top and bottom are given as one loop each
        let p = pls.clone();
        fams.push(Family::new(
            "keyholed-faces",
            "a block with a through hole whose top and bottom are single loops with a bridge (12 x 12 bridges, or none), alone or with a box across it, 5 point layouts and frames in turn",
            13 * 13 * 2 * 6,
            move |idx, cx| {
                let mut i = idx;
                let two = take(&mut i, 2);
                let br = [take(&mut i, 13), take(&mut i, 13)];
                let ring = voxels(&(0..9).filter(|&b| b != 4).map(|b| [b % 3, b / 3, 0]).collect(), 0);
                let mut s = vec![ring];
                if two > 0 {
                    s.push(boxx([-1, 0, -1], [[2, 4, 3][i as usize % 3], 2, 2], 0));
                }
                let mut fs = all_faces(&s, false, true);
                let mut seen = 0;
                for (sh, f) in &mut fs {
                    if *sh > 0 || f.edges.len() != 8 {
                        continue;
                    }
                    let k = br[seen];
                    seen += 1;
                    if k == 12 {
                        continue;
                    }
                    let z = f.edges[0].0[2];
                    let c = [[0, 0], [3, 0], [3, 3], [0, 3]][k / 3];
                    let h = [[1, 1], [2, 1], [2, 2], [1, 2]][(k / 3 + [0, 1, 3][k % 3]) % 4];
                    let (c, h): (Q, Q) = ([c[0], c[1], z], [h[0], h[1], z]);
                    // one walk along both loops and the bridge
                    let next = |e: &[(Q, Q)], a: Q| e.iter().find(|x| x.0 == a).unwrap().1;
                    let old = f.edges.clone();
                    let mut new = vec![];
                    for q in [c, h] {
                        let mut a = q;
                        loop {
                            let b = next(&old, a);
                            new.push((a, b));
                            a = b;
                            if a == q {
                                break;
                            }
                        }
                        new.push(if q == c { (c, h) } else { (h, c) });
                    }
                    f.edges = new;
                }
                assert!(seen == 2);
                let mut o = fopt(&p[(idx / 2 % np) as usize], idx);
                o.layout = i as usize % 4;
                let vol = vox_volume(&s);
                cx.nontrivial += 1;
                face_case(&fs, Want::Union(&s, &cell_grid(-2, 5), Some(vol)), &o, cx)
            },
        ));
    }
    {
        let p = pls.clone();
        fams.push(Family::new(
            "slits",
            "a box, an L-prism and a block with a hole with a cut from a corner into a face and back, in each face and from each of its corners, to 3 points, at the start, the end or the corner's place in the edge list",
            3 * 10 * 8 * 3 * 3,
            move |idx, cx| {
                let mut i = idx;
                let at = take(&mut i, 3);
                let to = take(&mut i, 3);
                let c = take(&mut i, 8);
                let f = take(&mut i, 10);
                let s = [match i {
                    0 => boxx([0; 3], [4, 4, 4], 0),
                    1 => {
                        let b = &prism_bases()[0];
                        let mut s = prism(&b.0, &b.1, 0, 1);
                        s.0.iter_mut().flatten().for_each(|q| *q = q.map(|x| 4 * x));
                        s
                    }
                    _ => {
                        let mut s = voxels(&(0..9).filter(|&b| b != 4).map(|b| [b % 3, b / 3, 0]).collect(), 0);
                        s.0.iter_mut().flatten().for_each(|q| *q = q.map(|x| 4 * x));
                        s
                    }
                }];
                let mut fs = all_faces(&s, false, true);
                if f >= fs.len() || c >= fs[f].1.edges.len() {
                    return Ok(());
                }
                let e = &mut fs[f].1.edges;
                let (a, b) = e[c];
                let before = e.iter().find(|x| x.1 == a).unwrap().0;
                let unit = |d: Q| d.map(|x| x.signum());
                // inward at a convex corner, and along a side's direction at a reflex one
                let (u, v) = (unit(qs(b, a)), unit(qs(before, a)));
                let d = [[1, 1], [2, 1], [1, 2]][to];
                let q = [0, 1, 2].map(|k| a[k] + d[0] * u[k] + d[1] * v[k]);
                let n = qc(u, v);
                let out = qc(fs[f].1.u, fs[f].1.v);
                if qd(n, out) <= 0 {
                    return Ok(());
                }
                let e = &mut fs[f].1.edges;
                let k = [0, e.len(), c][at];
                e.splice(k..k, [(a, q), (q, a)]);
                cx.nontrivial += 1;
                face_case(&fs, Want::Union(&s, &cell_grid(-1, 13), None), &fopt(&p[(idx % np) as usize], idx), cx)
            },
        ));
    }
    {
        let p = pls.clone();
        let polys = prism_bases();
        let npo = polys.len() as u64;
        let offs: i64 = if th { 5 } else { 3 };
        fams.push(Family::new(
            "prisms",
            "pairs of concave/convex polygon prisms with polygon faces, crosswise at every offset",
            npo * npo * 3 * pow(offs as u64, 3),
            move |idx, cx| {
                let mut i = idx;
                let (a, b) = (&polys[take(&mut i, npo)], &polys[take(&mut i, npo)]);
                let r = take(&mut i, 3);
                let o = [0, 1, 2].map(|_| take(&mut i, offs as u64) as i64 * if offs == 3 { 2 } else { 1 } - 2);
                let sa = prism(&a.0, &a.1, 0, 2);
                let mut sb = prism(&b.0, &b.1, -1, 3);
                for q in sb.0.iter_mut().flatten() {
                    let t = *q;
                    let t = [t, [t[2], t[0], t[1]], [t[1], t[2], t[0]]][r];
                    *q = [0, 1, 2].map(|k| t[k] + o[k]);
                }
                cx.nontrivial += 1;
                let s = [sa, sb];
                face_case(&all_faces(&s, false, true), Want::Union(&s, &cell_grid(-3, 7), None), &fopt(&p[(idx % np) as usize], idx), cx)
            },
        ));
    }
    {
        let p = pls.clone();
        fams.push(Family::new(
            "insertion-orders",
            "a tetrahedron, a triangular prism, a box and two touching tetrahedra under every point insertion order",
            24 + 720 + 40320.min(if th { 40320 } else { 5040 }) + 120,
            move |idx, cx| {
                let (s, n, i) = if idx < 24 {
                    (vec![tet([0; 3], [2, 0, 0], [0, 2, 0], [0, 0, 2]).unwrap()], 4, idx)
                } else if idx < 744 {
                    (vec![prism(&[[0, 0], [2, 0], [0, 2]], &[[0, 1, 2]], 0, 1)], 6, idx - 24)
                } else if idx < 864 {
                    (vec![tet([0; 3], [2, 0, 0], [0, 2, 0], [0, 0, 2]).unwrap(), tet([0; 3], [2, 0, 0], [0, 2, 0], [1, 1, -2]).unwrap()], 5, idx - 744)
                } else {
                    (vec![boxx([0; 3], [1, 1, 1], 0)], 8, idx - 864)
                };
                let mut o = fopt(&p[(idx % n_exact) as usize], idx);
                o.perm = Some(perm(i, n));
                face_case(&all_faces(&s, false, true), Want::Union(&s, &cell_grid(-1, 3), None), &o, cx)
            },
        ));
    }
    {
        let p = pls.clone();
        fams.push(Family::new(
            "missing-face",
            "every 2x2x2 voxel solid, prism and lattice tetrahedron with each of its first 12 faces removed: watertight",
            (255 + 4 + 58) * 12,
            move |idx, cx| {
                let mut i = idx;
                let f = take(&mut i, 12);
                let s = if i < 255 {
                    voxels(&vox(i as usize + 1, [2, 2, 2], [0; 3]), 0)
                } else if i < 259 {
                    let b = &prism_bases()[i as usize - 255];
                    prism(&b.0, &b.1, 0, 2)
                } else {
                    let c = combo((i - 259) % 70, 8, 4);
                    let q = [0, 1, 2, 3].map(|k| { let b = c[k] as i64; [b & 1, b >> 1 & 1, b >> 2 & 1] });
                    let Some(t) = tet(q[0], q[1], q[2], q[3]) else { return Ok(()) };
                    t
                };
                let mut fs = all_faces(&[s], idx % 2 == 0, true);
                if f >= fs.len() {
                    return Ok(());
                }
                fs.remove(f);
                cx.nontrivial += 1;
                face_case(&fs, Want::Closed, &fopt(&p[(idx / 12 % np) as usize], idx), cx)
            },
        ));
    }
    {
        let p = pls.clone();
        fams.push(Family::new(
            "missing-face-convex",
            "a box (8 proportions) with each of its faces removed: the output is the box (watertight, when the hole is larger than 0.45 of the remaining area)",
            8 * 6 * np * 5,
            move |idx, cx| {
                let mut i = idx;
                let k = take(&mut i, np);
                let f = take(&mut i, 6);
                let w = take(&mut i, 8) as i64;
                let s = [boxx([0; 3], [1 + (w & 1), 1 + (w >> 1 & 1), 1 + (w >> 2)], 0)];
                let mut fs = all_faces(&s, false, true);
                let areas: Vec<f64> = fs
                    .iter()
                    .map(|f| {
                        let at = |d: Q| sub(p[k].at(d), p[k].at([0; 3]));
                        let b = &f.1.edges[0];
                        let c = &f.1.edges.iter().find(|e| e.0 == b.1).unwrap().1;
                        let x = cross(at(qs(b.1, b.0)), at(qs(*c, b.1)));
                        dot(x, x).sqrt()
                    })
                    .collect();
                fs.remove(f);
                let mut o = fopt(&p[k], idx);
                o.order = i as usize;
                let vol = vox_volume(&s);
                cx.nontrivial += 1;
                // a hole as large as the remaining faces may be closed by the empty set instead
                if areas[f] > 0.45 * (areas.iter().sum::<f64>() - areas[f]) {
                    cx.count("large-hole", 1);
                    return face_case(&fs, Want::Closed, &o, cx);
                }
                face_case(&fs, Want::Union(&s, &cell_grid(-1, 3), Some(vol)), &o, cx)
            },
        ));
    }
    Check {
        id: "C23",
        families: fams,
        assumptions: vec!["winding numbers are computed in doubles at points away from all surfaces; in rounded placements only the watertightness, the volume within rounding and points away from the surfaces are decided".into()],
    }
}
