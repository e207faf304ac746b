//! C25: arbitrary triangle soups (open, self-crossing, inconsistently oriented) give a watertight mesh.
use crate::core::*;
use crate::enumr::*;
use crate::p_poly::{ball, boxx, fine_box, ring, clip, places, prism, prism_bases, relations, tet, winding, Place, Tri, P};
use crate::seed;
use gpf::polygonlization as gp;
use std::collections::HashMap;
use std::sync::Arc;

type Q = [i64; 3];

fn sub(a: P, b: P) -> P {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn cross(a: P, b: P) -> P {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: P, b: P) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn flat3(t: &Tri) -> bool {
    let s = |a: Q, b: Q| [0, 1, 2].map(|k| a[k] - b[k]);
    let (u, v) = (s(t[1], t[0]), s(t[2], t[0]));
    u[1] * v[2] == u[2] * v[1] && u[2] * v[0] == u[0] * v[2] && u[0] * v[1] == u[1] * v[0]
}
fn coplanar(p: &[Q]) -> bool {
    let s = |a: Q, b: Q| [0, 1, 2].map(|k| a[k] - b[k]);
    let d = |a: Q, b: Q, c: Q| a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]);
    let v: Vec<Q> = p.iter().map(|&q| s(q, p[0])).collect();
    for i in 1..v.len() {
        for j in i + 1..v.len() {
            let n = [v[i][1] * v[j][2] - v[i][2] * v[j][1], v[i][2] * v[j][0] - v[i][0] * v[j][2], v[i][0] * v[j][1] - v[i][1] * v[j][0]];
            if n != [0; 3] {
                return v.iter().all(|&w| d(v[i], v[j], w) == 0);
            }
        }
    }
    true
}

/// What every output must satisfy, whatever the input was.
fn check(out: &(Vec<f64>, Vec<usize>), bbox: (P, P), unit: f64, probes: &[P], sound: &[[P; 3]], cx: &mut Ctx) -> Result<(), (String, String)> {
    let e = |k: &str, m: String| Err((k.to_string(), m));
    let n = out.0.len() / 3;
    if out.0.len() % 3 != 0 || out.1.len() % 3 != 0 || out.1.iter().any(|&k| k >= n) || out.0.iter().any(|x| !x.is_finite()) {
        return e("shape", format!("bad shape: {n} points, indices {:?}", out.1));
    }
    let p: Vec<P> = out.0.chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
    let tol = 1e-9 * (0..3).map(|k| bbox.0[k].abs().max(bbox.1[k].abs())).fold(unit, f64::max);
    if let Some(q) = p.iter().find(|q| (0..3).any(|k| q[k] < bbox.0[k] - tol || q[k] > bbox.1[k] + tol)) {
        return e("bounds", format!("output point {q:?} is outside of the input's bounding box"));
    }
    let t: Vec<[P; 3]> = out.1.chunks(3).map(|c| [p[c[0]], p[c[1]], p[c[2]]]).collect();
    let mut bal: HashMap<(usize, usize), i32> = HashMap::new();
    for c in out.1.chunks(3) {
        for j in 0..3 {
            let (a, b) = (c[j], c[(j + 1) % 3]);
            if a == b {
                return e("degenerate", format!("triangle {c:?} repeats a point"));
            }
            *bal.entry((a.min(b), a.max(b))).or_insert(0) += if a < b { 1 } else { -1 };
        }
    }
    if let Some((k, v)) = bal.iter().find(|(_, &v)| v != 0) {
        return e("open-edge", format!("edge {:?}-{:?} is unbalanced by {v}", p[k.0], p[k.1]));
    }
    let mut at = |q: P, want: Option<i64>, what: &str| -> Result<(), (String, String)> {
        let w = winding(&t, q);
        if w.is_nan() || (w - w.round()).abs() > 1e-3 {
            cx.count("undetermined-samples", 1);
            return Ok(());
        }
        let r = w.round() as i64;
        cx.step(1);
        match want {
            None if r == 0 && (winding(sound, q) - 1.0).abs() < 1e-3 => Err(("sound-shell".into(), format!("at {q:?} the output's winding number is 0, but the point is inside a closed shell"))),
            Some(x) if x != r => Err(("winding".into(), format!("{what} {q:?} the output's winding number is {r}, not {x}"))),
            None if r != 0 && r != 1 => Err(("winding".into(), format!("at {q:?} the output's winding number is {r}"))),
            _ => Ok(()),
        }
    };
    for (k, tr) in t.iter().enumerate() {
        let nn = cross(sub(tr[1], tr[0]), sub(tr[2], tr[0]));
        let l = dot(nn, nn).sqrt();
        if !(l > unit * unit * 1e-9) {
            return e("degenerate", format!("triangle {k} {tr:?} has no area"));
        }
        let c: P = [0, 1, 2].map(|i| 0.3917 * tr[0][i] + 0.3541 * tr[1][i] + 0.2542 * tr[2][i]);
        let per: f64 = (0..3).map(|j| { let d = sub(tr[j], tr[(j + 1) % 3]); dot(d, d).sqrt() }).sum();
        let dd = (unit * 1e-3).min(1e-2 * l / per);
        at([0, 1, 2].map(|i| c[i] - dd * nn[i] / l), Some(1), "below an output triangle, at")?;
        at([0, 1, 2].map(|i| c[i] + dd * nn[i] / l), Some(0), "above an output triangle, at")?;
    }
    for &q in probes {
        at(q, None, "")?;
    }
    for tr in sound {
        let nn = cross(sub(tr[1], tr[0]), sub(tr[2], tr[0]));
        let l = dot(nn, nn).sqrt();
        for b in [[0.41, 0.33], [0.07, 0.11], [0.83, 0.09]] {
            for d in [1e-3, 0.1] {
                at([0, 1, 2].map(|i| tr[0][i] * (1.0 - b[0] - b[1]) + tr[1][i] * b[0] + tr[2][i] * b[1] - d * unit * nn[i] / l), None, "")?;
            }
        }
    }
    Ok(())
}

fn soup_case(tris: &[Tri], ids: &[usize], extra: &[Q], place: &Place, seed: u64, order: usize, cx: &mut Ctx) -> Res {
    mixed_case(&[], tris, ids, extra, place, seed, order, cx)
}
/// `sound`: those of the triangles that make up a closed shell, whose number no other triangle has.
fn mixed_case(sound: &[Tri], tris: &[Tri], ids: &[usize], extra: &[Q], place: &Place, seed: u64, order: usize, cx: &mut Ctx) -> Res {
    let mut pts: Vec<Q> = vec![];
    let mut map: HashMap<Q, usize> = HashMap::new();
    let mut idx = vec![];
    for t in tris {
        for &q in t {
            idx.push(*map.entry(q).or_insert_with(|| { pts.push(q); pts.len() - 1 }));
        }
    }
    for &q in extra {
        map.entry(q).or_insert_with(|| { pts.push(q); pts.len() - 1 });
    }
    if tris.iter().all(flat3) || coplanar(&pts) {
        return Ok(());
    }
    // shell numbers in any order, with or without gaps
    let top = ids.iter().copied().max().unwrap_or(0);
    let ids = &ids.iter().map(|&k| match seed % 3 { 0 => k, 1 => top - k, _ => 2 * k + 1 }).collect::<Vec<_>>()[..];
    let n = pts.len();
    let ord: Vec<usize> = (0..n).map(|i| (i * (1 + order % 2 * (n - 2)) + order) % n).collect();
    let mut chk = ord.clone();
    chk.sort();
    let ord = if chk.iter().copied().eq(0..n) { ord } else { (0..n).collect() };
    let f: Vec<f64> = pts.iter().flat_map(|&q| place.at(q)).collect();
    let desc = || clip(format!("place '{}' seed {seed} order {ord:?}: make_mesh_for_triangles(&{f:?}, &{idx:?}, &{ids:?})", place.name), 900);
    let r = seed::with_seed(seed, || {
        gpf::mc_hook::set_insertion_order(Some(ord.clone()));
        gp::make_mesh_for_triangles(&f, &idx, ids)
    });
    let out = match r {
        Ok(x) => x,
        Err(m) => return cx.fail("panic", format!("{m}\n  {}", desc())),
    };
    cx.state(1);
    cx.trace(1);
    if !out.1.is_empty() {
        cx.nontrivial += 1;
    }
    let (mut lo, mut hi) = ([f64::MAX; 3], [f64::MIN; 3]);
    for c in f.chunks(3) {
        for k in 0..3 {
            lo[k] = lo[k].min(c[k]);
            hi[k] = hi[k].max(c[k]);
        }
    }
    let sound: Vec<[P; 3]> = sound.iter().map(|t| t.map(|q| place.at(q))).collect();
    let probes: Vec<P> = (0..27).map(|b: usize| [b % 3, b / 3 % 3, b / 9]).map(|g| [0, 1, 2].map(|k| lo[k] + (hi[k] - lo[k]) * (0.1934 + 0.3071 * g[k] as f64 + 0.013 * k as f64))).collect();
    if let Err((k, m)) = check(&out, (lo, hi), place.size(), &probes, &sound, cx) {
        return cx.fail(k, format!("{m}\n  {}\n  output {}", desc(), clip(format!("{:?} {:?}", out.0, out.1), 400)));
    }
    cx.sample(|| desc());
    Ok(())
}

fn lattice(w: i64, h: i64, d: i64) -> Vec<Q> {
    (0..w * h * d).map(|i| [i % w, i / w % h, i / w / h]).collect()
}
fn all_tris(p: &[Q]) -> Vec<Tri> {
    let n = p.len() as u64;
    (0..binom(n, 3)).map(|i| combo(i, n, 3)).map(|c| [p[c[0] as usize], p[c[1] as usize], p[c[2] as usize]]).filter(|t| !flat3(t)).collect()
}
fn turned(t: &Tri) -> Tri {
    [t[0], t[2], t[1]]
}

pub fn c25(th: bool) -> Check {
    let mut fams = vec![];
    let pls = places();
    let np = pls.len() as u64;
    {
        let p = pls.clone();
        // per face: both, none, first, second, both turned, one turned, doubled, doubled and turned
        let base = if th { 8u64 } else { 6 };
        fams.push(Family::new(
            "box-faces",
            format!("a box where each face (two triangles) is complete, absent, half present, turned inside out, half turned{}: all {base}^6 combinations", if th { ", or doubled with the same or opposite orientation" } else { "" }),
            pow(base, 6),
            move |idx, cx| {
                let mut i = idx;
                let b = boxx([0; 3], [2, 2, 1], (idx % 64) as usize);
                let mut s: Vec<Tri> = vec![];
                for f in 0..6 {
                    let (x, y) = (b.0[2 * f], b.0[2 * f + 1]);
                    match take(&mut i, base) {
                        0 => s.extend([x, y]),
                        1 => (),
                        2 => s.push(x),
                        3 => s.push(y),
                        4 => s.extend([turned(&x), turned(&y)]),
                        5 => s.extend([x, turned(&y)]),
                        6 => s.extend([x, y, x, y]),
                        _ => s.extend([x, y, turned(&x), turned(&y)]),
                    }
                }
                let ids = vec![0; s.len()];
                soup_case(&s, &ids, &[], &p[(idx % np) as usize], idx, (idx % 5) as usize, cx)
            },
        ));
    }
    for (name, (w, h, d), k) in if th { vec![("tri-triples-cube", (2, 2, 2), 3u64), ("tri-quads-cube", (2, 2, 2), 4), ("tri-pairs-3x3x2", (3, 3, 2), 2), ("tri-pairs-3x2x2", (3, 2, 2), 2)] } else { vec![("tri-triples-cube", (2, 2, 2), 3), ("tri-pairs-3x2x2", (3, 2, 2), 2)] } {
        let p = pls.clone();
        let l = lattice(w, h, d);
        let ts = Arc::new(all_tris(&l));
        let nt = ts.len() as u64;
        fams.push(Family::new(
            name,
            format!("every set of {k} of the {nt} triangles of the {w}x{h}x{d} lattice, orientations and shell numbers in turn, with and without the other lattice points as unused points"),
            binom(nt, k) * 2,
            move |idx, cx| {
                let mut i = idx;
                let un = take(&mut i, 2);
                let s: Vec<Tri> = combo(i, nt, k).iter().enumerate().map(|(j, &c)| if (idx / 2 >> j) & 1 == 0 { ts[c as usize] } else { turned(&ts[c as usize]) }).collect();
                let ids: Vec<usize> = (0..k).map(|j| if idx % 3 == 0 { j as usize } else { 0 }).collect();
                soup_case(&s, &ids, if un == 1 { &l } else { &[] }, &p[(idx % np) as usize], idx, (idx % 5) as usize, cx)
            },
        ));
    }
    {
        let p = pls.clone();
        let rel = Arc::new(relations());
        let nr = rel.len() as u64;
        let reps = if th { 12 } else { 2 };
        fams.push(Family::new(
            "damaged-box-pairs",
            format!("two boxes in every combination of the {nr} interval relations per axis as one or two shells, one triangle of each missing, turned or doubled"),
            nr * nr * nr * reps,
            move |idx, cx| {
                let mut i = idx;
                let r = [0, 1, 2].map(|_| rel[take(&mut i, nr)]);
                let a = boxx([r[0][0], r[1][0], r[2][0]], [r[0][1], r[1][1], r[2][1]], (idx % 64) as usize);
                let b = boxx([r[0][2], r[1][2], r[2][2]], [r[0][3], r[1][3], r[2][3]], (idx / 64 % 64) as usize);
                let mut s = vec![];
                let mut ids = vec![];
                for (j, sh) in [a, b].iter().enumerate() {
                    let x = ((idx / 7 + 5 * i) as usize + 3 * j) % 12;
                    for (f, t) in sh.0.iter().enumerate() {
                        let q = if f == x { (idx as usize + j + i as usize) % 4 } else { 0 };
                        match q {
                            0 => s.push(*t),
                            1 => (),
                            2 => s.push(turned(t)),
                            _ => s.extend([*t, *t]),
                        }
                    }
                    ids.resize(s.len(), if idx % 2 == 0 { j } else { 0 });
                }
                soup_case(&s, &ids, &[], &p[(idx / 3 % np) as usize], idx, (idx % 5) as usize, cx)
            },
        ));
    }
    {
        let p = pls.clone();
        let rel = Arc::new(relations());
        let nr = rel.len() as u64;
        let reps = if th { 12 } else { 2 };
        fams.push(Family::new(
            "sound-beside-damaged",
            format!("a closed box and, as another shell (numbered before or after it), a box from which one to six triangles are missing, turned or doubled, in every combination of the {nr} interval relations per axis: the closed box's inside is inside the output"),
            nr * nr * nr * reps,
            move |idx, cx| {
                let mut i = idx;
                let r = [0, 1, 2].map(|_| rel[take(&mut i, nr)]);
                let a = boxx([r[0][0], r[1][0], r[2][0]], [r[0][1], r[1][1], r[2][1]], (idx % 64) as usize);
                let b = boxx([r[0][2], r[1][2], r[2][2]], [r[0][3], r[1][3], r[2][3]], (idx / 64 % 64) as usize);
                let mut s = vec![];
                let x = (idx / 7 + 5 * i) as usize % 12;
                for (f, t) in b.0.iter().enumerate() {
                    let q = if (f + x) % 12 <= idx as usize / 11 % 6 { (idx as usize + f + i as usize) % 4 } else { 0 };
                    match q {
                        0 => s.push(*t),
                        1 => (),
                        2 => s.push(turned(t)),
                        _ => s.extend([*t, *t]),
                    }
                }
                let first = idx % 2 == 0;
                let mut ids = vec![first as usize; s.len()];
                let at = if first { 0 } else { s.len() };
                s.splice(at..at, a.0.iter().copied());
                ids.splice(at..at, vec![!first as usize; 12]);
                mixed_case(&a.0, &s, &ids, &[], &p[(idx / 3 % np) as usize], idx, (idx % 5) as usize, cx)
            },
        ));
    }
    {
        let p = pls.clone();
        let l = lattice(3, 3, 2);
        let ts = Arc::new(all_tris(&l));
        let nt = ts.len() as u64;
        let step = if th { 7 } else { 61 };
        let solids: Arc<Vec<Vec<Tri>>> = Arc::new(vec![
            boxx([0; 3], [2, 2, 1], 5).0,
            boxx([0; 3], [1, 2, 1], 42).0,
            tet([0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 1]).unwrap().0,
            tet([1, 0, 0], [2, 2, 0], [0, 1, 0], [1, 1, 1]).unwrap().0,
            prism(&[[0, 0], [2, 0], [2, 1], [1, 1], [1, 2], [0, 2]], &[[0, 1, 3], [1, 2, 3], [0, 3, 5], [3, 4, 5]], 0, 1).0,
        ]);
        fams.push(Family::new(
            "sound-beside-pairs",
            format!("five closed solids, each with every {step}th pair of the {nt} triangles of the 3x3x2 lattice as another shell"),
            5 * (binom(nt, 2) / step),
            move |idx, cx| {
                let a = &solids[(idx % 5) as usize];
                let mut s: Vec<Tri> = combo(idx / 5 * step, nt, 2).iter().map(|&c| ts[c as usize]).collect();
                let mut ids = vec![0; 2];
                s.extend(a);
                ids.resize(s.len(), 1);
                mixed_case(a, &s, &ids, &[], &p[(idx / 5 % np) as usize], idx, (idx % 5) as usize, cx)
            },
        ));
    }
    {
        let p = pls.clone();
        let bases = Arc::new(prism_bases());
        let nb = bases.len() as u64;
        fams.push(Family::new(
            "open-prisms",
            "concave prisms without each subset of {top, bottom, one side}, crossed by a triangle or a second open prism at every offset",
            nb * 8 * 2 * 125,
            move |idx, cx| {
                let mut i = idx;
                let b = &bases[take(&mut i, nb)];
                let miss = take(&mut i, 8);
                let kind = take(&mut i, 2);
                let o = [0, 1, 2].map(|_| take(&mut i, 5) as i64 - 2);
                let nt = b.1.len();
                let open = |sh: Vec<Tri>| -> Vec<Tri> {
                    sh.iter().enumerate().filter(|(f, _)| !(*f < 2 * nt && f % 2 == 0 && miss & 1 > 0 || *f < 2 * nt && f % 2 == 1 && miss & 2 > 0 || *f == 2 * nt + 1 && miss & 4 > 0)).map(|x| *x.1).collect()
                };
                let mut s = open(prism(&b.0, &b.1, 0, 2).0);
                let mut ids = vec![0; s.len()];
                if kind == 0 {
                    s.push([[o[0], o[1], o[2]], [o[0] + 5, o[1] + 3, o[2] + 1], [o[0] + 2, o[1] + 6, o[2] + 2]]);
                } else {
                    let c = &bases[(idx % nb) as usize];
                    s.extend(open(prism(&c.0, &c.1, 0, 2).0).iter().map(|t| t.map(|q| [q[2] + o[0] + 1, q[0] + o[1], q[1] + o[2]])));
                }
                ids.resize(s.len(), (idx / 5 % 2) as usize);
                soup_case(&s, &ids, &[], &p[(idx % np) as usize], idx, (idx % 5) as usize, cx)
            },
        ));
    }
    {
        let p = pls.clone();
        let l = lattice(2, 2, 2);
        let ct: Vec<[Q; 4]> = (0..binom(8, 4)).map(|i| combo(i, 8, 4)).map(|c| [0, 1, 2, 3].map(|k| l[c[k] as usize].map(|x| 2 * x))).filter(|q| tet(q[0], q[1], q[2], q[3]).is_some()).collect();
        let ct = Arc::new(ct);
        let nt = ct.len() as u64;
        fams.push(Family::new(
            "same-shell-tets",
            format!("every pair of the {nt} tetrahedra of the cube's corners, the second moved by -1..1 per axis and possibly inside out, as one self-crossing shell"),
            nt * nt * 27,
            move |idx, cx| {
                let mut i = idx;
                let a = ct[take(&mut i, nt)];
                let b = ct[take(&mut i, nt)];
                let o = [0, 1, 2].map(|_| take(&mut i, 3) as i64 - 1);
                let b = b.map(|q| [0, 1, 2].map(|k| q[k] + o[k]));
                let mut s = tet(a[0], a[1], a[2], a[3]).unwrap().0;
                let t = tet(b[0], b[1], b[2], b[3]).unwrap().0;
                s.extend(t.iter().map(|t| if idx % 2 == 0 { *t } else { turned(t) }));
                soup_case(&s, &vec![0; 8], &[], &p[(idx % np) as usize], idx, (idx % 5) as usize, cx)
            },
        ));
    }
    {
        let p = pls.clone();
        let step = if th { 1 } else { 4 };
        fams.push(Family::new(
            "torn-dense-solids",
            "a ball of 128, a ring of 96 and a finely triangulated box of 192 triangles, without 1, 2, 5, 16 or half of the triangles, or with these turned, starting at every (fourth) triangle",
            10 * (128 + 96 + 192) / step,
            move |idx, cx| {
                let mut i = idx;
                let way = take(&mut i, 10);
                let at = i as usize * step as usize;
                let (s, at) = if at < 128 { (ball(4, 300.0, [7, -5, 3]).0, at) } else if at < 224 { (ring(12, 4, 400.0, 150.0, [0; 3]).0, at - 128) } else { (fine_box(4, 128, [0; 3]).0, at - 224) };
                let n = s.len();
                let w = [1, 2, 5, 16, n / 2][way % 5];
                let hit = |k: usize| (k + n - at) % n < w;
                let t: Vec<Tri> = s.iter().enumerate().filter(|x| way >= 5 || !hit(x.0)).map(|(k, t)| if hit(k) { turned(t) } else { *t }).collect();
                soup_case(&t, &vec![0; t.len()], &[], &p[idx as usize % 5], idx, (idx % 5) as usize, cx)
            },
        ));
    }
    Check {
        id: "C25",
        families: fams,
        assumptions: vec!["at least one triangle has area and the points are not all in one plane; winding numbers are computed in doubles at points away from the output's surface".into()],
    }
}
