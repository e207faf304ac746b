//! C01-C04, C08, C09: predicates and number types on doubles.
use crate::core::*;
use crate::enumr::*;
use crate::geo::*;
use crate::num::*;
use bumpalo::Bump;
use gpf::predicates as gp;
use std::cell::RefCell;

thread_local! { static BUMP: RefCell<Bump> = RefCell::new(Bump::new()); }
pub fn with_bump<T>(f: impl FnOnce(&Bump) -> T) -> T {
    BUMP.with(|b| {
        let mut b = b.borrow_mut();
        let r = f(&b);
        b.reset();
        r
    })
}
fn ori(o: gp::Orientation) -> i32 {
    match o {
        gp::Orientation::Positive => 1,
        gp::Orientation::Negative => -1,
        gp::Orientation::Zero => 0,
        gp::Orientation::Undefined => 9,
    }
}

/// value sets with different mixtures of exponents and low-order bits
pub fn vsets() -> Vec<(&'static str, Vec<f64>)> {
    let u = f64::EPSILON;
    vec![
        ("small ints", vec![0.0, 1.0, 2.0, 3.0]),
        ("ulps at 1", vec![1.0 - u / 2.0, 1.0, 1.0 + u, 1.0 + 2.0 * u]),
        ("tenths", vec![0.1, 0.2, 0.3, 0.7]),
        ("wide", vec![1.0, 1073741824.5, 1152921504606846976.0, -3.0]),
        ("mixed", vec![-1.0, 0.3, 1e-17, 12345678.9]),
        ("tiny+1", vec![1e-30, 1.0, 1.0 + u, -1e-30]),
        ("signed", vec![-2.0, -0.5, 0.0, 1.0]),
        ("span", vec![9007199254740993e-16, 4503599627370497.0, -1e9, 3e-5]),
    ]
}
fn pick(sets: &[(&'static str, Vec<f64>)], names: &[&str]) -> Vec<Vec<f64>> {
    names.iter().map(|n| sets.iter().find(|s| s.0 == *n).unwrap().1.clone()).collect()
}

// ------------------------------------------------------------------ C01
fn chk_o2(a: &[f64], b: &[f64], c: &[f64], key: String, ctx: &mut Ctx) -> Res {
    ctx.state(1);
    let s = scale2(&[a, b, c]);
    let want = o2(&s[0], &s[1], &s[2]);
    if want == 0 {
        ctx.nontrivial += 1;
    }
    let got = with_bump(|bp| sgn(gp::orient2d(a, b, c, bp)));
    ctx.step(1);
    ctx.trace(1);
    if got != want {
        return ctx.fail(key, format!("orient2d({a:?}, {b:?}, {c:?}) has sign {got}, exact sign {want}"));
    }
    // swapping arguments
    for (x, y, z, s) in [(b, a, c, -1), (a, c, b, -1), (c, b, a, -1), (b, c, a, 1), (c, a, b, 1)] {
        let g = with_bump(|bp| sgn(gp::orient2d(x, y, z, bp)));
        ctx.step(1);
        if g != want * s {
            return ctx.fail(key, format!("orient2d({x:?}, {y:?}, {z:?}) has sign {g}, exact sign {}", want * s));
        }
    }
    ctx.sample(|| format!("orient2d({a:?},{b:?},{c:?}) sign {want}"));
    Ok(())
}
fn chk_o3(p: [&[f64]; 4], all_perms_: bool, key: String, ctx: &mut Ctx) -> Res {
    ctx.state(1);
    let s = scale3(&p);
    let want = o3(&s[0], &s[1], &s[2], &s[3]);
    if want == 0 {
        ctx.nontrivial += 1;
    }
    ctx.trace(1);
    let perms: &[([usize; 4], i32)] = if all_perms_ {
        &[([0, 1, 2, 3], 1), ([1, 0, 2, 3], -1), ([3, 1, 2, 0], -1), ([0, 3, 2, 1], -1), ([0, 1, 3, 2], -1), ([1, 2, 3, 0], -1), ([2, 3, 0, 1], 1), ([3, 2, 1, 0], 1)]
    } else {
        &[([0, 1, 2, 3], 1), ([1, 0, 2, 3], -1), ([3, 1, 2, 0], -1)]
    };
    for (q, sg) in perms {
        let g = with_bump(|bp| sgn(gp::orient3d(p[q[0]], p[q[1]], p[q[2]], p[q[3]], bp)));
        ctx.step(1);
        if g != want * sg {
            return ctx.fail(key, format!("orient3d({:?}, {:?}, {:?}, {:?}) has sign {g}, exact sign {}", p[q[0]], p[q[1]], p[q[2]], p[q[3]], want * sg));
        }
    }
    ctx.sample(|| format!("orient3d({p:?}) sign {want}"));
    Ok(())
}

/// orient2d families shared by quick and thorough
pub fn c01(th: bool) -> Check {
    let mut fam = Vec::new();
    let sets = vsets();
    // every 6-tuple of coordinates over a value set
    for (name, v) in &sets {
        let (v, name) = (v.clone(), *name);
        let k = v.len() as u64;
        fam.push(Family::new(format!("orient2d all tuples: {name}"), format!("every 6-tuple of coordinates from {v:?}, 6 argument orders"), pow(k, 6), move |idx, ctx| {
            let d = digits(idx, k, 6);
            let p: Vec<f64> = d.iter().map(|&i| v[i]).collect();
            chk_o2(&p[0..2], &p[2..4], &p[4..6], idx.to_string(), ctx)
        }));
    }
    // classical near-collinear windows: one point on an ulp grid around a line
    let w: u64 = if th { 65 } else { 33 };
    let lines: Vec<[f64; 6]> = vec![
        [0.5, 0.5, 12.0, 12.0, 24.0, 24.0],
        [0.5, 0.5, 17.3, 17.3, 24.00000000000005, 24.0000000000000517765],
        [0.5, 0.5, 8.8, 8.8, 12.1, 12.1],
        [1.0, 2.0, 3.0, 6.0, -5.0, -10.0],
        [1.0, -0.3, 1e8, -0.3e8, 2e8, -0.6e8],
        [1e-9, 1e-9, 1.0, 1.0, 1e15, 1e15],
        [0.1, 0.7, 0.2, 1.4, 0.3, 2.1],
        [1048576.1, 3.3, 1048577.1, 4.3, 1048578.1, 5.3],
    ];
    fam.push(Family::new("orient2d ulp windows", format!("{} near-collinear triples, one point over every offset of a {w}x{w} one-ulp window (and a coarser 1000-ulp window)", lines.len()), lines.len() as u64 * 2 * 3 * w * w, move |idx, ctx| {
        let mut i = idx;
        let l = lines[take(&mut i, lines.len() as u64)];
        let mul = [1i64, 1000][take(&mut i, 2)];
        let which = take(&mut i, 3);
        let a = (take(&mut i, w) as i64 - w as i64 / 2) * mul;
        let b = (take(&mut i, w) as i64 - w as i64 / 2) * mul;
        let mut p = l;
        let add = |x: f64, k: i64| f64::from_bits((x.to_bits() as i64 + k) as u64);
        p[2 * which] = add(p[2 * which], a);
        p[2 * which + 1] = add(p[2 * which + 1], b);
        chk_o2(&p[0..2], &p[2..4], &p[4..6], idx.to_string(), ctx)
    }));
    // exactly collinear points with rounding tails in every difference, and all one-ulp neighbours
    let vals: Vec<f64> = vec![1.0, 1.0 + f64::EPSILON, 0.1, 3e-17, -7.0, 1152921504606846977.0, 4503599627370497.5, 1e25, -0.3, 2.5e-8, 6.0, 9007199254740991.0];
    let nv = if th { 12 } else { 8 };
    fam.push(Family::new("orient2d collinear tails", format!("points on y = kx, k in {{1,-1,2,1/4}} with x from {nv} values of very different magnitude, every +-1 ulp perturbation of the six coordinates"), pow(nv, 3) * 4 * 729, move |idx, ctx| {
        let mut i = idx;
        let pert = digits(take(&mut i, 729) as u64, 3, 6);
        let k = [1.0, -1.0, 2.0, 0.25][take(&mut i, 4)];
        let x: Vec<f64> = (0..3).map(|_| vals[take(&mut i, nv)]).collect();
        let p: Vec<f64> = (0..6).map(|j| ulps(if j % 2 == 0 { x[j / 2] } else { k * x[j / 2] }, pert[j] as i32 - 1)).collect();
        chk_o2(&p[0..2], &p[2..4], &p[4..6], idx.to_string(), ctx)
    }));
    // orient3d: every 12-tuple over three-value sets
    let names3: &[&str] = if th { &["small ints", "ulps at 1", "tenths", "wide", "mixed", "tiny+1", "span"] } else { &["ulps at 1", "tenths", "wide", "tiny+1", "span"] };
    for (name, v) in names3.iter().zip(pick(&sets, names3)) {
        let name = name.to_string();
        fam.push(Family::new(format!("orient3d all tuples: {name}"), format!("every 12-tuple of coordinates from the first three of {v:?}"), pow(3, 12), move |idx, ctx| {
            let p: Vec<f64> = digits(idx, 3, 12).iter().map(|&i| v[i]).collect();
            chk_o3([&p[0..3], &p[3..6], &p[6..9], &p[9..12]], false, idx.to_string(), ctx)
        }));
    }
    // coplanar with tails
    let vals3: Vec<Vec<f64>> = vec![vec![1.0, 1152921504606846977.0, 0.1, -3e-17], vec![0.3, 7.0, 1e9, 1.0 + f64::EPSILON], vec![1e-5, 123456789.123, 5.0e-13, -2.0], vec![1.0, 1e20, 3.0, 1e-20], vec![0.1, 1.7, 2.9, 4.3]];
    let nsets = vals3.len() as u64;
    let npt: u64 = if th { 16 } else { 9 };
    fam.push(Family::new("orient3d coplanar tails", format!("4 points on each of 8 planes (z=x, z=-y, z=2x, z=y/4, x=y, z=x scaled, axis permutations) over {npt} (x,y) pairs of widely spread values, every single-coordinate +-1 ulp perturbation"), pow(npt, 4) * 8 * 25 * nsets, move |idx, ctx| {
        let mut i = idx;
        let pe = take(&mut i, 25);
        let pl = take(&mut i, 8);
        let vs = &vals3[take(&mut i, nsets)];
        let r = if npt == 16 { 4 } else { 3 };
        let mut p = [0.0; 12];
        for j in 0..4 {
            let q = take(&mut i, npt) as u64;
            let (x, y) = (vs[(q % r) as usize], vs[(q / r) as usize]);
            let c = match pl {
                0 => [x, y, x],
                1 => [x, y, -y],
                2 => [x, y, 2.0 * x],
                3 => [y * 0.25, x, y],
                4 => [x, x, y],
                5 => [y, x, 0.5 * x],
                6 => [4.0 * x, y, x],
                _ => [-x, x, y],
            };
            p[3 * j..3 * j + 3].copy_from_slice(&c);
        }
        if pe > 0 {
            p[(pe - 1) / 2] = ulps(p[(pe - 1) / 2], if pe % 2 == 1 { 1 } else { -1 });
        }
        chk_o3([&p[0..3], &p[3..6], &p[6..9], &p[9..12]], false, idx.to_string(), ctx)
    }));
    // small-integer sums: all four points in a 3x3x3 cube with non-trivial offset and scale
    let maps: Vec<(f64, f64)> = vec![(0.0, 1.0), (0.1, 0.1), (1e6 + 0.3, 1e-9), (-1.0, 1e-16 * 0.7 + 1.0)];
    fam.push(Family::new("orient3d grid", "four points of the 3x3x3 grid (first fixed to a corner class) under 4 affine coordinate maps, 8 argument orders", 27 * 27 * 27 * 8 * 4, move |idx, ctx| {
        let mut i = idx;
        let (o, s) = maps[take(&mut i, 4)];
        let f = |k: usize| o + s * k as f64;
        let c = take(&mut i, 8);
        let mut p = vec![f(c & 1), f((c >> 1) & 1), f(c >> 2)];
        for _ in 0..3 {
            let c = take(&mut i, 27);
            p.extend([f(c % 3), f(c / 3 % 3), f(c / 9)]);
        }
        chk_o3([&p[0..3], &p[3..6], &p[6..9], &p[9..12]], true, idx.to_string(), ctx)
    }));
    // projected and aligned forms
    for (name, v) in sets.iter().filter(|s| s.0 != "span") {
        let (v, name) = (v.clone(), *name);
        let k = 3u64;
        fam.push(Family::new(format!("axis forms: {name}"), format!("every triple of 3D points with coordinates from the first three of {v:?}: orient2d_by_axis for the three axes and mis_alignment"), pow(k, 9), move |idx, ctx| {
            let p: Vec<f64> = digits(idx, k, 9).iter().map(|&i| v[i]).collect();
            let (a, b, c) = (&p[0..3], &p[3..6], &p[6..9]);
            let s = scale3(&[a, b, c]);
            ctx.state(1);
            ctx.trace(4);
            ctx.step(4);
            for ax in 0..3usize {
                let pr = |q: &P3| [q[(ax + 1) % 3].clone(), q[(ax + 2) % 3].clone()];
                let want = o2(&pr(&s[0]), &pr(&s[1]), &pr(&s[2]));
                let got = with_bump(|bp| ori(gp::orient2d_by_axis(a, b, c, ax, bp)));
                if got != want {
                    return ctx.fail(idx.to_string(), format!("orient2d_by_axis({a:?},{b:?},{c:?}, axis {ax}) = {got}, exact {want}"));
                }
            }
            let want = !collinear(&s[0], &s[1], &s[2]);
            let got = with_bump(|bp| gp::mis_alignment(a, b, c, bp));
            if got != want {
                return ctx.fail(idx.to_string(), format!("mis_alignment({a:?},{b:?},{c:?}) = {got}, exact {want}"));
            }
            Ok(())
        }));
    }
    Check { id: "C01", families: fam, assumptions: vec!["coordinates are finite and products of coordinate differences neither overflow nor underflow".into(), "exact oracle: integer determinants after scaling by a common power of two".into()] }
}

// ------------------------------------------------------------------ C02
fn chk_inc(p: &[[f64; 2]; 4], perms: bool, key: String, ctx: &mut Ctx) -> Res {
    let s = scale2(&[&p[0], &p[1], &p[2], &p[3]]);
    let want = incirc(&s);
    ctx.state(1);
    ctx.trace(1);
    if want == 0 {
        ctx.nontrivial += 1;
    }
    let q: &[([usize; 4], i32)] = if perms { &[([0, 1, 2, 3], 1), ([1, 0, 2, 3], -1), ([3, 1, 2, 0], -1), ([0, 3, 2, 1], -1), ([1, 2, 0, 3], 1), ([2, 3, 0, 1], 1)] } else { &[([0, 1, 2, 3], 1)] };
    for (o, sg) in q {
        ctx.step(1);
        let g = with_bump(|bp| sgn(gp::incircle(&p[o[0]], &p[o[1]], &p[o[2]], &p[o[3]], bp)));
        if g != want * sg {
            return ctx.fail(key, format!("incircle({:?},{:?},{:?},{:?}) has sign {g}, exact sign {}", p[o[0]], p[o[1]], p[o[2]], p[o[3]], want * sg));
        }
    }
    ctx.sample(|| format!("incircle({p:?}) sign {want}"));
    Ok(())
}
fn chk_ins(p: &[[f64; 3]; 5], h: Option<&[f64; 5]>, perms: bool, key: String, ctx: &mut Ctx) -> Res {
    let s = scale3(&[&p[0], &p[1], &p[2], &p[3], &p[4]]);
    let want = match h {
        None => insph(&s),
        Some(h) => det4h(&s, &ints(h)),
    };
    ctx.state(1);
    ctx.trace(1);
    if want == 0 {
        ctx.nontrivial += 1;
    }
    let q: &[([usize; 5], i32)] = if perms { &[([0, 1, 2, 3, 4], 1), ([1, 0, 2, 3, 4], -1), ([4, 1, 2, 3, 0], -1), ([0, 1, 3, 2, 4], -1), ([1, 2, 3, 4, 0], 1), ([0, 3, 2, 1, 4], -1)] } else { &[([0, 1, 2, 3, 4], 1)] };
    for (o, sg) in q {
        ctx.step(1);
        let g = with_bump(|bp| match h {
            None => sgn(gp::insphere(&p[o[0]], &p[o[1]], &p[o[2]], &p[o[3]], &p[o[4]], bp)),
            Some(h) => sgn(gp::orient4d(&p[o[0]], &p[o[1]], &p[o[2]], &p[o[3]], &p[o[4]], bp, h[o[0]], h[o[1]], h[o[2]], h[o[3]], h[o[4]])),
        });
        if g != want * sg {
            return ctx.fail(key, format!("{}({:?}) heights {h:?} order {o:?} has sign {g}, exact sign {}", if h.is_some() { "orient4d" } else { "insphere" }, p, want * sg));
        }
    }
    ctx.sample(|| format!("points {p:?} heights {h:?} sign {want}"));
    Ok(())
}

pub fn c02(th: bool) -> Check {
    let mut fam = Vec::new();
    let sets = vsets();
    for (name, v) in &sets {
        let (v, name) = (v.clone(), *name);
        let k: u64 = 4;
        fam.push(Family::new(format!("incircle all tuples: {name}"), format!("every 8-tuple of coordinates from {v:?}, 6 argument orders"), pow(k, 8), move |idx, ctx| {
            let p: Vec<f64> = digits(idx, k, 8).iter().map(|&i| v[i]).collect();
            chk_inc(&[[p[0], p[1]], [p[2], p[3]], [p[4], p[5]], [p[6], p[7]]], true, idx.to_string(), ctx)
        }));
    }
    let sv: Vec<(f64, f64)> = vec![(3.0, 4.0), (1.0, 0.1), (1e-17, 1.0), (1152921504606846977.0, 3.0), (0.3, 12345.678), (1.0, 1.0 + f64::EPSILON), (7.0, 1e-9), (4503599627370497.5, 0.7), (5e10, 1.7), (0.1, 0.7)];
    let ns = sv.len() as u64;
    // symmetric points on a circle around the origin, one-ulp perturbed; and rectangle corners
    fam.push(Family::new("incircle cocircular tails", format!("4 distinct-or-equal points among the 8 images (+-x,+-y),(+-y,+-x) of {ns} (x,y) values (exactly cocircular, inexact differences), every single-coordinate +-1 ulp perturbation"), 4096 * 17 * ns, {
        let sv = sv.clone();
        move |idx, ctx| {
            let mut i = idx;
            let (x, y) = sv[take(&mut i, ns)];
            let pe = take(&mut i, 17);
            let mut p = [[0.0; 2]; 4];
            for q in p.iter_mut() {
                let c = take(&mut i, 8);
                let (a, b) = if c & 4 == 0 { (x, y) } else { (y, x) };
                *q = [if c & 1 == 0 { a } else { -a }, if c & 2 == 0 { b } else { -b }];
            }
            if pe > 0 {
                let c = (pe - 1) / 2;
                p[c / 2][c % 2] = ulps(p[c / 2][c % 2], if pe % 2 == 1 { 1 } else { -1 });
            }
            chk_inc(&p, false, idx.to_string(), ctx)
        }
    }));
    let rv: Vec<f64> = vec![1.0, 0.1, -3e-9, 1152921504606846977.0, 1e8 + 0.3, 2.0];
    let nr = rv.len() as u64;
    fam.push(Family::new("incircle rectangle corners", "four corners of every axis-parallel rectangle with sides at 6 widely spread coordinates, all corner tuples, +-1 ulp perturbations of each coordinate", pow(nr, 4) * 24 * 17, {
        let rv = rv.clone();
        move |idx, ctx| {
            let mut i = idx;
            let pe = take(&mut i, 17);
            let pm = perm(take(&mut i, 24) as u64, 4);
            let v: Vec<f64> = (0..4).map(|_| rv[take(&mut i, nr)]).collect();
            let c = [[v[0], v[2]], [v[1], v[2]], [v[1], v[3]], [v[0], v[3]]];
            let mut p = [c[pm[0]], c[pm[1]], c[pm[2]], c[pm[3]]];
            if pe > 0 {
                let c = (pe - 1) / 2;
                p[c / 2][c % 2] = ulps(p[c / 2][c % 2], if pe % 2 == 1 { 1 } else { -1 });
            }
            chk_inc(&p, false, idx.to_string(), ctx)
        }
    }));
    // insphere
    let n3: &[&str] = if th { &["small ints", "ulps at 1", "tenths", "wide", "mixed", "tiny+1", "signed"] } else { &["ulps at 1", "tenths", "wide", "mixed", "signed"] };
    for (name, v) in n3.iter().zip(pick(&sets, n3)) {
        let name = name.to_string();
        let fixed = if th { 0 } else { 4 }; // quick: coordinates of two points partly fixed
        let nd = 15 - fixed;
        fam.push(Family::new(format!("insphere tuples: {name}"), format!("every {nd}-tuple of free coordinates from three values of {v:?} ({fixed} coordinates fixed to distinct values)"), pow(if th { 3 } else { 3 }, nd as u32), move |idx, ctx| {
            let d = digits(idx, 3, nd);
            let mut c: Vec<f64> = d.iter().map(|&i| v[i]).collect();
            while c.len() < 15 {
                c.push(v[c.len() % 4]);
            }
            let p = [[c[0], c[1], c[2]], [c[3], c[4], c[5]], [c[6], c[7], c[8]], [c[9], c[10], c[11]], [c[12], c[13], c[14]]];
            chk_ins(&p, None, false, idx.to_string(), ctx)
        }));
    }
    let sp: Vec<[f64; 3]> = vec![[1.0, 2.0, 3.0], [0.1, 0.2, 0.7], [1e-17, 1.0, 3.0], [1e9 + 0.3, 0.7, 5.0], [1.0, 1.0 + f64::EPSILON, 0.3], [1152921504606846977.0, 1.0, 3e5], [4503599627370497.5, 3.0, 0.1], [1e-5, 1e5, 1.7]];
    // 48 symmetric images: choose 5; quick: 5-tuples of 12 representatives
    let m: u64 = if th { 24 } else { 10 };
    let nsp = sp.len() as u64;
    fam.push(Family::new("insphere cospherical tails", format!("every 5-tuple among {m} symmetric images (+-x,+-y,+-z permuted) of {nsp} points: exactly cospherical with inexact differences; each also with one coordinate moved by an ulp"), pow(m, 5) * nsp * 2, {
        let sp = sp.clone();
        move |idx, ctx| {
            let mut i = idx;
            let v = sp[take(&mut i, nsp)];
            let pe = take(&mut i, 2);
            let mut p = [[0.0; 3]; 5];
            let mut hsh = 0usize;
            for q in p.iter_mut() {
                let c = take(&mut i, m);
                hsh = hsh * 7 + c;
                // spread the representatives over signs and permutations
                let pr = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]][c % 6];
                let sg = [0usize, 3, 5, 6, 1, 2, 4, 7, 3, 0][(c * 3 + c / 6) % 10];
                for k in 0..3 {
                    q[k] = v[pr[k]] * if (sg >> k) & 1 == 1 { -1.0 } else { 1.0 };
                }
            }
            if pe == 1 {
                let c = hsh % 15;
                p[c / 3][c % 3] = ulps(p[c / 3][c % 3], if hsh % 2 == 0 { 1 } else { -1 });
            }
            chk_ins(&p, None, false, idx.to_string(), ctx)
        }
    }));
    let bx: Vec<[f64; 6]> = vec![[0.0, 1.0, 0.0, 1.0, 0.0, 1.0], [0.1, 0.7, 0.2, 0.9, -0.3, 1.1], [1.0, 1e17, 3.0, 4.7, 0.1, 1e9], [1e-20, 1.0, 1e-20, 1.0, 0.3, 1e12], [1152921504606846977.0, 1.0, 2.0, 1e8, 0.1, 5.0]];
    let nb = bx.len() as u64;
    fam.push(Family::new("insphere box corners", "every 5-tuple of corners of 5 boxes with widely spread coordinates, unperturbed or with one of the 15 coordinates moved +-1 ulp", pow(8, 5) * nb * 31, move |idx, ctx| {
        let mut i = idx;
        let b = bx[take(&mut i, nb)];
        let pe = take(&mut i, 31);
        let mut p = [[0.0; 3]; 5];
        for q in p.iter_mut() {
            let c = take(&mut i, 8);
            *q = [b[c & 1], b[2 + ((c >> 1) & 1)], b[4 + (c >> 2)]];
        }
        if pe > 0 {
            let c = (pe - 1) / 2;
            p[c / 3][c % 3] = ulps(p[c / 3][c % 3], if pe % 2 == 1 { 1 } else { -1 });
        }
        chk_ins(&p, None, pe == 0, idx.to_string(), ctx)
    }));
    // orient4d with heights
    let hsel: u64 = 5;
    let vs: Vec<[f64; 3]> = vec![[0.0, 1.0, 2.0], [0.1, 0.3, 0.7], [1.0, 1e17, 3.0], [1.0, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0], [1e-20, 1.0, 12345.678]];
    let nvs = vs.len() as u64;
    let free: u32 = if th { 11 } else { 9 };
    fam.push(Family::new("orient4d hyperplane heights", format!("five points with {free} free coordinates from three-value sets ({nvs} sets); heights linear in the coordinates (exact hyperplane), constant, sums or squared norms; unperturbed and one height moved an ulp"), pow(3, free) * hsel * 3 * nvs, move |idx, ctx| {
        let mut i = idx;
        let v = vs[take(&mut i, nvs)];
        let hs = take(&mut i, hsel);
        let pe = take(&mut i, 3);
        let d = digits(i, 3, free as usize);
        let mut c: Vec<f64> = d.iter().map(|&i| v[i]).collect();
        let mut k = 0;
        while c.len() < 15 {
            c.push(v[(k * 2 + 1) % 3] * if k % 2 == 0 { 1.0 } else { 0.5 });
            k += 1;
        }
        // interleave fixed and free coordinates
        c.rotate_right(4);
        let mut p = [[0.0; 3]; 5];
        for j in 0..5 {
            p[j] = [c[3 * j], c[3 * j + 1], c[3 * j + 2]];
        }
        let mut h = [0.0; 5];
        for j in 0..5 {
            h[j] = match hs {
                0 => p[j][0],
                1 => -2.0 * p[j][2],
                2 => 1.5,
                3 => p[j][0] + p[j][1],
                _ => p[j][0] * p[j][0] + p[j][1] * p[j][1] + p[j][2] * p[j][2],
            };
        }
        if pe > 0 {
            let w = (d[0] + 3 * d[1] + d[2]) % 5;
            h[w] = ulps(h[w], if pe == 1 { 1 } else { -1 });
        }
        chk_ins(&p, Some(&h), pe == 0, idx.to_string(), ctx)
    }));
    Check { id: "C02", families: fam, assumptions: vec!["coordinates are finite and no product overflows or underflows".into(), "exact oracle: integer determinants after scaling by a common power of two (heights by their own power of two)".into()] }
}

// ------------------------------------------------------------------ C03
type Ex = gp::ExpansionNum;
fn valid_expansion(v: &[f64]) -> Result<(), String> {
    if v.is_empty() {
        return Err("no components".into());
    }
    if v.len() == 1 {
        return Ok(());
    }
    for i in 0..v.len() {
        if v[i] == 0.0 {
            return Err("interior zero component".into());
        }
        if i > 0 {
            // non-overlapping, increasing magnitude: the lowest set bit of v[i] exceeds v[i-1]
            let (m, e) = decompose(v[i]);
            let _ = m;
            if (Dy { m: Int::S(1), e }).cmp(&Dy::new(v[i - 1].abs())) != std::cmp::Ordering::Greater {
                return Err(format!("components {} and {} overlap or are out of order", i - 1, i));
            }
        }
    }
    Ok(())
}
fn same_value(v: &[f64], want: &Dy, what: &str) -> Result<(), String> {
    let got = Dy::sum(v);
    if got.cmp(want) != std::cmp::Ordering::Equal {
        return Err(format!("{what}: components {v:?} denote a different number"));
    }
    Ok(())
}
fn apply(op: usize, a: &Ex, da: &Dy, b: &Ex, db: &Dy) -> Result<(Ex, Dy), String> {
    let (r, d, nm) = match op {
        0 => (a + b, da.add(db), "add"),
        1 => (a - b, da.sub(db), "sub"),
        2 => (a * b, da.mul(db), "mul"),
        _ => {
            let mut n = a.clone();
            n.neg();
            (n - b.clone(), da.neg().sub(db), "neg-sub")
        }
    };
    let ctxs = || format!("{nm} of {:?} and {:?}", &a.vec, &b.vec);
    valid_expansion(&r.vec).map_err(|e| format!("{}: result {:?}: {e}", ctxs(), r.vec))?;
    same_value(&r.vec, &d, &ctxs())?;
    let s = d.sign();
    if r.not_zero() != (s != 0) || r.negative() != (s < 0) || sgn(*r.last().unwrap()) != s {
        return Err(format!("{}: sign query wrong for {:?}, exact sign {s}", ctxs(), r.vec));
    }
    if s == 0 && (r.vec.len() != 1 || r.vec[0] != 0.0) {
        return Err(format!("{}: zero represented as {:?}", ctxs(), r.vec));
    }
    Ok((r, d))
}
pub fn c03(th: bool) -> Check {
    let mut fam = Vec::new();
    let u = f64::EPSILON;
    let seeds: Vec<f64> = vec![0.0, 1.0, -1.0, 1.0 + u, 1.0 - u / 2.0, 0.1, 3.0, 1e-17, -1073741824.5, 1152921504606846977.0, 1e-40, 4503599627370497.5];
    let k = if th { 12u64 } else { 10 };
    {
        let seeds = seeds.clone();
        fam.push(Family::new("trees (a.b).(c.d)", format!("every expression (a op b) op (c op d), op in {{+,-,*,neg-}}, over {k} doubles"), pow(k, 4) * 64, move |idx, ctx| {
            let mut i = idx;
            let ops = [take(&mut i, 4), take(&mut i, 4), take(&mut i, 4)];
            let s: Vec<f64> = (0..4).map(|_| seeds[take(&mut i, k)]).collect();
            let e: Vec<(Ex, Dy)> = s.iter().map(|&x| (vec![x].into(), Dy::new(x))).collect();
            ctx.state(1);
            ctx.step(3);
            ctx.trace(1);
            let r = guarded(|| -> Result<(Ex, Dy), String> {
                let l = apply(ops[0], &e[0].0, &e[0].1, &e[1].0, &e[1].1)?;
                let r = apply(ops[1], &e[2].0, &e[2].1, &e[3].0, &e[3].1)?;
                apply(ops[2], &l.0, &l.1, &r.0, &r.1)
            });
            match r.and_then(|x| x) {
                Ok((v, _)) => {
                    if v.vec.len() > 1 {
                        ctx.nontrivial += 1;
                    }
                    ctx.sample(|| format!("seeds {s:?} ops {ops:?} -> {:?}", v.vec));
                    Ok(())
                }
                Err(e) => ctx.fail(idx.to_string(), format!("seeds {s:?} ops {ops:?} (0 +, 1 -, 2 *, 3 neg-): {e}")),
            }
        }));
    }
    // longer histories: accumulator op seed, repeated; also squaring and self-subtraction
    let (len, ks): (usize, u64) = if th { (6, 6) } else { (5, 6) };
    {
        let seeds: Vec<f64> = vec![1.0 + u, 0.1, -3e9, 1e-17, 7.0, 0.0];
        let rad = ks * 3 + 3;
        fam.push(Family::new("accumulator histories", format!("every sequence of {len} steps acc := acc op seed (op in +,-,*; {ks} seeds), acc*acc, acc-acc+seed, -acc, from two starting values"), pow(rad, len as u32) * 2, move |idx, ctx| {
            let mut i = idx;
            let st = [0.3, 1e16 + 2.0][take(&mut i, 2)];
            let steps = digits(i, rad, len);
            ctx.state(1);
            ctx.step(len as u64);
            ctx.trace(1);
            let r = guarded(|| -> Result<usize, String> {
                let mut acc: (Ex, Dy) = (vec![st].into(), Dy::new(st));
                for &s in &steps {
                    acc = if s < 3 * ks as usize {
                        let x = seeds[s / 3];
                        apply(s % 3, &acc.0, &acc.1, &vec![x].into(), &Dy::new(x))?
                    } else if s == 3 * ks as usize {
                        if acc.0.vec.len() > 16 || acc.0.vec.iter().any(|c| *c != 0.0 && (c.abs() < 1e-130 || c.abs() > 1e130)) {
                            // the square would be too long or leave the exponent range
                            acc
                        } else {
                            apply(2, &acc.0, &acc.1, &acc.0, &acc.1)?
                        }
                    } else if s == 3 * ks as usize + 1 {
                        let z = apply(1, &acc.0, &acc.1, &acc.0, &acc.1)?;
                        apply(0, &z.0, &z.1, &vec![0.7].into(), &Dy::new(0.7))?
                    } else {
                        let mut n = acc.0.clone();
                        n.neg();
                        let d = acc.1.neg();
                        same_value(&n.vec, &d, "neg")?;
                        (n, d)
                    };
                }
                Ok(acc.0.vec.len())
            });
            match r.and_then(|x| x) {
                Ok(n) => {
                    if n > 3 {
                        ctx.nontrivial += 1;
                    }
                    Ok(())
                }
                Err(e) => ctx.fail(idx.to_string(), format!("start {st} steps {steps:?}: {e}")),
            }
        }));
    }
    // the free functions
    {
        let seeds = seeds.clone();
        fam.push(Family::new("free functions", format!("expansion functions (grow, grow zero-eliminating, plain sum, scale, fast sum/difference, product, invert, estimate) on every pair of expansions built from {k} doubles"), pow(k, 4) * 9, move |idx, ctx| {
            let mut i = idx;
            let oa = take(&mut i, 3);
            let ob = take(&mut i, 3);
            let s: Vec<f64> = (0..4).map(|_| seeds[take(&mut i, k)]).collect();
            let mk = |op: usize, a: f64, b: f64| apply(op, &vec![a].into(), &Dy::new(a), &vec![b].into(), &Dy::new(b));
            ctx.state(1);
            ctx.step(8);
            ctx.trace(8);
            let r = guarded(|| -> Result<(), String> {
                let (a, da) = mk(oa, s[0], s[1])?;
                let (b, db) = mk(ob, s[2], s[3])?;
                let g = std::alloc::Global;
                let x = s[3];
                let dx = Dy::new(x);
                same_value(&gp::grow_expansion(&a.vec, x, g), &da.add(&dx), "grow_expansion")?;
                same_value(&gp::grow_expansion_zeroelim(&a.vec, x, g), &da.add(&dx), "grow_expansion_zeroelim")?;
                if gp::grow_expansion_zeroelim(&a.vec, x, g).iter().any(|&c| c == 0.0) {
                    return Err("grow_expansion_zeroelim kept a zero".into());
                }
                same_value(&gp::expansion_sum(&a.vec, &b.vec, g), &da.add(&db), "expansion_sum")?;
                let sc = gp::scale_expansion_zeroelim(&a.vec, x, g);
                same_value(&sc, &da.mul(&dx), "scale_expansion_zeroelim")?;
                valid_expansion(&sc).map_err(|e| format!("scale_expansion_zeroelim: {sc:?} {e}"))?;
                let sm = gp::fast_expansion_sum_zeroelim(&a.vec, &b.vec, g);
                same_value(&sm, &da.add(&db), "fast_expansion_sum_zeroelim")?;
                let df = gp::fast_expansion_diff_zeroelim(&a.vec, &b.vec, g);
                same_value(&df, &da.sub(&db), "fast_expansion_diff_zeroelim")?;
                let m = gp::mul_expansion_zeroelim(&a.vec, &b.vec, g);
                same_value(&m, &da.mul(&db), "mul_expansion_zeroelim")?;
                valid_expansion(&m).map_err(|e| format!("mul_expansion_zeroelim: {m:?} {e}"))?;
                let mut inv = m.clone();
                gp::expansion_invert(&mut inv);
                same_value(&inv, &da.mul(&db).neg(), "expansion_invert")?;
                // the approximate value is within a few ulps of the exact one
                let e = gp::estimate(&m);
                let diff = Dy::new(e).sub(&Dy::sum(&m));
                let tol = Dy::new(e.abs() * 8.0 * f64::EPSILON);
                if (Dy { m: diff.m.abs(), e: diff.e }).cmp(&tol) == std::cmp::Ordering::Greater {
                    return Err(format!("estimate({m:?}) = {e} is off by more than 8 ulps"));
                }
                Ok(())
            });
            match r.and_then(|x| x) {
                Ok(()) => Ok(()),
                Err(e) => ctx.fail(idx.to_string(), format!("a = {} {} {}, b = {} {} {}: {e}", s[0], ["+", "-", "*"][oa], s[1], s[2], ["+", "-", "*"][ob], s[3])),
            }
        }));
    }
    // long by long products and sums
    {
        let seeds: Vec<f64> = vec![0.1, 1e-17, -3e9, 1.0 + u, 1e20];
        fam.push(Family::new("long operands", "products, sums and differences of every pair of 3-factor products x*y*z + w over 5 doubles (operands of up to 9 components)", pow(5, 8), move |idx, ctx| {
            let s: Vec<f64> = digits(idx, 5, 8).iter().map(|&i| seeds[i]).collect();
            ctx.state(1);
            ctx.step(9);
            ctx.trace(1);
            let r = guarded(|| -> Result<(), String> {
                let mk = |q: &[f64]| -> Result<(Ex, Dy), String> {
                    let e: Vec<(Ex, Dy)> = q.iter().map(|&x| (vec![x].into(), Dy::new(x))).collect();
                    let a = apply(2, &e[0].0, &e[0].1, &e[1].0, &e[1].1)?;
                    let b = apply(0, &e[2].0, &e[2].1, &e[3].0, &e[3].1)?;
                    apply(2, &a.0, &a.1, &b.0, &b.1)
                };
                let a = mk(&s[0..4])?;
                let b = mk(&s[4..8])?;
                for op in 0..3 {
                    apply(op, &a.0, &a.1, &b.0, &b.1)?;
                }
                Ok(())
            });
            match r.and_then(|x| x) {
                Ok(()) => Ok(()),
                Err(e) => ctx.fail(idx.to_string(), format!("seeds {s:?}: {e}")),
            }
        }));
    }
    Check { id: "C03", families: fam, assumptions: vec!["values stay inside the exponent range (no overflow, no component below the underflow threshold)".into()] }
}

// ------------------------------------------------------------------ C04
/// The reported signs of an interval number agree with every value it must contain.
fn judge_iv(r: &gp::IntervalNumber, vals: &[Dy]) -> Result<(), String> {
    let smin = vals.iter().map(|d| d.sign()).min().unwrap();
    let smax = vals.iter().map(|d| d.sign()).max().unwrap();
    if r.not_zero() {
        let (p, n) = (r.positive(), r.negative());
        if p == n {
            return Err(format!("not_zero but positive={p} negative={n}"));
        }
        if p && smin <= 0 {
            return Err("reported positive but a value <= 0 is possible".into());
        }
        if n && smax >= 0 {
            return Err("reported negative but a value >= 0 is possible".into());
        }
    } else if r.positive() || r.negative() {
        return Err("reports a sign although it may be zero".into());
    }
    Ok(())
}
/// Containment: thresholds just outside/inside the extreme exact values must not be separated from them.
fn encloses(r: &gp::IntervalNumber, vals: &[Dy]) -> Result<(), String> {
    judge_iv(r, vals)?;
    for d in vals.iter() {
        // nearest doubles to the exact value
        let (f, e) = d.m.approx();
        let f = f * 2f64.powi(d.e.max(-1000) + e);
        for c in [f, f.next_up(), f.next_down(), ulps(f, 4), ulps(f, -4)] {
            if !c.is_finite() {
                continue;
            }
            let t = r - &gp::IntervalNumber::from(c);
            let dc = Dy::new(c);
            let sh: Vec<Dy> = vals.iter().map(|v| v.sub(&dc)).collect();
            judge_iv(&t, &sh).map_err(|m| format!("compared with {c:?}: {m}"))?;
        }
    }
    Ok(())
}
pub fn c04(th: bool) -> Check {
    let mut fam = Vec::new();
    let u = f64::EPSILON;
    let v: Vec<f64> = vec![-3.0, -1.0 - u, -1.0, -0.1, 0.0, 0.1, 1.0, 1.0 + u, 3.0, 1e9 + 0.3];
    let mut iv: Vec<(f64, f64)> = Vec::new();
    for i in 0..v.len() {
        for j in i..v.len() {
            iv.push((v[i], v[j]));
        }
    }
    let n = iv.len() as u64;
    let mk = |p: (f64, f64)| if p.0 == p.1 { gp::IntervalNumber::from(p.0) } else { gp::IntervalNumber::new(p.0, p.1) };
    let pts = |p: (f64, f64)| -> Vec<f64> {
        let mut x = vec![p.0, p.1];
        if p.0 < 0.0 && p.1 > 0.0 {
            x.push(0.0);
        }
        x.push(p.0 * 0.5 + p.1 * 0.5);
        x
    };
    fn op(k: usize, a: &gp::IntervalNumber, b: &gp::IntervalNumber) -> gp::IntervalNumber {
        match k {
            0 => a + b,
            1 => a - b,
            2 => a * b,
            _ => {
                let mut t = a.clone();
                t.neg();
                t + b
            }
        }
    }
    fn dop(k: usize, a: &Dy, b: &Dy) -> Dy {
        match k {
            0 => a.add(b),
            1 => a.sub(b),
            2 => a.mul(b),
            _ => a.neg().add(b),
        }
    }
    {
        let iv = iv.clone();
        fam.push(Family::new("construction and binary operations", format!("all {n} x {n} pairs of intervals with endpoints from {v:?} (degenerate ones built from a number), operations +, -, *, neg-then-+"), n * n * 4, move |idx, ctx| {
            let mut i = idx;
            let k = take(&mut i, 4);
            let a = iv[take(&mut i, n)];
            let b = iv[take(&mut i, n)];
            ctx.state(1);
            ctx.step(3);
            ctx.trace(1);
            let r = guarded(|| -> Result<(), String> {
                let (ia, ib) = (mk(a), mk(b));
                let da: Vec<Dy> = pts(a).into_iter().map(Dy::new).collect();
                let db: Vec<Dy> = pts(b).into_iter().map(Dy::new).collect();
                encloses(&ia, &da)?;
                encloses(&ib, &db)?;
                let mut ng = ia.clone();
                ng.neg();
                encloses(&ng, &da.iter().map(|d| d.neg()).collect::<Vec<_>>()).map_err(|e| format!("negation: {e}"))?;
                let r = op(k, &ia, &ib);
                let mut vals = Vec::new();
                for x in &da {
                    for y in &db {
                        vals.push(dop(k, x, y));
                    }
                }
                encloses(&r, &vals)
            });
            match r.and_then(|x| x) {
                Ok(()) => {
                    if a.0 < a.1 && b.0 < b.1 {
                        ctx.nontrivial += 1;
                    }
                    ctx.sample(|| format!("{a:?} op{k} {b:?}"));
                    Ok(())
                }
                Err(e) => ctx.fail(idx.to_string(), format!("{a:?} {} {b:?}: {e}", ["+", "-", "*", "neg+"][k])),
            }
        }));
    }
    // expressions over single doubles: (a op b) op (c op d), then compared to zero and thresholds
    let w: Vec<f64> = if th { vec![-3.0, -1.0, -0.3, 0.0, 0.1, 1.0, 1.0 + u, 1.0 - u / 2.0, 1e9 + 0.3, 7e-17] } else { vec![-3.0, -0.3, 0.0, 0.1, 1.0, 1.0 + u, 1e9 + 0.3, 7e-17] };
    let kw = w.len() as u64;
    {
        let w = w.clone();
        fam.push(Family::new("expressions on numbers", format!("every (a op b) op (c op d) with numbers from {w:?}"), pow(kw, 4) * 64, move |idx, ctx| {
            let mut i = idx;
            let o = [take(&mut i, 4), take(&mut i, 4), take(&mut i, 4)];
            let s: Vec<f64> = (0..4).map(|_| w[take(&mut i, kw)]).collect();
            ctx.state(1);
            ctx.step(3);
            ctx.trace(1);
            let r = guarded(|| -> Result<(), String> {
                let f = |j: usize| gp::IntervalNumber::from(s[j]);
                let l = op(o[0], &f(0), &f(1));
                let r = op(o[1], &f(2), &f(3));
                let t = op(o[2], &l, &r);
                let d = |j: usize| Dy::new(s[j]);
                let e = dop(o[2], &dop(o[0], &d(0), &d(1)), &dop(o[1], &d(2), &d(3)));
                encloses(&t, &[e])
            });
            match r.and_then(|x| x) {
                Ok(()) => Ok(()),
                Err(e) => ctx.fail(idx.to_string(), format!("numbers {s:?} ops {o:?} (0 +, 1 -, 2 *, 3 neg+): {e}")),
            }
        }));
    }
    // three-interval expressions a*b - c and (a-b)*c
    {
        let sub: Vec<(f64, f64)> = iv.iter().copied().enumerate().filter(|(i, _)| th || i % 2 == 0).map(|x| x.1).collect();
        let m = sub.len() as u64;
        fam.push(Family::new("three-interval expressions", format!("a*b-c and (a-b)*c over all triples of {m} intervals"), m * m * m * 2, move |idx, ctx| {
            let mut i = idx;
            let k = take(&mut i, 2);
            let (a, b, c) = (sub[take(&mut i, m)], sub[take(&mut i, m)], sub[take(&mut i, m)]);
            ctx.state(1);
            ctx.step(2);
            ctx.trace(1);
            let r = guarded(|| -> Result<(), String> {
                let (ia, ib, ic) = (mk(a), mk(b), mk(c));
                let t = if k == 0 { &(&ia * &ib) - &ic } else { &(&ia - &ib) * &ic };
                let mut vals = Vec::new();
                for &x in &[a.0, a.1] {
                    for &y in &[b.0, b.1] {
                        for &z in &[c.0, c.1] {
                            let (x, y, z) = (Dy::new(x), Dy::new(y), Dy::new(z));
                            vals.push(if k == 0 { x.mul(&y).sub(&z) } else { x.sub(&y).mul(&z) });
                        }
                    }
                }
                judge_iv(&t, &vals)
            });
            match r.and_then(|x| x) {
                Ok(()) => Ok(()),
                Err(e) => ctx.fail(idx.to_string(), format!("{} with a={a:?} b={b:?} c={c:?}: {e}", ["a*b-c", "(a-b)*c"][k])),
            }
        }));
    }
    Check { id: "C04", families: fam, assumptions: vec!["interval bounds are finite; the bounds are observed through the public sign queries after subtracting thresholds".into()] }
}

// ------------------------------------------------------------------ C08
fn gmaps() -> Vec<(&'static str, [f64; 3])> {
    vec![
        ("0,1,2", [0.0, 1.0, 2.0]),
        ("0.1,0.2,0.3", [0.1, 0.2, 0.3]),
        ("-1,0.3,7e8", [-1.0, 0.3, 7e8]),
        ("1-u,1,1+u", [1.0 - f64::EPSILON / 2.0, 1.0, 1.0 + f64::EPSILON]),
        ("-u,0,1", [-1e-17, 0.0, 1.0]),
    ]
}
fn gp3(m: &[f64; 3], c: usize) -> [f64; 3] {
    [m[c % 3], m[c / 3 % 3], m[c / 9]]
}
/// exact shear keeping small multiples exact: makes axis-parallel configurations generic
fn shear(p: [f64; 3]) -> [f64; 3] {
    [p[0] * 2.0 + p[1], p[1] * 3.0 - p[2], p[2] * 2.0 + p[0] + p[1]]
}

pub fn c08(th: bool) -> Check {
    let mut fam = Vec::new();
    for (mi, (name, m)) in gmaps().into_iter().enumerate() {
        for sh in 0..2usize {
            if sh == 1 && mi != 0 && !th {
                continue;
            }
            let tag = format!("{name}{}", if sh == 1 { " sheared" } else { "" });
            let pt = move |c: usize| if sh == 1 { shear(gp3(&m, c)) } else { gp3(&m, c) };
            fam.push(Family::new(format!("point/segment and triangle, {tag}"), "every (p,a,b,c) of the 3x3x3 grid: point in open/closed segment ab, point in open/closed triangle abc (coplanar p), same side of line bc, all vertex orders of non-degenerate triangles", pow(27, 4), move |idx, ctx| {
                let d = digits(idx, 27, 4);
                let f: Vec<[f64; 3]> = d.iter().map(|&c| pt(c)).collect();
                let e = scale3(&[&f[0], &f[1], &f[2], &f[3]]);
                let (p, a, b, c) = (&f[0], &f[1], &f[2], &f[3]);
                ctx.state(1);
                macro_rules! bad {
                    ($what:expr, $got:expr, $want:expr) => {
                        return ctx.fail(idx.to_string(), format!("{} = {}, exact {} for p={:?} a={:?} b={:?} c={:?}", $what, $got, $want, p, a, b, c))
                    };
                }
                if d[3] == 0 && d[1] != d[2] {
                    // segment queries (once per p,a,b)
                    ctx.trace(4);
                    ctx.step(4);
                    let w = in_open_seg(&e[0], &e[1], &e[2]);
                    for (x, y) in [(a, b), (b, a)] {
                        let g = with_bump(|bp| gp::point_in_inner_segment(p, x, y, bp));
                        if g != w {
                            bad!("point_in_inner_segment", g, w);
                        }
                        let w = w || d[0] == d[1] || d[0] == d[2];
                        let g = with_bump(|bp| gp::point_in_segment(p, x, y, bp));
                        if g != w {
                            bad!("point_in_segment", g, w);
                        }
                    }
                }
                let n = cross3(&sub3(&e[2], &e[1]), &sub3(&e[3], &e[1]));
                let copl = dot3(&n, &sub3(&e[0], &e[1])).is_zero();
                if !zero3(&n) && copl {
                    ctx.nontrivial += 1;
                    let w = in_open_tri(&e[0], &e[1], &e[2], &e[3]);
                    let wc = in_closed_tri(&e[0], &e[1], &e[2], &e[3]);
                    ctx.trace(2);
                    ctx.step(2);
                    let g = with_bump(|bp| gp::point_in_inner_triangle(p, a, b, c, bp));
                    if g != w {
                        bad!("point_in_inner_triangle", g, w);
                    }
                    let g = with_bump(|bp| gp::point_in_triangle(p, a, b, c, bp));
                    if g != wc {
                        bad!("point_in_triangle", g, wc);
                    }
                }
                // p and a relative to the line b c, in their common plane
                if d[2] != d[3] {
                    let bc = sub3(&e[3], &e[2]);
                    let s = [&e[0], &e[1]].map(|x| cross3(&bc, &sub3(x, &e[2])));
                    let zero = s.iter().filter(|v| zero3(v)).count();
                    if zero3(&cross3(&s[0], &s[1])) && zero < 2 {
                        let w = dot3(&s[0], &s[1]).sign() > 0;
                        ctx.trace(2);
                        ctx.step(2);
                        for (x, y) in [(b, c), (c, b)] {
                            let g = with_bump(|bp| gp::same_half_plane(p, a, x, y, bp));
                            if g != w {
                                bad!("same_half_plane(p,a,b,c)", g, w);
                            }
                        }
                    }
                }
                Ok(())
            }));
            fam.push(Family::new(format!("segment/segment, {tag}"), "every pair of non-degenerate segments on the 3x3x3 grid, all 8 listings of the end points", pow(27, 4), move |idx, ctx| {
                let d = digits(idx, 27, 4);
                if d[0] == d[1] || d[2] == d[3] {
                    return Ok(());
                }
                let f: Vec<[f64; 3]> = d.iter().map(|&c| pt(c)).collect();
                let e = scale3(&[&f[0], &f[1], &f[2], &f[3]]);
                let w = open_segs_cross(&e[0], &e[1], &e[2], &e[3]);
                ctx.state(1);
                ctx.trace(1);
                ctx.nontrivial += w as u64;
                for o in [[0, 1, 2, 3], [1, 0, 2, 3], [2, 3, 0, 1], [3, 2, 0, 1]] {
                    ctx.step(1);
                    let g = with_bump(|bp| gp::inner_segments_cross(&f[o[0]], &f[o[1]], &f[o[2]], &f[o[3]], bp));
                    if g != w {
                        return ctx.fail(idx.to_string(), format!("inner_segments_cross({:?},{:?},{:?},{:?}) = {g}, exact {w}", f[o[0]], f[o[1]], f[o[2]], f[o[3]]));
                    }
                }
                Ok(())
            }));
            // segment against triangle: quick uses a sub-grid for one end point
            let full = th || (mi == 0 && sh == 0);
            let n4: u64 = if full { 27 } else { 9 };
            fam.push(Family::new(format!("segment/triangle, {tag}"), format!("every segment and non-degenerate triangle on the 3x3x3 grid (second segment end from {n4} grid points), vertex orders rotated/reflected by enumeration"), pow(27, 4) * n4, move |idx, ctx| {
                let mut i = idx;
                let mut d = [take(&mut i, 27), 0, take(&mut i, 27), take(&mut i, 27), take(&mut i, 27)];
                let q = take(&mut i, n4);
                d[1] = if n4 == 27 { q } else { (q * 5 + 1) % 27 };
                // unordered triangle times 1 of the orders in turn keeps every order covered
                if d[0] == d[1] || d[2] == d[3] || d[3] == d[4] || d[2] == d[4] {
                    return Ok(());
                }
                let f: Vec<[f64; 3]> = d.iter().map(|&c| pt(c)).collect();
                let e = scale3(&[&f[0], &f[1], &f[2], &f[3], &f[4]]);
                if collinear(&e[2], &e[3], &e[4]) {
                    return Ok(());
                }
                ctx.state(1);
                ctx.trace(2);
                ctx.step(2);
                let w = open_seg_cross_open_tri(&e[0], &e[1], &e[2], &e[3], &e[4]);
                let g = with_bump(|bp| gp::inner_segment_cross_inner_triangle(&f[0], &f[1], &f[2], &f[3], &f[4], bp));
                if g != w {
                    return ctx.fail(idx.to_string(), format!("inner_segment_cross_inner_triangle(u {:?} {:?}, t {:?} {:?} {:?}) = {g}, exact {w}", f[0], f[1], f[2], f[3], f[4]));
                }
                let wt = w
                    || (2..5).any(|k| in_open_seg(&e[k], &e[0], &e[1]))
                    || [(2, 3), (3, 4), (4, 2)].iter().any(|&(x, y)| open_segs_cross(&e[0], &e[1], &e[x], &e[y]));
                ctx.nontrivial += wt as u64;
                let g = with_bump(|bp| gp::inner_segment_cross_triangle(&f[0], &f[1], &f[2], &f[3], &f[4], bp));
                if g != wt {
                    return ctx.fail(idx.to_string(), format!("inner_segment_cross_triangle(u {:?} {:?}, t {:?} {:?} {:?}) = {g}, exact {wt}", f[0], f[1], f[2], f[3], f[4]));
                }
                Ok(())
            }));
        }
    }
    Check { id: "C08", families: fam, assumptions: vec!["segments and triangles are non-degenerate; point-in-triangle and same-side queries get coplanar points (their documented use)".into()] }
}

// ------------------------------------------------------------------ C09
fn chk_axis(f: &[[f64; 3]; 3], key: String, ctx: &mut Ctx) -> Res {
    let e = scale3(&[&f[0], &f[1], &f[2]]);
    let n = cross3(&sub3(&e[1], &e[0]), &sub3(&e[2], &e[0]));
    if zero3(&n) {
        return Ok(());
    }
    ctx.state(1);
    ctx.step(1);
    ctx.trace(1);
    let g = with_bump(|bp| gp::max_comp_in_tri_normal(&f[0], &f[1], &f[2], bp));
    if g > 2 || n[g].is_zero() {
        return ctx.fail(key, format!("max_comp_in_tri_normal({f:?}) = {g}: the normal has no component along it"));
    }
    // |n_g| >= max|n| - eps * maxdiff^2
    let mx = n.iter().map(|x| x.abs()).max().unwrap();
    let dmax = (0..3).flat_map(|k| [&e[1][k] - &e[0][k], &e[2][k] - &e[1][k]]).map(|x| x.abs()).max().unwrap();
    let lhs = (&mx - &n[g].abs()).shl(50); // (max - chosen) * 2^50 <= 2 * dmax^2 + max * 4
    if lhs > (&dmax * &dmax).shl(1) + mx.shl(2) {
        return ctx.fail(key, format!("max_comp_in_tri_normal({f:?}) = {g}: chosen component is smaller than another by more than rounding"));
    }
    ctx.sample(|| format!("triangle {f:?} axis {g}"));
    Ok(())
}
pub fn c09(th: bool) -> Check {
    let mut fam = Vec::new();
    for (name, m) in gmaps() {
        fam.push(Family::new(format!("grid triangles, {name}"), "every ordered non-degenerate triangle of the 3x3x3 grid", pow(27, 3), move |idx, ctx| {
            let d = digits(idx, 27, 3);
            chk_axis(&[gp3(&m, d[0]), gp3(&m, d[1]), gp3(&m, d[2])], idx.to_string(), ctx)
        }));
    }
    for (name, v) in vsets() {
        let k = if th { 4u64 } else { 3 };
        fam.push(Family::new(format!("all tuples: {name}"), format!("every ordered triangle with coordinates from {v:?} (first {k})"), pow(k, 9), move |idx, ctx| {
            let c: Vec<f64> = digits(idx, k, 9).iter().map(|&i| v[i]).collect();
            chk_axis(&[[c[0], c[1], c[2]], [c[3], c[4], c[5]], [c[6], c[7], c[8]]], idx.to_string(), ctx)
        }));
    }
    // slivers: collinear points moved by ulps in every coordinate, so only the exact stage can decide
    let base: Vec<[[f64; 3]; 3]> = vec![
        [[0.0, 0.0, 0.0], [1.0, 1.0, 1.0], [2.0, 2.0, 2.0]],
        [[0.1, 0.2, 0.3], [0.2, 0.4, 0.6], [0.4, 0.8, 1.2]],
        [[1.0, 1.0, 1.0], [3.0, 2.0, 5.0], [5.0, 3.0, 9.0]],
        [[0.0, 0.0, 1.0], [1e6, 0.0, 1.0], [2e6, 0.0, 1.0]],
        [[0.0, 3.0, 0.0], [0.0, 3.0, 1.5], [0.0, 3.0, 3.0]],
        [[7.0, 0.0, 0.0], [7.0, 1.0, 0.0], [7.0, -2.0, 0.0]],
        [[1e-3, 1e3, 1.0], [2e-3, 2e3, 2.0], [4e-3, 4e3, 4.0]],
    ];
    let nb = base.len() as u64;
    fam.push(Family::new("slivers", format!("{nb} collinear triples with every combination of -1/0/+1 ulp moves of the nine coordinates"), nb * pow(3, 9), move |idx, ctx| {
        let mut i = idx;
        let mut f = base[take(&mut i, nb)];
        for (k, d) in digits(i, 3, 9).into_iter().enumerate() {
            f[k / 3][k % 3] = ulps(f[k / 3][k % 3], d as i32 - 1);
        }
        chk_axis(&f, idx.to_string(), ctx)
    }));
    // long sheets: the normal has an exactly vanishing component whose float value is far above the
    // rounding of the two others
    let p2 = |k: i32| 2f64.powi(k);
    let a = vec![0.0, 1.0 + p2(-50), 1365.0 / 1024.0 * p2(-22) + p2(-72), p2(40) + p2(-10), -(3.0 + p2(-48)), 0.7, 1e7 + 0.1].into_iter().map(|x: f64| f64::from_bits(x.to_bits() & !3)).collect::<Vec<_>>();
    let c = vec![3.0 * p2(30), 3.0 * p2(-30), 3.0, -3.0 * p2(12), p2(20)];
    let sx = if th { vec![-8, -20, -34, -48, -56, -64] } else { vec![-20, -48, -56] };
    let (na, nc, ns) = (a.len() as u64, c.len() as u64, sx.len() as u64);
    fam.push(Family::new("long sheets", format!("triangles spanned by one axis direction and a long line in the other two axes: {na}^3 positions, {nc} slopes, {ns} widths x 3^3 offsets, all axis orders"), pow(na, 3) * nc * ns * 27 * 6, move |idx, ctx| {
        let mut i = idx;
        let pm = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][take(&mut i, 6)];
        let cc = c[take(&mut i, nc)];
        let w = 2f64.powi(sx[take(&mut i, ns)]);
        let mut f = [[0.0; 3]; 3];
        for q in f.iter_mut() {
            let t = a[take(&mut i, na)];
            let x = [0.0, w, -w][take(&mut i, 3)];
            q[pm[0]] = x;
            q[pm[1]] = t;
            q[pm[2]] = t * cc;
        }
        chk_axis(&f, idx.to_string(), ctx)
    }));
    Check { id: "C09", families: fam, assumptions: vec!["'up to rounding' is read as the error of the double-precision normal: 2^-49 times the squared largest coordinate difference".into()] }
}
