//! C13 disjoint sets, C14 push-relabel, C15 augmenting-path graph cut.
use crate::core::*;
use crate::enumr::*;
use gpf::disjoint_set::DisjointSet;
use gpf::graphcut::{ArcBuilder, GraphCut, MaxFlow, PushRelabelFifo};

// ------------------------------------------------------------------ C13
#[derive(Clone, Copy, Debug)]
enum DsOp {
    Merge(usize, usize),
    Output,
}

fn ds_run(n: usize, ops: &[DsOp], key: String, ctx: &mut Ctx) -> Res {
    let mut cls: Vec<usize> = (0..n).collect(); // reference partition: class label per element
    let r = guarded(|| {
        let mut ds = DisjointSet::new(n);
        let check_out = |ds: &mut DisjointSet, cls: &[usize], at: usize| -> Result<(), String> {
            let out = ds.output();
            let mut grp = vec![usize::MAX; n];
            for (gi, (rep, g)) in out.iter().enumerate() {
                if g.is_empty() {
                    return Err(format!("step {at}: empty group under {rep}"));
                }
                for &e in g {
                    if e >= n || grp[e] != usize::MAX {
                        return Err(format!("step {at}: element {e} reported twice or out of range"));
                    }
                    grp[e] = gi;
                }
            }
            if grp.iter().any(|&g| g == usize::MAX) {
                return Err(format!("step {at}: an element is in no group: {grp:?}"));
            }
            for a in 0..n {
                for b in 0..a {
                    if (grp[a] == grp[b]) != (cls[a] == cls[b]) {
                        return Err(format!("step {at}: elements {a},{b}: reported same group = {}, merged = {}", grp[a] == grp[b], cls[a] == cls[b]));
                    }
                }
            }
            if out.len() != ds.n_groups {
                return Err(format!("step {at}: n_groups = {} but {} groups", ds.n_groups, out.len()));
            }
            Ok(())
        };
        for (k, op) in ops.iter().enumerate() {
            match *op {
                DsOp::Merge(a, b) => {
                    ds.merge(a, b);
                    let (ca, cb) = (cls[a], cls[b]);
                    for c in cls.iter_mut() {
                        if *c == cb {
                            *c = ca;
                        }
                    }
                }
                DsOp::Output => check_out(&mut ds, &cls, k)?,
            }
            let mut u: Vec<usize> = cls.clone();
            u.sort();
            u.dedup();
            if ds.n_groups != u.len() {
                return Err(format!("step {k}: n_groups = {} but the merges generate {} groups", ds.n_groups, u.len()));
            }
        }
        check_out(&mut ds, &cls, ops.len())
    });
    ctx.state(1);
    ctx.step(ops.len() as u64);
    ctx.trace(1);
    match r.and_then(|x| x) {
        Ok(()) => {
            ctx.sample(|| format!("n={n} {ops:?} -> classes {cls:?}"));
            Ok(())
        }
        Err(e) => ctx.fail(key, format!("n={n} ops={ops:?}: {e}")),
    }
}

pub fn c13(th: bool) -> Check {
    let mut fam = Vec::new();
    for (n, depth) in [(0usize, 0usize), (1, 4), (2, if th { 8 } else { 7 }), (3, if th { 7 } else { 6 }), (4, if th { 6 } else { 5 }), (5, if th { 5 } else { 4 }), (6, if th { 5 } else { 4 })] {
        let rad = (n * n + 1) as u64;
        fam.push(Family::new(
            format!("sequences n={n}"),
            format!("every sequence of {depth} operations (any merge(i,j) incl. self/repeated, or a full output query) on {n} elements"),
            pow(rad, depth as u32),
            move |idx, ctx| {
                let ops: Vec<DsOp> = digits(idx, rad, depth)
                    .into_iter()
                    .map(|d| if d == n * n { DsOp::Output } else { DsOp::Merge(d / n, d % n) })
                    .collect();
                ds_run(n, &ops, idx.to_string(), ctx)
            },
        ));
    }
    // tall trees
    let ml = if th { 9 } else { 7 };
    fam.push(Family::new(
        "tall trees",
        format!("two groups of 2^1..2^{ml} elements, each merged by a balanced tournament (adjacent or strided blocks) with every choice of first/middle/last element of the blocks and orientation; then joined through 16 element pairs in either order, or queried first, or every element merged with its mirror image"),
        ml * 2 * 9 * 2 * 35,
        move |idx, ctx| {
            let mut i = idx;
            let n = 2usize << take(&mut i, ml);
            let strided = take(&mut i, 2) == 1;
            let (ra, rb) = (take(&mut i, 3), take(&mut i, 3));
            let flip = take(&mut i, 2) == 1;
            let mut ops = Vec::new();
            let mut w = 1;
            while w < n {
                let rep = |r: usize| [0, w / 2, w - 1][r];
                for b in 0..n / (2 * w) {
                    for h in [0, n] {
                        let at = |half: usize, k: usize| h + if strided { b + (n / (2 * w)) * (2 * k + half) } else { 2 * w * b + w * half + k };
                        let (x, y) = (at(0, rep(ra)), at(1, rep(rb)));
                        ops.push(if flip { DsOp::Merge(y, x) } else { DsOp::Merge(x, y) });
                    }
                }
                w *= 2;
            }
            let q = take(&mut i, 35);
            match q {
                32 => ops.push(DsOp::Output),
                33 => ops.extend((0..n).map(|e| DsOp::Merge(e, n - 1 - e))),
                34 => ops.extend((0..n).map(|e| DsOp::Merge(e, 2 * n - 1 - e))),
                _ => {
                    let pos = |k: usize| [0, n / 2 - 1, n / 2, n - 1][k];
                    let (x, y) = (pos(q % 4), n + pos(q / 4 % 4));
                    ops.push(if q >= 16 { DsOp::Merge(y, x) } else { DsOp::Merge(x, y) });
                }
            }
            ds_run(2 * n, &ops, idx.to_string(), ctx)
        },
    ));
    // binomial schedules: ranks up to 3 with every choice of the elements passed to merge
    fam.push(Family::new(
        "binomial n=8",
        "8 elements merged pairwise in 3 rounds, every orientation and every choice of representative element in each round, then every further merge",
        16 * 64 * 32 * 64,
        |idx, ctx| {
            let mut i = idx;
            let mut ops = Vec::new();
            let or = |a: usize, b: usize, s: usize| if s == 0 { DsOp::Merge(a, b) } else { DsOp::Merge(b, a) };
            for k in 0..4 {
                ops.push(or(2 * k, 2 * k + 1, take(&mut i, 2)));
            }
            for k in 0..2 {
                let a = 4 * k + take(&mut i, 2);
                let b = 4 * k + 2 + take(&mut i, 2);
                ops.push(or(a, b, take(&mut i, 2)));
            }
            let a = take(&mut i, 4);
            let b = 4 + take(&mut i, 4);
            ops.push(or(a, b, take(&mut i, 2)));
            let a = take(&mut i, 8);
            let b = take(&mut i, 8);
            ops.push(DsOp::Merge(a, b));
            ds_run(8, &ops, idx.to_string(), ctx)
        },
    ));
    // two trees of every size pair and rank, joined through every pair of members
    let m = if th { 12 } else { 9 };
    let m3 = (m * m) as u64;
    fam.push(Family::new(
        "chains and stars joined",
        format!("two groups of p,q <= {m} elements, each built as a chain, reverse chain, star or tournament, joined through every element pair in either order, then a lone element merged to every member"),
        m3 * 16 * m3 * 2 * 2,
        move |idx, ctx| {
            let mut i = idx;
            let p = 1 + take(&mut i, m as u64);
            let q = 1 + take(&mut i, m as u64);
            let sh = [take(&mut i, 4), take(&mut i, 4)];
            let a = take(&mut i, m as u64);
            let b = take(&mut i, m as u64);
            let o = take(&mut i, 2);
            let o2 = take(&mut i, 2);
            if a >= p || b >= q {
                return Ok(());
            }
            let n = p + q + 1;
            let mut ops = Vec::new();
            for (base, len, s) in [(0, p, sh[0]), (p, q, sh[1])] {
                match s {
                    0 => (1..len).for_each(|k| ops.push(DsOp::Merge(base + k - 1, base + k))),
                    1 => (1..len).rev().for_each(|k| ops.push(DsOp::Merge(base + k, base + k - 1))),
                    2 => (1..len).for_each(|k| ops.push(DsOp::Merge(base, base + k))),
                    _ => {
                        let mut st = 1;
                        while st < len {
                            let mut k = 0;
                            while k + st < len {
                                ops.push(DsOp::Merge(base + k + st, base + k));
                                k += 2 * st;
                            }
                            st *= 2;
                        }
                    }
                }
            }
            if o2 == 1 {
                ops.push(DsOp::Output);
            }
            ops.push(if o == 0 { DsOp::Merge(a, p + b) } else { DsOp::Merge(p + b, a) });
            ops.push(if o == 0 { DsOp::Merge(n - 1, b % p) } else { DsOp::Merge(b % p, n - 1) });
            ds_run(n, &ops, idx.to_string(), ctx)
        },
    ));
    Check { id: "C13", families: fam, assumptions: vec!["element ids passed to merge are below n".into()] }
}

// ------------------------------------------------------------------ max-flow oracle
/// Edmonds-Karp on a capacity matrix (independent of the code under test).
pub fn max_flow_ref(n: usize, cap: &[i64], s: usize, t: usize) -> i64 {
    let mut r = cap.to_vec();
    let mut flow = 0;
    let mut par = vec![usize::MAX; n];
    let mut q = Vec::with_capacity(n);
    loop {
        par.iter_mut().for_each(|p| *p = usize::MAX);
        par[s] = s;
        q.clear();
        q.push(s);
        let mut h = 0;
        while h < q.len() && par[t] == usize::MAX {
            let u = q[h];
            h += 1;
            for v in 0..n {
                if r[u * n + v] > 0 && par[v] == usize::MAX {
                    par[v] = u;
                    q.push(v);
                }
            }
        }
        if par[t] == usize::MAX {
            return flow;
        }
        let mut d = i64::MAX;
        let mut v = t;
        while v != s {
            d = d.min(r[par[v] * n + v]);
            v = par[v];
        }
        v = t;
        while v != s {
            let u = par[v];
            r[u * n + v] -= d;
            r[v * n + u] += d;
            v = u;
        }
        flow += d;
    }
}

fn judge_cut(n: usize, arcs: &[(usize, usize, i64)], is_sink: &dyn Fn(usize) -> bool) -> Result<i64, String> {
    let mut cap = vec![0i64; n * n];
    for &(a, b, c) in arcs {
        cap[a * n + b] += c;
    }
    let mf = max_flow_ref(n, &cap, 0, n - 1);
    let side: Vec<bool> = (0..n).map(|i| is_sink(i)).collect();
    if side[0] {
        return Err("source reported on the sink side".into());
    }
    if !side[n - 1] {
        return Err("sink reported on the source side".into());
    }
    let mut cut = 0;
    for a in 0..n {
        for b in 0..n {
            if !side[a] && side[b] {
                cut += cap[a * n + b];
            }
        }
    }
    if cut != mf {
        return Err(format!("reported cut has capacity {cut}, maximum flow is {mf}; sink side {side:?}"));
    }
    Ok(mf)
}

fn pr_case(n: usize, arcs: &[(usize, usize, i64)], key: String, ctx: &mut Ctx) -> Res {
    ctx.state(1);
    ctx.step(arcs.len() as u64);
    ctx.trace(2);
    // integer and floating-point capacity types (the latter scaled by 2^-3: dyadic, exact)
    let ai: Vec<(usize, usize, i32)> = arcs.iter().map(|&(a, b, c)| (a, b, c as i32)).collect();
    let r = guarded(|| {
        let mut g = PushRelabelFifo::from((&ai[..], n));
        g.find_max_flow();
        judge_cut(n, arcs, &|i| g.is_sink(i)).map_err(|e| format!("[i32] {e}"))
    });
    let r = match r {
        Ok(Ok(f)) => {
            // sums of multiples of 0.1 round, but a cut within rounding of the minimum is a minimum one
            let mut r = Ok(Ok(f));
            for unit in [0.125, 0.1] {
                let af: Vec<(usize, usize, f64)> = arcs.iter().map(|&(a, b, c)| (a, b, c as f64 * unit)).collect();
                r = guarded(|| {
                    let mut g = PushRelabelFifo::from((&af[..], n));
                    g.find_max_flow();
                    judge_cut(n, arcs, &|i| g.is_sink(i)).map_err(|e| format!("[f64, unit {unit}] {e}"))
                })
                .map(|x| x.map(|_| f));
                if !matches!(r, Ok(Ok(_))) {
                    break;
                }
            }
            r
        }
        o => o,
    };
    match r.and_then(|x| x) {
        Ok(f) => {
            if f > 0 {
                ctx.nontrivial += 1;
            }
            ctx.sample(|| format!("n={n} arcs={arcs:?} max flow {f}"));
            Ok(())
        }
        Err(e) => ctx.fail(key, format!("n={n} arcs={arcs:?}: {e}")),
    }
}

/// Larger deterministic networks: layered/path/grid shapes with periodic capacity patterns.
fn structured(kind: usize, w: usize, l: usize, pat: usize, rev: bool) -> (usize, Vec<(usize, usize, i64)>) {
    const PATS: [&[i64]; 10] = [
        &[1],
        &[2, 1],
        &[1, 2, 3],
        &[3, 1, 2, 5],
        &[5, 4, 3, 2, 1],
        &[1, 1, 2, 3, 5, 8],
        &[7, 0, 3],
        &[4, 9, 2, 3, 5, 7, 8],
        &[10, 1, 1, 1],
        &[0, 6, 1, 6, 2],
    ];
    let p = PATS[pat];
    let mut k = 0;
    let mut c = || {
        k += 1;
        p[(k - 1) % p.len()]
    };
    let mut arcs = Vec::new();
    let n = w * l + 2;
    let id = |x: usize, y: usize| 1 + y * w + x;
    for x in 0..w {
        arcs.push((0, id(x, 0), c() * 2));
    }
    for y in 0..l {
        for x in 0..w {
            if y + 1 < l {
                arcs.push((id(x, y), id(x, y + 1), c()));
                if kind == 1 || kind == 3 {
                    arcs.push((id(x, y + 1), id(x, y), c()));
                }
                if kind == 2 {
                    arcs.push((id(x, y), id((x + 1) % w, y + 1), c()));
                }
            }
            if x + 1 < w && kind >= 1 {
                arcs.push((id(x, y), id(x + 1, y), c()));
                if kind != 2 {
                    arcs.push((id(x + 1, y), id(x, y), c()));
                }
            }
            if kind == 3 && (x + y) % 3 == 0 {
                arcs.push((0, id(x, y), c()));
            }
            if kind == 3 && (x + 2 * y) % 4 == 1 {
                arcs.push((id(x, y), n - 1, c()));
            }
        }
    }
    for x in 0..w {
        arcs.push((id(x, l - 1), n - 1, c()));
    }
    if rev {
        arcs.reverse();
    }
    (n, arcs)
}

fn st_pairs(n: usize, all: bool) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    for a in 0..n {
        for b in 0..n {
            if a != b && (all || (a != n - 1 && b != 0)) {
                v.push((a, b));
            }
        }
    }
    v
}

pub fn c14(th: bool) -> Check {
    let mut fam = Vec::new();
    let mut nets = vec![(2usize, true, vec![0i64, 1, 2, 3]), (3, true, vec![0, 1, 2, 3, 5]), (4, true, vec![0, 1, 2]), (5, false, vec![0, 1, 2]), (6, false, vec![0, 1])];
    if th {
        nets.push((4, false, vec![0, 1, 2, 3, 4, 5]));
        nets.push((5, false, vec![0, 1, 2, 3]));
        nets.push((5, true, vec![0, 1]));
    }
    for (n, all, caps) in nets {
        let prs = st_pairs(n, all);
        let k = caps.len() as u64;
        fam.push(Family::new(
            format!("all networks n={n} caps={caps:?}{}", if all { "" } else { " (no arcs into s / out of t)" }),
            format!("every assignment of a capacity from {caps:?} to each of the {} ordered node pairs (0 alternates between an absent and an explicit zero arc)", prs.len()),
            pow(k, prs.len() as u32),
            move |idx, ctx| {
                let d = digits(idx, k, prs.len());
                let arcs: Vec<_> = prs
                    .iter()
                    .zip(&d)
                    .enumerate()
                    .filter(|(i, (_, &c))| caps[c] > 0 || (i + idx as usize) % 5 == 0)
                    .map(|(_, (&(a, b), &c))| (a, b, caps[c]))
                    .collect();
                pr_case(n, &arcs, idx.to_string(), ctx)
            },
        ));
    }
    // arc lists: every order, parallel and opposite arcs
    let mut lists = vec![(3usize, 5usize, vec![1i64, 2]), (4, 4, vec![1, 3])];
    if th {
        lists = vec![(3, 6, vec![1, 2]), (4, 5, vec![1, 3]), (5, 4, vec![1, 2])];
    }
    for (n, len, caps) in lists {
        let prs = st_pairs(n, true);
        let rad = (prs.len() * caps.len()) as u64;
        fam.push(Family::new(
            format!("arc lists n={n} len={len}"),
            format!("every ordered list of {len} arcs over {n} nodes with capacities {caps:?}: all orders, parallel and opposite arcs"),
            pow(rad, len as u32),
            move |idx, ctx| {
                let arcs: Vec<_> = digits(idx, rad, len)
                    .into_iter()
                    .map(|d| (prs[d / caps.len()].0, prs[d / caps.len()].1, caps[d % caps.len()]))
                    .collect();
                pr_case(n, &arcs, idx.to_string(), ctx)
            },
        ));
    }
    // two-terminal builder
    let bl: Vec<(usize, Vec<i32>, usize)> = if th { vec![(1, vec![0, 1, 2, 3], 0), (2, vec![0, 1, 2, 3], 1), (3, vec![0, 1, 2], 3), (4, vec![0, 1, 2], 6)] } else { vec![(1, vec![0, 1, 2], 0), (2, vec![0, 1, 2, 3], 1), (3, vec![0, 1, 2], 3), (4, vec![0, 2], 6)] };
    for (n, caps, np) in bl {
        let k = caps.len() as u64;
        let kinds: u64 = if n == 4 { 4 } else { 6 };
        fam.push(Family::new(
            format!("builder n={n}"),
            format!("ArcBuilder: every source/sink capacity from {caps:?} per node and every choice per node pair of no arc / one-way / reverse / two-way arcs"),
            pow(k, 2 * n as u32) * pow(kinds, np as u32),
            move |idx, ctx| {
                let mut i = idx;
                let sc: Vec<i32> = (0..n).map(|_| caps[take(&mut i, k)]).collect();
                let tc: Vec<i32> = (0..n).map(|_| caps[take(&mut i, k)]).collect();
                let mut b = ArcBuilder::new(&sc, &tc);
                let mut want: Vec<(usize, usize, i64)> = Vec::new();
                for v in 0..n {
                    want.push((0, v + 1, sc[v] as i64));
                    want.push((v + 1, n + 1, tc[v] as i64));
                }
                let mut desc = Vec::new();
                for x in 0..n {
                    for y in x + 1..n {
                        let kd = take(&mut i, kinds);
                        let (a, c, cap, rev) = match kd {
                            0 => continue,
                            1 => (x, y, 1, false),
                            2 => (x, y, 1, true),
                            3 => (y, x, 2, false),
                            4 => (y, x, 3, true),
                            _ => (y, x, 1, false),
                        };
                        b.add_arc(a, c, cap, rev);
                        desc.push((a, c, cap, rev));
                        want.push((a + 1, c + 1, cap as i64));
                        if rev {
                            want.push((c + 1, a + 1, cap as i64));
                        }
                    }
                }
                ctx.state(1);
                ctx.step(1 + desc.len() as u64);
                ctx.trace(1);
                let r = guarded(|| {
                    let mut g = PushRelabelFifo::from((&b.arcs[..], n + 2));
                    g.find_max_flow();
                    judge_cut(n + 2, &want, &|i| g.is_sink(i))
                });
                match r.and_then(|x| x) {
                    Ok(_) => Ok(()),
                    Err(e) => ctx.fail(idx.to_string(), format!("source {sc:?} sink {tc:?} arcs {desc:?}: {e}")),
                }
            },
        ));
    }
    let (mw, ml) = if th { (6u64, 40u64) } else { (4, 24) };
    fam.push(Family::new(
        "structured networks",
        format!("grids/layered/path networks of width <= {mw}, length <= {ml}, 4 arc layouts, 10 periodic capacity patterns, both arc orders (drives the periodic global relabelling)"),
        4 * mw * ml * 10 * 2,
        move |idx, ctx| {
            let mut i = idx;
            let kind = take(&mut i, 4);
            let w = 1 + take(&mut i, mw);
            let l = 1 + take(&mut i, ml);
            let pat = take(&mut i, 10);
            let (n, arcs) = structured(kind, w, l, pat, i == 1);
            pr_case(n, &arcs, idx.to_string(), ctx)
        },
    ));
    Check { id: "C14", families: fam, assumptions: vec!["networks have at least two nodes; no self-loop arcs; capacities are non-negative and their sums exact in the capacity type".into()] }
}

// ------------------------------------------------------------------ C15
fn gc_case(src: &[i64], snk: &[i64], edges: &[(usize, usize, i64, i64)], key: String, ctx: &mut Ctx) -> Res {
    let n = src.len();
    ctx.state(1);
    ctx.step(edges.len() as u64 + 1);
    ctx.trace(1);
    let mut arcs: Vec<(usize, usize, i64)> = Vec::new();
    for i in 0..n {
        arcs.push((0, i + 1, src[i]));
        arcs.push((i + 1, n + 1, snk[i]));
    }
    for &(a, b, c, r) in edges {
        arcs.push((a + 1, b + 1, c));
        arcs.push((b + 1, a + 1, r));
    }
    let run = |unit: f64, tol: f64| guarded(|| {
        let sc: Vec<f64> = src.iter().map(|&x| x as f64 * unit).collect();
        let tc: Vec<f64> = snk.iter().map(|&x| x as f64 * unit).collect();
        let mut g = GraphCut::new(&sc, &tc);
        for &(a, b, c, r) in edges {
            g.add_edge(a, b, c as f64 * unit, r as f64 * unit);
        }
        let f = g.max_flow();
        let mf = judge_cut(n + 2, &arcs, &|i| if i == 0 { false } else if i == n + 1 { true } else { g.is_sink[i - 1] })?;
        if (f - mf as f64 * unit).abs() > tol || g.flow != f {
            return Err(format!("returned flow {} (field {}), maximum flow is {}", f / unit, g.flow / unit, mf));
        }
        Ok(mf)
    });
    let mut r = run(0.25, 0.0);
    if matches!(r, Ok(Ok(_))) {
        // rounded sums
        r = run(0.1, 1e-9);
    }
    match r.and_then(|x| x) {
        Ok(f) => {
            if f > src.iter().zip(snk).map(|(a, b)| *a.min(b)).sum::<i64>() {
                ctx.nontrivial += 1;
            }
            ctx.sample(|| format!("source {src:?} sink {snk:?} edges {edges:?} flow {f}"));
            Ok(())
        }
        Err(e) => ctx.fail(key, format!("source caps {src:?} sink caps {snk:?} edges {edges:?} (units of 1/4 and 1/10): {e}")),
    }
}

pub fn c15(th: bool) -> Check {
    let mut fam = Vec::new();
    const EK: [(i64, i64); 6] = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 3)];
    fn term(v: i64) -> (i64, i64) {
        // net terminal capacity, sometimes with both sides present
        match v {
            v if v >= 0 => (v, 0),
            v => (0, -v),
        }
    }
    for (n, tr, ek) in [(1usize, 7u64, 1u64), (2, 7, 6), (3, 5, 6), (4, if th { 7 } else { 5 }, 4), (5, 3, if th { 3 } else { 2 })] {
        let np = n * (n - 1) / 2;
        fam.push(Family::new(
            format!("all graphs n={n}"),
            format!("every net terminal capacity in -{0}..={0} per node and every choice among {ek} (cap, reverse cap) pairs per node pair", (tr - 1) / 2),
            pow(tr, n as u32) * pow(ek, np as u32),
            move |idx, ctx| {
                let mut i = idx;
                let t: Vec<(i64, i64)> = (0..n).map(|_| term(take(&mut i, tr) as i64 - (tr as i64 - 1) / 2)).collect();
                let mut e = Vec::new();
                for x in 0..n {
                    for y in x + 1..n {
                        let k = take(&mut i, ek);
                        // 5-node family: reciprocal edges of capacity 1 or 2
                        let (c, r) = if ek <= 3 && n == 5 { [(0, 0), (1, 1), (2, 2)][k] } else { EK[k] };
                        if c + r > 0 {
                            e.push((x, y, c, r));
                        }
                    }
                }
                let (s, k): (Vec<i64>, Vec<i64>) = t.into_iter().unzip();
                gc_case(&s, &k, &e, idx.to_string(), ctx)
            },
        ));
    }
    // both terminal capacities at once
    fam.push(Family::new("terminal pairs n=3", "3 nodes, every (source, sink) capacity pair from {0,1,2}^2 per node, every choice among 6 edge kinds per pair", pow(9, 3) * 216, |idx, ctx| {
        let mut i = idx;
        let s: Vec<i64> = (0..3).map(|_| take(&mut i, 3) as i64).collect();
        let k: Vec<i64> = (0..3).map(|_| take(&mut i, 3) as i64).collect();
        let mut e = Vec::new();
        for (x, y) in [(1, 0), (0, 2), (2, 1)] {
            let (c, r) = EK[take(&mut i, 6)];
            e.push((x, y, c, r));
        }
        gc_case(&s, &k, &e, idx.to_string(), ctx)
    }));
    // edge lists: every order, parallel edges
    let (len, n) = if th { (5usize, 4usize) } else { (4, 4) };
    let prs = st_pairs(n, true);
    let rad = prs.len() as u64 * 2;
    fam.push(Family::new(
        format!("edge lists n={n} len={len}"),
        format!("4 nodes with terminal patterns s..t, every ordered list of {len} edges (one-way cap 1 or cap 2/rev 1), parallel edges included"),
        pow(rad, len as u32) * 3,
        move |idx, ctx| {
            let mut i = idx;
            let pat = take(&mut i, 3);
            let (s, k) = [([3, 0, 0, 0], [0, 0, 0, 3]), ([2, 1, 0, 0], [0, 0, 1, 2]), ([3, 0, 2, 0], [0, 2, 0, 3])][pat];
            let e: Vec<_> = digits(i, rad, len)
                .into_iter()
                .map(|d| {
                    let (a, b) = prs[d / 2];
                    if d % 2 == 0 { (a, b, 1, 0) } else { (a, b, 2, 1) }
                })
                .collect();
            gc_case(&s, &k, &e, idx.to_string(), ctx)
        },
    ));
    let (mw, ml) = if th { (6u64, 40u64) } else { (4, 24) };
    fam.push(Family::new(
        "structured graphs",
        format!("grids/layered/path graphs of width <= {mw}, length <= {ml}, 4 layouts, 10 capacity patterns, both edge orders (long trees, orphan adoption)"),
        4 * mw * ml * 10 * 2,
        move |idx, ctx| {
            let mut i = idx;
            let kind = take(&mut i, 4);
            let w = 1 + take(&mut i, mw);
            let l = 1 + take(&mut i, ml);
            let pat = take(&mut i, 10);
            let (n, arcs) = structured(kind, w, l, pat, i == 1);
            let m = n - 2;
            let (mut s, mut t, mut e) = (vec![0; m], vec![0; m], Vec::new());
            for (a, b, c) in arcs {
                if a == 0 {
                    s[b - 1] += c;
                } else if b == n - 1 {
                    t[a - 1] += c;
                } else {
                    e.push((a - 1, b - 1, c, 0));
                }
            }
            gc_case(&s, &t, &e, idx.to_string(), ctx)
        },
    ));
    // the documented restart: nothing to do on an empty graph
    Check { id: "C15", families: fam, assumptions: vec!["capacities are non-negative multiples of 1/4 (exact in double precision); no self-loop edges".into()] }
}
