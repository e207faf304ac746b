//! C10-C12: surface mesh connectivity, iteration and topological operations.
use crate::core::*;
use crate::enumr::*;
use gpf::mesh::{EdgeId, ElementId, FaceId, HalfedgeId, Mesh, SurfaceMesh, VertexId};
use std::collections::{BTreeMap, BTreeSet};
use std::alloc::Global;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Structure,
    Iterate,
    Diff,
}
#[derive(Clone, Debug, PartialEq)]
enum Op {
    SplitEdge(usize),
    SplitFace(usize, usize, usize),
    AddFace(Vec<usize>),
}

/// What the mesh says about itself, read through the id-level interface only.
#[derive(Clone, Debug, PartialEq)]
struct Snap {
    faces: BTreeMap<usize, Vec<(usize, usize, usize)>>, // face -> (halfedge, tail, edge) in order
    sib: BTreeMap<usize, BTreeSet<usize>>,              // edge -> halfedges
    n: [usize; 4],
}
fn snap(m: &SurfaceMesh) -> Result<Snap, String> {
    let nh = m.n_halfedges_capacity();
    let mut faces = BTreeMap::new();
    for f in 0..m.n_faces_capacity() {
        let fid = FaceId(f);
        if !m.face_is_valid(fid) {
            continue;
        }
        let mut l = Vec::new();
        let first = m.f_halfedge(fid);
        let mut h = first;
        loop {
            if h.0 >= nh {
                return Err(format!("face {f} reaches halfedge id {} of {nh}", h.0));
            }
            l.push((h.0, m.he_vertex(h).0, m.he_edge(h).0));
            h = m.he_next(h);
            if h == first {
                break;
            }
            if l.len() > nh {
                return Err(format!("the boundary of face {f} does not close"));
            }
        }
        let k = (0..l.len()).min_by_key(|&i| l[i].0).unwrap();
        l.rotate_left(k);
        faces.insert(f, l);
    }
    let mut sib = BTreeMap::<usize, BTreeSet<usize>>::new();
    for h in 0..nh {
        if m.halfedge_is_valid(HalfedgeId(h)) {
            sib.entry(m.he_edge(HalfedgeId(h)).0).or_default().insert(h);
        }
    }
    Ok(Snap { faces, sib, n: [m.n_vertices(), m.n_halfedges(), m.n_edges(), m.n_faces()] })
}
fn canon(p: &[usize]) -> Vec<usize> {
    // smallest rotation: polygons compared as cyclic sequences
    let n = p.len();
    (0..n).map(|r| (0..n).map(|i| p[(r + i) % n]).collect::<Vec<_>>()).min().unwrap_or_default()
}
fn tails(l: &[(usize, usize, usize)]) -> Vec<usize> {
    l.iter().map(|x| x.1).collect()
}

/// Mutual consistency of the halfedge structure, and the face polygons of the model.
fn structure(m: &SurfaceMesh, polys: &BTreeMap<usize, Vec<usize>>) -> Result<(), String> {
    let (nv, nh, ne, nf) = (m.n_vertices_capacity(), m.n_halfedges_capacity(), m.n_edges_capacity(), m.n_faces_capacity());
    let hs: Vec<usize> = (0..nh).filter(|&h| m.halfedge_is_valid(HalfedgeId(h))).collect();
    let vs: Vec<usize> = (0..nv).filter(|&h| m.vertex_is_valid(VertexId(h))).collect();
    let es: Vec<usize> = (0..ne).filter(|&h| m.edge_is_valid(EdgeId(h))).collect();
    let fs: Vec<usize> = (0..nf).filter(|&h| m.face_is_valid(FaceId(h))).collect();
    for (what, n, c, it) in [
        ("vertices", m.n_vertices(), vs.len(), m.vertices().take(nv + 1).map(|x| x.0).collect::<Vec<_>>() == vs),
        ("halfedges", m.n_halfedges(), hs.len(), m.halfedges().take(nh + 1).map(|x| x.0).collect::<Vec<_>>() == hs),
        ("edges", m.n_edges(), es.len(), m.edges().take(ne + 1).map(|x| x.0).collect::<Vec<_>>() == es),
        ("faces", m.n_faces(), fs.len(), m.faces().take(nf + 1).map(|x| x.0).collect::<Vec<_>>() == fs),
    ] {
        if n != c || !it {
            return Err(format!("{what}: count {n}, valid ids {c}, iteration visits exactly the valid ids: {it}"));
        }
    }
    let ok = |x: usize, n: usize| x < n;
    for &h in &hs {
        let hid = HalfedgeId(h);
        let (nx, e, f, v, s, ni, no) = (m.he_next(hid), m.he_edge(hid), m.he_face(hid), m.he_vertex(hid), m.he_sibling(hid), m.he_next_incoming_neighbor(hid), m.he_next_outgoing_neighbor(hid));
        if !ok(nx.0, nh) || !ok(e.0, ne) || !ok(f.0, nf) || !ok(v.0, nv) || !ok(s.0, nh) || !ok(ni.0, nh) || !ok(no.0, nh) {
            return Err(format!("halfedge {h} has a dangling reference: next {} edge {} face {} vertex {} sibling {} in {} out {}", nx.0, e.0, f.0, v.0, s.0, ni.0, no.0));
        }
        if !m.edge_is_valid(e) || !m.face_is_valid(f) || !m.vertex_is_valid(v) {
            return Err(format!("halfedge {h} refers to a deleted element"));
        }
        if m.he_face(nx) != f {
            return Err(format!("halfedge {h}: next lies in another face"));
        }
        if m.he_edge(s) != e {
            return Err(format!("halfedge {h}: sibling lies on another edge"));
        }
    }
    // next is a permutation; previous is its inverse
    let mut seen = vec![false; nh];
    for &h in &hs {
        let nx = m.he_next(HalfedgeId(h));
        if std::mem::replace(&mut seen[nx.0], true) {
            return Err(format!("halfedge {} is next of two halfedges", nx.0));
        }
    }
    for &h in &hs {
        if m.he_next(m.he_prev(HalfedgeId(h))).0 != h || m.he_prev(m.he_next(HalfedgeId(h))).0 != h {
            return Err(format!("halfedge {h}: next and previous are not inverse"));
        }
        if m.he_tip_vertex(m.he_prev(HalfedgeId(h))) != m.he_vertex(HalfedgeId(h)) {
            return Err(format!("halfedge {h} does not start where its predecessor ends"));
        }
    }
    // cyclic orders: siblings per edge, incoming and outgoing per vertex
    let cycle = |start: usize, next: &dyn Fn(HalfedgeId) -> HalfedgeId| -> BTreeSet<usize> {
        let mut s = BTreeSet::new();
        let mut h = HalfedgeId(start);
        for _ in 0..=nh {
            if !s.insert(h.0) {
                break;
            }
            h = next(h);
        }
        if h.0 != start {
            s.insert(usize::MAX);
        }
        s
    };
    for &h in &hs {
        let hid = HalfedgeId(h);
        let e = m.he_edge(hid);
        let want: BTreeSet<usize> = hs.iter().copied().filter(|&x| m.he_edge(HalfedgeId(x)) == e).collect();
        if cycle(h, &|x| m.he_sibling(x)) != want {
            return Err(format!("sibling cycle of halfedge {h} is not the set of halfedges of edge {}", e.0));
        }
        let t = m.he_tip_vertex(hid);
        let want: BTreeSet<usize> = hs.iter().copied().filter(|&x| m.he_tip_vertex(HalfedgeId(x)) == t).collect();
        if cycle(h, &|x| m.he_next_incoming_neighbor(x)) != want {
            return Err(format!("incoming cycle of halfedge {h} is not the set of halfedges into vertex {}", t.0));
        }
        let t = m.he_vertex(hid);
        let want: BTreeSet<usize> = hs.iter().copied().filter(|&x| m.he_vertex(HalfedgeId(x)) == t).collect();
        if cycle(h, &|x| m.he_next_outgoing_neighbor(x)) != want {
            return Err(format!("outgoing cycle of halfedge {h} is not the set of halfedges out of vertex {}", t.0));
        }
        // all halfedges of an edge join the same two vertices
        let eh = m.e_halfedge(e);
        let (a, b) = (m.he_vertex(eh), m.he_tip_vertex(eh));
        let (c, d) = (m.he_vertex(hid), m.he_tip_vertex(hid));
        if !((a == c && b == d) || (a == d && b == c)) {
            return Err(format!("halfedge {h} ({} -> {}) lies on edge {} between {} and {}", c.0, d.0, e.0, a.0, b.0));
        }
    }
    for &v in &vs {
        if m.he_vertex(m.v_halfedge(VertexId(v))).0 != v {
            return Err(format!("vertex {v} refers to a halfedge that does not start there"));
        }
    }
    for &e in &es {
        if m.he_edge(m.e_halfedge(EdgeId(e))).0 != e {
            return Err(format!("edge {e} refers to a halfedge of another edge"));
        }
    }
    for &f in &fs {
        if m.he_face(m.f_halfedge(FaceId(f))).0 != f {
            return Err(format!("face {f} refers to a halfedge of another face"));
        }
    }
    let s = snap(m)?;
    if s.faces.values().map(|l| l.len()).sum::<usize>() != hs.len() {
        return Err("some halfedge is on no face boundary".into());
    }
    if s.faces.len() != polys.len() || s.faces.iter().any(|(f, l)| polys.get(f).map(|p| canon(p)) != Some(canon(&tails(l)))) {
        return Err(format!("face polygons {:?} differ from the expected {polys:?}", s.faces.iter().map(|(f, l)| (*f, tails(l))).collect::<Vec<_>>()));
    }
    Ok(())
}

/// Every iterator and navigation step against brute force over the polygons.
fn iterate(m: &SurfaceMesh, polys: &BTreeMap<usize, Vec<usize>>) -> Result<(), String> {
    let nh = m.n_halfedges_capacity();
    let lim = nh * 2 + 2;
    let hs: Vec<usize> = (0..nh).filter(|&h| m.halfedge_is_valid(HalfedgeId(h))).collect();
    let sorted = |mut v: Vec<usize>| {
        v.sort();
        v
    };
    // polygon level
    for (&f, p) in polys {
        let face = m.face(FaceId(f));
        let vs: Vec<usize> = face.vertices().take(lim).map(|v| v.0).collect();
        let hv: Vec<usize> = face.halfedges().take(lim).map(|h| h.from().0).collect();
        if canon(&vs) != canon(p) || vs != hv {
            return Err(format!("face {f}: vertices {vs:?}, halfedge tails {hv:?}, polygon {p:?}"));
        }
        let h: Vec<usize> = face.halfedges().take(lim).map(|h| h.0).collect();
        let want: BTreeSet<usize> = hs.iter().copied().filter(|&x| m.he_face(HalfedgeId(x)).0 == f).collect();
        if h.len() != want.len() || h.iter().copied().collect::<BTreeSet<_>>() != want {
            return Err(format!("face {f}: halfedges {h:?}, incident {want:?}"));
        }
        if h[0] != face.halfedge().0 {
            return Err(format!("face {f}: iteration does not start at its halfedge"));
        }
        for k in 0..h.len() {
            let x = m.halfedge(HalfedgeId(h[k]));
            let nx = h[(k + 1) % h.len()];
            if x.next().0 != nx || m.halfedge(HalfedgeId(nx)).prev().0 != h[k] || x.to().0 != vs[(k + 1) % vs.len()] || x.vertices().map(|v| v.0) != [vs[k], vs[(k + 1) % vs.len()]] {
                return Err(format!("halfedge {}: navigation in face {f} disagrees with polygon {p:?}", h[k]));
            }
        }
    }
    let nvids: BTreeSet<usize> = polys.values().flatten().copied().collect();
    for &v in &nvids {
        let vert = m.vertex(VertexId(v));
        let wo: Vec<usize> = hs.iter().copied().filter(|&h| m.he_vertex(HalfedgeId(h)).0 == v).collect();
        let wi: Vec<usize> = hs.iter().copied().filter(|&h| m.he_tip_vertex(HalfedgeId(h)).0 == v).collect();
        let o: Vec<usize> = vert.outgoing_halfedges().take(lim).map(|h| h.0).collect();
        let i: Vec<usize> = vert.incoming_halfedges().take(lim).map(|h| h.0).collect();
        if sorted(o.clone()) != wo || sorted(i.clone()) != wi {
            return Err(format!("vertex {v}: outgoing {o:?} (incident {wo:?}), incoming {i:?} (incident {wi:?})"));
        }
        if !wo.contains(&vert.out_halfedge().0) || !wi.contains(&vert.in_halfedge().0) {
            return Err(format!("vertex {v}: its halfedge is not incident"));
        }
        let we: BTreeSet<usize> = wo.iter().chain(&wi).map(|&h| m.he_edge(HalfedgeId(h)).0).collect();
        let e: Vec<usize> = vert.edges().take(lim).map(|e| e.0).collect();
        if sorted(e.clone()) != we.iter().copied().collect::<Vec<_>>() {
            return Err(format!("vertex {v}: edges {e:?}, incident {we:?}"));
        }
        let other = |e: usize| {
            let h = m.e_halfedge(EdgeId(e));
            let (a, b) = (m.he_vertex(h).0, m.he_tip_vertex(h).0);
            if a == v { b } else { a }
        };
        let wv = sorted(we.iter().map(|&e| other(e)).collect());
        let vv: Vec<usize> = vert.vertices().take(lim).map(|x| x.0).collect();
        if sorted(vv.clone()) != wv {
            return Err(format!("vertex {v}: neighbours {vv:?}, expected once per incident edge {wv:?}"));
        }
    }
    for e in 0..m.n_edges_capacity() {
        let eid = EdgeId(e);
        if !m.edge_is_valid(eid) {
            continue;
        }
        let want: Vec<usize> = hs.iter().copied().filter(|&h| m.he_edge(HalfedgeId(h)) == eid).collect();
        let h: Vec<usize> = m.edge(eid).halfedges().take(lim).map(|h| h.0).collect();
        if sorted(h.clone()) != want || h[0] != m.edge(eid).halfedge().0 {
            return Err(format!("edge {e}: halfedges {h:?}, incident {want:?}"));
        }
        let ev = m.e_vertices(eid).map(|v| v.0);
        let eh = m.e_halfedge(eid);
        if ev != [m.he_vertex(eh).0, m.he_tip_vertex(eh).0] {
            return Err(format!("edge {e}: end vertices {ev:?}"));
        }
        for &x in &want {
            let hid = HalfedgeId(x);
            let dirs: Vec<bool> = want.iter().map(|&y| m.he_vertex(HalfedgeId(y)) == m.he_vertex(hid)).collect();
            if m.he_same_dir(hid) != (m.he_vertex(hid) == m.he_vertex(eh)) {
                return Err(format!("halfedge {x}: same-direction flag is wrong"));
            }
            for (k, &y) in want.iter().enumerate() {
                if m.hes_same_dir(hid, HalfedgeId(y)) != dirs[k] {
                    return Err(format!("halfedges {x},{y}: same-direction flag is wrong"));
                }
            }
            let he = m.halfedge(hid);
            if he.edge().0 != e || he.sibling().edge().0 != e || (want.len() > 1) != (he.sibling().0 != x) {
                return Err(format!("halfedge {x}: edge/sibling navigation is wrong"));
            }
            // twin: the opposite halfedge of the same edge, itself where there is none
            let t = he.twin();
            let has = dirs.iter().any(|d| !d);
            if t.edge().0 != e || (has && t.from().0 != he.to().0) || (!has && t.0 != x) {
                return Err(format!("halfedge {x}: twin is {} (opposite halfedges exist: {has})", t.0));
            }
        }
    }
    Ok(())
}

fn apply(m: &mut SurfaceMesh, op: &Op, alloc_bump: bool) -> usize {
    let bump = bumpalo::Bump::new();
    match op {
        Op::SplitEdge(e) => if alloc_bump { m.split_edge(EdgeId(*e), &bump).0 } else { m.split_edge(EdgeId(*e), Global).0 },
        Op::SplitFace(f, a, b) => if alloc_bump { m.split_face(FaceId(*f), VertexId(*a), VertexId(*b), &bump).0 } else { m.split_face(FaceId(*f), VertexId(*a), VertexId(*b), Global).0 },
        Op::AddFace(h) => {
            let hs: Vec<HalfedgeId> = h.iter().map(|&x| HalfedgeId(x)).collect();
            if alloc_bump { m.add_face_by_halfedges(&hs, &bump).0 } else { m.add_face_by_halfedges(&hs, Global).0 }
        }
    }
}

/// Checks the difference between two snapshots against what the operation is meant to change;
/// returns the new polygons of the model.
fn diff(m: &SurfaceMesh, b: &Snap, a: &Snap, op: &Op, ret: usize, polys: &mut BTreeMap<usize, Vec<usize>>) -> Result<(), String> {
    let all_before: BTreeSet<usize> = b.faces.values().flatten().map(|x| x.0).collect();
    let n = |dv: usize, dh: usize, de: usize, df: usize| -> Result<(), String> {
        let want = [b.n[0] + dv, b.n[1] + dh, b.n[2] + de, b.n[3] + df];
        if a.n != want { Err(format!("counts (v, h, e, f) went from {:?} to {:?}, expected {want:?}", b.n, a.n)) } else { Ok(()) }
    };
    match op {
        Op::SplitEdge(e) => {
            let he: BTreeSet<usize> = b.sib[e].clone();
            n(1, he.len(), 1, 0)?;
            if b.faces.values().flatten().any(|x| x.1 == ret) || !m.vertex_is_valid(VertexId(ret)) {
                return Err(format!("split_edge returned {ret}, which is not the new vertex"));
            }
            let mut by_end: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new(); // old end vertex -> edge ids of the pieces at it
            for (f, l) in &b.faces {
                let Some(l2) = a.faces.get(f) else { return Err(format!("face {f} disappeared")) };
                // expected vertex cycle
                let mut want = Vec::new();
                for (i, x) in l.iter().enumerate() {
                    want.push(x.1);
                    if x.2 == *e {
                        want.push(ret);
                        let _ = i;
                    }
                }
                if canon(&want) != canon(&tails(l2)) {
                    return Err(format!("face {f}: boundary {:?} became {:?}, expected {want:?}", tails(l), tails(l2)));
                }
                for x in l {
                    let Some(y) = l2.iter().find(|y| y.0 == x.0) else { return Err(format!("halfedge {} left face {f}", x.0)) };
                    if y.1 != x.1 || (x.2 != *e && y.2 != x.2) {
                        return Err(format!("halfedge {}: (tail, edge) changed from ({}, {}) to ({}, {})", x.0, x.1, x.2, y.1, y.2));
                    }
                }
                for (k, y) in l2.iter().enumerate() {
                    let (p, q) = (y.1, l2[(k + 1) % l2.len()].1);
                    if p == ret || q == ret {
                        by_end.entry(if p == ret { q } else { p }).or_default().insert(y.2);
                    }
                    if !all_before.contains(&y.0) && p != ret {
                        return Err(format!("new halfedge {} does not start at the new vertex", y.0));
                    }
                }
            }
            let ids: Vec<usize> = by_end.values().flatten().copied().collect();
            let old: BTreeSet<usize> = b.sib.keys().copied().collect();
            if by_end.len() != 2 || ids.len() != 2 || ids[0] == ids[1] || ids.iter().filter(|x| **x == *e).count() != 1 || ids.iter().any(|x| x != e && old.contains(x)) {
                return Err(format!("edges at the new vertex by old end point: {by_end:?}; expected edge {e} and one new edge"));
            }
        }
        Op::SplitFace(f, va, vb) => {
            n(0, 2, 1, 1)?;
            let h = HalfedgeId(ret);
            if all_before.contains(&ret) || b.sib.contains_key(&m.he_edge(h).0) || b.faces.contains_key(&m.he_face(h).0) {
                return Err(format!("split_face returned halfedge {ret}, which is not the new halfedge of the new face"));
            }
            let (f2, ne) = (m.he_face(h).0, m.he_edge(h).0);
            let ends = BTreeSet::from([m.he_vertex(h).0, m.he_tip_vertex(h).0]);
            if ends != BTreeSet::from([*va, *vb]) {
                return Err(format!("the new edge joins {ends:?} instead of {va}, {vb}"));
            }
            for (g, l) in &b.faces {
                if g != f && a.faces.get(g) != Some(l) {
                    return Err(format!("face {g} changed: {l:?} became {:?}", a.faces.get(g)));
                }
            }
            let (Some(l1), Some(l2)) = (a.faces.get(f), a.faces.get(&f2)) else { return Err("a half of the split face is missing".into()) };
            let old = &b.faces[f];
            let pos = |v: usize| old.iter().position(|x| x.1 == v).unwrap();
            let piece = |from: usize, to: usize| -> Vec<(usize, usize, usize)> {
                let (i, j) = (pos(from), pos(to));
                let k = (j + old.len() - i) % old.len();
                (0..k).map(|t| old[(i + t) % old.len()]).collect()
            };
            let mut got = Vec::new();
            for l in [l1, l2] {
                let nw: Vec<usize> = (0..l.len()).filter(|&k| l[k].2 == ne).collect();
                if nw.len() != 1 {
                    return Err(format!("half {l:?} uses the new edge {} times", nw.len()));
                }
                let mut r = l.clone();
                r.rotate_left(nw[0]);
                if all_before.contains(&r[0].0) {
                    return Err(format!("an old halfedge moved onto the new edge: {l:?}"));
                }
                got.push(r[1..].to_vec());
            }
            let (p1, p2) = (piece(*va, *vb), piece(*vb, *va));
            if !(got[0] == p1 && got[1] == p2 || got[0] == p2 && got[1] == p1) {
                return Err(format!("halves {got:?} are not the two parts of the old boundary {old:?} between {va} and {vb}"));
            }
            let mut s = a.sib.clone();
            let new_h = s.remove(&ne).unwrap_or_default();
            if s != b.sib || new_h.len() != 2 {
                return Err(format!("the halfedges of other edges changed, or the new edge has halfedges {new_h:?}"));
            }
        }
        Op::AddFace(hs) => {
            n(0, hs.len(), 0, 1)?;
            if b.faces.contains_key(&ret) {
                return Err(format!("add_face returned existing face {ret}"));
            }
            for (g, l) in &b.faces {
                if a.faces.get(g) != Some(l) {
                    return Err(format!("face {g} changed: {l:?} became {:?}", a.faces.get(g)));
                }
            }
            let Some(l) = a.faces.get(&ret) else { return Err(format!("the new face {ret} is missing")) };
            let lookup: BTreeMap<usize, (usize, usize)> = b.faces.values().flatten().map(|x| (x.0, (x.1, x.2))).collect();
            let want: Vec<(usize, usize)> = hs.iter().map(|h| lookup[h]).collect();
            let got: Vec<(usize, usize)> = l.iter().map(|x| (x.1, x.2)).collect();
            if !(0..got.len()).any(|r| (0..got.len()).all(|i| got.len() == want.len() && got[(i + r) % got.len()] == want[i])) {
                return Err(format!("the new face has (tail, edge) {got:?}, expected {want:?}"));
            }
            let mut s = a.sib.clone();
            for x in l {
                s.get_mut(&x.2).map(|t| t.remove(&x.0));
            }
            if s != b.sib {
                return Err("add_face changed the halfedges of an edge".into());
            }
        }
    }
    polys.clear();
    polys.extend(a.faces.iter().map(|(f, l)| (*f, tails(l))));
    Ok(())
}
/// Model transition on polygons only (used where the operation's own check is another property).
fn model_step(b: &Snap, op: &Op, polys: &mut BTreeMap<usize, Vec<usize>>, ret: usize, m: &SurfaceMesh) {
    match op {
        Op::SplitEdge(e) => {
            for (f, l) in &b.faces {
                let mut want = Vec::new();
                for x in l {
                    want.push(x.1);
                    if x.2 == *e {
                        want.push(ret);
                    }
                }
                polys.insert(*f, want);
            }
        }
        Op::SplitFace(f, va, vb) => {
            let old = polys[f].clone();
            let pos = |v: usize| old.iter().position(|&x| x == v).unwrap();
            let piece = |a: usize, c: usize| -> Vec<usize> {
                let (i, j) = (pos(a), pos(c));
                let k = (j + old.len() - i) % old.len();
                (0..=k).map(|t| old[(i + t) % old.len()]).collect()
            };
            let f2 = m.he_face(HalfedgeId(ret)).0;
            // which half keeps the old id follows from the returned halfedge's direction
            let (a, c) = if m.he_vertex(HalfedgeId(ret)).0 == *va { (*va, *vb) } else { (*vb, *va) };
            polys.insert(f2, piece(c, a));
            polys.insert(*f, piece(a, c));
        }
        Op::AddFace(hs) => {
            let lookup: BTreeMap<usize, usize> = b.faces.values().flatten().map(|x| (x.0, x.1)).collect();
            polys.insert(ret, hs.iter().map(|h| lookup[h]).collect());
        }
    }
}

/// All operations offered in a state. `cap` bounds the length of the cycles used to add faces.
fn ops(s: &Snap, cap: usize) -> Vec<Op> {
    let mut v = Vec::new();
    for e in s.sib.keys() {
        v.push(Op::SplitEdge(*e));
    }
    for (f, l) in &s.faces {
        for i in 0..l.len() {
            for j in i + 2..l.len() {
                if i == 0 && j == l.len() - 1 {
                    continue;
                }
                v.push(Op::SplitFace(*f, l[i].1, l[j].1));
                v.push(Op::SplitFace(*f, l[j].1, l[i].1));
            }
        }
    }
    // simple closed walks over existing halfedge directions, one halfedge per (edge, direction)
    let mut dir: BTreeMap<(usize, usize, usize), usize> = BTreeMap::new();
    for l in s.faces.values() {
        for (k, x) in l.iter().enumerate() {
            dir.insert((x.1, l[(k + 1) % l.len()].1, x.2), x.0);
        }
    }
    let arcs: Vec<(usize, usize, usize)> = dir.iter().map(|(k, &h)| (k.0, k.1, h)).collect();
    fn walk(arcs: &[(usize, usize, usize)], path: &mut Vec<usize>, visited: &mut Vec<usize>, start: usize, at: usize, cap: usize, out: &mut Vec<Op>) {
        for &(t, h, id) in arcs {
            if t != at {
                continue;
            }
            if h == start && path.len() >= 2 {
                path.push(id);
                out.push(Op::AddFace(path.clone()));
                path.pop();
            } else if h > start && !visited.contains(&h) && path.len() + 1 < cap {
                path.push(id);
                visited.push(h);
                walk(arcs, path, visited, start, h, cap, out);
                visited.pop();
                path.pop();
            }
        }
    }
    let starts: BTreeSet<usize> = arcs.iter().map(|a| a.0).collect();
    for s0 in starts {
        walk(&arcs, &mut Vec::new(), &mut vec![s0], s0, s0, cap, &mut v);
    }
    v
}

fn check_state(m: &SurfaceMesh, polys: &BTreeMap<usize, Vec<usize>>, mode: Mode) -> Result<(), String> {
    match mode {
        Mode::Structure => structure(m, polys),
        Mode::Iterate => iterate(m, polys),
        Mode::Diff => Ok(()),
    }
}

fn replay(polys: &[Vec<usize>], seq: &[Op], alloc_bump: bool) -> SurfaceMesh {
    let mut m = SurfaceMesh::new(polys);
    for o in seq {
        apply(&mut m, o, alloc_bump);
    }
    m
}

/// Depth-first exploration of every operation sequence of the given length.
fn explore(polys: &[Vec<usize>], depth: usize, cap: usize, mode: Mode, ctx: &mut Ctx) -> Result<(), String> {
    let m = guarded(|| SurfaceMesh::new(polys)).map_err(|e| format!("new: {e}"))?;
    let model: BTreeMap<usize, Vec<usize>> = polys.iter().cloned().enumerate().collect();
    guarded(|| check_state(&m, &model, mode)).and_then(|r| r).map_err(|e| format!("after construction: {e}"))?;
    ctx.state(1);
    fn rec(polys: &[Vec<usize>], seq: &mut Vec<Op>, m: &SurfaceMesh, model: &BTreeMap<usize, Vec<usize>>, depth: usize, cap: usize, mode: Mode, ctx: &mut Ctx) -> Result<(), String> {
        if depth == 0 {
            ctx.trace(1);
            return Ok(());
        }
        let b = snap(m)?;
        for o in ops(&b, cap) {
            let mut m2 = guarded(|| replay(polys, seq, depth % 2 == 0))?;
            let ret = guarded(|| apply(&mut m2, &o, depth % 2 == 0)).map_err(|e| format!("{seq:?} then {o:?}: {e}"))?;
            let mut model2 = model.clone();
            let r = guarded(|| {
                if mode == Mode::Diff {
                    let a = snap(&m2)?;
                    diff(&m2, &b, &a, &o, ret, &mut model2)
                } else {
                    model_step(&b, &o, &mut model2, ret, &m2);
                    check_state(&m2, &model2, mode)
                }
            });
            ctx.step(1);
            ctx.state(1);
            r.and_then(|r| r).map_err(|e| format!("{seq:?} then {o:?}: {e}"))?;
            seq.push(o);
            rec(polys, seq, &m2, &model2, depth - 1, cap, mode, ctx)?;
            seq.pop();
        }
        Ok(())
    }
    let mut seq = Vec::new();
    rec(polys, &mut seq, &m, &model, depth, cap, mode, ctx)
}

/// Oriented simple polygons on vertices 0..v with 3..=k corners; every starting corner if `rot`.
fn polygons(v: usize, k: usize, rot: bool) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    fn rec(v: usize, k: usize, rot: bool, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if p.len() >= 3 {
            out.push(p.clone());
        }
        if p.len() == k {
            return;
        }
        for x in 0..v {
            if !p.contains(&x) && (rot || p.is_empty() || x > p[0]) {
                p.push(x);
                rec(v, k, rot, p, out);
                p.pop();
            }
        }
    }
    rec(v, k, rot, &mut Vec::new(), &mut out);
    out
}
fn dense(l: &[Vec<usize>]) -> bool {
    let s: BTreeSet<usize> = l.iter().flatten().copied().collect();
    s.iter().copied().eq(0..s.len())
}
fn seeds() -> Vec<(&'static str, Vec<Vec<usize>>)> {
    let fan = |n: usize, alt: bool| -> Vec<Vec<usize>> { (0..n).map(|i| if alt && i % 2 == 1 { vec![1, 0, 2 + i] } else { vec![0, 1, 2 + i] }).collect() };
    vec![
        ("triangle", vec![vec![0, 1, 2]]),
        ("triangle from 2", vec![vec![2, 1, 0]]),
        ("quad", vec![vec![0, 1, 2, 3]]),
        ("pentagon", vec![vec![0, 1, 2, 3, 4]]),
        ("two triangles, opposite", vec![vec![0, 1, 2], vec![1, 0, 3]]),
        ("two triangles, same direction", vec![vec![0, 1, 2], vec![0, 1, 3]]),
        ("bow tie", vec![vec![0, 1, 2], vec![0, 3, 4]]),
        ("same polygon twice", vec![vec![0, 1, 2], vec![0, 1, 2]]),
        ("two-sided triangle", vec![vec![0, 1, 2], vec![0, 2, 1]]),
        ("edge fan 3", fan(3, false)),
        ("edge fan 4 alternating", fan(4, true)),
        ("tetrahedron", vec![vec![0, 1, 2], vec![0, 2, 3], vec![0, 3, 1], vec![1, 3, 2]]),
        ("two components", vec![vec![0, 1, 2], vec![3, 4, 5, 6]]),
        ("quad strip", vec![vec![0, 1, 2, 3], vec![3, 2, 4, 5]]),
        ("quad and diagonal triangle", vec![vec![0, 1, 2, 3], vec![0, 2, 4]]),
        ("cone pair", vec![vec![0, 1, 2], vec![0, 2, 3], vec![0, 3, 1], vec![0, 4, 5], vec![0, 5, 6], vec![0, 6, 4]]),
        ("cube", vec![vec![0, 3, 2, 1], vec![4, 5, 6, 7], vec![0, 1, 5, 4], vec![1, 2, 6, 5], vec![2, 3, 7, 6], vec![3, 0, 4, 7]]),
    ]
}
fn big() -> Vec<(String, Vec<Vec<usize>>)> {
    let mut v = Vec::new();
    for n in [8usize, 17, 40] {
        v.push((format!("edge fan {n}"), (0..n).map(|i| if i % 3 == 1 { vec![1, 0, 2 + i] } else { vec![0, 1, 2 + i] }).collect()));
        v.push((format!("closed vertex fan {n}"), (0..n).map(|i| vec![0, 1 + i, 1 + (i + 1) % n]).collect()));
        v.push((format!("polygon {n}"), vec![(0..n).collect()]));
    }
    for (a, b) in [(3usize, 3usize), (5, 4), (8, 7)] {
        let id = |i: usize, j: usize| i * (b + 1) + j;
        v.push((format!("grid {a}x{b}"), (0..a).flat_map(|i| (0..b).map(move |j| vec![id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)])).collect()));
        let t = |i: usize, j: usize| (i % a) * b + j % b;
        v.push((format!("torus {a}x{b}"), (0..a).flat_map(|i| (0..b).map(move |j| vec![t(i, j), t(i + 1, j), t(i + 1, j + 1), t(i, j + 1)])).collect()));
    }
    v
}

fn families(mode: Mode, th: bool) -> Vec<Family> {
    let mut fam = Vec::new();
    for (v, k, len, depth, rot) in if th {
        vec![(4usize, 4usize, 1usize, 4usize, true), (4, 4, 2, 3, false), (4, 4, 2, 2, true), (5, 4, 2, 2, false), (4, 4, 3, 2, false), (5, 5, 2, 2, false), (4, 3, 4, 2, false), (5, 3, 3, 2, false), (5, 4, 3, 1, false)]
    } else {
        vec![(4, 4, 1, 3, true), (4, 4, 2, 2, true), (5, 4, 2, 2, false), (4, 4, 3, 1, false), (5, 5, 2, 1, false), (5, 3, 3, 1, false)]
    } {
        let p = polygons(v, k, rot);
        let n = p.len() as u64;
        fam.push(Family::new(
            format!("{len} polygons on {v} vertices, up to {k} corners"),
            format!("every ordered list of {len} oriented simple polygons{} on {v} vertices that uses a dense vertex range, then every sequence of {depth} operations (any edge split, any face split at two non-adjacent corners, any face added over <= 4 existing directions)", if rot { " (every starting corner)" } else { "" }),
            pow(n, len as u32),
            move |idx, ctx| {
                let l: Vec<Vec<usize>> = digits(idx, n, len).into_iter().map(|d| p[d].clone()).collect();
                if !dense(&l) {
                    return Ok(());
                }
                match explore(&l, depth, 4, mode, ctx) {
                    Ok(()) => {
                        ctx.sample(|| format!("{l:?}"));
                        if depth == 0 {
                            ctx.trace(0);
                        }
                        Ok(())
                    }
                    Err(e) => ctx.fail(idx.to_string(), format!("polygons {l:?}: {e}")),
                }
            },
        ));
    }
    // every operation sequence from named meshes: the first operation indexes the case
    let sd = seeds();
    for (d, cap) in if th { [(4usize, 3usize), (3, 4), (2, 7)] } else { [(3, 3), (2, 5), (1, 7)] } {
        let sd = sd.clone();
        const W: u64 = 512;
        let sl = sd.len() as u64;
        fam.push(Family::new(
            format!("sequences of {d} from named meshes"),
            format!("{sl} manifold, open and non-manifold meshes; every sequence of {d} operations (faces added over cycles of <= {cap} directions)"),
            sl * W,
            move |idx, ctx| {
                let mut i = idx;
                let (name, p) = &sd[take(&mut i, sl)];
                let r = (|| {
                    let m = guarded(|| SurfaceMesh::new(p))?;
                    let b = snap(&m)?;
                    let o = ops(&b, cap);
                    assert!(o.len() <= W as usize, "{name}: {} operations", o.len());
                    let Some(o) = o.get(i as usize) else { return Ok(()) };
                    // run the first operation, then explore the rest
                    let mut m2 = guarded(|| SurfaceMesh::new(p))?;
                    let model0: BTreeMap<usize, Vec<usize>> = p.iter().cloned().enumerate().collect();
                    guarded(|| check_state(&m2, &model0, mode)).and_then(|r| r)?;
                    let ret = guarded(|| apply(&mut m2, o, true)).map_err(|e| format!("{o:?}: {e}"))?;
                    let mut model = model0.clone();
                    guarded(|| {
                        if mode == Mode::Diff {
                            diff(&m2, &b, &snap(&m2)?, o, ret, &mut model)
                        } else {
                            model_step(&b, o, &mut model, ret, &m2);
                            check_state(&m2, &model, mode)
                        }
                    })
                    .and_then(|r| r)
                    .map_err(|e| format!("{o:?}: {e}"))?;
                    ctx.state(1);
                    ctx.step(1);
                    fn rec(p: &[Vec<usize>], seq: &mut Vec<Op>, m: &SurfaceMesh, model: &BTreeMap<usize, Vec<usize>>, depth: usize, cap: usize, mode: Mode, ctx: &mut Ctx) -> Result<(), String> {
                        if depth == 0 {
                            ctx.trace(1);
                            return Ok(());
                        }
                        let b = snap(m)?;
                        for o in ops(&b, cap) {
                            let mut m2 = guarded(|| replay(p, seq, true))?;
                            let ret = guarded(|| apply(&mut m2, &o, depth % 2 == 0)).map_err(|e| format!("{seq:?} then {o:?}: {e}"))?;
                            let mut model2 = model.clone();
                            guarded(|| {
                                if mode == Mode::Diff {
                                    diff(&m2, &b, &snap(&m2)?, &o, ret, &mut model2)
                                } else {
                                    model_step(&b, &o, &mut model2, ret, &m2);
                                    check_state(&m2, &model2, mode)
                                }
                            })
                            .and_then(|r| r)
                            .map_err(|e| format!("{seq:?} then {o:?}: {e}"))?;
                            ctx.step(1);
                            ctx.state(1);
                            seq.push(o);
                            rec(p, seq, &m2, &model2, depth - 1, cap, mode, ctx)?;
                            seq.pop();
                        }
                        Ok(())
                    }
                    let mut seq = vec![o.clone()];
                    rec(p, &mut seq, &m2, &model, d - 1, cap, mode, ctx)
                })();
                match r {
                    Ok(()) => Ok(()),
                    Err(e) => ctx.fail(format!("{name}:{i}"), format!("mesh {name} {p:?}: {e}")),
                }
            },
        ));
    }
    // larger structured meshes: every edge, every face, and a long alternating history
    let bg = big();
    let nb = bg.len() as u64;
    fam.push(Family::new(
        "larger meshes",
        format!("{nb} fans, grids and tori; every single operation, then the history that splits every edge once and cuts every face at corners k and k+j for each offset j"),
        nb * 8,
        move |idx, ctx| {
            let mut i = idx;
            let (name, p) = &bg[take(&mut i, nb)];
            let off = i as usize;
            let r = (|| -> Result<(), String> {
                let model0: BTreeMap<usize, Vec<usize>> = p.iter().cloned().enumerate().collect();
                let mut m = guarded(|| SurfaceMesh::new(p))?;
                guarded(|| check_state(&m, &model0, mode)).and_then(|r| r)?;
                let mut model = model0;
                let mut todo: Vec<Op> = snap(&m)?.sib.keys().map(|&e| Op::SplitEdge(e)).collect();
                if off % 2 == 1 {
                    todo.reverse();
                }
                let nf = p.len();
                let mut phase_faces = 0;
                let mut step = 0usize;
                loop {
                    let b = snap(&m)?;
                    let o = if step < todo.len() {
                        todo[step].clone()
                    } else if phase_faces < nf {
                        let f = phase_faces;
                        phase_faces += 1;
                        let l = &b.faces[&f];
                        let a = off % l.len();
                        let c = (a + 2 + off % (l.len() - 3)) % l.len();
                        Op::SplitFace(f, l[a].1, l[c].1)
                    } else if phase_faces < nf + nf.min(6) {
                        let f = phase_faces - nf;
                        phase_faces += 1;
                        Op::AddFace(b.faces[&f].iter().map(|x| x.0).collect())
                    } else {
                        break;
                    };
                    step += 1;
                    let ret = guarded(|| apply(&mut m, &o, step % 2 == 0)).map_err(|e| format!("step {step} {o:?}: {e}"))?;
                    guarded(|| {
                        if mode == Mode::Diff {
                            diff(&m, &b, &snap(&m)?, &o, ret, &mut model)
                        } else {
                            model_step(&b, &o, &mut model, ret, &m);
                            if step % 16 == 0 || b.sib.len() < 40 { check_state(&m, &model, mode) } else { Ok(()) }
                        }
                    })
                    .and_then(|r| r)
                    .map_err(|e| format!("step {step} {o:?}: {e}"))?;
                    ctx.step(1);
                    ctx.state(1);
                }
                ctx.trace(1);
                guarded(|| check_state(&m, &model, mode)).and_then(|r| r)
            })();
            match r {
                Ok(()) => Ok(()),
                Err(e) => ctx.fail(format!("{name}:{off}"), format!("mesh {name}: {e}")),
            }
        },
    ));
    fam
}
pub fn c10(th: bool) -> Check {
    Check { id: "C10", families: families(Mode::Structure, th), assumptions: vec!["polygons have distinct corners and together use the vertex ids 0..n".into(), "faces are split at two non-adjacent corners; faces are added over closed walks of existing halfedge directions".into()] }
}
pub fn c11(th: bool) -> Check {
    Check { id: "C11", families: families(Mode::Iterate, th), assumptions: vec!["as C10".into(), "neighbour iteration around a vertex visits the other end once per incident edge".into()] }
}
pub fn c12(th: bool) -> Check {
    Check { id: "C12", families: families(Mode::Diff, th), assumptions: vec!["as C10".into()] }
}
