//! P01-P08: the tree and its queries.

use crate::common::*;
use goko::errors::GokoError;
use goko::*;
use pbt::{ensure, fail, sub, Prop, Res, Src};
use pointcloud::metrics::*;
use pointcloud::points::SparseRef;
use pointcloud::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Deref;
use std::sync::Arc;

/// Distances have f32 rounding; an answer may only be wrong by what rounding of the largest distance explains.
const REL: f64 = 1e-5;

pub fn gen_k(src: &mut Src, n: usize) -> usize {
    match src.draw(9) {
        0 | 1 | 2 => src.usize(1, 4),
        3 | 4 => src.usize(1, n.max(1)),
        5 => n.saturating_sub(1),
        6 => *src.pick(&[n, n + 1, n + 7, 3 * n + 2]),
        7 => 0,
        _ => *src.pick(&[1usize, 1_000_000, usize::MAX / 4, usize::MAX]),
    }
}

/// `got` are the k nearest of `cands` (index -> reference distance).
pub fn check_nearest(tag: &str, got: &[(f32, usize)], cands: &BTreeMap<usize, f64>, k: usize) -> Res {
    let want_len = k.min(cands.len());
    ensure!(got.len() == want_len, format!("{}_count", tag), "k={} over {} candidates gave {} answers: {:?}", k, cands.len(), got.len(), got);
    let far = cands.values().cloned().fold(0.0, f64::max);
    let tol = REL * far + 1e-30;
    let mut seen = BTreeSet::new();
    let mut prev = f64::NEG_INFINITY;
    for (d, i) in got {
        ensure!(seen.insert(*i), format!("{}_repeat", tag), "index {} was answered twice: {:?}", i, got);
        let r = match cands.get(i) {
            Some(r) => *r,
            None => fail!(format!("{}_stranger", tag), "index {} is not a candidate: {:?}", i, got),
        };
        ensure!(near(*d as f64, r, 1e-4) || (*d as f64 - r).abs() <= 1e-30, format!("{}_distance", tag), "index {} is at {} but {} was reported", i, r, d);
        ensure!((*d as f64) >= prev, format!("{}_order", tag), "answers are not sorted by distance: {:?}", got);
        prev = *d as f64;
    }
    let mut all: Vec<f64> = cands.values().cloned().collect();
    all.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for (j, (d, i)) in got.iter().enumerate() {
        ensure!(
            (*d as f64) <= all[j] + tol,
            format!("{}_missed", tag),
            "answer {} is index {} at {} but the {}th nearest is at {} (k={}); got {:?}",
            j, i, d, j, all[j], k, got
        );
    }
    Ok(())
}

fn ref_dists(norm: Norm, data: &Data, q: &[f32]) -> BTreeMap<usize, f64> {
    data.all_ids().into_iter().map(|i| (i, rdist(norm, data.row(i), q))).collect()
}

fn knn_on<D: PointCloud, P: Deref<Target = D::Point> + Send + Sync>(r: &CoverTreeReader<D>, q: &P, cands: &BTreeMap<usize, f64>, k: usize) -> Res {
    match r.knn(q, k) {
        Ok(got) => check_nearest("knn", &got, cands, k),
        Err(e) => fail!("knn_error", "knn gave {:?}", e),
    }
}

fn routing_on<D: PointCloud, P: Deref<Target = D::Point> + Send + Sync>(r: &CoverTreeReader<D>, q: &P, cands: &BTreeMap<usize, f64>, k: usize) -> Res {
    match r.routing_knn(q, k) {
        Ok(got) => check_nearest("routing", &got, cands, k),
        Err(e) => fail!("routing_error", "routing_knn gave {:?}", e),
    }
}

fn knn_case<M: Metric<[f32]>>(src: &mut Src, norm: Norm, routing: bool, max_n: usize) -> Res {
    let data = gen_points(src, max_n);
    let p = gen_params(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = made::<M>(src, &data, &p);
    let r = w.reader();
    let d = dump(&r);
    let centers: BTreeSet<usize> = d.keys().map(|a| a.1).collect();
    for _ in 0..src.usize(1, 4) {
        let q = gen_query(src, &data);
        let k = gen_k(src, if routing { centers.len() } else { data.n });
        src.describe(|| format!("k={} q={:?}", k, q));
        let mut cands = ref_dists(norm, &data, &q);
        if routing {
            cands = cands.into_iter().filter(|(i, _)| centers.contains(i)).collect();
        }
        if cands.len() >= 4 && d.len() >= 3 && k >= 1 && k < cands.len() {
            src.nontrivial();
        }
        src.class(if k == 0 { "k0" } else if k < cands.len() { "k_inside" } else { "k_all" });
        let q = &q[..];
        if routing {
            routing_on(&r, &q, &cands, k)?;
        } else {
            knn_on(&r, &q, &cands, k)?;
        }
    }
    Ok(())
}

fn p01_l2(src: &mut Src) -> Res {
    knn_case::<L2>(src, Norm::L2, false, 250)
}
fn p01_l1(src: &mut Src) -> Res {
    knn_case::<L1>(src, Norm::L1, false, 250)
}
fn p02_l2(src: &mut Src) -> Res {
    knn_case::<L2>(src, Norm::L2, true, 250)
}
fn p02_l1(src: &mut Src) -> Res {
    knn_case::<L1>(src, Norm::L1, true, 250)
}

fn sparse_parts(q: &[f32]) -> (Vec<f32>, Vec<u32>) {
    let mut v = vec![];
    let mut c = vec![];
    for (i, x) in q.iter().enumerate() {
        if *x != 0.0 {
            v.push(*x);
            c.push(i as u32);
        }
    }
    (v, c)
}

fn sparsify(src: &mut Src, data: &mut Data) {
    // most generated kinds are dense, knock out entries
    let keep = src.usize(1, 4) as u64;
    let mut r = Vals::new(src, data.v.len());
    for x in data.v.iter_mut() {
        if r.draw(4) >= keep {
            *x = 0.0;
        }
    }
}

fn sparse_case(src: &mut Src, routing: bool) -> Res {
    let mut data = gen_data(src, 120);
    sparsify(src, &mut data);
    let p = gen_params(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = builder(&p).build(Arc::new(sparse(&data))).unwrap();
    let r = w.reader();
    let d = dump(&r);
    let centers: BTreeSet<usize> = d.keys().map(|a| a.1).collect();
    for _ in 0..src.usize(1, 3) {
        let mut q = gen_query(src, &data);
        if src.bool() {
            for x in q.iter_mut() {
                if src.bool() {
                    *x = 0.0;
                }
            }
        }
        let k = gen_k(src, data.n);
        src.describe(|| format!("k={} q={:?}", k, q));
        let mut cands = ref_dists(Norm::L2, &data, &q);
        if routing {
            cands = cands.into_iter().filter(|(i, _)| centers.contains(i)).collect();
        }
        if cands.len() >= 4 && d.len() >= 3 && k >= 1 && k < cands.len() {
            src.nontrivial();
        }
        let (v, c) = sparse_parts(&q);
        let sref = SparseRef::<f32, u32>::new(data.dim, &v, &c);
        if routing {
            routing_on(&r, &sref, &cands, k)?;
        } else {
            knn_on(&r, &sref, &cands, k)?;
        }
    }
    Ok(())
}
fn p01_sparse(src: &mut Src) -> Res {
    sparse_case(src, false)
}
fn p02_sparse(src: &mut Src) -> Res {
    sparse_case(src, true)
}

/// bigger clouds, so that nodes have more children than one parallel chunk
fn p01_big(src: &mut Src) -> Res {
    big_case(src, false)
}
fn p02_big(src: &mut Src) -> Res {
    big_case(src, true)
}
fn p01_huge(src: &mut Src) -> Res {
    let data = gen_huge(src, 70000);
    let p = huge_params(src, data.n);
    big_on(src, false, data, p)
}
fn p02_huge(src: &mut Src) -> Res {
    let data = gen_huge(src, 70000);
    let p = huge_params(src, data.n);
    big_on(src, true, data, p)
}
fn big_case(src: &mut Src, routing: bool) -> Res {
    let data = gen_big(src, 1600);
    let p = gen_params(src, data.n);
    big_on(src, routing, data, p)
}
fn big_on(src: &mut Src, routing: bool, data: Data, p: Params) -> Res {
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = made::<L2>(src, &data, &p);
    let r = w.reader();
    let d = dump(&r);
    if d.values().any(|x| x.children.as_ref().map(|c| c.1.len()).unwrap_or(0) > 300 || x.singletons.len() > 300) {
        src.class("parallel_distances");
    }
    let centers: BTreeSet<usize> = d.keys().map(|a| a.1).collect();
    for _ in 0..3 {
        let q = gen_query(src, &data);
        let k = gen_k(src, data.n);
        let mut cands = ref_dists(Norm::L2, &data, &q);
        if routing {
            cands = cands.into_iter().filter(|(i, _)| centers.contains(i)).collect();
        }
        if d.len() >= 3 && k >= 1 && k < cands.len() {
            src.nontrivial();
        }
        let q = &q[..];
        if routing {
            routing_on(&r, &q, &cands, k)?;
        } else {
            knn_on(&r, &q, &cands, k)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P03

fn check_partition<D: PointCloud>(src: &mut Src, r: &CoverTreeReader<D>, data: &Data) -> Res {
    let n = data.n;
    let d = dump(r);
    let root = r.root_address();
    ensure!(d.contains_key(&root), "root_missing", "the root {:?} is not in the tree", root);
    ensure!(d[&root].parent.is_none(), "root_parent", "the root has the parent {:?}", d[&root].parent);
    // walk by the public accessor
    let mut seen: BTreeSet<Addr> = BTreeSet::new();
    let mut stack = vec![root];
    let mut held: BTreeMap<usize, Vec<Addr>> = BTreeMap::new();
    while let Some(a) = stack.pop() {
        ensure!(seen.insert(a), "node_twice", "node {:?} is reached twice from the root", a);
        let info = match r.get_node_and(a, |n| NodeInfo::of(n)) {
            Some(i) => i,
            None => fail!("dangling", "node {:?} is referenced but not in the tree", a),
        };
        ensure!(info.addr == a, "address", "the node at {:?} says it is {:?}", a, info.addr);
        for c in info.all_children() {
            let cp = r.get_node_and(c, |n| n.parent_address());
            match cp {
                None => fail!("dangling", "child {:?} of {:?} is not in the tree", c, a),
                Some(cp) => ensure!(cp == Some(a), "parent", "child {:?} of {:?} says its parent is {:?}", c, a, cp),
            }
            stack.push(c);
        }
        for s in &info.singletons {
            held.entry(*s).or_default().push(a);
        }
        if info.is_leaf() {
            held.entry(a.1).or_default().push(a);
        }
    }
    ensure!(seen.len() == d.len(), "unreachable", "{} nodes are reachable from the root, the layers hold {}", seen.len(), d.len());
    ensure!(r.node_count() == d.len(), "node_count", "node_count is {} of {} nodes", r.node_count(), d.len());
    for i in data.all_ids() {
        match held.get(&i) {
            None => fail!("point_lost", "point {} is nowhere in the tree", i),
            Some(v) => ensure!(v.len() == 1, "point_twice", "point {} is in {:?}", i, v),
        }
    }
    ensure!(held.len() == n, "point_stranger", "the tree holds {} distinct points, the cloud {}", held.len(), n);
    let cov = covered(&d, root);
    for (a, info) in &d {
        let c = cov[a].len();
        ensure!(info.coverage == c, "coverage", "node {:?} says it covers {} points, it holds {}", a, info.coverage, c);
        ensure!(cov[a].contains(&a.1), "center_outside", "node {:?} does not cover its own center", a);
        let (cl, sl) = r.get_node_and(*a, |n| (n.children_len(), n.singletons_len())).unwrap();
        ensure!(cl == info.all_children().len(), "children_len", "node {:?} says it has {} children, it has {}", a, cl, info.all_children().len());
        ensure!(sl == info.singletons.len(), "singletons_len", "node {:?} says it has {} singletons, it has {}", a, sl, info.singletons.len());
        let got = r.get_node_children_and(*a, |nested, others| (nested, others.to_vec()));
        let want = info.children.as_ref().map(|(s, c)| ((*s, a.1), c.clone()));
        ensure!(got == want, "children_and", "children of {:?}: {:?} against {:?}", a, got, want);
        let leaf = r.get_node_and(*a, |n| n.is_leaf()).unwrap();
        ensure!(leaf == info.is_leaf(), "is_leaf", "node {:?}: is_leaf {}", a, leaf);
    }
    for i in data.all_ids() {
        let path = match r.known_path(i) {
            Ok(p) => p,
            Err(e) => fail!("known_path", "point {} of the cloud has no known path: {:?}", i, e),
        };
        let last = path.last().map(|x| x.1);
        ensure!(last == Some(held[&i][0]), "final_address", "the known path of {} ends in {:?}, the point is in {:?}", i, last, held[&i][0]);
    }
    if d.len() >= 4 && n >= 6 && d.values().any(|x| !x.singletons.is_empty()) {
        src.nontrivial();
    }
    Ok(())
}

fn p03_dense(src: &mut Src) -> Res {
    let data = gen_points(src, 300);
    let p = gen_deep(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = build::<L2>(&data, &p);
    check_partition(src, &w.reader(), &data)
}
fn p03_l1(src: &mut Src) -> Res {
    let data = gen_data(src, 200);
    let p = gen_deep(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = build::<L1>(&data, &p);
    check_partition(src, &w.reader(), &data)
}
fn p03_sparse(src: &mut Src) -> Res {
    let mut data = gen_data(src, 120);
    sparsify(src, &mut data);
    let p = gen_deep(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = builder(&p).build(Arc::new(sparse(&data))).unwrap();
    check_partition(src, &w.reader(), &data)
}
fn p03_big(src: &mut Src) -> Res {
    let data = gen_big(src, 1600);
    let p = gen_deep(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = build::<L2>(&data, &p);
    check_partition(src, &w.reader(), &data)
}

fn p03_huge(src: &mut Src) -> Res {
    let data = gen_huge(src, 70000);
    let p = huge_params(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = build::<L2>(&data, &p);
    check_partition(src, &w.reader(), &data)
}

// ---------------------------------------------------------------- P04

fn check_geometry<D: PointCloud>(src: &mut Src, r: &CoverTreeReader<D>, data: &Data, p: &Params, norm: Norm) -> Res {
    let d = dump(r);
    let root = r.root_address();
    let cov = covered(&d, root);
    let dist = |i: usize, j: usize| rdist(norm, data.row(i), data.row(j));
    for (a, info) in &d {
        let s = scale(p, a.0);
        ensure!(close(r.scale(a.0) as f64, (p.scale_base as f64).powi(a.0), 1e-4, 1.2e-38), "scale", "scale({}) is {}", a.0, r.scale(a.0));
        let mut maxd = 0.0f64;
        for i in &cov[a] {
            let di = dist(a.1, *i);
            maxd = maxd.max(di);
            ensure!(di <= s * (1.0 + REL), "covering", "point {} under node {:?} is at {} of its center, the scale is {}", i, a, di, s);
        }
        if cov[a].len() > 1 {
            ensure!(near(info.radius as f64, maxd, 1e-4) || (info.radius as f64 - maxd).abs() < 1e-30, "radius", "node {:?} has radius {}, its furthest point is at {}", a, info.radius, maxd);
        } else {
            ensure!(info.radius <= 0.0, "radius_single", "node {:?} covers only its center and has radius {}", a, info.radius);
        }
        if let Some((ns, others)) = &info.children {
            ensure!(*ns < a.0, "nested_scale", "the nested child of {:?} is at scale {}", a, ns);
            ensure!(d.contains_key(&(*ns, a.1)), "nested_missing", "the nested child of {:?} at {} is missing", a, ns);
            for c in others {
                ensure!(c.0 < a.0, "child_scale", "child {:?} of {:?} is not below it", c, a);
                ensure!(c.1 != a.1, "child_same_center", "child {:?} of {:?} repeats its center", c, a);
            }
            let mut centers: Vec<usize> = vec![a.1];
            centers.extend(others.iter().map(|c| c.1));
            centers.extend(info.singletons.iter());
            let sep = scale(p, *ns);
            if centers.len() > 256 {
                src.class("wide_nodes");
            }
            for i in 0..centers.len() {
                for j in 0..i {
                    let di = dist(centers[i], centers[j]);
                    ensure!(di >= sep * (1.0 - REL), "separation", "centers {} and {} under {:?} are {} apart, the child scale is {}", centers[i], centers[j], a, di, sep);
                }
            }
            // to which child a point goes
            let kids = info.all_children();
            for (ci, c) in kids.iter().enumerate() {
                for q in &cov[c] {
                    let own = dist(*q, c.1);
                    if p.first {
                        for e in &kids[..ci] {
                            ensure!(dist(*q, e.1) >= sep * (1.0 - REL), "first", "point {} is under {:?} but within {} of the earlier center of {:?}", q, c, sep, e);
                        }
                    } else {
                        for e in &centers {
                            ensure!(dist(*q, *e) >= own * (1.0 - REL) - 1e-30, "nearest", "point {} is under {:?} at {} but center {} is at {}", q, c, own, e, dist(*q, *e));
                        }
                    }
                }
            }
        }
    }
    if d.values().filter(|x| !x.is_leaf()).count() >= 2 {
        src.nontrivial();
    }
    Ok(())
}

fn p04_l2(src: &mut Src) -> Res {
    let data = gen_points(src, 120);
    let p = gen_params(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = build::<L2>(&data, &p);
    check_geometry(src, &w.reader(), &data, &p, Norm::L2)
}
fn p04_l1(src: &mut Src) -> Res {
    let data = gen_points(src, 120);
    let p = gen_params(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = build::<L1>(&data, &p);
    check_geometry(src, &w.reader(), &data, &p, Norm::L1)
}
fn p04_sparse(src: &mut Src) -> Res {
    let mut data = gen_data(src, 90);
    sparsify(src, &mut data);
    let p = gen_params(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = builder(&p).build(Arc::new(sparse(&data))).unwrap();
    check_geometry(src, &w.reader(), &data, &p, Norm::L2)
}
fn p04_big(src: &mut Src) -> Res {
    let data = gen_big(src, 1200);
    let p = gen_params(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = build::<L2>(&data, &p);
    check_geometry(src, &w.reader(), &data, &p, Norm::L2)
}
fn p04_huge(src: &mut Src) -> Res {
    let n = src.usize(4500, 6500);
    let dim = src.usize(14, 24);
    let data = gen_data_kind(src, n, dim, "uniform");
    let mut p = huge_params(src, data.n);
    // the points are about ten apart: one node gets nearly all of them as children
    p.scale_base = *src.pick(&[4.0f32, 3.0, 2.0, 8.0]);
    p.min_res = p.min_res.min(0);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = build::<L2>(&data, &p);
    check_geometry(src, &w.reader(), &data, &p, Norm::L2)
}

// ---------------------------------------------------------------- P05

fn check_params<D: PointCloud>(src: &mut Src, r: &CoverTreeReader<D>, data: &Data, p: &Params, norm: Norm) -> Res {
    let d = dump(r);
    let root = r.root_address();
    let cov = covered(&d, root);
    let dist = |i: usize, j: usize| rdist(norm, data.row(i), data.row(j));
    let pr = r.parameters();
    ensure!(
        pr.scale_base == p.scale_base && pr.leaf_cutoff == p.leaf_cutoff && pr.min_res_index == p.min_res && pr.use_singletons == p.use_singletons && pr.rng_seed == p.seed,
        "parameters", "the tree says {} {} {} {} {:?}", pr.scale_base, pr.leaf_cutoff, pr.min_res_index, pr.use_singletons, pr.rng_seed
    );
    ensure!(matches!(pr.partition_type, PartitionType::First) == p.first, "parameters", "partition {:?}", pr.partition_type);
    ensure!(root.0 >= p.min_res, "root_scale", "the root is at {} below the minimum resolution {}", root.0, p.min_res);
    // the root's scale is the smallest that covers, but not below the resolution
    let far = data.all_ids().into_iter().map(|i| dist(root.1, i)).fold(0.0, f64::max);
    ensure!(far <= scale(p, root.0) * (1.0 + REL), "root_scale", "root scale {} does not reach {}", root.0, far);
    if root.0 > p.min_res && far > 0.0 {
        ensure!(far >= scale(p, root.0 - 1) * (1.0 - REL), "root_scale", "root scale {} is larger than {} needs", root.0, far);
        // where nothing rounds, the scale that reaches exactly is enough
        if [2.0, 4.0, 8.0].contains(&p.scale_base) && far == scale(p, root.0 - 1) && (far as f32).log(p.scale_base) == (root.0 - 1) as f32 {
            fail!("root_scale", "root scale {} is larger than {} needs, which is exactly one scale less", root.0, far);
        }
    }
    for (a, info) in &d {
        let c = cov[a].len();
        ensure!(a.0 >= p.min_res - 1, "resolution", "node {:?} is below the layer under the minimum resolution {}", a, p.min_res);
        if c <= p.leaf_cutoff {
            ensure!(info.is_leaf(), "leaf_cutoff", "node {:?} covers {} points, the leaf cutoff is {}, and it is not a leaf", a, c, p.leaf_cutoff);
        }
        if a.0 < p.min_res {
            ensure!(info.is_leaf(), "resolution_leaf", "node {:?} is below the minimum resolution {} and not a leaf", a, p.min_res);
        }
        if !p.use_singletons && !info.is_leaf() {
            ensure!(info.singletons.is_empty(), "singletons_off", "routing node {:?} has singletons {:?}", a, info.singletons);
        }
        if info.is_leaf() && c > p.leaf_cutoff && a.0 >= p.min_res && c > 1 {
            let far = cov[a].iter().map(|i| dist(a.1, *i)).fold(0.0, f64::max);
            let ns = std::cmp::min(a.0 - 1, std::cmp::max(far.log(p.scale_base as f64).ceil() as i32, p.min_res));
            if scale(p, ns) < 1.2e-38 && far < 1e-37 {
                // the next scale is zero as a float, and copies of one point can't be told apart
                continue;
            }
            // only when all it covers split into single points that it may hold itself
            ensure!(p.use_singletons, "early_leaf", "node {:?} covers {} points (cutoff {}, resolution {}) but is a leaf", a, c, p.leaf_cutoff, p.min_res);
            let sep = scale(p, ns) / (p.scale_base as f64) * (1.0 - REL);
            for i in 0..c {
                for j in 0..i {
                    ensure!(dist(cov[a][i], cov[a][j]) >= sep, "early_leaf", "node {:?} is a leaf over {} points (cutoff {}) though {} and {} share a ball of the next scale {}", a, c, p.leaf_cutoff, cov[a][i], cov[a][j], ns);
                }
            }
        }
        if !info.is_leaf() && p.use_singletons {
            for ch in info.children.as_ref().unwrap().1.iter() {
                ensure!(cov[ch].len() > 1, "single_child", "child {:?} of {:?} covers one point and is not a singleton", ch, a);
            }
        }
    }
    // layers
    let mut last = i32::MAX;
    let mut count = 0;
    for (si, layer) in r.layers() {
        ensure!(si < last, "layer_order", "layers are not listed from the top down");
        last = si;
        ensure!(layer.scale_index() == si, "layer_scale", "the layer listed as {} says {}", si, layer.scale_index());
        let mut got: Vec<usize> = layer.node_center_indexes();
        got.sort_unstable();
        let want: Vec<usize> = d.range((si, 0)..=(si, usize::MAX)).map(|(a, _)| a.1).collect();
        ensure!(got == want, "layer_nodes", "layer {} has the centers {:?}, the nodes say {:?}", si, got, want);
        ensure!(layer.len() == want.len() && layer.is_empty() == want.is_empty(), "layer_len", "layer {} has length {} of {}", si, layer.len(), want.len());
        for pi in &want {
            let x = layer.get_node_and(*pi, |n| n.address());
            ensure!(x == Some((si, *pi)), "layer_get", "layer {} gives {:?} for {}", si, x, pi);
            let kids = layer.get_node_children_and(*pi, |nested, others| (nested, others.to_vec()));
            let own = d[&(si, *pi)].children.as_ref().map(|(s, c)| ((*s, *pi), c.clone()));
            ensure!(kids == own, "layer_children", "layer {} gives {:?} for the children of {}, the node has {:?}", si, kids, pi, own);
            ensure!(r.layer(si).get_node_and(*pi, |n| n.address()) == Some((si, *pi)), "layer_of_scale", "layer({}) does not hold {}", si, pi);
        }
        let by_map: Vec<usize> = layer.map_nodes(|pi, n| if n.address() == (si, *pi) { *pi } else { usize::MAX });
        ensure!(by_map.len() == want.len() && !by_map.contains(&usize::MAX), "layer_map", "map_nodes over layer {} gives {:?}", si, by_map);
        count += 1;
    }
    ensure!(count == r.len() && !r.is_empty(), "layer_count", "{} layers listed, len {}", count, r.len());
    ensure!(r.len() as i32 == root.0 - p.min_res + 2, "layer_count", "{} layers from the root at {} to the resolution {}", r.len(), root.0, p.min_res);
    ensure!(last == p.min_res - 1, "layer_bottom", "the lowest layer is {}", last);
    let sr = r.scale_range();
    ensure!(sr == (p.min_res..root.0 + 1), "scale_range", "scale_range {:?} for root {} and resolution {}", sr, root.0, p.min_res);
    ensure!(r.layer(root.0).len() == 1, "root_layer", "the root's layer has {} nodes", r.layer(root.0).len());
    // addresses that are not there
    for _ in 0..3 {
        let pi = if src.bool() { src.usize(0, data.n + 3) } else { data.id(src.usize(0, data.n - 1)) };
        let si = src.range(p.min_res as i64 - 1, root.0 as i64) as i32;
        let x = r.get_node_and((si, pi), |n| n.address());
        ensure!(x.is_some() == d.contains_key(&(si, pi)) && x.map(|y| y == (si, pi)).unwrap_or(true), "lookup", "looking up {:?} gave {:?}", (si, pi), x);
    }
    if d.len() >= 4 && data.n >= 6 {
        src.nontrivial();
    }
    if d.values().any(|x| x.addr.0 < p.min_res) {
        src.class("bottom_layer");
    }
    if d.values().any(|x| x.is_leaf() && x.coverage > 1) {
        src.class("many_point_leaf");
    }
    Ok(())
}

fn p05_l2(src: &mut Src) -> Res {
    let data = gen_points(src, 150);
    let p = gen_params(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = build::<L2>(&data, &p);
    check_params(src, &w.reader(), &data, &p, Norm::L2)
}
fn p05_l1(src: &mut Src) -> Res {
    let data = gen_points(src, 150);
    let p = gen_params(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = build::<L1>(&data, &p);
    check_params(src, &w.reader(), &data, &p, Norm::L1)
}

fn p05_big(src: &mut Src) -> Res {
    let data = gen_big(src, 700);
    let p = gen_params(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = build::<L2>(&data, &p);
    check_params(src, &w.reader(), &data, &p, Norm::L2)
}

fn p05_huge(src: &mut Src) -> Res {
    let data = gen_huge(src, 70000);
    let p = huge_params(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = build::<L2>(&data, &p);
    check_params(src, &w.reader(), &data, &p, Norm::L2)
}

// ---------------------------------------------------------------- P06

/// The rule by which one step of a path is right, up to rounding.
pub fn check_path(tag: &str, d: &Dump, root: Addr, p: &Params, got: &[(f32, Addr)], dist: &dyn Fn(usize) -> f64) -> Res {
    ensure!(!got.is_empty() && got[0].1 == root, format!("{}_root", tag), "the path does not start at the root: {:?}", got);
    for (dd, a) in got {
        let want = dist(a.1);
        ensure!(near(*dd as f64, want, 1e-4) || (*dd as f64 - want).abs() < 1e-30, format!("{}_distance", tag), "the center of {:?} is at {}, {} was reported", a, want, dd);
    }
    for (i, (_, a)) in got.iter().enumerate() {
        let info = match d.get(a) {
            Some(x) => x,
            None => fail!(format!("{}_node", tag), "{:?} is not in the tree", a),
        };
        let kids = info.all_children();
        let next = got.get(i + 1).map(|x| x.1);
        let eps = |x: f64| REL * x.abs();
        if let Some(nx) = next {
            ensure!(kids.contains(&nx), format!("{}_step", tag), "the step from {:?} to {:?} is not to a child", a, nx);
            let s = scale(p, nx.0);
            let dn = dist(nx.1);
            ensure!(dn <= s + eps(s), format!("{}_cover", tag), "child {:?} at {} does not cover the query, its scale is {}", nx, dn, s);
            for k in &kids {
                if *k == nx {
                    if p.first {
                        break;
                    }
                    continue;
                }
                let dk = dist(k.1);
                if p.first {
                    let s = scale(p, k.0);
                    ensure!(dk >= s - eps(s), format!("{}_first", tag), "the path steps to {:?} though the earlier child {:?} covers the query ({} < {})", nx, k, dk, s);
                } else {
                    ensure!(dk >= dn - eps(dn) - 1e-30, format!("{}_nearest", tag), "the path steps to {:?} at {} though {:?} is at {}", nx, dn, k, dk);
                }
            }
        } else if !kids.is_empty() {
            // it may only stop when the rule finds no covering child
            if p.first {
                for k in &kids {
                    let s = scale(p, k.0);
                    ensure!(dist(k.1) >= s - eps(s), format!("{}_stop", tag), "the path stops at {:?} though {:?} covers the query", a, k);
                }
            } else {
                let near_d = kids.iter().map(|k| dist(k.1)).fold(f64::INFINITY, f64::min);
                let s = scale(p, kids[0].0);
                ensure!(near_d >= s - eps(s), format!("{}_stop", tag), "the path stops at {:?} though a child at {} covers the query (scale {})", a, near_d, s);
            }
        }
    }
    Ok(())
}

fn path_case<M: Metric<[f32]>>(src: &mut Src, norm: Norm, max_n: usize) -> Res {
    let data = gen_points(src, max_n);
    path_on::<M>(src, norm, data)
}
fn p06_big(src: &mut Src) -> Res {
    let data = gen_big(src, 900);
    path_on::<L2>(src, Norm::L2, data)
}
fn p06_huge(src: &mut Src) -> Res {
    let data = gen_huge(src, 70000);
    let p = huge_params(src, data.n);
    path_with::<L2>(src, Norm::L2, data, p)
}
fn path_on<M: Metric<[f32]>>(src: &mut Src, norm: Norm, data: Data) -> Res {
    let p = gen_deep(src, data.n);
    path_with::<M>(src, norm, data, p)
}
fn path_with<M: Metric<[f32]>>(src: &mut Src, norm: Norm, data: Data, p: Params) -> Res {
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = made::<M>(src, &data, &p);
    let r = w.reader();
    let d = dump(&r);
    let root = r.root_address();
    // of very many points every so many and the last ones
    let step = 1 + data.n / 2500;
    for i in (0..data.n).filter(|i| i % step == 0 || i + 200 > data.n).map(|i| data.id(i)) {
        let known = match r.known_path(i) {
            Ok(x) => x,
            Err(e) => fail!("known_error", "no known path for {}: {:?}", i, e),
        };
        check_path("known", &d, root, &p, &known, &|j| rdist(norm, data.row(j), data.row(i)))?;
        let q = data.row(i);
        let dry = match r.path(&q) {
            Ok(x) => x,
            Err(e) => fail!("path_error", "no path for point {}: {:?}", i, e),
        };
        let ka: Vec<Addr> = known.iter().map(|x| x.1).collect();
        let da: Vec<Addr> = dry.iter().map(|x| x.1).collect();
        ensure!(ka == da, "path_known", "point {} was inserted along {:?}, its coordinates lead along {:?}", i, ka, da);
        let end = &d[ka.last().unwrap()];
        ensure!(end.singletons.contains(&i) || (end.is_leaf() && end.addr.1 == i), "known_end", "the path of {} ends at {:?} that does not hold it", i, end);
        if ka.len() >= 3 {
            src.nontrivial();
        }
    }
    for _ in 0..4 {
        let q = gen_query(src, &data);
        src.describe(|| format!("q={:?}", q));
        let qq = &q[..];
        let got = match r.path(&qq) {
            Ok(x) => x,
            Err(e) => fail!("path_error", "no path: {:?}", e),
        };
        if got.len() == 1 {
            src.class("stops_at_root");
        } else if !d.get(&got.last().unwrap().1).map(|x| x.is_leaf()).unwrap_or(true) {
            src.class("stops_inside");
        }
        check_path("path", &d, root, &p, &got, &|j| rdist(norm, data.row(j), qq))?;
    }
    for _ in 0..2 {
        let i = data.stranger(src.draw(5) as usize);
        match r.known_path(i) {
            Err(GokoError::IndexNotInTree(j)) => ensure!(i == j, "unknown_index", "asked for {}, the error names {}", i, j),
            x => fail!("unknown_index", "index {} of {} points gave {:?}", i, data.n, x),
        }
    }
    Ok(())
}
fn p06_l2(src: &mut Src) -> Res {
    path_case::<L2>(src, Norm::L2, 150)
}
fn p06_l1(src: &mut Src) -> Res {
    path_case::<L1>(src, Norm::L1, 150)
}

// ---------------------------------------------------------------- P07

fn p07(src: &mut Src) -> Res {
    let max = if src.tier_thorough { 3000 } else { 900 };
    let data = if src.chance(1, 4) {
        let n = src.usize(300, max);
        let dim = src.usize(1, 6);
        gen_data_with(src, n, dim)
    } else {
        gen_points(src, 200)
    };
    let p = gen_params(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let mut base: Option<Dump> = None;
    // the thread that builds waits in the pool, the work needs another one
    let mut runs = vec![2usize, 3, 8];
    runs.push(src.usize(2, 8));
    for t in runs {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(t).build().unwrap();
        let w = pool.install(|| build::<L2>(&data, &p));
        let r = w.reader();
        let d = dump(&r);
        if d.len() >= 4 {
            src.nontrivial();
        }
        match &base {
            None => base = Some(d),
            Some(b) => {
                if let Err(e) = dump_same(b, &d) {
                    fail!("deterministic", "the same data, parameters and seed gave different trees with 2 and {} threads: {}", t, e)
                }
            }
        }
    }
    let w = build::<L2>(&data, &p);
    if let Err(e) = dump_same(base.as_ref().unwrap(), &dump(&w.reader())) {
        fail!("deterministic", "building again gave another tree: {}", e)
    }
    // the order in which settings are given does not matter either
    let mut b = builder(&p);
    if let Some(s) = p.seed {
        b.set_rng_seed(s ^ 1);
        b.set_rng_seed(s);
    }
    b.set_use_singletons(p.use_singletons).set_min_res_index(p.min_res).set_leaf_cutoff(p.leaf_cutoff).set_scale_base(p.scale_base);
    let w = b.build(ram::<L2>(&data)).unwrap();
    if let Err(e) = dump_same(base.as_ref().unwrap(), &dump(&w.reader())) {
        fail!("deterministic_settings", "giving the settings again gave another tree: {}", e)
    }
    Ok(())
}

/// the tree depends on the points, not on what holds them
fn p07_wrappers(src: &mut Src) -> Res {
    use pointcloud::data_sources::{DataMemmap, DataRam};
    use pointcloud::glued_data_cloud::HashGluedCloud;
    use pointcloud::label_sources::SmallIntLabels;
    let data = gen_data(src, 200);
    let p = gen_params(src, data.n);
    class_params(src, &p);
    let parts = src.usize(1, 4).min(data.n);
    src.describe(|| format!("{} {:?} parts {}", data.show(), p, parts));
    let plain = || DataRam::<L2>::new(data.v.clone(), data.dim).unwrap();
    let base = dump(&build::<L2>(&data, &p).reader());
    if base.len() >= 4 {
        src.nontrivial();
    }
    let same = |what: &str, d: &Dump, b: &Dump| -> Res {
        if let Err(e) = dump_same(b, d) {
            fail!(format!("deterministic_{}", what), "the same points and seed gave another tree ({}): {}", what, e)
        }
        Ok(())
    };
    let labels: Vec<i64> = (0..data.n).map(|i| (i % 5) as i64).collect();
    let mask: Vec<bool> = (0..data.n).map(|i| i % 3 != 1).collect();
    let w = builder(&p).build(Arc::new(SimpleLabeledCloud::new(plain(), SmallIntLabels::new(labels, Some(mask))))).unwrap();
    same("labeled", &dump(&w.reader()), &base)?;
    let names = crate::clouds::Names((0..data.n).map(|i| format!("n{}", i)).collect());
    let w = builder(&p).build(Arc::new(SimpleNamedCloud::new(plain(), names))).unwrap();
    same("named", &dump(&w.reader()), &base)?;
    let dir = pbt::scratch_dir().join("p07");
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join("x.dat");
    let bytes: Vec<u8> = data.v.iter().flat_map(|x| x.to_ne_bytes().to_vec()).collect();
    std::fs::write(&file, bytes).unwrap();
    let w = builder(&p).build(Arc::new(DataMemmap::<L2>::new(data.dim, &file).unwrap())).unwrap();
    same("mapped", &dump(&w.reader()), &base)?;
    // glued clouds have an order of their own, which is the same every time
    let glued = || {
        let mut v = vec![];
        for i in 0..parts {
            let (a, b) = (data.n * i / parts, data.n * (i + 1) / parts);
            v.push(DataRam::<L2>::new(data.v[a * data.dim..b * data.dim].to_vec(), data.dim).unwrap());
        }
        Arc::new(HashGluedCloud::new(v))
    };
    let mut first: Option<Dump> = None;
    for t in [2usize, 5, 8].iter() {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(*t).build().unwrap();
        let d = dump(&pool.install(|| builder(&p).build(glued()).unwrap()).reader());
        match &first {
            None => first = Some(d),
            Some(b) => same("glued", &d, b)?,
        }
    }
    Ok(())
}

/// queries answered at once from many threads are those answered alone
fn p07_queries(src: &mut Src) -> Res {
    use rayon::prelude::*;
    let data = gen_data(src, 250);
    let p = gen_params(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let w = build::<L2>(&data, &p);
    let r = w.reader();
    let k = gen_k(src, data.n);
    let qs: Vec<Vec<f32>> = (0..src.usize(4, 16)).map(|_| gen_query(src, &data)).collect();
    if data.n >= 6 {
        src.nontrivial();
    }
    let alone: Vec<_> = qs.iter().map(|q| {
        let q = &q[..];
        (r.knn(&q, k).unwrap(), r.path(&q).unwrap())
    }).collect();
    for t in [1usize, 4, 8].iter() {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(*t).build().unwrap();
        let jobs: Vec<_> = qs.iter().map(|q| (q.clone(), r.clone())).collect();
        let many: Vec<_> = pool.install(|| {
            jobs.into_par_iter()
                .map(|(q, rr)| {
                    let q = &q[..];
                    (rr.knn(&q, k).unwrap(), rr.path(&q).unwrap())
                })
                .collect()
        });
        for (i, (a, b)) in alone.iter().zip(&many).enumerate() {
            ensure!(a == b, "query_threads", "query {} gave {:?} alone and {:?} with {} threads", i, a, b, t);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P08

fn p08(src: &mut Src) -> Res {
    let dim = gen_dim(src);
    let n = match src.draw(5) {
        0 => 1,
        1 => 2,
        2 => src.usize(1, 5),
        _ => gen_n(src, 120),
    };
    let mode = src.draw(7);
    let data = match mode {
        0 => gen_data_kind(src, n, dim, "identical"),
        1 | 2 => {
            // the whole supported range of magnitudes in one cloud
            let mut r = Vals::new(src, n * dim);
            let v: Vec<f32> = (0..n * dim)
                .map(|_| {
                    let e = r.range(0, 30) as i32 - 15;
                    let m = r.sym();
                    (m * 10f64.powi(e)) as f32
                })
                .collect();
            Data { dim, n, v, kind: "magnitudes", ids: PLAIN }
        }
        3 => {
            let e = src.range(-15, 15) as i32;
            let mut d = gen_data_with(src, n, dim);
            let big = d.v.iter().fold(0.0f64, |a, x| a.max((*x as f64).abs())).max(1e-3);
            for x in d.v.iter_mut() {
                *x = (*x as f64 / big * 10f64.powi(e)) as f32;
            }
            d
        }
        4 => gen_data_kind(src, n, dim, "duplicates"),
        _ => gen_data_with(src, n, dim),
    };
    src.class(data.kind);
    let mut p = gen_params(src, n);
    if src.chance(1, 3) {
        p.scale_base = *src.pick(&[1.05f32, 1.01, 1.5, 20.0, 100.0]);
    }
    if src.chance(1, 3) {
        p.min_res = *src.pick(&[-60i32, -40, 0, 5, 20, 50]);
    }
    if src.chance(1, 6) {
        p.seed = None;
    }
    // keep the number of layers reasonable, but go below the smallest float at times
    let lim = ((1e16f64).ln() / (p.scale_base as f64).ln()).ceil() as i32;
    p.min_res = p.min_res.max(-lim).min(lim);
    if src.chance(1, 8) {
        let least = (1e-38f64.ln() / (p.scale_base as f64).ln()).floor() as i32;
        p.min_res = (least + 10 - src.draw(60) as i32).max(-4000);
    }
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    let l1 = src.bool();
    src.nontrivial();
    if l1 {
        p08_run::<L1>(&data, &p, Norm::L1)
    } else {
        p08_run::<L2>(&data, &p, Norm::L2)
    }
}

/// Many points, all kinds: copies by the hundred, one far away, long rows.
fn p08_big(src: &mut Src) -> Res {
    let mut data = gen_big(src, 1200);
    match src.draw(4) {
        0 => {
            // one point stands for most of the cloud
            let i = src.usize(0, data.n - 1);
            let row = data.nth(i).to_vec();
            let keep = src.usize(1, 20);
            for j in keep..data.n {
                data.v[j * data.dim..(j + 1) * data.dim].copy_from_slice(&row);
            }
            src.class("copies");
        }
        1 => {
            let i = src.usize(0, data.n - 1);
            let f = 10f32.powi(src.range(4, 14) as i32);
            data.v[i * data.dim] = f;
            src.class("far");
        }
        _ => {}
    }
    let p = gen_params(src, data.n);
    class_params(src, &p);
    src.describe(|| format!("{} {:?}", data.show(), p));
    src.nontrivial();
    if src.bool() {
        p08_run::<L1>(&data, &p, Norm::L1)
    } else {
        p08_run::<L2>(&data, &p, Norm::L2)
    }
}

fn p08_run<M: Metric<[f32]>>(data: &Data, p: &Params, norm: Norm) -> Res {
    let w = match builder(p).build(ram::<M>(data)) {
        Ok(w) => w,
        Err(e) => fail!("build_error", "building failed: {:?}", e),
    };
    let r = w.reader();
    let d = dump(&r);
    let total: usize = covered(&d, r.root_address())[&r.root_address()].len();
    ensure!(total == data.n, "build_count", "{} of {} points are in the tree", total, data.n);
    for i in data.all_ids() {
        let q = data.row(i);
        let got = match r.knn(&q, 1) {
            Ok(x) => x,
            Err(e) => fail!("knn_error", "{:?}", e),
        };
        ensure!(got.len() == 1 && got[0].0 == 0.0, "self_neighbour", "the nearest neighbour of point {} itself is {:?}", i, got);
        ensure!(rdist(norm, data.row(got[0].1), q) <= 1e-18, "self_neighbour", "the nearest neighbour of point {} is {:?}", i, got);
        ensure!(r.path(&q).is_ok() && r.known_path(i).is_ok(), "path_error", "point {} has no path", i);
        ensure!(r.routing_knn(&q, 2).is_ok(), "routing_error", "point {} has no routing neighbours", i);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            rule: "at least 4 points, at least 3 nodes in the tree, 1 <= k < number of points",
            assumptions: vec!["coordinates are finite with magnitude 0 or about 1e-9..1e6", "the reference distance is computed in f64; an answer may be further than the true one by 1e-5 of the largest distance involved"],
            subs: vec![sub("l2", p01_l2, 48000, 1200000), sub("l1", p01_l1, 30000, 750000), sub("sparse", p01_sparse, 18000, 450000), sub("big", p01_big, 960, 24000), sub("huge", p01_huge, 32, 400)],
        },
        Prop {
            id: "P02",
            rule: "at least 4 distinct node centers, at least 3 nodes, 1 <= k < number of centers",
            assumptions: vec!["the node centers are read through the public layer accessors", "f64 reference distance, tolerance 1e-5 of the largest distance"],
            subs: vec![sub("l2", p02_l2, 48000, 1200000), sub("l1", p02_l1, 30000, 750000), sub("sparse", p02_sparse, 18000, 450000), sub("big", p02_big, 960, 24000), sub("huge", p02_huge, 32, 400)],
        },
        Prop {
            id: "P03",
            rule: "at least 4 nodes, 6 points and a node with singletons",
            assumptions: vec!["the tree is observed through its public accessors"],
            subs: vec![sub("dense", p03_dense, 36000, 900000), sub("l1", p03_l1, 18000, 450000), sub("sparse", p03_sparse, 12000, 300000), sub("big", p03_big, 720, 18000), sub("huge", p03_huge, 32, 400)],
        },
        Prop {
            id: "P04",
            rule: "at least two routing nodes",
            assumptions: vec!["scales and distances are compared with a relative slack of 1e-5"],
            subs: vec![sub("l2", p04_l2, 30000, 750000), sub("l1", p04_l1, 18000, 450000), sub("sparse", p04_sparse, 12000, 300000), sub("big", p04_big, 480, 12000), sub("huge", p04_huge, 16, 200)],
        },
        Prop {
            id: "P05",
            rule: "at least 4 nodes and 6 points",
            assumptions: vec!["the root scale may be off by rounding of the logarithm: it is compared with a slack of 1e-5"],
            subs: vec![sub("l2", p05_l2, 48000, 1200000), sub("l1", p05_l1, 24000, 600000), sub("big", p05_big, 480, 12000), sub("huge", p05_huge, 32, 400)],
        },
        Prop {
            id: "P06",
            rule: "some point has a path of at least 3 nodes",
            assumptions: vec!["ties and boundaries are accepted either way within a relative slack of 1e-5 for query points; for points of the cloud the path must be exactly the known one"],
            subs: vec![sub("l2", p06_l2, 36000, 900000), sub("l1", p06_l1, 18000, 450000), sub("big", p06_big, 320, 8000), sub("huge", p06_huge, 32, 400)],
        },
        Prop {
            id: "P07",
            rule: "trees with at least 4 nodes (build), clouds with at least 6 points (queries)",
            assumptions: vec!["thread counts 1 to 8"],
            subs: vec![sub("build", p07, 10800, 270000).threads(4), sub("wrappers", p07_wrappers, 3000, 80000).threads(4), sub("queries", p07_queries, 4800, 120000).threads(4)],
        },
        Prop {
            id: "P08",
            rule: "every case (the input space is all finite clouds and parameters)",
            assumptions: vec!["coordinates are 0 or between 1e-21 and 1e15 in magnitude", "clouds have at least one point and one dimension"],
            subs: vec![sub("build", p08, 60000, 1500000), sub("big", p08_big, 240, 6000)],
        },
    ]
}
