//! P18 dense distances, P19 sparse points, P20 glued clouds, P21 loaders.

use crate::common::*;
use crate::labels::{count, gen_cells, of_summary};
use crate::rich::*;
use crate::tree::{check_nearest, gen_k};
use flate2::write::GzEncoder;
use flate2::Compression;
use pbt::{ensure, fail, sub, Prop, Res, Src};
use pointcloud::data_sources::*;
use pointcloud::glued_data_cloud::*;
use pointcloud::loaders::*;
use pointcloud::metrics::*;
use pointcloud::pc_errors::*;
use pointcloud::points::*;
use pointcloud::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::Arc;

fn wide_dim(src: &mut Src) -> usize {
    match src.draw(6) {
        0 | 1 => src.usize(1, 9),
        2 => src.usize(7, 18),
        3 => src.usize(15, 50),
        4 => *src.pick(&[8usize, 16, 24, 32, 40, 48, 64, 128]),
        _ => src.usize(40, 200),
    }
}

fn gen_vec(src: &mut Src, dim: usize) -> Vec<f32> {
    let kind = src.draw(5);
    let mut r = Vals::new(src, dim * 2);
    (0..dim)
        .map(|_| match kind {
            0 => r.range(0, 10) as f32 - 5.0,
            1 => r.sym() as f32,
            2 => {
                let e = r.range(0, 16) as i32 - 8;
                (r.sym() * 10f64.powi(e)) as f32
            }
            3 => {
                if r.draw(4) == 3 {
                    (r.sym() * 100.0) as f32
                } else {
                    0.0
                }
            }
            _ => (1000.0 + r.sym()) as f32,
        })
        .collect()
}

fn dense_ref(l1: bool, x: &[f64], y: &[f64]) -> f64 {
    if l1 {
        x.iter().zip(y).map(|(a, b)| (a - b).abs()).sum()
    } else {
        x.iter().zip(y).map(|(a, b)| (a - b).powi(2)).sum::<f64>().sqrt()
    }
}

fn axioms<T: ?Sized, M: Metric<T>>(x: &T, y: &T, z: &T, want: f64, same_xy: bool) -> Res {
    let d = M::dist(x, y) as f64;
    ensure!(close(d, want, 1e-4, 1e-30), "distance", "the distance is {}, {} was computed", want, d);
    ensure!(d >= 0.0, "negative", "distance {}", d);
    let e = M::dist(y, x) as f64;
    ensure!(close(e, d, 1e-5, 0.0), "symmetry", "{} one way, {} the other", d, e);
    ensure!(M::dist(x, x) == 0.0, "self", "a point is {} from itself", M::dist(x, x));
    if same_xy {
        ensure!(d == 0.0, "equal", "equal points are {} apart", d);
    }
    let (xz, zy) = (M::dist(x, z) as f64, M::dist(z, y) as f64);
    ensure!(d <= (xz + zy) * (1.0 + 1e-4), "triangle", "{} > {} + {}", d, xz, zy);
    Ok(())
}

fn third(src: &mut Src, x: &[f32]) -> Vec<f32> {
    match src.draw(4) {
        0 => x.to_vec(),
        1 => {
            let mut y = x.to_vec();
            let i = src.draw(x.len() as u64) as usize;
            y[i] += 1.0;
            y
        }
        _ => gen_vec(src, x.len()),
    }
}

fn p18_f32(src: &mut Src) -> Res {
    let dim = wide_dim(src);
    let x = gen_vec(src, dim);
    let y = third(src, &x);
    let z = gen_vec(src, dim);
    src.describe(|| format!("dim {} x {:?} y {:?}", dim, x, y));
    if x != y {
        src.nontrivial();
    }
    let (xf, yf): (Vec<f64>, Vec<f64>) = (x.iter().map(|a| *a as f64).collect(), y.iter().map(|a| *a as f64).collect());
    axioms::<[f32], L2>(&x, &y, &z, dense_ref(false, &xf, &yf), x == y)?;
    axioms::<[f32], L1>(&x, &y, &z, dense_ref(true, &xf, &yf), x == y)
}

macro_rules! int_case {
    ($src:ident, $t:ident, $lo:expr, $hi:expr) => {{
        let dim = wide_dim($src);
        let extreme = $src.bool();
        let gen = |src: &mut Src| -> Vec<$t> {
            let mut r = Vals::new(src, dim);
            (0..dim)
                .map(|_| {
                    if extreme && r.draw(3) == 2 {
                        if r.draw(2) == 1 {
                            $lo as $t
                        } else {
                            $hi as $t
                        }
                    } else {
                        r.range(($lo as i64).max(-20), ($hi as i64).min(20)) as $t
                    }
                })
                .collect()
        };
        let x: Vec<$t> = gen($src);
        let y: Vec<$t> = if $src.chance(1, 5) { x.clone() } else { gen($src) };
        let z: Vec<$t> = gen($src);
        $src.class(stringify!($t));
        $src.describe(|| format!("{} x {:?} y {:?}", stringify!($t), x, y));
        if x != y {
            $src.nontrivial();
        }
        let (xf, yf): (Vec<f64>, Vec<f64>) = (x.iter().map(|a| *a as f64).collect(), y.iter().map(|a| *a as f64).collect());
        // made dense a point keeps its values, over the whole range of its type
        let mut w = x.clone();
        w.push($t::MAX);
        w.push($t::MAX - ($t::MAX / 3));
        w.insert(0, $t::MIN);
        let plain: Vec<f32> = w.iter().map(|a| *a as f64 as f32).collect();
        let wr: &[$t] = &w;
        ensure!(wr.dense() == plain, "int_dense", "{:?} was made dense as {:?}", w, wr.dense());
        let it: Vec<f32> = wr.dense_iter().collect();
        ensure!(it == plain, "int_dense_iter", "{:?} iterates as {:?}", w, it);
        axioms::<[$t], L2>(&x, &y, &z, dense_ref(false, &xf, &yf), x == y)?;
        axioms::<[$t], L1>(&x, &y, &z, dense_ref(true, &xf, &yf), x == y)
    }};
}

fn p18_ints(src: &mut Src) -> Res {
    match src.draw(6) {
        0 => int_case!(src, i8, i8::MIN, i8::MAX),
        1 => int_case!(src, u8, u8::MIN, u8::MAX),
        2 => int_case!(src, i16, i16::MIN, i16::MAX),
        3 => int_case!(src, u16, u16::MIN, u16::MAX),
        4 => int_case!(src, i32, -(1i64 << 23), 1i64 << 23),
        _ => int_case!(src, u32, 0i64, 1i64 << 24),
    }
}

/// A list of distances is the distances one by one, whatever its length.
fn cloud_distances<D: PointCloud<Point = [f32]>, M: Metric<[f32]>>(src: &mut Src, c: &D, data: &Data) -> Res {
    let chunk = std::cmp::max(std::cmp::min(300000 / data.dim, 100), 1);
    let len = match src.draw(5) {
        0 => src.usize(0, 5),
        1 | 2 => src.usize(0, 4 * chunk),
        3 => 3 * chunk + src.usize(0, 2),
        _ => chunk * src.usize(1, 7) + src.usize(0, 1),
    };
    let mut idx: Vec<usize> = {
        let mut r = Vals::new(src, len);
        (0..len).map(|_| r.draw(data.n as u64) as usize).collect()
    };
    let q = gen_query(src, data);
    let q = &q[..];
    if len >= 2 {
        src.nontrivial();
    }
    src.class(if len > 3 * chunk { "parallel" } else { "serial" });
    let got = match c.distances_to_point(&q, &idx) {
        Ok(g) => g,
        Err(e) => fail!("list_error", "{:?}", e),
    };
    ensure!(got.len() == len, "list_len", "{} distances for {} indexes", got.len(), len);
    for (j, (g, i)) in got.iter().zip(&idx).enumerate() {
        let one = M::dist(data.row(*i), q) as f64;
        ensure!(close(*g as f64, one, 1e-5, 1e-30), "list_item", "entry {} of {} (index {}) is {}, alone it is {}", j, len, i, g, one);
    }
    let i0 = src.usize(0, data.n - 1);
    let got = c.distances_to_point_index(i0, &idx).unwrap();
    for (g, i) in got.iter().zip(&idx) {
        let one = M::dist(data.row(*i), data.row(i0)) as f64;
        ensure!(close(*g as f64, one, 1e-5, 1e-30), "index_item", "from {} to {} is {}, alone {}", i0, i, g, one);
    }
    ensure!(got.len() == len, "index_len", "{} distances for {} indexes", got.len(), len);
    // one index outside is an error wherever it stands
    let bad = data.n + src.usize(0, 1000);
    if !idx.is_empty() {
        let at = src.usize(0, idx.len() - 1);
        idx[at] = bad;
        ensure!(c.distances_to_point(&q, &idx).is_err(), "bad_index", "index {} of {} at position {} of {} gave distances", bad, data.n, at, idx.len());
        ensure!(c.distances_to_point_index(i0, &idx).is_err(), "bad_index", "index {} of {} gave distances", bad, data.n);
    }
    ensure!(c.distances_to_point_index(bad, &[0]).is_err(), "bad_query", "distances from index {} of {} points", bad, data.n);
    Ok(())
}

/// moments and dense copies
fn cloud_dense<D: PointCloud>(src: &mut Src, c: &D, data: &Data) -> Res {
    let idx: Vec<usize> = (0..src.usize(0, 20)).map(|_| src.draw(data.n as u64) as usize).collect();
    let m1 = c.moment_1(&idx).unwrap();
    let m2 = c.moment_2(&idx).unwrap();
    ensure!(m1.len() == data.dim && m2.len() == data.dim, "moment_dim", "{} and {} moments in dimension {}", m1.len(), m2.len(), data.dim);
    for j in 0..data.dim {
        let a: f64 = idx.iter().map(|i| data.row(*i)[j] as f64).sum();
        let aa: f64 = idx.iter().map(|i| (data.row(*i)[j] as f64).abs()).sum();
        let b: f64 = idx.iter().map(|i| (data.row(*i)[j] as f64).powi(2)).sum();
        ensure!(close(m1[j] as f64, a, 0.0, 1e-4 * aa + 1e-30), "moment_1", "first moment {} is {} not {}", j, m1[j], a);
        ensure!(close(m2[j] as f64, b, 1e-4, 1e-30), "moment_2", "second moment {} is {} not {}", j, m2[j], b);
    }
    let i = src.usize(0, data.n - 1);
    ensure!(c.point_dense_array(i).unwrap().to_vec() == data.row(i), "dense_array", "point {} is given as {:?}", i, c.point_dense_array(i));
    let mat = c.points_dense_matrix(&idx).unwrap();
    ensure!(mat.shape() == [idx.len(), data.dim], "dense_shape", "{:?}", mat.shape());
    for (k, i) in idx.iter().enumerate() {
        ensure!(mat.row(k).to_vec() == data.row(*i), "dense_matrix", "row {} (point {}) is {:?}", k, i, mat.row(k));
    }
    for i in 0..data.n {
        let p = c.point(i).unwrap();
        ensure!(p.dense() == data.row(i), "dense", "point {} is {:?} instead of {:?}", i, p.dense(), data.row(i));
        ensure!(p.dense_iter().collect::<Vec<f32>>() == data.row(i), "dense_iter", "point {} iterates as {:?} instead of {:?}", i, p.dense_iter().collect::<Vec<f32>>(), data.row(i));
    }
    ensure!(c.len() == data.n && c.dim() == data.dim && c.is_empty() == (data.n == 0), "shape", "len {} dim {} for {} {}", c.len(), c.dim(), data.n, data.dim);
    let mut r = c.reference_indexes();
    r.sort_unstable();
    ensure!(r == (0..data.n).collect::<Vec<_>>(), "references", "{:?}", r);
    Ok(())
}

fn p18_lists(src: &mut Src) -> Res {
    let dim = if src.chance(1, 8) { *src.pick(&[3000usize, 5000, 40000, 100000]) } else { gen_dim(src) };
    let n = if dim > 1000 { src.usize(1, 6) } else { gen_n(src, 120) };
    let data = gen_data_with(src, n, dim);
    src.describe(|| data.show());
    if src.bool() {
        let c = ram::<L2>(&data);
        cloud_distances::<_, L2>(src, &*c, &data)?;
        cloud_dense(src, &*c, &data)
    } else {
        let c = ram::<L1>(&data);
        cloud_distances::<_, L1>(src, &*c, &data)
    }
}

fn p18_huge(src: &mut Src) -> Res {
    let dim = *src.pick(&[300001usize, 299999, 300000, 450000]);
    let data = gen_data_kind(src, 3, dim, "uniform");
    src.describe(|| format!("dim {}", dim));
    let c = ram::<L2>(&data);
    cloud_distances::<_, L2>(src, &*c, &data)
}

// ---------------------------------------------------------------- P19

fn to_sparse(src: &mut Src, row: &[f32]) -> (Vec<f32>, Vec<usize>) {
    let explicit = src.chance(1, 4);
    let mut v = vec![];
    let mut c = vec![];
    for (i, x) in row.iter().enumerate() {
        if *x != 0.0 || (explicit && i % 3 == 0) {
            v.push(*x);
            c.push(i);
        }
    }
    (v, c)
}

fn sparse_row(src: &mut Src, dim: usize) -> Vec<f32> {
    let density = src.draw(5);
    let mut r = Vals::new(src, dim * 2);
    (0..dim)
        .map(|_| {
            let keep = match density {
                0 => false,
                1 => r.draw(10) == 9,
                2 => r.draw(3) == 2,
                3 => r.draw(4) > 0,
                _ => true,
            };
            if keep {
                r.range(1, 24) as f32 / 4.0 * if r.draw(2) == 1 { -1.0 } else { 1.0 }
            } else {
                0.0
            }
        })
        .collect()
}

fn pair_case<I>(src: &mut Src, x: &[f32], y: &[f32], z: &[f32], conv: fn(usize) -> I) -> Res
where
    I: Ord + std::convert::TryInto<usize> + std::convert::TryFrom<usize> + std::fmt::Debug + Copy + Send + Sync + 'static,
    L2: Metric<RawSparse<f32, I>>,
    L1: Metric<RawSparse<f32, I>>,
{
    let dim = x.len();
    let (xv, xc) = to_sparse(src, x);
    let (yv, yc) = to_sparse(src, y);
    let (zv, zc) = to_sparse(src, z);
    let xc: Vec<I> = xc.into_iter().map(conv).collect();
    let yc: Vec<I> = yc.into_iter().map(conv).collect();
    let zc: Vec<I> = zc.into_iter().map(conv).collect();
    let sx = SparseRef::<f32, I>::new(dim, &xv, &xc);
    let sy = SparseRef::<f32, I>::new(dim, &yv, &yc);
    let sz = SparseRef::<f32, I>::new(dim, &zv, &zc);
    ensure!(sx.dense() == x, "dense", "{:?} was made dense as {:?}", x, sx.dense());
    let it: Vec<f32> = sx.dense_iter().collect();
    ensure!(it == x, "dense_iter", "{:?} iterates as {:?}", x, it);
    let mut it = sx.dense_iter();
    for left in (0..=dim).rev() {
        let (lo, hi) = it.size_hint();
        ensure!(lo <= left && hi.map(|h| h >= left).unwrap_or(true), "dense_hint", "{} values are left of {:?} and the iterator says {:?} to {:?}", left, x, lo, hi);
        it.next();
    }
    ensure!(sx.dim() == dim && sx.values() == &xv[..] && sx.indexes() == &xc[..], "parts", "the parts of {:?} are {:?} {:?}", x, sx.values(), sx.indexes());
    let (xf, yf): (Vec<f64>, Vec<f64>) = (x.iter().map(|a| *a as f64).collect(), y.iter().map(|a| *a as f64).collect());
    axioms::<RawSparse<f32, I>, L2>(&sx, &sy, &sz, dense_ref(false, &xf, &yf), x == y)?;
    axioms::<RawSparse<f32, I>, L1>(&sx, &sy, &sz, dense_ref(true, &xf, &yf), x == y)?;
    let dense = <L2 as Metric<[f32]>>::dist(x, y) as f64;
    let sp = L2::dist(&*sx, &*sy) as f64;
    ensure!(close(sp, dense, 1e-4, 1e-30), "sparse_dense", "sparse {} dense {}", sp, dense);
    // two vectors over the same index buffer, and one over a prefix of the buffers of the other
    let wv: Vec<f32> = xv.iter().enumerate().map(|(i, a)| if i % 2 == 0 { *a + 1.5 } else { *a }).collect();
    let cut = src.usize(0, xv.len());
    let spread = |v: &[f32], c: &[I]| {
        let mut d = vec![0f64; dim];
        v.iter().zip(c).for_each(|(a, i)| {
            let i: usize = (*i).try_into().ok().unwrap();
            d[i] = *a as f64;
        });
        d
    };
    let sw = SparseRef::<f32, I>::new(dim, &wv, &xc);
    let sc = SparseRef::<f32, I>::new(dim, &xv[..cut], &xc[..cut]);
    for (name, other, of) in [("shared", &sw, spread(&wv, &xc)), ("prefix", &sc, spread(&xv[..cut], &xc[..cut]))].iter() {
        for (l1, got) in [(false, L2::dist(&*sx, &**other)), (true, L1::dist(&*sx, &**other)), (false, L2::dist(&**other, &*sx)), (true, L1::dist(&**other, &*sx))].iter() {
            let want = dense_ref(*l1, &xf, of);
            ensure!(close(*got as f64, want, 1e-4, 1e-30), "shared_buffers", "{} buffers: the distance of {:?} and {:?} is {}, {} was computed", name, xf, of, want, got);
        }
    }
    Ok(())
}

macro_rules! int_sparse {
    ($src:ident, $t:ident, $lo:expr, $hi:expr) => {{
        let dim = $src.usize(1, 60);
        let gen = |src: &mut Src| -> (Vec<$t>, Vec<u32>, Vec<f64>) {
            let row = sparse_row(src, dim);
            let (mut v, mut c, mut d) = (vec![], vec![], vec![0f64; dim]);
            for (i, x) in row.iter().enumerate() {
                if *x != 0.0 {
                    let y = (*x * 4.0).max($lo as f32).min($hi as f32) as $t;
                    v.push(y);
                    c.push(i as u32);
                    d[i] = y as f64;
                }
            }
            (v, c, d)
        };
        let x = gen($src);
        let y = if $src.chance(1, 6) { x.clone() } else { gen($src) };
        let z = gen($src);
        $src.class(stringify!($t));
        $src.describe(|| format!("{} {:?} {:?}", stringify!($t), x, y));
        if x.2 != y.2 && !x.0.is_empty() && !y.0.is_empty() {
            $src.nontrivial();
        }
        let sx = SparseRef::<$t, u32>::new(dim, &x.0, &x.1);
        let sy = SparseRef::<$t, u32>::new(dim, &y.0, &y.1);
        let sz = SparseRef::<$t, u32>::new(dim, &z.0, &z.1);
        axioms::<RawSparse<$t, u32>, L2>(&sx, &sy, &sz, dense_ref(false, &x.2, &y.2), x == y)?;
        axioms::<RawSparse<$t, u32>, L1>(&sx, &sy, &sz, dense_ref(true, &x.2, &y.2), x == y)
    }};
}

fn p19_pairs(src: &mut Src) -> Res {
    match src.draw(9) {
        0 => int_sparse!(src, i8, -100, 100),
        1 => int_sparse!(src, u8, 0, 200),
        2 => int_sparse!(src, i16, -100, 100),
        3 => int_sparse!(src, u16, 0, 200),
        4 => {
            if src.bool() {
                int_sparse!(src, i32, -100, 100)
            } else {
                int_sparse!(src, u32, 0, 200)
            }
        }
        k => {
            let dim = src.usize(1, if k == 5 { 250 } else { 120 });
            let x = sparse_row(src, dim);
            let y = match src.draw(4) {
                0 => x.clone(),
                _ => sparse_row(src, dim),
            };
            let z = sparse_row(src, dim);
            src.describe(|| format!("x {:?} y {:?}", x, y));
            if x != y && x.iter().any(|a| *a != 0.0) && y.iter().any(|a| *a != 0.0) {
                src.nontrivial();
            }
            match src.draw(3) {
                0 => pair_case::<u8>(src, &x, &y, &z, |i| i as u8),
                1 => pair_case::<u16>(src, &x, &y, &z, |i| i as u16),
                _ => pair_case::<u32>(src, &x, &y, &z, |i| i as u32),
            }
        }
    }
}

/// Long vectors: indexes beyond what fewer bits hold.
fn p19_long(src: &mut Src) -> Res {
    let dim = *src.pick(&[256usize, 257, 300, 4096, 5000, 65535, 65536, 65537, 70000, 200000]);
    let top = dim.min(2000);
    let mut r = Vals::new(src, usize::MAX);
    let mut row = || {
        let n = r.draw(top as u64 + 1) as usize;
        let n = if r.draw(2) == 0 { n.min(40) } else { n };
        let mut v = vec![0f32; dim];
        for _ in 0..n {
            let i = match r.draw(4) {
                0 => dim - 1 - r.draw(dim.min(20) as u64) as usize,
                1 => r.draw(dim.min(300) as u64) as usize,
                _ => r.draw(dim as u64) as usize,
            };
            v[i] = r.range(1, 24) as f32 / 4.0;
        }
        v
    };
    let (x, y, z) = (row(), row(), row());
    src.describe(|| format!("dim {} with {} and {} entries", dim, x.iter().filter(|a| **a != 0.0).count(), y.iter().filter(|a| **a != 0.0).count()));
    if x != y {
        src.nontrivial();
    }
    src.class(if dim > 65536 { "over_65536" } else if dim > 256 { "over_256" } else { "at_256" });
    if dim <= 256 && src.bool() {
        pair_case::<u8>(src, &x, &y, &z, |i| i as u8)?;
    } else if dim <= 65536 && src.bool() {
        pair_case::<u16>(src, &x, &y, &z, |i| i as u16)?;
    } else {
        pair_case::<u32>(src, &x, &y, &z, |i| i as u32)?;
    }
    let mut v = x;
    v.extend(y);
    v.extend(z);
    let data = Data { dim, n: 3, v, kind: "sparse", ids: PLAIN };
    cloud_dense(src, &sparse(&data), &data)
}

/// The sparse store holds the same points as the dense one, a tree over it gives the same neighbours.
fn p19_cloud(src: &mut Src) -> Res {
    let dim = gen_dim(src);
    let n = gen_n(src, 50);
    let mut v = vec![];
    for _ in 0..n {
        v.extend(sparse_row(src, dim));
    }
    let data = Data { dim, n, v, kind: "sparse", ids: PLAIN };
    src.describe(|| data.show());
    let c = sparse(&data);
    cloud_dense(src, &c, &data)?;
    let d = ram::<L2>(&data);
    let idx: Vec<usize> = (0..n).collect();
    for i in 0..n.min(6) {
        let a = c.distances_to_point_index(i, &idx).unwrap();
        let b = d.distances_to_point_index(i, &idx).unwrap();
        for j in 0..n {
            ensure!(close(a[j] as f64, b[j] as f64, 1e-4, 1e-30), "cloud_distance", "{} to {} is {} sparse and {} dense", i, j, a[j], b[j]);
        }
        ensure!(c.name(i).unwrap() == d.name(i).unwrap() && c.index(&c.name(i).unwrap()).unwrap() == i, "cloud_name", "name of {} is {:?}", i, c.name(i));
    }
    ensure!(c.names() == d.names(), "cloud_names", "{:?}", c.names());
    let p = gen_params(src, n);
    let ts = builder(&p).build(Arc::new(c)).unwrap();
    let td = builder(&p).build(d).unwrap();
    let (rs, rd) = (ts.reader(), td.reader());
    let k = gen_k(src, n);
    for _ in 0..2 {
        let q = {
            let mut q = gen_query(src, &data);
            if src.bool() {
                q.iter_mut().for_each(|x| *x = x.trunc());
            }
            q
        };
        let (qv, qc) = to_sparse(src, &q);
        let qc: Vec<u32> = qc.into_iter().map(|x| x as u32).collect();
        let sq = SparseRef::<f32, u32>::new(dim, &qv, &qc);
        let dq = &q[..];
        let a = rs.knn(&sq, k).unwrap();
        let b = rd.knn(&dq, k).unwrap();
        ensure!(a.len() == b.len(), "knn_len", "{} and {}", a.len(), b.len());
        let far = (0..n).map(|i| rdist(Norm::L2, data.row(i), dq)).fold(0.0, f64::max);
        for (x, y) in a.iter().zip(&b) {
            ensure!((x.0 as f64 - y.0 as f64).abs() <= 1e-4 * far, "knn", "sparse {:?} dense {:?}", a, b);
        }
    }
    if n >= 5 {
        src.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- P20

#[derive(Debug)]
pub struct Names(pub Vec<String>);
impl NamedSet for Names {
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn name(&self, pi: usize) -> PointCloudResult<String> {
        self.0.get(pi).cloned().ok_or(PointCloudError::UnknownName)
    }
    fn index(&self, pn: &str) -> PointCloudResult<usize> {
        self.0.iter().position(|x| x == pn).ok_or(PointCloudError::UnknownName)
    }
    fn names(&self) -> Vec<String> {
        self.0.clone()
    }
}

fn p20(src: &mut Src) -> Res {
    glued_case(src, 12)
}
fn p20_big(src: &mut Src) -> Res {
    glued_case(src, 900)
}

fn glued_case(src: &mut Src, most: usize) -> Res {
    let dim = if most > 100 && src.bool() { *src.pick(&[16usize, 64, 200]) } else { src.usize(1, 6) };
    let parts = if most > 100 && src.chance(1, 3) { src.usize(20, 60) } else { src.usize(1, 5) };
    let most = if parts > 5 { 40 } else { most };
    let mut sizes: Vec<usize> = (0..parts).map(|_| if src.chance(1, 6) { 0 } else { src.usize(1, most) }).collect();
    if sizes.iter().sum::<usize>() == 0 && !src.chance(1, 4) {
        sizes[0] = 3;
    }
    let n: usize = sizes.iter().sum();
    let data = gen_data_with(src, n, dim);
    let errors = src.chance(1, 3);
    let labels = gen_cells(src, n, errors);
    let meta = gen_cells(src, n, false);
    let names: Vec<String> = (0..n).map(|i| format!("name{}", (i * 7919) % 10007)).collect();
    let mut sources = vec![];
    let mut at = 0;
    for s in &sizes {
        sources.push(RichCloud {
            data: DataRam::new(data.v[at * dim..(at + s) * dim].to_vec(), dim).unwrap(),
            labels: labels[at..at + s].to_vec(),
            meta: meta[at..at + s].to_vec(),
            names: names[at..at + s].to_vec(),
        });
        at += s;
    }
    let mut glued = HashGluedCloud::new(sources);
    // the model: index -> original row
    let mut model: BTreeMap<usize, usize> = (0..n).map(|i| (i, i)).collect();
    let rounds = if n == 0 { 0 } else { src.usize(0, 2) };
    for _ in 0..rounds {
        let mut old: Vec<usize> = model.keys().cloned().collect();
        src.shuffle(&mut old);
        let spread = *src.pick(&[1usize, 1, 3, 1000]);
        let shift = src.usize(0, 5);
        let mut fresh: Vec<usize> = (0..n).map(|i| i * spread + shift).collect();
        if src.bool() {
            src.shuffle(&mut fresh);
        }
        let map: Vec<(usize, usize)> = old.iter().cloned().zip(fresh.iter().cloned()).collect();
        if src.chance(1, 4) {
            // an unknown old index is an error, and the cloud stays as it is
            let mut wrong = map.clone();
            let at = src.usize(0, n - 1);
            wrong[at].0 = model.keys().max().unwrap() + src.usize(1, 50);
            ensure!(glued.reindex(&wrong).is_err(), "reindex_unknown", "reindexing the unknown index {} worked", wrong[at].0);
            let refs: BTreeSet<usize> = glued.reference_indexes().into_iter().collect();
            ensure!(glued.len() == n && refs == model.keys().cloned().collect(), "reindex_unknown", "a refused reindexing left {:?} of {:?}", refs, model);
            for (i, row) in &model {
                ensure!(glued.point(*i).map(|p| p == data.row(*row)).unwrap_or(false), "reindex_unknown", "after a refused reindexing index {} is {:?}, it should be row {}", i, glued.point(*i), row);
            }
        }
        ensure!(glued.reindex(&map).is_ok(), "reindex", "reindexing by {:?} failed", map);
        model = map.iter().map(|(o, f)| (*f, model[o])).collect();
    }
    src.describe(|| format!("sizes {:?} model {:?} {}", sizes, model, data.show()));
    if sizes.iter().filter(|s| **s > 0).count() >= 2 && rounds > 0 {
        src.nontrivial();
    }
    ensure!(glued.len() == n && glued.is_empty() == (n == 0), "len", "len {} empty {} of {}", glued.len(), glued.is_empty(), n);
    ensure!(glued.dim() == dim, "dim", "dim {} of {}", glued.dim(), dim);
    let refs: BTreeSet<usize> = glued.reference_indexes().into_iter().collect();
    ensure!(refs.len() == glued.reference_indexes().len() && refs == model.keys().cloned().collect(), "references", "{:?} for {:?}", refs, model);
    let got: BTreeSet<String> = glued.names().into_iter().collect();
    ensure!(got == names.iter().cloned().collect(), "names", "{:?} for {:?}", got, names);
    for (i, row) in &model {
        ensure!(glued.point(*i).map(|p| p == data.row(*row)).unwrap_or(false), "point", "index {} is {:?}, it should be row {}", i, glued.point(*i), row);
        let want = labels[*row];
        match glued.label(*i) {
            Ok(x) => ensure!(want == Ok(x.cloned()), "label", "label of {} is {:?} not {:?}", i, x, want),
            Err(_) => ensure!(want.is_err(), "label", "label of {} fails", i),
        }
        ensure!(glued.metadata(*i).unwrap().cloned() == meta[*row].unwrap(), "metadata", "metadata of {}", i);
        ensure!(glued.name(*i).unwrap() == names[*row], "name", "name of {} is {:?} not {}", i, glued.name(*i), names[*row]);
        ensure!(glued.index(&names[*row]).ok() == Some(*i), "index", "the index of {} is {:?} not {}", names[*row], glued.index(&names[*row]), i);
    }
    ensure!(glued.index("nobody").is_err(), "index_unknown", "an unknown name has an index");
    if n > 0 {
        let known = &names[src.usize(0, n - 1)];
        for odd in vec![format!("{} ", known), format!(" {}", known), known.to_uppercase(), known[..known.len() - 1].to_string(), format!("{}0", known), String::new()] {
            if !names.contains(&odd) {
                ensure!(glued.index(&odd).is_err(), "index_unknown", "the unknown name {:?} has the index {:?}", odd, glued.index(&odd));
            }
        }
    }
    let outside: Vec<usize> = (0..4).map(|_| src.usize(0, 2 * n + 10)).filter(|i| !model.contains_key(i)).collect();
    for i in outside {
        ensure!(glued.point(i).is_err() && glued.label(i).is_err() && glued.name(i).is_err() && glued.metadata(i).is_err() && glued.label_summary(&[i]).is_err() && glued.metasummary(&[i]).is_err(), "outside", "index {} is not in the cloud but answers", i);
    }
    if n == 0 || src.chance(1, 8) {
        // the sources come back as they went in
        let back = glued.take_data_sources();
        let mut at = 0;
        ensure!(back.len() == sizes.len(), "sources_back", "{} sources of {}", back.len(), sizes.len());
        for (c, s) in back.iter().zip(&sizes) {
            ensure!(c.len() == *s, "sources_back", "{} points of {}", c.len(), s);
            for i in 0..*s {
                ensure!(c.point(i).map(|p| p == data.row(at + i)).unwrap_or(false) && c.name(i).ok().as_ref() == Some(&names[at + i]), "sources_back", "row {} came back as {:?}", at + i, c.point(i));
            }
            at += s;
        }
        return Ok(());
    }
    let keys: Vec<usize> = model.keys().cloned().collect();
    let longest = if most > 12 && src.bool() { 3 * n } else { 15 };
    let idx: Vec<usize> = {
        let len = src.usize(0, longest);
        let mut v = Vals::new(src, len);
        (0..len).map(|_| keys[v.draw(keys.len() as u64) as usize]).collect()
    };
    let rows: Vec<usize> = idx.iter().map(|i| model[i]).collect();
    let s = glued.label_summary(&idx).unwrap();
    ensure!(of_summary(&s) == Ok(count(&labels, &rows)), "label_summary", "{:?} for {:?}", s, rows);
    let s = glued.metasummary(&idx).unwrap();
    ensure!(of_summary(&s) == Ok(count(&meta, &rows)), "metasummary", "{:?} for {:?}", s, rows);
    // distances and a tree
    let q = gen_query(src, &data);
    let qq = &q[..];
    let ds = glued.distances_to_point(&qq, &idx).unwrap();
    for (d, r) in ds.iter().zip(&rows) {
        ensure!(close(*d as f64, rdist(Norm::L2, data.row(*r), qq), 1e-4, 1e-30), "distance", "row {} at {}", r, d);
    }
    let p = gen_params(src, n);
    let w = builder(&p).build(Arc::new(glued)).unwrap();
    let r = w.reader();
    let k = gen_k(src, n);
    let cands: BTreeMap<usize, f64> = model.iter().map(|(i, row)| (*i, rdist(Norm::L2, data.row(*row), qq))).collect();
    check_nearest("glued_knn", &r.knn(&qq, k).unwrap(), &cands, k)?;
    let d = dump(&r);
    let mut held = covered(&d, r.root_address())[&r.root_address()].clone();
    held.sort_unstable();
    ensure!(held == keys, "tree_points", "the tree holds {:?} of {:?}", held, keys);
    for i in &keys {
        ensure!(r.known_path(*i).is_ok(), "tree_path", "index {} has no path", i);
    }
    Ok(())
}

/// names and labels glued to a cloud stay with their points
fn p20_named(src: &mut Src) -> Res {
    let data = gen_data(src, 30);
    let cells = gen_cells(src, data.n, false);
    let mut names: Vec<String> = (0..data.n).map(|i| format!("n{}", i)).collect();
    src.shuffle(&mut names);
    let labels = crate::labels::int_labels(src, &cells);
    let c = SimpleNamedCloud::new(SimpleLabeledCloud::new(DataRam::<L2>::new(data.v.clone(), data.dim).unwrap(), labels), Names(names.clone()));
    src.describe(|| format!("{} {:?}", data.show(), names));
    if data.n >= 3 {
        src.nontrivial();
    }
    cloud_dense(src, &c, &data)?;
    for i in 0..data.n {
        ensure!(c.name(i).unwrap() == names[i], "named_name", "name of {} is {:?}", i, c.name(i));
        ensure!(c.index(&names[i]).unwrap() == i, "named_index", "index of {} is {:?}", names[i], c.index(&names[i]));
        ensure!(c.label(i).unwrap().cloned() == cells[i].unwrap(), "named_label", "label of {} is {:?}", i, c.label(i));
    }
    ensure!(c.names() == names, "named_names", "{:?}", c.names());
    let idx: Vec<usize> = (0..src.usize(0, 12)).map(|_| src.usize(0, data.n - 1)).collect();
    ensure!(of_summary(&c.label_summary(&idx).unwrap()) == Ok(count(&cells, &idx)), "named_summary", "{:?}", idx);
    ensure!(c.metasummary(&idx).unwrap().count() == idx.len(), "named_meta", "{:?}", c.metasummary(&idx));
    for odd in vec![format!("{} ", names[0]), names[0].to_uppercase(), "n".to_string(), String::new()] {
        ensure!(c.index(&odd).is_err(), "named_unknown", "the unknown name {:?} has the index {:?}", odd, c.index(&odd));
    }
    // points of a plain cloud are named by their place
    let plain = DataRam::<L2>::new(data.v.clone(), data.dim).unwrap();
    let thin = sparse(&data);
    let want: Vec<String> = (0..data.n).map(|i| i.to_string()).collect();
    ensure!(plain.names() == want && thin.names() == want, "plain_names", "{:?} and {:?}", plain.names(), thin.names());
    for i in 0..data.n {
        ensure!(plain.name(i).unwrap() == want[i] && thin.name(i).unwrap() == want[i], "plain_name", "the name of {} is {:?} or {:?}", i, plain.name(i), thin.name(i));
        ensure!(plain.index(&want[i]).ok() == Some(i) && thin.index(&want[i]).ok() == Some(i), "plain_index", "the index of {:?} is {:?} or {:?}", want[i], plain.index(&want[i]), thin.index(&want[i]));
    }
    // nobody gave it labels or metadata
    let (pl, pm) = (plain.label_summary(&idx).unwrap(), plain.metasummary(&idx).unwrap());
    let (tl, tm) = (thin.label_summary(&idx).unwrap(), thin.metasummary(&idx).unwrap());
    for s in vec![pl, pm, tl, tm] {
        ensure!((s.nones(), s.errors(), s.count()) == (idx.len(), 0, idx.len()), "plain_summary", "{} indexes without labels are counted as {:?}", idx.len(), s);
    }
    for i in idx.iter() {
        ensure!(plain.label(*i).unwrap().is_none() && plain.metadata(*i).unwrap().is_none() && thin.label(*i).unwrap().is_none() && thin.metadata(*i).unwrap().is_none(), "plain_label", "{} has a label", i);
    }
    ensure!(!plain.is_empty() && !thin.is_empty() && plain.len() == data.n && thin.len() == data.n, "plain_len", "{} {}", plain.len(), thin.len());
    // the short way to a labeled cloud
    let classes = *src.pick(&[2u64, 10, 300]);
    let whole: Vec<i64> = (0..data.n).map(|_| src.draw(classes) as i64).collect();
    let c = DefaultLabeledCloud::<L2>::new_simple(data.v.clone(), data.dim, whole.clone());
    ensure!(c.len() == data.n && c.dim() == data.dim, "simple_len", "{} points of {}", c.len(), data.n);
    for i in 0..data.n {
        ensure!(c.point(i).map(|p| p == data.row(i)).unwrap_or(false), "simple_point", "point {} is {:?}", i, c.point(i));
        ensure!(c.label(i).unwrap() == Some(&whole[i]), "simple_label", "label of {} is {:?} not {}", i, c.label(i), whole[i]);
    }
    Ok(())
}

/// a distance matrix answers in either order of the pair
fn p18_matrix(src: &mut Src) -> Res {
    let n = src.usize(1, 25);
    let mut want: BTreeMap<(usize, usize), f32> = BTreeMap::new();
    for i in 0..n {
        for j in i + 1..n {
            if !src.chance(1, 3) {
                want.insert((i * 3, j * 3), *src.pick(&[0.0f32, 0.5, 1.0, 3.0]) + src.draw(100) as f32);
            }
        }
    }
    src.describe(|| format!("{:?}", want));
    if want.len() >= 3 {
        src.nontrivial();
    }
    let m = AdjMatrix { vals: want.values().cloned().collect(), indexes: want.keys().cloned().collect() };
    for i in 0..3 * n {
        for j in 0..3 * n {
            let w = if i == j { Some(0.0) } else { want.get(&(i.min(j), i.max(j))).cloned() };
            ensure!(m.get(i, j) == w, "matrix_get", "({}, {}) is {:?}, it should be {:?}", i, j, m.get(i, j), w);
        }
    }
    let least = want.values().cloned().fold(f32::INFINITY, f32::min);
    ensure!(m.min() == least, "matrix_min", "the least distance is {}, not {}", least, m.min());
    Ok(())
}

// ---------------------------------------------------------------- P21

fn write_f32(path: &Path, v: &[f32]) {
    let mut b = Vec::with_capacity(v.len() * 4);
    v.iter().for_each(|x| b.extend_from_slice(&x.to_ne_bytes()));
    fs::write(path, b).unwrap();
}

fn fresh_dir(name: &str) -> PathBuf {
    let d = pbt::scratch_dir().join(name);
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).unwrap();
    d
}

/// Rows cut over some files whose names sort in the order of the cut.
fn cut(src: &mut Src, n: usize) -> Vec<usize> {
    let files = src.usize(1, 4).min(n);
    let mut cuts: Vec<usize> = (0..files - 1).map(|_| src.usize(1, n - 1)).collect();
    cuts.sort_unstable();
    cuts.dedup();
    let mut sizes = vec![];
    let mut last = 0;
    for c in cuts {
        sizes.push(c - last);
        last = c;
    }
    sizes.push(n - last);
    sizes
}

/// Bit patterns: what is written is what is read.
fn p21_memmap(src: &mut Src) -> Res {
    let dim = src.usize(1, 9);
    let most = if src.chance(1, 10) { 3000 } else { 60 };
    let n = src.usize(1, most);
    let mut data = gen_data_with(src, n, dim);
    // any bits survive a file
    for x in data.v.iter_mut().take(5) {
        if src.chance(1, 4) {
            *x = *src.pick(&[f32::MAX, f32::MIN_POSITIVE, -0.0, 1e-40, -f32::MAX]);
        }
    }
    let dir = fresh_dir("mm");
    let sizes = cut(src, n);
    src.describe(|| format!("sizes {:?} {}", sizes, data.show()));
    if sizes.len() > 1 {
        src.nontrivial();
    }
    let mut paths = vec![];
    let mut at = 0;
    for (i, s) in sizes.iter().enumerate() {
        let p = dir.join(format!("part{}.dat", i));
        write_f32(&p, &data.v[at * dim..(at + s) * dim]);
        at += s;
        paths.push(p);
    }
    let bits = |v: &[f32]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
    {
        let m = DataMemmap::<L2>::new(dim, &paths[0]).unwrap();
        ensure!(m.len() == sizes[0] && m.dim() == dim && !m.is_empty(), "memmap_len", "{} points of {}", m.len(), sizes[0]);
        for i in 0..sizes[0] {
            ensure!(bits(m.point(i).unwrap()) == bits(data.row(i)), "memmap_point", "point {} is {:?}", i, m.point(i));
        }
        ensure!(m.point(sizes[0]).is_err(), "memmap_outside", "a point after the end");
        ensure!(m.reference_indexes() == (0..sizes[0]).collect::<Vec<_>>(), "memmap_indexes", "{:?}", m.reference_indexes());
        let r = m.convert_to_ram();
        ensure!(r.len() == sizes[0], "ram_len", "{} points of {}", r.len(), sizes[0]);
        for i in 0..sizes[0] {
            ensure!(bits(r.point(i).unwrap()) == bits(data.row(i)), "ram_point", "point {} is {:?}", i, r.point(i));
        }
    }
    {
        // as labels, mapped or in ram
        let m = DataMemmap::<L2>::new(dim, &paths[0]).unwrap();
        let l = if src.bool() { m.convert_to_labels() } else { m.convert_to_ram().convert_to_labels() };
        ensure!(l.len() == sizes[0] && l.dim() == dim, "as_labels_len", "{} labels of {}", l.len(), sizes[0]);
        for i in 0..sizes[0] {
            let got = l.label(i).unwrap().map(bits);
            ensure!(got == Some(bits(data.row(i))), "as_labels", "label {} is {:?}", i, l.label(i));
        }
    }
    if dim > 1 && src.chance(1, 4) {
        // a file that ends within a row holds the rows before it
        let p = dir.join("ragged.dat");
        let extra = src.usize(1, dim - 1);
        let mut v = data.v.clone();
        v.extend(vec![7.0f32; extra]);
        write_f32(&p, &v);
        let m = DataMemmap::<L2>::new(dim, &p).unwrap();
        ensure!(m.len() == n && m.reference_indexes().len() == n && m.point(n).is_err(), "ragged_len", "{} points of {} rows and {} numbers", m.len(), n, extra);
        for i in 0..n {
            ensure!(bits(m.point(i).unwrap()) == bits(data.row(i)), "ragged_point", "point {} is {:?}", i, m.point(i));
        }
    }
    let g = open_memmaps::<L2>(dim, &paths).unwrap();
    ensure!(g.len() == n, "glued_len", "{} points of {}", g.len(), n);
    for i in 0..n {
        ensure!(bits(g.point(i).unwrap()) == bits(data.row(i)), "glued_point", "point {} is {:?}", i, g.point(i));
    }
    let r = convert_glued_memmap_to_ram(g);
    ensure!(r.len() == n && r.dim() == dim, "merged_len", "{} points of {}", r.len(), n);
    for i in 0..n {
        ensure!(bits(r.point(i).unwrap()) == bits(data.row(i)), "merged_point", "point {} is {:?}", i, r.point(i));
    }
    // with vector labels beside
    let ld = src.usize(1, 3);
    let lv: Vec<f32> = (0..n * ld).map(|i| (i % 13) as f32).collect();
    let mut lpaths = vec![];
    let mut at = 0;
    for (i, s) in sizes.iter().enumerate() {
        let p = dir.join(format!("lab{}.dat", i));
        write_f32(&p, &lv[at * ld..(at + s) * ld]);
        at += s;
        lpaths.push(p);
    }
    let l = open_labeled_memmaps::<L2>(dim, ld, &paths, &lpaths).unwrap();
    ensure!(l.len() == n, "labeled_len", "{}", l.len());
    for i in 0..n {
        ensure!(bits(l.point(i).unwrap()) == bits(data.row(i)), "labeled_point", "point {}", i);
        ensure!(l.label(i).unwrap() == Some(&lv[i * ld..(i + 1) * ld]), "labeled_label", "label {} is {:?}", i, l.label(i));
    }
    // the files are as they were
    let back = fs::read(&paths[0]).unwrap();
    ensure!(back.len() == sizes[0] * dim * 4, "file_changed", "the data file changed length to {}", back.len());
    for (i, b) in back.chunks_exact(4).enumerate() {
        ensure!(u32::from_ne_bytes([b[0], b[1], b[2], b[3]]) == data.v[i].to_bits(), "file_changed", "the data file changed at {}", i);
    }
    Ok(())
}

fn write_csv(src: &mut Src, path: &Path, cells: &[Cell], cols: usize, col: usize, gz: bool) {
    let mut s = String::new();
    let head: Vec<String> = (0..cols).map(|c| format!("col{}", c)).collect();
    let end = if src.chance(1, 4) { "\r\n" } else { "\n" };
    s.push_str(&head.join(","));
    s.push_str(end);
    for (i, c) in cells.iter().enumerate() {
        let row: Vec<String> = (0..cols)
            .map(|k| {
                if k == col {
                    match c {
                        Ok(Some(x)) if i % 5 == 3 => format!("\"{}\"", x),
                        Ok(Some(x)) if i % 7 == 4 => format!("+{}", x),
                        Ok(Some(x)) => x.to_string(),
                        _ => ["-1", "-2", "-300", "-9223372036854775808"][i % 4].to_string(),
                    }
                } else if k % 2 == 0 && i % 3 == 1 {
                    // the file format allows commas inside quotes
                    format!("\"text,{}\"", i)
                } else if k % 2 == 0 {
                    format!("text{}", i)
                } else {
                    format!("{}", 1000 + i * 3 + k)
                }
            })
            .collect();
        s.push_str(&row.join(","));
        s.push_str(end);
    }
    if gz {
        let mut e = GzEncoder::new(fs::File::create(path).unwrap(), Compression::default());
        e.write_all(s.as_bytes()).unwrap();
        e.finish().unwrap();
    } else {
        fs::write(path, s).unwrap();
    }
}

fn nonneg(cells: Vec<Cell>) -> Vec<Cell> {
    cells.into_iter().map(|c| c.map(|x| x.map(|v| v.abs()))).collect()
}

fn p21_csv(src: &mut Src) -> Res {
    let dir = fresh_dir("csv");
    let n = if src.chance(1, 60) { src.usize(1000, 3000) } else { src.usize(0, 40) };
    let cells = nonneg(gen_cells(src, n, false));
    let cols = src.usize(1, 5);
    let col = src.usize(0, cols - 1);
    let gz = src.bool();
    let path = dir.join(if gz { *src.pick(&["labels.csv.gz", "labels.gz", "labels.txt.gz", "a.b.c.gz", ".csv.gz"]) } else { *src.pick(&["labels.csv", "labels.gz.csv", "labels.txt", "gz.csv"]) });
    write_csv(src, &path, &cells, cols, col, gz);
    src.describe(|| format!("{} columns, column {}, gz {}, {:?}", cols, col, gz, cells));
    let set = open_int_csv(&path, col).unwrap();
    ensure!(set.len() == n, "csv_len", "{} labels of {} rows", set.len(), n);
    for i in 0..n {
        ensure!(set.label(i).unwrap().cloned() == cells[i].unwrap(), "csv_label", "row {} says {:?}, read {:?}", i, cells[i], set.label(i));
    }
    if n > 0 {
        let all: Vec<usize> = (0..n).collect();
        ensure!(of_summary(&set.label_summary(&all).unwrap()) == Ok(count(&cells, &all)), "csv_summary", "{:?}", set.label_summary(&all));
    }
    // a column that is not there labels nothing
    let none = open_int_csv(&path, cols + src.usize(0, 2)).unwrap();
    ensure!(none.len() == n, "csv_no_column_len", "{} labels of {} rows", none.len(), n);
    for i in 0..n {
        ensure!(none.label(i).unwrap().is_none(), "csv_no_column", "row {} has the label {:?} from a missing column", i, none.label(i));
    }
    // a cell that is no integer is an error and not a label
    if n > 0 && cols > 1 {
        let other = if col % 2 == 0 { (col + 2) % (cols + cols % 2) } else { col - 1 };
        if other < cols && other % 2 == 0 && other != col {
            ensure!(open_int_csv(&path, other).is_err(), "csv_text", "a column of text was read as labels");
        }
    }
    // nor is one bad cell among good ones taken for a label
    if n > 0 && src.chance(1, 3) {
        let bad = *src.pick(&["1.5", "1e3", "0x1", "one", "9223372036854775808", "--1", "3-", "1_0", " 5", "5 ", "", " "]);
        let at = src.usize(0, n - 1);
        let p = dir.join(if gz { "bad.csv.gz" } else { "bad.csv" });
        let mut s = String::from("a,b\n");
        for (i, c) in cells.iter().enumerate() {
            s += &if i == at { format!("{},t\n", bad) } else { format!("{},t\n", c.unwrap().unwrap_or(-1)) };
        }
        if gz {
            let mut e = GzEncoder::new(fs::File::create(&p).unwrap(), Compression::default());
            e.write_all(s.as_bytes()).unwrap();
            e.finish().unwrap();
        } else {
            fs::write(&p, s).unwrap();
        }
        ensure!(open_int_csv(&p, 0).is_err(), "csv_bad_cell", "a column with {:?} in row {} was read as labels", bad, at);
    }
    if n >= 3 {
        src.nontrivial();
    }
    Ok(())
}

fn p21_yaml(src: &mut Src) -> Res {
    let dir = fresh_dir("yaml");
    let dim = src.usize(1, 6);
    let n = src.usize(1, 40);
    let data = gen_data_with(src, n, dim);
    let mut cells = nonneg(gen_cells(src, n, false));
    let sizes = cut(src, n);
    let lsizes = cut(src, n);
    let mode = src.draw(4); // csv, gz, one hot, binary
    let classes = *src.pick(&[12usize, 12, 2, 300]);
    if mode == 2 {
        // over all the classes when there are many
        let step = classes as i64 / 12 + 1;
        cells = cells.into_iter().map(|c| c.map(|x| x.map(|v| (v % classes as i64 * step) % classes as i64))).collect();
    }
    let gz_ext = *src.pick(&["csv.gz", "gz", "txt.gz"]);
    src.class(["csv", "gz", "one_hot", "binary"][mode as usize]);
    let sub = src.bool();
    let ddir = if sub { dir.join("data") } else { dir.clone() };
    fs::create_dir_all(&ddir).unwrap();
    // every part a name of its own, or a folder of its own with the same name in each
    let folders = src.chance(1, 3);
    // file patterns match names in either case, in the order of the names
    let shout = !folders && src.chance(1, 6);
    let mixed = src.chance(1, 4);
    let order = ["B", "C_", "Z", "_a", "a", "c"];
    let part_path = |kind: &str, i: usize, ext: &str| {
        if folders {
            let d = ddir.join(if mixed { format!("part{}", order[i]) } else { format!("part{}", i) });
            fs::create_dir_all(&d).unwrap();
            d.join(format!("{}.{}", kind, ext))
        } else {
            let kind = if shout { kind.to_uppercase() } else { kind.to_string() };
            ddir.join(if mixed { format!("{}_{}.{}", kind, order[i], ext) } else { format!("{}_{}.{}", kind, i, ext) })
        }
    };
    let mut at = 0;
    for (i, s) in sizes.iter().enumerate() {
        write_f32(&part_path("x", i, "dat"), &data.v[at * dim..(at + s) * dim]);
        at += s;
    }
    let col = src.usize(0, 2);
    let mut want: Vec<Option<i64>> = cells.iter().map(|c| c.unwrap()).collect();
    let mut at = 0;
    for (i, s) in lsizes.iter().enumerate() {
        let part = &cells[at..at + s];
        match mode {
            0 => write_csv(src, &part_path("y", i, "csv"), part, 3, col, false),
            1 => write_csv(src, &part_path("y", i, gz_ext), part, 3, col, true),
            2 => {
                let mut v = vec![0.0f32; s * classes];
                for (j, c) in part.iter().enumerate() {
                    if let Ok(Some(x)) = c {
                        v[j * classes + *x as usize] = 1.0;
                    }
                }
                write_f32(&part_path("y", i, "dat"), &v);
            }
            _ => {
                let v: Vec<f32> = part.iter().map(|c| if c.unwrap().unwrap_or(0) > 1 { 1.0 } else { 0.0 }).collect();
                write_f32(&part_path("y", i, "dat"), &v);
            }
        }
        at += s;
    }
    if mode == 3 {
        want = cells.iter().map(|c| Some((c.unwrap().unwrap_or(0) > 1) as i64)).collect();
    }
    let ext = ["csv", gz_ext, "dat", "dat"][mode as usize];
    let base = if src.bool() {
        ddir.to_string_lossy().to_string() + "/"
    } else if sub {
        "data/".to_string()
    } else {
        "".to_string()
    };
    let (xs, ys) = if folders { ("part*/x.dat", "part*/y.") } else { ("x_*.dat", "y_*.") };
    let mut yaml = format!("---\ndata_path: {}{}\nlabels_path: {}{}{}\ndata_dim: {}\ncount: {}\n", base, xs, base, ys, ext, dim, n);
    match mode {
        0 | 1 => yaml += &format!("labels_index: {}\n", col),
        2 => yaml += &format!("labels_dim: {}\n", classes),
        _ => yaml += "labels_dim: 1\n",
    }
    let f = dir.join("config.yml");
    fs::write(&f, &yaml).unwrap();
    src.describe(|| format!("{} sizes {:?} {:?} {:?}", yaml, sizes, lsizes, cells));
    if sizes.len() > 1 && lsizes.len() > 1 {
        src.nontrivial();
    }
    let r = ram_from_yaml::<_, L2>(&f).unwrap();
    ensure!(r.len() == n && r.dim() == dim, "yaml_len", "{} points of {}", r.len(), n);
    let l = labels_from_yaml(&f).unwrap();
    ensure!(l.len() == n, "yaml_labels_len", "{} labels of {}", l.len(), n);
    let c = labeled_ram_from_yaml::<_, L2>(&f).unwrap();
    for i in 0..n {
        ensure!(r.point(i).unwrap() == data.row(i), "yaml_point", "point {} is {:?}, the files say {:?}", i, r.point(i), data.row(i));
        ensure!(l.label(i).unwrap().cloned() == want[i], "yaml_label", "label {} is {:?}, the files say {:?}", i, l.label(i), want[i]);
        ensure!(c.point(i).unwrap() == data.row(i) && c.label(i).unwrap().cloned() == want[i], "yaml_labeled", "point {} is {:?} with label {:?}, the files say {:?} {:?}", i, c.point(i), c.label(i), data.row(i), want[i]);
    }
    if mode >= 2 {
        let ld = if mode == 2 { classes } else { 1 };
        let v = vec_labeled_ram_from_yaml::<_, L2>(&f).unwrap();
        for i in 0..n {
            let row = v.label(i).unwrap().unwrap();
            ensure!(v.point(i).unwrap() == data.row(i) && row.len() == ld, "yaml_vec", "point {} {:?}", i, v.point(i));
            let hot = row.iter().position(|x| *x > 0.5).map(|x| x as i64);
            let w = if mode == 2 { want[i] } else if want[i] == Some(1) { Some(0) } else { None };
            ensure!(hot == w, "yaml_vec_label", "label {} is {:?}", i, row);
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P18",
            rule: "two different vectors; lists of at least two indexes",
            assumptions: vec!["vectors of the same length without NaN or infinity; 32 bit integers below 2^24 in magnitude", "relative slack 1e-4 against the f64 sum, 1e-5 between two computed distances"],
            subs: vec![sub("f32", p18_f32, 120000, 3000000), sub("ints", p18_ints, 60000, 1500000), sub("lists", p18_lists, 10000, 200000), sub("huge", p18_huge, 24, 200), sub("matrix", p18_matrix, 6000, 100000)],
        },
        Prop {
            id: "P19",
            rule: "two different non-zero rows; clouds with at least 5 rows",
            assumptions: vec!["column indexes of a row are increasing and below the dimension"],
            subs: vec![sub("pairs", p19_pairs, 120000, 3000000), sub("cloud", p19_cloud, 12000, 250000), sub("long", p19_long, 640, 16000)],
        },
        Prop {
            id: "P20",
            rule: "at least two non-empty sources and a reindexing; named clouds with 3 points",
            assumptions: vec!["names are unique over the sources", "reindexing maps onto distinct new indexes"],
            subs: vec![sub("glued", p20, 40000, 900000), sub("big", p20_big, 300, 9000), sub("named", p20_named, 20000, 400000)],
        },
        Prop {
            id: "P21",
            rule: "rows cut over several files; at least 3 csv rows",
            assumptions: vec!["files are not changed while they are read", "csv rows all have the same number of columns and a header"],
            subs: vec![sub("memmap", p21_memmap, 6000, 120000), sub("csv", p21_csv, 20000, 400000), sub("yaml", p21_yaml, 6000, 120000)],
        },
    ]
}
