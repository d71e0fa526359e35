//! P09: saving and loading, P23: the bulk interface, P24: configuration files.

use crate::common::*;
use crate::labels::*;
use crate::rich::*;
use crate::tree::gen_k;
use goko::plugins::discrete::prelude::*;
use goko::query_interface::BulkInterface;
use goko::utils::*;
use goko::*;
use ndarray::{s, Array2, Axis, ShapeBuilder};
use pbt::{ensure, fail, sub, Prop, Res, Src};
use pointcloud::data_sources::*;
use pointcloud::summaries::*;
use pointcloud::*;
use std::collections::BTreeMap;
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::Arc;

fn gen_names(src: &mut Src, n: usize) -> Vec<String> {
    let style = if n > 1500 { src.draw(3) } else { src.draw(4) };
    let mut v: Vec<String> = (0..n)
        .map(|i| match style {
            0 => format!("p{}", i),
            1 => i.to_string(),
            2 => format!("é/{} ☃", i * 7919 % 100003 + i * 100003),
            _ => {
                if i == 0 {
                    "".to_string()
                } else {
                    "x".repeat(i)
                }
            }
        })
        .collect();
    if src.bool() {
        if n > 1500 {
            v.reverse();
        } else {
            src.shuffle(&mut v);
        }
    }
    v
}


fn bits(v: &[(f32, usize)]) -> Vec<(u32, usize)> {
    v.iter().map(|(d, i)| (d.to_bits(), *i)).collect()
}
fn pbits(v: &[(f32, Addr)]) -> Vec<(u32, Addr)> {
    v.iter().map(|(d, i)| (d.to_bits(), *i)).collect()
}

/// Both readers answer everything alike.
fn same_answers<A: PointCloud<Point = [f32]>, B: PointCloud<Point = [f32]>>(src: &mut Src, tag: &str, a: &CoverTreeReader<A>, b: &CoverTreeReader<B>, data: &Data) -> Res {
    ensure!(a.root_address() == b.root_address(), format!("{}_root", tag), "root {:?} against {:?}", a.root_address(), b.root_address());
    if let Err(e) = dump_same(&dump(a), &dump(b)) {
        fail!(format!("{}_nodes", tag), "{}", e);
    }
    ensure!(a.len() == b.len() && a.node_count() == b.node_count() && a.scale_range() == b.scale_range(), format!("{}_layers", tag), "{} layers, {} nodes, {:?} against {} {} {:?}", a.len(), a.node_count(), a.scale_range(), b.len(), b.node_count(), b.scale_range());
    for ((sa, la), (sb, lb)) in a.layers().zip(b.layers()) {
        let sorted = |mut v: Vec<usize>| {
            v.sort_unstable();
            v
        };
        ensure!(sa == sb && la.scale_index() == lb.scale_index() && la.len() == lb.len() && la.is_empty() == lb.is_empty() && sorted(la.node_center_indexes()) == sorted(lb.node_center_indexes()), format!("{}_layer", tag), "layer {} at {} of {} nodes against {} at {} of {}", sa, la.scale_index(), la.len(), sb, lb.scale_index(), lb.len());
    }
    for i in data.all_ids() {
        let (x, y) = (a.known_path(i), b.known_path(i));
        match (x, y) {
            (Ok(x), Ok(y)) => ensure!(pbits(&x) == pbits(&y), format!("{}_known_path", tag), "known path of {}: {:?} against {:?}", i, x, y),
            (x, y) => fail!(format!("{}_known_path", tag), "known path of {}: {:?} against {:?}", i, x, y),
        }
    }
    let no = data.stranger(0);
    ensure!(a.known_path(no).is_err() && b.known_path(no).is_err(), format!("{}_stranger", tag), "a path for index {} of {}", no, data.n);
    for _ in 0..src.usize(1, 3) {
        let q = gen_query(src, data);
        let k = gen_k(src, data.n);
        let q = &q[..];
        let (x, y) = (a.knn(&q, k).unwrap(), b.knn(&q, k).unwrap());
        ensure!(bits(&x) == bits(&y), format!("{}_knn", tag), "knn {} of {:?}: {:?} against {:?}", k, q, x, y);
        let (x, y) = (a.routing_knn(&q, k).unwrap(), b.routing_knn(&q, k).unwrap());
        ensure!(bits(&x) == bits(&y), format!("{}_routing", tag), "routing knn {} of {:?}: {:?} against {:?}", k, q, x, y);
        let (x, y) = (a.path(&q).unwrap(), b.path(&q).unwrap());
        ensure!(pbits(&x) == pbits(&y), format!("{}_path", tag), "path of {:?}: {:?} against {:?}", q, x, y);
    }
    Ok(())
}

fn same_params<A: PointCloud, B: PointCloud>(tag: &str, a: &CoverTreeReader<A>, b: &CoverTreeReader<B>) -> Res {
    let (x, y) = (a.parameters(), b.parameters());
    ensure!(x.scale_base.to_bits() == y.scale_base.to_bits(), format!("{}_scale_base", tag), "{} against {}", x.scale_base, y.scale_base);
    ensure!(x.leaf_cutoff == y.leaf_cutoff, format!("{}_leaf_cutoff", tag), "{} against {}", x.leaf_cutoff, y.leaf_cutoff);
    ensure!(x.min_res_index == y.min_res_index, format!("{}_min_res_index", tag), "{} against {}", x.min_res_index, y.min_res_index);
    ensure!(x.use_singletons == y.use_singletons, format!("{}_use_singletons", tag), "{} against {}", x.use_singletons, y.use_singletons);
    let (px, py) = (format!("{:?}", x.partition_type), format!("{:?}", y.partition_type));
    ensure!(px == py, format!("{}_partition_type", tag), "{} against {}", px, py);
    for s in a.scale_range() {
        ensure!(a.scale(s).to_bits() == b.scale(s).to_bits(), format!("{}_scale", tag), "scale {}: {} against {}", s, a.scale(s), b.scale(s));
    }
    Ok(())
}

fn scratch(name: &str) -> PathBuf {
    let d = pbt::scratch_dir().join(name);
    fs::create_dir_all(&d).unwrap();
    d
}

/// What the plugins compute on each node.
fn plugin_view<D: PointCloud<LabelSummary = CategorySummary, MetaSummary = CategorySummary>>(w: &mut CoverTreeWriter<D>) -> BTreeMap<Addr, String> {
    w.generate_summaries();
    w.generate_meta_summaries();
    add_dirichlet(w);
    let r = w.reader();
    dump(&r)
        .keys()
        .map(|a| {
            let mut s = String::new();
            for (t, x) in &[("l", r.get_node_label_summary(*a)), ("m", r.get_node_metasummary(*a))] {
                s += t;
                match x {
                    None => s += "none",
                    Some(x) => s += &format!("{:?}", of_summary(x)),
                }
            }
            let d = r.get_node_plugin_and::<Dirichlet, _, _>(*a, |p| {
                p.prob_vector().map(|(mut v, s)| {
                    v.sort_by(|a, b| a.0.cmp(&b.0));
                    format!("{:?} {:?} {}", v, s, p.total())
                })
            });
            (*a, s + &format!("{:?}", d))
        })
        .collect()
}

/// Dimensions and what trackers find do not tell a loaded tree from the first.
fn same_figures<D: PointCloud<Point = [f32]>>(src: &mut Src, a: &CoverTreeReader<D>, b: &CoverTreeReader<D>, data: &Data, d: &Dump) -> Res {
    let alike = |x: f32, y: f32| same_bits(x, y) || (x.is_nan() && y.is_nan()) || close(x as f64, y as f64, 1e-4, 1e-4);
    for si in a.scale_range() {
        let (x, y) = (a.layer_fractal_dim(si), b.layer_fractal_dim(si));
        let (v, w) = (a.layer_weighted_fractal_dim(si), b.layer_weighted_fractal_dim(si));
        ensure!(alike(x, y) && alike(v, w), "file_layer_dim", "layer {}: {} {} against {} {}", si, x, v, y, w);
    }
    for na in d.keys().take(200) {
        let (x, y) = (a.node_fractal_dim(*na), b.node_fractal_dim(*na));
        let (v, w) = (a.node_weighted_fractal_dim(*na), b.node_weighted_fractal_dim(*na));
        ensure!(alike(x, y) && alike(v, w), "file_node_dim", "node {:?}: {} {} against {} {}", na, x, v, y, w);
    }
    let window = src.usize(0, 5);
    let mut s = BayesCategoricalTracker::new(window, a.clone());
    let mut t = BayesCategoricalTracker::new(window, b.clone());
    for _ in 0..src.usize(1, 8) {
        let path = if src.bool() {
            a.known_path(data.id(src.usize(0, data.n - 1))).unwrap()
        } else {
            let q = gen_query(src, data);
            a.path(&&q[..]).unwrap()
        };
        s.add_path(path.clone());
        t.add_path(path);
    }
    ensure!(close(s.kl_div(), t.kl_div(), 1e-9, 1e-9), "file_kl_div", "{} against {}", s.kl_div(), t.kl_div());
    let list = |x: &BayesCategoricalTracker<D>| x.all_node_kl().into_iter().map(|(k, a)| (a, k)).collect::<BTreeMap<Addr, f64>>();
    let (x, y) = (list(&s), list(&t));
    ensure!(x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map(|w| close(*v, *w, 1e-12, 1e-9)).unwrap_or(false)), "file_node_kl", "{:?} against {:?}", x, y);
    let (x, y) = (s.fractal_dim_stats(), t.fractal_dim_stats());
    ensure!(x.layer_totals == y.layer_totals && x.weighted_layer_totals.len() == y.weighted_layer_totals.len() && x.weighted_layer_totals.iter().zip(&y.weighted_layer_totals).all(|(x, y)| alike(*x, *y)), "file_dim_stats", "{:?} against {:?}", x, y);
    Ok(())
}

fn p09_tree(src: &mut Src) -> Res {
    let data = gen_points(src, 160);
    p09_on(src, data)
}
fn p09_big(src: &mut Src) -> Res {
    let data = gen_big(src, 900);
    p09_on(src, data)
}
fn p09_huge(src: &mut Src) -> Res {
    let data = gen_huge(src, 70000);
    let p = huge_params(src, data.n);
    p09_with(src, data, p)
}
fn p09_on(src: &mut Src, data: Data) -> Res {
    let p = gen_deep(src, data.n);
    p09_with(src, data, p)
}
fn p09_with(src: &mut Src, data: Data, p: Params) -> Res {
    class_params(src, &p);
    let labels = gen_cells(src, data.n, false);
    let meta = gen_cells(src, data.n, false);
    let names = gen_names(src, data.n);
    src.describe(|| format!("{} {:?} names {:?}", data.show(), p, &names[..names.len().min(5)]));
    let part = |a: usize, b: usize| RichCloud {
        data: DataRam::new(data.v[a * data.dim..b * data.dim].to_vec(), data.dim).unwrap(),
        labels: labels[a..b].to_vec(),
        meta: meta[a..b].to_vec(),
        names: names[a..b].to_vec(),
    };
    if data.ids.parts == 0 {
        p09_cloud(src, Arc::new(part(0, data.n)), &data, &p, &names)
    } else {
        p09_cloud(src, Arc::new(glue(&data, part)), &data, &p, &names)
    }
}
fn p09_cloud<D: PointCloud<Point = [f32], LabelSummary = CategorySummary, MetaSummary = CategorySummary>>(src: &mut Src, cloud: Arc<D>, data: &Data, p: &Params, names: &[String]) -> Res {
    let mut w = builder(p).build(cloud.clone()).unwrap();
    let early = src.bool();
    if early {
        plugin_view(&mut w);
    }
    let dir = scratch("p09");
    let f = dir.join("tree.goko");
    let _ = fs::remove_file(&f);
    if src.bool() {
        // an older, usually longer file stands there
        src.class("overwrites");
        fs::write(&f, vec![0x0au8; src.usize(0, 60000)]).unwrap();
    }
    save_tree(&f, &w).unwrap();
    let mut l = load_tree(&f, cloud.clone()).unwrap();
    let d = dump(&w.reader());
    if d.len() >= 4 && data.n >= 6 {
        src.nontrivial();
    }
    same_params("file", &w.reader(), &l.reader())?;
    same_answers(src, "file", &w.reader(), &l.reader(), data)?;
    let got = l.reader().point_cloud().len();
    ensure!(got == data.n, "file_cloud", "the loaded tree refers to {} points", got);
    // the message names every point
    let proto = w.save();
    ensure!(proto.get_count() == data.n as u64 && proto.get_dim() == data.dim as u64, "proto_shape", "count {} dim {}", proto.get_count(), proto.get_dim());
    ensure!(proto.get_name_map().len() == data.n, "proto_names", "{} names of {}", proto.get_name_map().len(), data.n);
    for (i, n) in names.iter().enumerate() {
        let i = data.id(i);
        ensure!(proto.get_name_map().get(n) == Some(&(i as u64)), "proto_names", "{:?} is saved as {:?}, not {}", n, proto.get_name_map().get(n), i);
    }
    // in memory
    let m = CoverTreeWriter::load(&proto, cloud.clone()).unwrap();
    same_params("memory", &w.reader(), &m.reader())?;
    same_answers(src, "memory", &w.reader(), &m.reader(), data)?;
    // a loaded tree saves like the first, on top of the old file
    save_tree(&f, &l).unwrap();
    let again = load_tree(&f, cloud.clone()).unwrap();
    same_params("again", &w.reader(), &again.reader())?;
    same_answers(src, "again", &w.reader(), &again.reader(), data)?;
    // what is computed from a tree is computed from the loaded one
    let (a, b) = (plugin_view(&mut w), plugin_view(&mut l));
    for (k, v) in &a {
        ensure!(b.get(k) == Some(v), "file_plugins", "node {:?} carries {} but after loading {:?}", k, v, b.get(k));
    }
    ensure!(a.len() == b.len(), "file_plugins", "{} nodes against {}", a.len(), b.len());
    same_figures(src, &w.reader(), &l.reader(), data, &d)?;
    // saving does not change the tree
    if let Err(e) = dump_same(&d, &dump(&w.reader())) {
        fail!("saving_changes", "{}", e);
    }
    fs::remove_file(&f).unwrap();
    Ok(())
}

// ---------------------------------------------------------------- P23

fn gen_len(src: &mut Src) -> usize {
    match src.draw(6) {
        0 => src.usize(0, 3),
        1 => src.usize(0, 60),
        2 => *src.pick(&[99usize, 100, 101, 199, 200, 201, 300]),
        3 => src.usize(90, 220),
        4 => 100 * src.usize(1, 9) + src.usize(0, 1),
        _ => src.usize(0, 900),
    }
}

fn class_len(src: &mut Src, len: usize) {
    src.class(match len {
        0 => "empty",
        1..=100 => "one_chunk",
        _ if len % 100 == 0 => "full_chunks",
        _ => "chunks_and_rest",
    });
    if len > 100 {
        src.nontrivial();
    }
}

fn huge_len(src: &mut Src) -> usize {
    let len = match src.draw(4) {
        3 => 100 * src.usize(10, 90) + *src.pick(&[0usize, 1, 99]),
        0 => src.usize(1000, 9000),
        1 => src.usize(4000, 36000),
        _ => src.usize(65400, 70000),
    };
    src.class(if len > 65536 { "over_65536" } else { "under_65536" });
    len
}
fn p23_huge(src: &mut Src) -> Res {
    let len = huge_len(src);
    match src.draw(3) {
        0 => p23_indexes_of(src, len),
        1 => p23_points_of(src, len),
        _ => p23_arrays_of(src, len),
    }
}

fn p23_indexes(src: &mut Src) -> Res {
    let len = gen_len(src);
    p23_indexes_of(src, len)
}
fn p23_indexes_of(src: &mut Src, len: usize) -> Res {
    let data = gen_points(src, 120);
    let p = gen_deep(src, data.n);
    class_len(src, len);
    src.describe(|| format!("{} {:?} {} queries", data.show(), p, len));
    let w = made::<L2>(src, &data, &p);
    let r = w.reader();
    let b = BulkInterface::new(w.reader());
    let stray = src.chance(1, 3);
    let idx: Vec<usize> = {
        let mut v = Vals::new(src, len * 2);
        (0..len).map(|_| if stray && v.draw(8) == 7 { data.stranger(v.draw(100) as usize) } else { data.id(v.draw(data.n as u64) as usize) }).collect()
    };
    let show = |x: &GokoResult<Vec<(f32, Addr)>>| match x {
        Ok(x) => format!("{:?}", pbits(x)),
        Err(e) => format!("error {:?}", e),
    };
    let got = b.known_path(&idx);
    ensure!(got.len() == len, "known_path_count", "{} answers for {} indexes", got.len(), len);
    for (j, (g, i)) in got.iter().zip(&idx).enumerate() {
        let one = r.known_path(*i);
        ensure!(show(g) == show(&one), "known_path", "answer {} of {} (index {}) is {:?}, alone {:?}", j, len, i, g, one);
        ensure!(g.is_ok() == data.knows(*i), "known_path_stranger", "index {} of {} points: {:?}", i, data.n, g);
    }
    let got: Vec<(usize, String)> = b.known_path_and(&idx, |rd, x| (rd.node_count(), show(&x)));
    ensure!(got.len() == len, "known_path_and_count", "{} answers for {} indexes", got.len(), len);
    for (j, (g, i)) in got.iter().zip(&idx).enumerate() {
        ensure!(g.1 == show(&r.known_path(*i)) && g.0 == r.node_count(), "known_path_and", "answer {} of {} (index {}) is {:?}", j, len, i, g);
    }
    let got: Vec<usize> = b.index_map_with_reader(&idx, |_, i| i);
    ensure!(got == idx, "index_map", "the function saw {:?} for {:?}", got, idx);
    Ok(())
}

fn p23_points(src: &mut Src) -> Res {
    let len = gen_len(src);
    p23_points_of(src, len)
}
fn p23_points_of(src: &mut Src, len: usize) -> Res {
    let data = gen_points(src, 80);
    let p = gen_deep(src, data.n);
    let k = gen_k(src, data.n);
    class_len(src, len);
    src.describe(|| format!("{} {:?} {} queries k={}", data.show(), p, len, k));
    let w = made::<L2>(src, &data, &p);
    let r = w.reader();
    let b = BulkInterface::new(w.reader());
    let pool: Vec<Vec<f32>> = (0..src.usize(1, 12)).map(|_| gen_query(src, &data)).collect();
    let pts: Vec<&[f32]> = {
        let mut v = Vals::new(src, len);
        (0..len).map(|_| &pool[v.draw(pool.len() as u64) as usize][..]).collect()
    };
    let single: Vec<_> = pool.iter().map(|q| (r.knn(&&q[..], k).unwrap(), r.routing_knn(&&q[..], k).unwrap(), r.path(&&q[..]).unwrap())).collect();
    let of = |q: &[f32]| &single[pool.iter().position(|x| x.as_ptr() == q.as_ptr()).unwrap()];
    let (a, c, d) = (b.knn(&pts, k), b.routing_knn(&pts, k), b.path(&pts));
    ensure!(a.len() == len && c.len() == len && d.len() == len, "points_count", "{} {} {} answers for {} points", a.len(), c.len(), d.len(), len);
    for j in 0..len {
        let want = of(pts[j]);
        ensure!(bits(a[j].as_ref().unwrap()) == bits(&want.0), "points_knn", "answer {} of {}: {:?}, alone {:?}", j, len, a[j], want.0);
        ensure!(bits(c[j].as_ref().unwrap()) == bits(&want.1), "points_routing", "answer {} of {}: {:?}, alone {:?}", j, len, c[j], want.1);
        ensure!(pbits(d[j].as_ref().unwrap()) == pbits(&want.2), "points_path", "answer {} of {}: {:?}, alone {:?}", j, len, d[j], want.2);
    }
    let got: Vec<Vec<f32>> = b.point_map_with_reader(&pts, |_, q| q.to_vec());
    ensure!(got.len() == len && got.iter().zip(&pts).all(|(g, q)| &g[..] == *q), "points_map", "the function saw other points");
    Ok(())
}

/// Arrays in any memory layout are their rows.
fn p23_arrays(src: &mut Src) -> Res {
    let len = gen_len(src).min(420);
    p23_arrays_of(src, len)
}
fn p23_arrays_of(src: &mut Src, len: usize) -> Res {
    let data = gen_points(src, 60);
    let p = gen_deep(src, data.n);
    class_len(src, len);
    let layout = src.draw(7);
    src.describe(|| format!("{} {:?} {} rows, layout {}", data.show(), p, len, layout));
    let w = made::<L2>(src, &data, &p);
    let r = w.reader();
    let b = BulkInterface::new(w.reader());
    let pool: Vec<Vec<f32>> = (0..src.usize(1, 12)).map(|_| gen_query(src, &data)).collect();
    let rows: Vec<usize> = {
        let mut v = Vals::new(src, len);
        (0..len).map(|_| v.draw(pool.len() as u64) as usize).collect()
    };
    let dim = data.dim;
    let at = |i: usize, j: usize| pool[rows[i]][j];
    let owned: Array2<f32>;
    let view = match layout {
        0 => {
            src.class("standard");
            owned = Array2::from_shape_fn((len, dim), |(i, j)| at(i, j));
            owned.view()
        }
        1 => {
            src.class("fortran");
            owned = Array2::from_shape_fn((len, dim).f(), |(i, j)| at(i, j));
            owned.view()
        }
        2 => {
            src.class("transposed");
            owned = Array2::from_shape_fn((dim, len), |(j, i)| at(i, j));
            owned.t()
        }
        3 => {
            src.class("reversed_rows");
            owned = Array2::from_shape_fn((len, dim), |(i, j)| at(len - 1 - i, j));
            let mut v = owned.view();
            v.invert_axis(Axis(0));
            v
        }
        4 => {
            src.class("reversed_columns");
            owned = Array2::from_shape_fn((len, dim), |(i, j)| at(i, dim - 1 - j));
            let mut v = owned.view();
            v.invert_axis(Axis(1));
            v
        }
        5 => {
            src.class("every_second");
            owned = Array2::from_shape_fn((2 * len, 2 * dim), |(i, j)| if i % 2 == 0 && j % 2 == 0 { at(i / 2, j / 2) } else { -7.5 });
            owned.slice(s![..;2, ..;2])
        }
        _ => {
            src.class("inner_block");
            owned = Array2::from_shape_fn((len + 2, dim + 3), |(i, j)| if i >= 1 && i <= len && j >= 2 && j < dim + 2 { at(i - 1, j - 2) } else { 9.25 });
            owned.slice(s![1..len + 1, 2..dim + 2])
        }
    };
    let k = gen_k(src, data.n);
    let got = b.array_map_with_reader(view, |rd, q| (q.to_vec(), rd.knn(q, k).unwrap(), rd.path(q).unwrap()));
    ensure!(got.len() == len, "array_count", "{} answers for {} rows", got.len(), len);
    let single: Vec<_> = pool.iter().map(|q| (r.knn(&&q[..], k).unwrap(), r.path(&&q[..]).unwrap())).collect();
    for (j, g) in got.iter().enumerate() {
        let q = &pool[rows[j]];
        ensure!(&g.0 == q, "array_row", "row {} of {} is {:?}, the function saw {:?}", j, len, q, g.0);
        ensure!(bits(&g.1) == bits(&single[rows[j]].0), "array_knn", "row {} of {}: {:?}, alone {:?}", j, len, g.1, single[rows[j]].0);
        ensure!(pbits(&g.2) == pbits(&single[rows[j]].1), "array_path", "row {} of {}: {:?}, alone {:?}", j, len, g.2, single[rows[j]].1);
    }
    Ok(())
}

// ---------------------------------------------------------------- P24

fn write_f32(path: &Path, v: &[f32]) {
    let mut b = Vec::with_capacity(v.len() * 4);
    v.iter().for_each(|x| b.extend_from_slice(&x.to_ne_bytes()));
    fs::write(path, b).unwrap();
}

/// The keys of a configuration, in a random order, some left out; returns what they mean.
fn gen_yaml(src: &mut Src, n: usize) -> (Vec<String>, Params, u32) {
    let mut p = gen_params(src, n);
    let mut verbosity = 2;
    let mut lines = vec![];
    if src.chance(1, 5) {
        p.scale_base = 2.0;
    } else if src.chance(1, 3) {
        let b = src.usize(2, 5);
        p.scale_base = b as f32;
        lines.push(format!("scale_base: {}", b));
    } else {
        lines.push(format!("scale_base: {:?}", p.scale_base));
    }
    if src.chance(1, 5) {
        p.leaf_cutoff = 1;
    } else if src.chance(1, 8) {
        p.leaf_cutoff = *src.pick(&[65536usize, (1 << 32) + 1, i64::MAX as usize]);
        lines.push(format!("leaf_cutoff: {}", p.leaf_cutoff));
    } else {
        lines.push(format!("leaf_cutoff: {}", p.leaf_cutoff));
    }
    if src.chance(1, 5) {
        p.min_res = -10;
    } else {
        lines.push(format!("min_res_index: {}", p.min_res));
    }
    if src.chance(1, 4) {
        p.use_singletons = true;
    } else {
        lines.push(format!("use_singletons: {}", p.use_singletons));
    }
    if src.chance(1, 4) {
        p.first = false;
    } else {
        lines.push(format!("partition_type: {}", if p.first { "first" } else { "nearest" }));
    }
    if src.chance(1, 6) {
        p.seed = None;
    } else {
        lines.push(format!("rng_seed: {}", p.seed.unwrap()));
    }
    if src.chance(3, 4) {
        verbosity = src.usize(0, 1) as u32;
        lines.push(format!("verbosity: {}", verbosity));
    }
    (lines, p, verbosity)
}

fn finish_yaml(src: &mut Src, mut lines: Vec<String>) -> String {
    if src.bool() {
        src.shuffle(&mut lines);
    }
    if src.chance(1, 4) {
        lines.push("unrelated: 17".to_string());
    }
    format!("---\n{}\n", lines.join("\n"))
}

fn check_reader<D: PointCloud>(tag: &str, r: &CoverTreeReader<D>, p: &Params, verbosity: u32) -> Res {
    let x = r.parameters();
    ensure!(x.scale_base.to_bits() == p.scale_base.to_bits(), format!("{}_scale_base", tag), "{} was configured as {}", x.scale_base, p.scale_base);
    ensure!(x.leaf_cutoff == p.leaf_cutoff, format!("{}_leaf_cutoff", tag), "{} was configured as {}", x.leaf_cutoff, p.leaf_cutoff);
    ensure!(x.min_res_index == p.min_res, format!("{}_min_res_index", tag), "{} was configured as {}", x.min_res_index, p.min_res);
    ensure!(x.use_singletons == p.use_singletons, format!("{}_use_singletons", tag), "{} was configured as {}", x.use_singletons, p.use_singletons);
    let t = format!("{:?}", x.partition_type);
    ensure!(t == if p.first { "First" } else { "Nearest" }, format!("{}_partition_type", tag), "{} with first={}", t, p.first);
    ensure!(x.rng_seed == p.seed, format!("{}_rng_seed", tag), "{:?} was configured as {:?}", x.rng_seed, p.seed);
    ensure!(x.verbosity == verbosity, format!("{}_verbosity", tag), "{} was configured as {}", x.verbosity, verbosity);
    Ok(())
}

fn p24_builder(src: &mut Src) -> Res {
    let (lines, p, v) = gen_yaml(src, 50);
    let yaml = finish_yaml(src, lines.clone());
    src.describe(|| yaml.clone());
    if lines.len() >= 3 {
        src.nontrivial();
    }
    let f = scratch("p24").join("builder.yml");
    fs::write(&f, &yaml).unwrap();
    let n = src.usize(1, 12);
    let data = gen_data_with(src, n, 2);
    let mut b = CoverTreeBuilder::from_yaml(&f);
    let w = b.build(ram::<L2>(&data)).unwrap();
    check_reader("builder", &w.reader(), &p, v)?;
    if p.seed.is_some() {
        let d = build::<L2>(&data, &p);
        same_answers(src, "builder", &d.reader(), &w.reader(), &data)?;
    }
    // a setter wins over the file, and only for its own key
    let mut q = p.clone();
    let mut vb = v;
    match src.draw(6) {
        0 => {
            q.scale_base = 1.7;
            b.set_scale_base(1.7);
        }
        1 => {
            q.leaf_cutoff = 9;
            b.set_leaf_cutoff(9);
        }
        2 => {
            q.min_res = -3;
            b.set_min_res_index(-3);
        }
        3 => {
            q.use_singletons = !q.use_singletons;
            b.set_use_singletons(q.use_singletons);
        }
        4 => {
            q.seed = Some(77);
            b.set_rng_seed(77);
        }
        _ => {
            vb = 1 - v.min(1);
            b.set_verbosity(vb);
        }
    }
    let w = b.build(ram::<L2>(&data)).unwrap();
    check_reader("setter", &w.reader(), &q, vb)
}

/// A builder without a file: the same defaults, and any sequence of settings, with trees built in between.
fn p24_direct(src: &mut Src) -> Res {
    let mut p = Params { scale_base: 2.0, leaf_cutoff: 1, min_res: -10, use_singletons: true, first: false, seed: None };
    let mut v = 0;
    let mut b = if src.bool() { CoverTreeBuilder::new() } else { CoverTreeBuilder::default() };
    let n = src.usize(1, 40);
    let data = gen_data_with(src, n, 2);
    let mut log = vec![];
    let steps = src.usize(0, 8);
    for _ in 0..=steps {
        if src.chance(2, 3) {
            let w = b.build(ram::<L2>(&data)).unwrap();
            check_reader("direct", &w.reader(), &p, v)?;
            if p.seed.is_some() {
                let d = build::<L2>(&data, &p);
                same_answers(src, "direct", &d.reader(), &w.reader(), &data)?;
            }
        }
        match src.draw(6) {
            0 => {
                p.scale_base = *src.pick(&[1.2f32, 1.7, 2.0, 3.0]);
                b.set_scale_base(p.scale_base);
            }
            1 => {
                p.leaf_cutoff = src.usize(0, 60);
                b.set_leaf_cutoff(p.leaf_cutoff);
            }
            2 => {
                p.min_res = 4 - src.usize(0, 40) as i32;
                b.set_min_res_index(p.min_res);
            }
            3 => {
                p.use_singletons = src.bool();
                b.set_use_singletons(p.use_singletons);
            }
            4 => {
                let s = if src.bool() { src.draw(100) } else { src.draw(u64::MAX) };
                p.seed = Some(s);
                b.set_rng_seed(s);
            }
            _ => {
                v = src.draw(2) as u32;
                b.set_verbosity(v);
            }
        }
        log.push(format!("{:?}", p));
    }
    src.describe(|| format!("{} {:?}", data.show(), log));
    if steps >= 2 && n >= 4 {
        src.nontrivial();
    }
    Ok(())
}

fn p24_tree(src: &mut Src) -> Res {
    let dir = pbt::scratch_dir().join("p24t");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let dim = src.usize(1, 9);
    let n = src.usize(1, 60);
    let data = gen_data_with(src, n, dim);
    let (mut lines, p, verb) = gen_yaml(src, n);
    class_params(src, &p);
    // the rows over files, in the order of their names
    let files = src.usize(1, 4).min(n);
    let mut cuts: Vec<usize> = (0..files - 1).map(|_| src.usize(0, n - 1)).collect();
    cuts.extend_from_slice(&[0, n]);
    cuts.sort_unstable();
    cuts.dedup();
    let sub = src.bool();
    let ddir = if sub { dir.join("data") } else { dir.clone() };
    fs::create_dir_all(&ddir).unwrap();
    for (i, c) in cuts.windows(2).enumerate() {
        write_f32(&ddir.join(format!("x_{}.dat", i)), &data.v[c[0] * dim..c[1] * dim]);
    }
    let base = if src.bool() {
        ddir.to_string_lossy().to_string() + "/"
    } else if sub {
        "data/".to_string()
    } else {
        "".to_string()
    };
    lines.push(format!("data_path: {}x_*.dat", base));
    lines.push(format!("data_dim: {}", dim));
    let counted = src.draw(4);
    let claim = match counted {
        0 => None,
        1 | 2 => Some(n),
        _ => Some(if src.bool() { n + src.usize(1, 5) } else { n.saturating_sub(src.usize(1, 5)) }),
    };
    if let Some(c) = claim {
        lines.push(format!("count: {}", c));
    }
    let labeled = src.bool();
    let cells: Vec<Option<i64>> = gen_cells(src, n, false).into_iter().map(|c| c.unwrap().map(|v| v.abs())).collect();
    if labeled {
        let mut s = "a,label\n".to_string();
        for c in &cells {
            s += &format!("z,{}\n", c.unwrap_or(-1));
        }
        fs::write(ddir.join("y.csv"), s).unwrap();
        lines.push(format!("labels_path: {}y.csv", base));
        lines.push("labels_index: 1".to_string());
    }
    let yaml = finish_yaml(src, lines);
    let f = dir.join("config.yml");
    fs::write(&f, &yaml).unwrap();
    src.describe(|| format!("{} {}", yaml, data.show()));
    src.class(if labeled { "labeled" } else { "plain" });
    let bad = claim.map(|c| c != n).unwrap_or(false);
    if bad {
        src.class("count_mismatch");
        let got = catch_unwind(AssertUnwindSafe(|| if labeled { cover_tree_from_labeled_yaml(&f).map(|_| ()) } else { cover_tree_from_yaml(&f).map(|_| ()) }));
        if let Ok(Ok(())) = got {
            fail!("count_ignored", "{} points were configured, a tree was built on {}", claim.unwrap(), n);
        }
        src.nontrivial();
        return Ok(());
    }
    let mut seeded = p.clone();
    seeded.seed = seeded.seed.or(Some(0));
    if labeled {
        let mut w = cover_tree_from_labeled_yaml(&f).unwrap();
        check_reader("labeled", &w.reader(), &p, verb)?;
        if dump(&w.reader()).len() >= 4 {
            src.nontrivial();
        }
        ensure!(w.reader().point_cloud().len() == n, "labeled_len", "{} points of {}", w.reader().point_cloud().len(), n);
        for i in 0..n {
            let r = w.reader();
            let c = r.point_cloud();
            ensure!(c.point(i).unwrap() == data.row(i) && c.label(i).unwrap().cloned() == cells[i], "labeled_cloud", "point {} is {:?} {:?}, the files say {:?} {:?}", i, c.point(i), c.label(i), data.row(i), cells[i]);
        }
        if p.seed.is_some() {
            let d = build::<L2>(&data, &seeded);
            same_answers(src, "labeled", &d.reader(), &w.reader(), &data)?;
        }
        w.generate_summaries();
        let r = w.reader();
        let root = r.root_address();
        let all: Vec<usize> = (0..n).collect();
        let cs: Vec<Cell> = cells.iter().map(|c| Ok(*c)).collect();
        let s = r.get_node_label_summary(root).map(|s| of_summary(&s));
        ensure!(s == Some(Ok(count(&cs, &all))), "labeled_summary", "the root's summary is {:?}", s);
    } else {
        let w = cover_tree_from_yaml(&f).unwrap();
        check_reader("plain", &w.reader(), &p, verb)?;
        if dump(&w.reader()).len() >= 4 {
            src.nontrivial();
        }
        ensure!(w.reader().point_cloud().len() == n, "plain_len", "{} points of {}", w.reader().point_cloud().len(), n);
        if p.seed.is_some() {
            let d = build::<L2>(&data, &seeded);
            same_answers(src, "plain", &d.reader(), &w.reader(), &data)?;
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P09",
            rule: "the tree has at least 4 nodes and 6 points",
            assumptions: vec!["the tree is loaded with the cloud it was built on", "names are unique", "the file is the one that was written, whole"],
            subs: vec![sub("tree", p09_tree, 12000, 300000), sub("big", p09_big, 160, 4000), sub("huge", p09_huge, 16, 200)],
        },
        Prop {
            id: "P23",
            rule: "more than 100 queries at once, so that they are split over threads",
            assumptions: vec!["queries have the dimension of the cloud"],
            subs: vec![sub("indexes", p23_indexes, 6000, 150000).threads(4), sub("points", p23_points, 4000, 100000).threads(4), sub("arrays", p23_arrays, 4000, 100000).threads(4), sub("huge", p23_huge, 60, 1000).threads(4)],
        },
        Prop {
            id: "P24",
            rule: "at least 3 keys; trees of at least 4 nodes, or a wrong count",
            assumptions: vec!["the keys have the documented types", "data files sort by name"],
            subs: vec![sub("builder", p24_builder, 20000, 500000), sub("direct", p24_direct, 10000, 200000), sub("tree", p24_tree, 10000, 250000)],
        },
    ]
}
