//! P25: the HTTP answers, P26: the trackers, the load and the robustness of the server.

use crate::common::*;
use crate::rich::*;
use flate2::write::{DeflateEncoder, ZlibEncoder};
use flate2::Compression;
use goko::plugins::discrete::tracker::BayesCategoricalTracker;
use goko::*;
use http::{Method, Request, Response};
use hyper::body::Bytes;
use hyper::Body;
use pbt::{ensure, fail, sub, Prop, Res, Src};
use pointcloud::data_sources::*;
use pointcloud::*;
use serde_json::{json, Value};
use serve_goko::api::*;
use serve_goko::core::CoreWriter;
use serve_goko::http::{GokoHttp, MakeGokoHttp};
use serve_goko::parsers::MsgPackDense;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::Arc;
use std::time::Duration;
use tower::load::Load;
use tower::Service;

type Cloud = RichCloud;
type Maker = MakeGokoHttp<Cloud, MsgPackDense>;
type Http = GokoHttp<Cloud, MsgPackDense>;

struct World {
    data: Data,
    reader: CoverTreeReader<Cloud>,
    maker: Maker,
    core: Arc<CoreWriter<Cloud, Vec<f32>>>,
    p: Params,
}

fn cells(src: &mut Src, n: usize) -> Vec<Cell> {
    let classes = src.usize(1, 5) as i64;
    let mut r = Vals::new(src, n);
    (0..n)
        .map(|_| match r.draw(5) {
            4 => Ok(None),
            _ => Ok(Some(r.range(0, classes))),
        })
        .collect()
}

fn world(src: &mut Src, max_n: usize) -> World {
    let data = gen_data(src, max_n);
    let p = gen_params(src, data.n);
    let style = src.draw(3);
    let cloud = RichCloud {
        data: DataRam::new(data.v.clone(), data.dim).unwrap(),
        labels: cells(src, data.n),
        meta: cells(src, data.n),
        names: (0..data.n)
            .map(|i| match style {
                0 => i.to_string(),
                1 => format!("n{}", data.n - i),
                _ => format!("\"é\\{}", i),
            })
            .collect(),
    };
    src.describe(|| format!("{} {:?}", data.show(), p));
    let mut w = builder(&p).build(Arc::new(cloud)).unwrap();
    add_dirichlet(&mut w);
    if src.chance(2, 3) {
        w.generate_summaries();
    }
    let reader = w.reader();
    let core = Arc::new(CoreWriter::new(w));
    World { data, reader, maker: MakeGokoHttp::new(Arc::clone(&core)), core, p }
}

async fn client(m: &mut Maker) -> Http {
    match <Maker as Service<()>>::call(m, ()).await {
        Ok(s) => s,
        Err(_) => unreachable!(),
    }
}

fn runtime(threads: usize) -> tokio::runtime::Runtime {
    if threads == 0 {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_all().build().unwrap()
    }
}

/// The point as a client could write it down.
fn encode(src: &mut Src, q: &[f32]) -> (Vec<u8>, Option<&'static str>) {
    let raw = match src.draw(4) {
        0 | 1 => rmp_serde::to_vec(&q.to_vec()).unwrap(),
        2 => rmp_serde::to_vec(&q.iter().map(|x| *x as f64).collect::<Vec<f64>>()).unwrap(),
        _ => {
            if q.iter().all(|x| x.fract() == 0.0 && x.abs() < 1e6) {
                src.class("integers");
                rmp_serde::to_vec(&q.iter().map(|x| *x as i64).collect::<Vec<i64>>()).unwrap()
            } else {
                rmp_serde::to_vec(&q.to_vec()).unwrap()
            }
        }
    };
    let level = Compression::new(src.draw(10) as u32);
    match src.draw(4) {
        0 | 1 => (raw, None),
        2 => {
            src.class("gzip");
            let mut e = ZlibEncoder::new(Vec::new(), level);
            e.write_all(&raw).unwrap();
            (e.finish().unwrap(), Some("gzip"))
        }
        _ => {
            src.class("zlib");
            let mut e = DeflateEncoder::new(Vec::new(), level);
            e.write_all(&raw).unwrap();
            (e.finish().unwrap(), Some("zlib"))
        }
    }
}

fn pieces(src: &mut Src, b: &[u8]) -> Vec<Bytes> {
    let mut cuts: Vec<usize> = (0..src.usize(0, 4)).map(|_| src.usize(0, b.len())).collect();
    cuts.extend_from_slice(&[0, b.len()]);
    cuts.sort_unstable();
    cuts.windows(2).map(|w| Bytes::copy_from_slice(&b[w[0]..w[1]])).collect()
}

/// The bytes arrive at once, in pieces, or in pieces with pauses. Must be called inside the runtime.
fn body(src: &mut Src, b: &[u8]) -> Body {
    match src.draw(4) {
        0 | 1 => Body::from(b.to_vec()),
        2 => {
            src.class("streamed");
            let ps: Vec<Result<Bytes, std::io::Error>> = pieces(src, b).into_iter().map(Ok).collect();
            Body::wrap_stream(futures::stream::iter(ps))
        }
        _ => {
            src.class("paused");
            let ps = pieces(src, b);
            let (mut s, body) = Body::channel();
            tokio::spawn(async move {
                for p in ps {
                    tokio::task::yield_now().await;
                    if s.send_data(p).await.is_err() {
                        return;
                    }
                }
            });
            body
        }
    }
}

fn request(m: Method, uri: &str, kind: Option<&str>, b: Body) -> Request<Body> {
    let mut r = Request::builder().method(m).uri(uri);
    if let Some(k) = kind {
        r = r.header("content-type", k);
    }
    r.body(b).unwrap()
}

/// status and text, or the error
async fn finish(r: Result<Response<Body>, serve_goko::errors::GokoClientError>) -> Result<(u16, String), String> {
    match r {
        Err(e) => Err(format!("{:?}", e)),
        Ok(r) => {
            let s = r.status().as_u16();
            let b = hyper::body::to_bytes(r.into_body()).await.map_err(|e| format!("{:?}", e))?;
            Ok((s, String::from_utf8_lossy(&b).to_string()))
        }
    }
}

async fn send(h: &mut Http, r: Request<Body>) -> Result<(u16, String), String> {
    if let Err(e) = futures::future::poll_fn(|cx| h.poll_ready(cx)).await {
        return Err(format!("not ready: {:?}", e));
    }
    match tokio::time::timeout(Duration::from_secs(60), h.call(r)).await {
        Ok(r) => finish(r).await,
        Err(_) => Err("no answer in 60 s".to_string()),
    }
}

fn num(v: &Value) -> f64 {
    v.as_f64().unwrap_or(f64::NAN)
}

// ---------------------------------------------------------------- requests and what they should bring

#[derive(Debug, Clone)]
enum Ask {
    Params,
    Knn(Vec<f32>, usize),
    Routing(Vec<f32>, usize),
    Path(Vec<f32>),
    BadK,
    BadWindow,
    Nowhere,
    Bad,
}

fn gen_ask(src: &mut Src, data: &Data) -> (Ask, Request<Body>) {
    let kind = src.draw(12);
    if kind == 0 {
        return (Ask::Params, request(Method::GET, "/", None, Body::empty()));
    }
    let q = gen_query(src, data);
    let (bytes, enc) = encode(src, &q);
    match kind {
        1..=7 => {
            let (k, query) = match src.draw(8) {
                6 => {
                    // more than there are
                    let k = *src.pick(&[100, 255, 256, 999, 1000, 4096, 65536, 123456, 1 << 32, (1 << 53) + 1]);
                    src.class("large_k");
                    (k, format!("?k={}", k))
                }
                7 => {
                    let k = src.usize(0, data.n + 2);
                    (k, format!("?k={}{}", "0".repeat(src.usize(1, 30)), k))
                }
                0 => (10, "".to_string()),
                1 => (10, "?other=3".to_string()),
                2 => {
                    let k = src.usize(0, 2 * data.n + 3);
                    (k, format!("?other=7&k={}", k))
                }
                3 => {
                    let k = src.usize(1, data.n);
                    (k, format!("?k={}&zoo=1", k))
                }
                4 => (0, "?k=0".to_string()),
                _ => {
                    let k = src.usize(1, 20);
                    (k, format!("?k={}", k))
                }
            };
            let b = body(src, &bytes);
            match kind {
                1..=3 => (Ask::Knn(q, k), request(Method::GET, &format!("/knn{}", query), enc, b)),
                4 | 5 => (Ask::Routing(q, k), request(Method::GET, &format!("/routing_knn{}", query), enc, b)),
                _ => (Ask::Path(q), request(Method::GET, &format!("/path{}", query), enc, b)),
            }
        }
        8 => {
            src.class("bad_k");
            let route = *src.pick(&["/knn", "/routing_knn"]);
            let b = body(src, &bytes);
            (Ask::BadK, request(Method::GET, &format!("{}?k=99999999999999999999999", route), enc, b))
        }
        9 => {
            src.class("nowhere");
            let (m, u) = *src.pick(&[(0, "/nowhere"), (1, "/knn"), (1, "/"), (0, "/track/point"), (0, "/track/add?window_size=3"), (1, "/track/stats?window_size=3"), (0, "/knn/"), (1, "/path"), (0, "/routing")]);
            let b = body(src, &bytes);
            (Ask::Nowhere, request(if m == 0 { Method::GET } else { Method::POST }, u, enc, b))
        }
        10 => {
            let (m, u) = *src.pick(&[(1, "/track/add"), (0, "/track/stats"), (1, "/track/add?tracker_name=zz"), (0, "/track/stats?window_size=x"), (1, "/track/add?window_size=99999999999999999999999")]);
            (Ask::BadWindow, request(if m == 0 { Method::GET } else { Method::POST }, u, None, Body::empty()))
        }
        _ => {
            src.class("bad");
            let route = *src.pick(&["/knn?k=3", "/routing_knn", "/path", "/track/point"]);
            let m = if route == "/track/point" { Method::POST } else { Method::GET };
            let (b, enc) = match src.draw(7) {
                0 => (Body::empty(), None),
                1 => (Body::from("\u{7f}not msgpack"), None),
                2 => (body(src, &bytes), Some("text/plain")),
                3 => (Body::from(rmp_serde::to_vec(&"words").unwrap()), None),
                4 => (Body::from(vec![0xffu8; 9]), Some(*src.pick(&["gzip", "zlib"]))),
                5 => {
                    // the point is cut off
                    let raw = rmp_serde::to_vec(&q).unwrap();
                    let cut = src.usize(1, 4);
                    (Body::from(raw[..raw.len() - cut].to_vec()), None)
                }
                _ => {
                    let raw = rmp_serde::to_vec(&q).unwrap();
                    let parts: Vec<Result<Bytes, std::io::Error>> = vec![Ok(Bytes::from(raw)), Err(std::io::Error::new(std::io::ErrorKind::Other, "gone"))];
                    (Body::wrap_stream(futures::stream::iter(parts)), None)
                }
            };
            (Ask::Bad, request(m, route, enc, b))
        }
    }
}

fn check_list(tag: &str, v: &Value, key: &str, want: &[(f32, usize)], r: &CoverTreeReader<Cloud>) -> Res {
    let o = match v.as_object() {
        Some(o) if o.len() == 1 && o.contains_key(key) => o[key].as_array().cloned().unwrap_or_default(),
        _ => fail!(format!("{}_shape", tag), "{} instead of a list under {}", v, key),
    };
    ensure!(o.len() == want.len(), format!("{}_count", tag), "{} answers, the tree gives {}", o.len(), want.len());
    for (i, (x, (d, pi))) in o.iter().zip(want).enumerate() {
        let name = r.point_cloud().name(*pi).unwrap();
        ensure!(x["name"] == json!(name), format!("{}_name", tag), "answer {} is {}, the tree gives {:?} at {}", i, x, name, d);
        ensure!(num(&x["distance"]) as f32 == *d, format!("{}_distance", tag), "answer {} is {}, the tree gives {:?} at {}", i, x, name, d);
    }
    Ok(())
}

fn check_answer(w: &Snapshot, ask: &Ask, got: &Result<(u16, String), String>) -> Res {
    match ask {
        Ask::Bad => {
            ensure!(got.is_err() || got.as_ref().map(|g| g.0 >= 400).unwrap_or(false), "bad_accepted", "an unreadable body was answered with {:?}", got);
            if let Err(e) = got {
                ensure!(!e.contains("RecvFailed") && !e.contains("SendFailed") && !e.contains("no answer") && !e.contains("not ready"), "bad_kills", "an unreadable body ended the service: {}", e);
            }
            return Ok(());
        }
        _ => {}
    }
    let (status, text) = match got {
        Ok(x) => x,
        Err(e) => fail!("refused", "{:?} was refused: {}", ask, e),
    };
    match ask {
        Ask::BadK | Ask::BadWindow | Ask::Nowhere => {
            ensure!(*status == 404, "not_found", "{:?} gave {} {}", ask, status, text);
            return Ok(());
        }
        _ => ensure!(*status == 200, "status", "{:?} gave {} {}", ask, status, text),
    }
    let v: Value = match serde_json::from_str(text) {
        Ok(v) => v,
        Err(e) => fail!("json", "{:?} gave {} ({:?})", ask, text, e),
    };
    let r = &w.reader;
    match ask {
        Ask::Params => {
            let p = r.parameters();
            ensure!(num(&v["scale_base"]) as f32 == p.scale_base, "params", "{}", v);
            ensure!(v["leaf_cutoff"] == json!(p.leaf_cutoff) && v["min_res_index"] == json!(p.min_res_index) && v["use_singletons"] == json!(p.use_singletons), "params", "{}", v);
            ensure!(v["partition_type"] == json!(if w.p.first { "First" } else { "Nearest" }) && v["verbosity"] == json!(p.verbosity) && v["rng_seed"] == json!(w.p.seed), "params", "{}", v);
        }
        Ask::Knn(q, k) => check_list("knn", &v, "knn", &r.knn(&&q[..], *k).unwrap(), r)?,
        Ask::Routing(q, k) => check_list("routing", &v, "routing_knn", &r.routing_knn(&&q[..], *k).unwrap(), r)?,
        Ask::Path(q) => {
            let want = r.path(&&q[..]).unwrap();
            let got = match v["path"].as_array() {
                Some(g) => g.clone(),
                None => fail!("path_shape", "{}", v),
            };
            ensure!(got.len() == want.len(), "path_len", "{} against {:?}", v, want);
            for (x, (d, a)) in got.iter().zip(&want) {
                ensure!(x["name"] == json!(r.point_cloud().name(a.1).unwrap()) && x["layer"] == json!(a.0) && num(&x["distance"]) as f32 == *d, "path_node", "{} against {:?} {}", x, a, d);
                let s = r.get_node_label_summary(*a).map(|s| serde_json::to_value(&*s).unwrap()).unwrap_or(Value::Null);
                ensure!(x["label_summary"] == s, "path_summary", "{} against {}", x["label_summary"], s);
            }
        }
        _ => {}
    }
    Ok(())
}

struct Snapshot {
    reader: CoverTreeReader<Cloud>,
    p: Params,
}

fn p25_answers(src: &mut Src) -> Res {
    let rt = runtime(0);
    let _g = rt.enter();
    let w = world(src, 120);
    let (data, mut maker) = (w.data, w.maker);
    let snap = Snapshot { reader: w.reader, p: w.p };
    let n = src.usize(1, 10);
    if data.n >= 4 && n >= 3 {
        src.nontrivial();
    }
    rt.block_on(async {
        let mut hs = vec![];
        for _ in 0..src.usize(1, 3) {
            hs.push(client(&mut maker).await);
        }
        for _ in 0..n {
            let (ask, req) = gen_ask(src, &data);
            let h = src.usize(0, hs.len() - 1);
            src.describe(|| format!("client {} asks {:?}", h, ask));
            let got = send(&mut hs[h], req).await;
            check_answer(&snap, &ask, &got)?;
        }
        Ok(())
    })
}

/// Requests wait for each other and still get their own answers.
fn p25_queued(src: &mut Src) -> Res {
    let threads = src.usize(0, 3);
    let rt = runtime(threads);
    let _g = rt.enter();
    let w = world(src, 60);
    let (data, mut maker) = (w.data, w.maker);
    let snap = Snapshot { reader: w.reader, p: w.p };
    let n = src.usize(2, 16);
    if data.n >= 4 && n >= 4 {
        src.nontrivial();
    }
    rt.block_on(async {
        let mut hs = vec![];
        for _ in 0..src.usize(1, 3) {
            hs.push(client(&mut maker).await);
        }
        let mut waiting = vec![];
        for _ in 0..n {
            let (ask, req) = gen_ask(src, &data);
            let h = src.usize(0, hs.len() - 1);
            waiting.push((ask, hs[h].call(req)));
        }
        src.shuffle(&mut waiting);
        let (asks, futs): (Vec<Ask>, Vec<_>) = waiting.into_iter().unzip();
        let one_by_one = src.bool();
        let mut got = vec![];
        if one_by_one {
            for f in futs {
                match tokio::time::timeout(Duration::from_secs(60), f).await {
                    Ok(r) => got.push(finish(r).await),
                    Err(_) => fail!("silence", "no answer in 60 s"),
                }
            }
        } else {
            match tokio::time::timeout(Duration::from_secs(60), futures::future::join_all(futs)).await {
                Ok(rs) => {
                    for r in rs {
                        got.push(finish(r).await)
                    }
                }
                Err(_) => fail!("silence", "no answer in 60 s"),
            }
        }
        for (ask, g) in asks.iter().zip(&got) {
            check_answer(&snap, ask, g)?;
        }
        for h in &hs {
            ensure!(h.load() == 0, "load_left", "the load is {} with nothing in flight", h.load());
        }
        Ok(())
    })
}

/// Many coordinates: bodies of many pages.
fn p25_wide(src: &mut Src) -> Res {
    let rt = runtime(src.usize(0, 2));
    let _g = rt.enter();
    let dim = *src.pick(&[100, 500, 1500, 2100, 3000, 5000, 12000, 17000]);
    let n = src.usize(2, 12);
    let data = gen_data_with(src, n, dim);
    let p = gen_params(src, n);
    let cloud = RichCloud { data: DataRam::new(data.v.clone(), dim).unwrap(), labels: cells(src, n), meta: cells(src, n), names: (0..n).map(|i| format!("w{}", i)).collect() };
    src.describe(|| format!("{} points of {} coordinates, {:?}", n, dim, p));
    let mut w = builder(&p).build(Arc::new(cloud)).unwrap();
    w.generate_summaries();
    add_dirichlet(&mut w);
    let snap = Snapshot { reader: w.reader(), p };
    let mut maker: Maker = MakeGokoHttp::new(Arc::new(CoreWriter::new(w)));
    src.nontrivial();
    let m = src.usize(2, 5);
    rt.block_on(async {
        let mut h = client(&mut maker).await;
        for _ in 0..m {
            let (ask, req) = gen_ask(src, &data);
            let got = send(&mut h, req).await;
            check_answer(&snap, &ask, &got)?;
        }
        ensure!(h.load() == 0, "load_left", "the load is {} with nothing in flight", h.load());
        Ok(())
    })
}

/// Long answers: every neighbour that was asked for is there.
fn p25_many(src: &mut Src) -> Res {
    let rt = runtime(src.usize(0, 2));
    let _g = rt.enter();
    let n = src.usize(900, 2600);
    let dim = src.usize(1, 3);
    let data = gen_data_with(src, n, dim);
    let p = gen_params(src, n);
    let cloud = RichCloud { data: DataRam::new(data.v.clone(), dim).unwrap(), labels: cells(src, n), meta: cells(src, n), names: (0..n).map(|i| format!("m{}", i)).collect() };
    src.describe(|| format!("{} points of {} coordinates, {:?}", n, dim, p));
    let w = builder(&p).build(Arc::new(cloud)).unwrap();
    let snap = Snapshot { reader: w.reader(), p };
    let mut maker: Maker = MakeGokoHttp::new(Arc::new(CoreWriter::new(w)));
    src.nontrivial();
    rt.block_on(async {
        let mut h = client(&mut maker).await;
        for _ in 0..3 {
            let q = gen_query(src, &data);
            let k = match src.draw(4) {
                0 => n,
                1 => n + src.usize(1, 4000),
                2 => *src.pick(&[100, 128, 255, 256, 500, 512, 1000, 1001, 1024, 2048]),
                _ => src.usize(1, n),
            };
            let (bytes, enc) = encode(src, &q);
            let b = body(src, &bytes);
            let (ask, req) = if src.bool() {
                (Ask::Knn(q, k), request(Method::GET, &format!("/knn?k={}", k), enc, b))
            } else {
                (Ask::Routing(q, k), request(Method::GET, &format!("/routing_knn?k={}", k), enc, b))
            };
            let got = send(&mut h, req).await;
            check_answer(&snap, &ask, &got)?;
        }
        Ok(())
    })
}

/// Over a real socket.
fn p25_tcp(src: &mut Src) -> Res {
    let rt = runtime(2);
    let _g = rt.enter();
    let w = world(src, 60);
    let (data, maker) = (w.data, w.maker);
    let snap = Snapshot { reader: w.reader, p: w.p };
    let n = src.usize(1, 6);
    if data.n >= 4 && n >= 2 {
        src.nontrivial();
    }
    rt.block_on(async {
        let addr = ([127, 0, 0, 1], 0).into();
        let server = hyper::Server::bind(&addr).serve(maker);
        let port = server.local_addr().port();
        let talk = async {
        let mut c = hyper::Client::new();
        for _ in 0..n {
            let (ask, mut req) = gen_ask(src, &data);
            let pq = req.uri().path_and_query().map(|x| x.to_string()).unwrap_or_default();
            *req.uri_mut() = format!("http://127.0.0.1:{}{}", port, pq).parse().unwrap();
            // hyper's client drops the body of a GET of unknown length unless it is told to send it in chunks
            if hyper::body::HttpBody::size_hint(req.body()).exact().is_none() {
                req.headers_mut().insert("transfer-encoding", "chunked".parse().unwrap());
            }
            src.describe(|| format!("{:?}", ask));
            let got = match tokio::time::timeout(Duration::from_secs(60), c.request(req)).await {
                Err(_) => Err("no answer in 60 s".to_string()),
                Ok(Err(e)) => Err(format!("{:?}", e)),
                Ok(Ok(r)) => {
                    let s = r.status().as_u16();
                    match hyper::body::to_bytes(r.into_body()).await {
                        Ok(b) => Ok((s, String::from_utf8_lossy(&b).to_string())),
                        Err(e) => Err(format!("{:?}", e)),
                    }
                }
            };
            // what a client that hangs up mid body sees is up to the transport
            if let Ask::Bad = ask {
                ensure!(got.is_err() || got.as_ref().unwrap().0 >= 400, "tcp_bad", "an unreadable body was answered with {:?}", got);
                // the server closes this connection
                c = hyper::Client::new();
            } else if got.is_ok() || !matches!(ask, Ask::BadK | Ask::Nowhere) {
                check_answer(&snap, &ask, &got)?;
            }
            // a server may answer and close a connection whose request it did not read to the end,
            // then it is up to the transport whether the client sees the answer or fails to send the rest
            if let Ask::BadK | Ask::Nowhere = ask {
                c = hyper::Client::new();
            }
        }
        Ok(())
        };
        tokio::select! {
            r = talk => r,
            e = server => fail!("server_ended", "{:?}", e),
        }
    })
}

// ---------------------------------------------------------------- P26

type Models = BTreeMap<Option<String>, BTreeMap<usize, BayesCategoricalTracker<Cloud>>>;

fn track_uri(src: &mut Src, what: &str, name: &Option<String>, window: Option<usize>) -> String {
    let mut q = vec![];
    if let Some(w) = window {
        q.push(format!("window_size={}", w));
    }
    if let Some(n) = name {
        q.push(format!("tracker_name={}", n));
    }
    if src.chance(1, 4) {
        q.push("noise=12".to_string());
    }
    if src.bool() {
        q.reverse();
    }
    if q.is_empty() {
        format!("/track/{}", what)
    } else {
        format!("/track/{}?{}", what, q.join("&"))
    }
}

fn f(v: &Value) -> f64 {
    num(v)
}

fn check_stats(tag: &str, v: &Value, t: &BayesCategoricalTracker<Cloud>) -> Res {
    let s = t.kl_div_stats();
    let v = &v["CurrentStats"];
    ensure!(v.is_object(), format!("{}_shape", tag), "{}", v);
    let same = |a: f64, b: f64| (a.is_nan() && !b.is_finite()) || close(a, b, 1e-8, 1e-10);
    ensure!(v["sequence_len"] == json!(s.sequence_len), format!("{}_sequence_len", tag), "{} against {}", v, s.sequence_len);
    ensure!(same(f(&v["kl_div"]), t.kl_div()), format!("{}_kl_div", tag), "{} against {}", v, t.kl_div());
    // whether a divergence that is nothing but rounding counts as non-zero is up to the order of the sums
    let edge = t.all_node_kl().iter().any(|(k, _)| k.abs() < 1e-8);
    if !edge {
        ensure!(v["nz_count"] == json!(s.nz_count), format!("{}_nz_count", tag), "{} against {}", v, s.nz_count);
        ensure!(same(f(&v["max"]), s.max) && same(f(&v["min"]), s.min), format!("{}_extremes", tag), "{} against {} {}", v, s.min, s.max);
    }
    ensure!(same(f(&v["moment1_nz"]), s.moment1_nz) && same(f(&v["moment2_nz"]), s.moment2_nz), format!("{}_moments", tag), "{} against {} {}", v, s.moment1_nz, s.moment2_nz);
    Ok(())
}

fn parsed(tag: &str, got: Result<(u16, String), String>) -> Result<Value, pbt::Fail> {
    match got {
        Ok((200, t)) => match serde_json::from_str(&t) {
            Ok(v) => Ok(v),
            Err(e) => fail!(format!("{}_json", tag), "{} ({:?})", t, e),
        },
        other => fail!(format!("{}_refused", tag), "{:?}", other),
    }
}

fn gen_window(src: &mut Src) -> usize {
    match src.draw(8) {
        0 => *src.pick(&[10, 12, 30, 50, 100, 101, 1000, 1001, 10000, 10001, 99999, 100000, 1 << 33, 256, 257, 65537, 65538, (1 << 32) + 1, (1 << 32) + 2]),
        _ => src.usize(0, 5),
    }
}

fn gen_name(src: &mut Src) -> Option<String> {
    match src.draw(7) {
        5 => Some(src.pick(&["a1", "a12", "_", "0", "00", "aa", "default", "main", "tracker_name", "None"]).to_string()),
        6 => Some(format!("{}{}", "long_name_".repeat(src.usize(1, 12)), src.draw(2))),
        0 | 1 => None,
        2 => Some("a".to_string()),
        3 => Some("b_2".to_string()),
        _ => Some("A".to_string()),
    }
}

fn p26_trackers(src: &mut Src) -> Res {
    let rt = runtime(0);
    let _g = rt.enter();
    let w = world(src, 60);
    let (data, mut maker, reader, mut core) = (w.data, w.maker, w.reader, w.core.reader());
    let snap = Snapshot { reader: reader.clone(), p: w.p };
    let ops = src.usize(3, 40);
    let mut models: Models = BTreeMap::new();
    models.insert(None, BTreeMap::new());
    let (mut added, mut points) = (0, 0);
    rt.block_on(async {
        let mut hs = vec![];
        for _ in 0..src.usize(1, 3) {
            hs.push(client(&mut maker).await);
        }
        for _ in 0..ops {
            if src.chance(1, 12) && hs.len() < 6 {
                hs.push(client(&mut maker).await);
            }
            if src.chance(1, 16) && hs.len() > 1 {
                hs.pop();
            }
            let h = src.usize(0, hs.len() - 1);
            let name = gen_name(src);
            match src.draw(10) {
                8 | 9 => {
                    // the same through the core, where whole paths can be tracked
                    let q = gen_query(src, &data);
                    let path = reader.path(&&q[..]).unwrap();
                    let win = gen_window(src);
                    let kind = src.draw(4);
                    src.describe(|| format!("core {} {:?} window {} {:?}", kind, name, win, q));
                    let choice = match kind {
                        0 => TrackingRequestChoice::AddTracker(AddTrackerRequest { window_size: win }),
                        1 => TrackingRequestChoice::CurrentStats(CurrentStatsRequest { window_size: win }),
                        2 => TrackingRequestChoice::TrackPath(TrackPathRequest { path: path.clone() }),
                        _ => TrackingRequestChoice::TrackPoint(TrackPointRequest { point: q.clone() }),
                    };
                    let got = tokio::time::timeout(Duration::from_secs(60), core.process(GokoRequest::Tracking(TrackingRequest { tracker_name: name.clone(), request: choice }))).await;
                    let v = match got {
                        Ok(Ok(GokoResponse::Tracking(r))) => serde_json::to_value(&r).unwrap(),
                        Ok(Ok(_)) => fail!("core_kind", "another kind of answer"),
                        Ok(Err(e)) => fail!("core_refused", "{:?}", e),
                        Err(_) => fail!("silence", "no answer in 60 s"),
                    };
                    if kind == 0 {
                        let m = models.entry(name).or_insert_with(BTreeMap::new);
                        let fresh = !m.contains_key(&win);
                        ensure!(v == json!({"AddTracker": {"success": fresh}}), "core_add", "{} when the tracker is {}", v, if fresh { "new" } else { "already there" });
                        if fresh {
                            m.insert(win, BayesCategoricalTracker::new(win, reader.clone()));
                        }
                    } else {
                        match models.get_mut(&name) {
                            None => ensure!(v == json!({"Unknown": [name, null]}), "core_unknown", "{}", v),
                            Some(m) if kind == 1 => match m.get(&win) {
                                None => ensure!(v == json!({"Unknown": [name, win]}), "core_unknown", "{}", v),
                                Some(t) => check_stats("core", &v, t)?,
                            },
                            Some(m) => {
                                for t in m.values_mut() {
                                    t.add_path(path.clone());
                                    points += 1;
                                }
                            }
                        }
                    }
                }
                0 | 1 => {
                    let win = gen_window(src);
                    let uri = track_uri(src, "add", &name, Some(win));
                    src.describe(|| format!("client {} POST {}", h, uri));
                    let v = parsed("add", send(&mut hs[h], request(Method::POST, &uri, None, Body::empty())).await)?;
                    let m = models.entry(name).or_insert_with(BTreeMap::new);
                    let fresh = !m.contains_key(&win);
                    ensure!(v == json!({"AddTracker": {"success": fresh}}), "add", "{} when the tracker is {}", v, if fresh { "new" } else { "already there" });
                    if fresh {
                        m.insert(win, BayesCategoricalTracker::new(win, reader.clone()));
                        added += 1;
                    }
                }
                2 | 3 | 4 => {
                    let q = gen_query(src, &data);
                    let (bytes, enc) = encode(src, &q);
                    let uri = track_uri(src, "point", &name, None);
                    src.describe(|| format!("client {} POST {} {:?}", h, uri, q));
                    let b = body(src, &bytes);
                    let v = parsed("point", send(&mut hs[h], request(Method::POST, &uri, enc, b)).await)?;
                    match models.get_mut(&name) {
                        None => ensure!(v == json!({"Unknown": [name, null]}), "point_unknown", "{}", v),
                        Some(m) => {
                            ensure!(v == json!({"TrackPath": {"success": !m.is_empty()}}), "point", "{} with {} trackers", v, m.len());
                            let path = reader.path(&&q[..]).unwrap();
                            for t in m.values_mut() {
                                t.add_path(path.clone());
                                points += 1;
                            }
                        }
                    }
                }
                5 | 6 => {
                    let win = gen_window(src);
                    let uri = track_uri(src, "stats", &name, Some(win));
                    src.describe(|| format!("client {} GET {}", h, uri));
                    let v = parsed("stats", send(&mut hs[h], request(Method::GET, &uri, None, Body::empty())).await)?;
                    match models.get(&name) {
                        None => ensure!(v == json!({"Unknown": [name, null]}), "stats_unknown", "{}", v),
                        Some(m) => match m.get(&win) {
                            None => ensure!(v == json!({"Unknown": [name, win]}), "stats_unknown", "{}", v),
                            Some(t) => check_stats("stats", &v, t)?,
                        },
                    }
                }
                _ => {
                    let (ask, req) = gen_ask(src, &data);
                    src.describe(|| format!("client {} asks {:?}", h, ask));
                    let got = send(&mut hs[h], req).await;
                    check_answer(&snap, &ask, &got)?;
                }
            }
        }
        // everything that was tracked is there, whoever asks
        let mut late = client(&mut maker).await;
        for (name, m) in &models {
            for (win, t) in m {
                let uri = track_uri(src, "stats", name, Some(*win));
                let v = parsed("final", send(&mut late, request(Method::GET, &uri, None, Body::empty())).await)?;
                check_stats("final", &v, t)?;
            }
        }
        for h in &hs {
            ensure!(h.load() == 0, "load_left", "the load is {} with nothing in flight", h.load());
        }
        if added >= 2 && points >= 3 {
            src.nontrivial();
        }
        Ok(())
    })
}

/// Many names and many windows under one name.
fn p26_crowd(src: &mut Src) -> Res {
    let rt = runtime(0);
    let _g = rt.enter();
    let w = world(src, 40);
    let (data, mut maker, reader) = (w.data, w.maker, w.reader);
    let (names, windows) = if src.bool() { (src.usize(20, 300), src.usize(1, 2)) } else { (src.usize(1, 3), src.usize(9, 80)) };
    let name = |i: usize| if i == 0 { None } else { Some(format!("t{}", i)) };
    let mut models: Models = BTreeMap::new();
    src.describe(|| format!("{} {} names, {} windows", data.show(), names, windows));
    rt.block_on(async {
        let mut h = client(&mut maker).await;
        for i in 0..names {
            for win in 0..windows {
                let uri = track_uri(src, "add", &name(i), Some(win));
                let v = parsed("add", send(&mut h, request(Method::POST, &uri, None, Body::empty())).await)?;
                ensure!(v == json!({"AddTracker": {"success": true}}), "crowd_add", "{} {} when the tracker is new", uri, v);
                models.entry(name(i)).or_insert_with(BTreeMap::new).insert(win, BayesCategoricalTracker::new(win, reader.clone()));
            }
        }
        for _ in 0..src.usize(1, 40) {
            let n = name(src.usize(0, names - 1));
            let q = gen_query(src, &data);
            let (bytes, enc) = encode(src, &q);
            let uri = track_uri(src, "point", &n, None);
            let b = body(src, &bytes);
            let v = parsed("point", send(&mut h, request(Method::POST, &uri, enc, b)).await)?;
            ensure!(v == json!({"TrackPath": {"success": true}}), "crowd_point", "{} {}", uri, v);
            let path = reader.path(&&q[..]).unwrap();
            for t in models.get_mut(&n).unwrap().values_mut() {
                t.add_path(path.clone());
            }
        }
        for (n, m) in &models {
            for (win, t) in m {
                let uri = track_uri(src, "stats", n, Some(*win));
                let v = parsed("stats", send(&mut h, request(Method::GET, &uri, None, Body::empty())).await)?;
                check_stats("crowd", &v, t)?;
            }
        }
        src.nontrivial();
        Ok(())
    })
}

/// Clients that open trackers under a name nobody has used yet, at the same moment.
fn p26_together(src: &mut Src) -> Res {
    let threads = src.usize(2, 6);
    let rt = runtime(threads);
    let _g = rt.enter();
    let w = world(src, 40);
    let (data, mut maker, reader) = (w.data, w.maker, w.reader);
    let clients = src.usize(2, 6);
    let rounds = src.usize(4, 24);
    // the windows the clients ask for: all different, all the same, or some of each
    let windows: Vec<usize> = match src.draw(3) {
        0 => (0..clients).collect(),
        1 => vec![src.usize(0, 5); clients],
        _ => (0..clients).map(|_| src.usize(0, 2)).collect(),
    };
    let points: Vec<Vec<f32>> = (0..clients).map(|_| gen_query(src, &data)).collect();
    src.describe(|| format!("{} {} threads, {} rounds, windows {:?}", data.show(), threads, rounds, windows));
    src.nontrivial();
    rt.block_on(async {
        let mut hs: Vec<Option<Http>> = vec![];
        for _ in 0..clients {
            hs.push(Some(client(&mut maker).await));
        }
        for round in 0..rounds {
            let gate = Arc::new(tokio::sync::Barrier::new(clients));
            let mut tasks = vec![];
            for i in 0..clients {
                let mut h = hs[i].take().unwrap();
                let (gate, win) = (Arc::clone(&gate), windows[i]);
                tasks.push(tokio::spawn(async move {
                    let uri = format!("/track/add?window_size={}&tracker_name=r{}", win, round);
                    gate.wait().await;
                    let v = parsed("together_add", send(&mut h, request(Method::POST, &uri, None, Body::empty())).await);
                    (h, v)
                }));
            }
            let mut opened: BTreeMap<usize, usize> = BTreeMap::new();
            for (i, t) in tasks.into_iter().enumerate() {
                let (h, v) = match tokio::time::timeout(Duration::from_secs(60), t).await {
                    Ok(Ok(x)) => x,
                    Ok(Err(e)) => fail!("together_panic", "{:?}", e),
                    Err(_) => fail!("together_silence", "no answer in 60 s"),
                };
                hs[i] = Some(h);
                let v = v?;
                let yes = v == json!({"AddTracker": {"success": true}});
                ensure!(yes || v == json!({"AddTracker": {"success": false}}), "together_answer", "{}", v);
                *opened.entry(windows[i]).or_insert(0) += yes as usize;
            }
            for (win, n) in &opened {
                ensure!(*n == 1, "together_opened", "{} of the clients that asked for the window {} at once were told that they opened it", n, win);
            }
            // one after the other: every tracker that was opened sees every point
            let mut models: BTreeMap<usize, BayesCategoricalTracker<Cloud>> = opened.keys().map(|w| (*w, BayesCategoricalTracker::new(*w, reader.clone()))).collect();
            for (i, q) in points.iter().enumerate() {
                let uri = format!("/track/point?tracker_name=r{}", round);
                let v = parsed("together_point", send(hs[i].as_mut().unwrap(), request(Method::POST, &uri, None, Body::from(rmp_serde::to_vec(q).unwrap()))).await)?;
                ensure!(v == json!({"TrackPath": {"success": true}}), "together_point", "{}", v);
                let path = reader.path(&&q[..]).unwrap();
                models.values_mut().for_each(|m| m.add_path(path.clone()));
            }
            for (win, m) in &models {
                let uri = format!("/track/stats?window_size={}&tracker_name=r{}", win, round);
                let v = parsed("together_stats", send(hs[0].as_mut().unwrap(), request(Method::GET, &uri, None, Body::empty())).await)?;
                check_stats("together", &v, m)?;
            }
        }
        Ok(())
    })
}

/// Clients at the same time: trackers of their own, and one that all share.
fn p26_concurrent(src: &mut Src) -> Res {
    let threads = src.usize(1, 4);
    let rt = runtime(threads);
    let _g = rt.enter();
    let w = world(src, 60);
    let (data, mut maker, reader) = (w.data, w.maker, w.reader);
    let clients = src.usize(2, 5);
    let per = src.usize(1, 12);
    let win = src.usize(0, 6);
    let burst = src.bool();
    src.describe(|| format!("{} clients with {} points each, window {}", clients, per, win));
    if per >= 3 {
        src.nontrivial();
    }
    let plans: Vec<Vec<Vec<f32>>> = (0..clients).map(|_| (0..per).map(|_| gen_query(src, &data)).collect()).collect();
    let plans2 = plans.clone();
    let maker2 = &mut maker;
    rt.block_on(async move {
        let mut first = client(maker2).await;
        parsed("shared_add", send(&mut first, request(Method::POST, "/track/add?window_size=0&tracker_name=shared", None, Body::empty())).await)?;
        let mut tasks = vec![];
        for (i, plan) in plans2.into_iter().enumerate() {
            let mut h = client(maker2).await;
            tasks.push(tokio::spawn(async move {
                let own = format!("c{}", i);
                let add = format!("/track/add?window_size={}&tracker_name={}", win, own);
                let v = parsed("own_add", send(&mut h, request(Method::POST, &add, None, Body::empty())).await)?;
                ensure!(v == json!({"AddTracker": {"success": true}}), "own_add", "{}", v);
                let mut futs = vec![];
                for q in &plan {
                    let bytes = rmp_serde::to_vec(q).unwrap();
                    for name in &[&own[..], "shared"] {
                        let r = request(Method::POST, &format!("/track/point?tracker_name={}", name), None, Body::from(bytes.clone()));
                        if burst {
                            futs.push(h.call(r));
                        } else {
                            let v = parsed("own_point", send(&mut h, r).await)?;
                            ensure!(v == json!({"TrackPath": {"success": true}}), "own_point", "{}", v);
                        }
                    }
                }
                for r in futures::future::join_all(futs).await {
                    let v = parsed("own_point", finish(r).await)?;
                    ensure!(v == json!({"TrackPath": {"success": true}}), "own_point", "{}", v);
                }
                ensure!(h.load() == 0, "load_left", "the load is {} with nothing in flight", h.load());
                Ok::<Http, pbt::Fail>(h)
            }));
        }
        for t in tasks {
            match tokio::time::timeout(Duration::from_secs(60), t).await {
                Ok(Ok(r)) => {
                    r?;
                }
                Ok(Err(e)) => fail!("client_panic", "{:?}", e),
                Err(_) => fail!("silence", "no answer in 60 s"),
            }
        }
        let mut shared = BayesCategoricalTracker::new(0, reader.clone());
        for (i, plan) in plans.iter().enumerate() {
            let mut own = BayesCategoricalTracker::new(win, reader.clone());
            for q in plan {
                let p = reader.path(&&q[..]).unwrap();
                own.add_path(p.clone());
                shared.add_path(p);
            }
            let v = parsed("own_stats", send(&mut first, request(Method::GET, &format!("/track/stats?window_size={}&tracker_name=c{}", win, i), None, Body::empty())).await)?;
            check_stats("own", &v, &own)?;
        }
        let v = parsed("shared_stats", send(&mut first, request(Method::GET, "/track/stats?window_size=0&tracker_name=shared", None, Body::empty())).await)?;
        check_stats("shared", &v, &shared)?;
        Ok(())
    })
}

/// The load is the number of requests that are not answered yet.
fn p26_load(src: &mut Src) -> Res {
    let rt = runtime(0);
    let _g = rt.enter();
    let w = world(src, 20);
    let (data, mut maker) = (w.data, w.maker);
    let snap = Snapshot { reader: w.reader, p: w.p };
    let ops = src.usize(3, 30);
    rt.block_on(async {
        let mut h = client(&mut maker).await;
        let mut waiting: Vec<(Ask, hyper::body::Sender, Vec<u8>, serve_goko::http::ResponseFuture)> = vec![];
        let mut most = 0;
        let mut answered = vec![];
        for _ in 0..ops {
            match src.draw(4) {
                0 | 1 => {
                    let q = gen_query(src, &data);
                    let bytes = rmp_serde::to_vec(&q).unwrap();
                    let (s, b) = Body::channel();
                    let fut = h.call(request(Method::GET, "/knn?k=3", None, b));
                    waiting.push((Ask::Knn(q, 3), s, bytes, fut));
                }
                2 => {
                    // the oldest gets its body and is answered
                    if !waiting.is_empty() {
                        let (ask, mut s, bytes, fut) = waiting.remove(0);
                        let fail_it = src.chance(1, 4);
                        let feeder = tokio::spawn(async move {
                            if fail_it {
                                s.abort();
                            } else {
                                let _ = s.send_data(Bytes::from(bytes)).await;
                            }
                        });
                        let mut fut = Box::pin(fut);
                        let got = match tokio::time::timeout(Duration::from_secs(60), fut.as_mut()).await {
                            Ok(r) => finish(r).await,
                            Err(_) => fail!("silence", "no answer in 60 s"),
                        };
                        // the caller may keep the future that has been answered
                        if src.bool() {
                            answered.push(fut);
                        } else {
                            drop(fut);
                        }
                        feeder.await.ok();
                        if fail_it {
                            ensure!(got.is_err(), "aborted", "an aborted body was answered with {:?}", got);
                        } else {
                            check_answer(&snap, &ask, &got)?;
                        }
                    }
                }
                _ => {
                    // someone gives up, the body still arrives
                    if !waiting.is_empty() {
                        let i = src.usize(0, waiting.len() - 1);
                        let (_, mut s, bytes, fut) = waiting.remove(i);
                        drop(fut);
                        tokio::spawn(async move {
                            let _ = s.send_data(Bytes::from(bytes)).await;
                        });
                    }
                }
            }
            for _ in 0..src.usize(0, 2) {
                tokio::task::yield_now().await;
            }
            ensure!(h.load() as usize == waiting.len(), "load", "the load is {} with {} requests in flight", h.load(), waiting.len());
            most = most.max(waiting.len());
        }
        if most >= 2 {
            src.nontrivial();
        }
        Ok(())
    })
}

/// A point with the wrong number of coordinates.
fn p26_wrong_dim(src: &mut Src) -> Res {
    let rt = runtime(0);
    let _g = rt.enter();
    let dim = src.usize(1, 40);
    let n = src.usize(2, 20);
    let data = gen_data_with(src, n, dim);
    let p = gen_params(src, n);
    let cloud = RichCloud {
        data: DataRam::new(data.v.clone(), dim).unwrap(),
        labels: vec![Ok(None); n],
        meta: vec![Ok(None); n],
        names: (0..n).map(|i| i.to_string()).collect(),
    };
    let mut w = builder(&p).build(Arc::new(cloud)).unwrap();
    add_dirichlet(&mut w);
    let mut maker: Maker = MakeGokoHttp::new(Arc::new(CoreWriter::new(w)));
    let len = if src.bool() { src.usize(0, dim.saturating_sub(1)) } else { dim + src.usize(1, 20) };
    src.describe(|| format!("{} coordinates sent, the cloud has {}", len, dim));
    src.nontrivial();
    src.class(if len < dim { "short" } else { "long" });
    let q: Vec<f32> = (0..len).map(|i| i as f32).collect();
    rt.block_on(async {
        let mut a = client(&mut maker).await;
        let mut b = client(&mut maker).await;
        parsed("add", send(&mut b, request(Method::POST, "/track/add?window_size=3", None, Body::empty())).await)?;
        let bytes = rmp_serde::to_vec(&q).unwrap();
        let _ = send(&mut a, request(Method::POST, "/track/point", None, Body::from(bytes))).await;
        let good = rmp_serde::to_vec(&data.row(0).to_vec()).unwrap();
        let got = send(&mut b, request(Method::POST, "/track/point", None, Body::from(good))).await;
        match got {
            Ok((200, _)) => Ok(()),
            other => fail!(if len < dim { "short_point_ends_tracking" } else { "long_point_ends_tracking" }, "after {} coordinates for dimension {} by one client, another client's tracking gives {:?}", len, dim, other),
        }
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P25",
            rule: "at least 4 points and 3 requests (4 when they queue, 2 over a socket)",
            assumptions: vec!["query points have the dimension of the cloud", "the tree carries the plugins the request needs"],
            subs: vec![sub("answers", p25_answers, 8000, 200000), sub("queued", p25_queued, 4000, 100000), sub("tcp", p25_tcp, 400, 8000), sub("wide", p25_wide, 240, 4000), sub("many", p25_many, 64, 1500)],
        },
        Prop {
            id: "P26",
            rule: "at least 2 trackers and 3 tracked points; 3 points per client; 2 requests in flight at once",
            assumptions: vec!["the tree carries the Dirichlet plugin", "statistics are compared with a slack of 1e-8"],
            subs: vec![sub("trackers", p26_trackers, 6000, 150000), sub("concurrent", p26_concurrent, 1500, 40000), sub("load", p26_load, 4000, 100000), sub("wrong_dim", p26_wrong_dim, 400, 8000), sub("crowd", p26_crowd, 160, 4000), sub("together", p26_together, 600, 20000)],
        },
    ]
}
