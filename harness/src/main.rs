//! Executes call scripts (one JSON object per line) against the fnntw crate and
//! writes every call with its outcome, projected to lattice integers, as the
//! trace that the TLA+ specification validates.  Uses the public API only.
use fnntw::point::{Float, Point};
use fnntw::utils::FnntwError;
use fnntw::{Node, NotNan, Tree};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex, OnceLock};

trait Fl: Float + std::fmt::Debug + 'static {
    const EPS: f64;
}
impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
}
impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
}

#[cfg(feature = "work")]
mod effort;
#[cfg(feature = "work")]
impl Fl for effort::Cnt {
    const EPS: f64 = f64::EPSILON;
}

type Obj = Map<String, Value>;

/// counts the bytes in use
#[cfg(feature = "count")]
mod count {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicIsize, Ordering};
    pub static LIVE: AtomicIsize = AtomicIsize::new(0);
    struct Counting;
    // SAFETY: defers to the system's allocator
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(l.size() as isize, Ordering::Relaxed);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed);
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
}

/// bytes in use, once finished threads have gone
fn in_use() -> i64 {
    #[cfg(feature = "count")]
    {
        std::thread::sleep(std::time::Duration::from_millis(3));
        count::LIVE.load(Ordering::SeqCst) as i64
    }
    #[cfg(not(feature = "count"))]
    0
}

/// Does f many times, in windows, until in one of them the memory in use did not
/// grow; how much it grew in the window where it grew least.
fn growth(n: usize, mut f: impl FnMut()) -> i64 {
    const WINDOWS: usize = 40;
    for _ in 0..n.min(20) {
        f();
    }
    let mut least = i64::MAX;
    let mut last = in_use();
    for _ in 0..WINDOWS {
        for _ in 0..n {
            f();
        }
        let now = in_use();
        least = least.min(now - last);
        last = now;
        if least <= 0 {
            break;
        }
    }
    least.max(0)
}

const SQRT: bool = cfg!(feature = "sqrt");
const BADINT: i64 = 999_999_999;

/// x * 2^e, exact wherever the result is representable
fn scaled(x: f64, e: i32) -> f64 {
    let h = e / 2;
    x * pow2(h) * pow2(e - h)
}

fn pow2(e: i32) -> f64 {
    // exact, also outside the range of a single powi call
    let mut r = 1.0f64;
    let step = if e < 0 { 0.5 } else { 2.0 };
    for _ in 0..e.abs() {
        r *= step;
    }
    r
}

/// How lattice integers map to floats: real = (off + c) * 2^sc
#[derive(Clone)]
struct Frame {
    sc: i32,
    off: Vec<f64>,
    /// squared distances overflow or vanish: only the order of distances is reported
    wild: bool,
    /// squared distances are up to 2^53, reported as bounds in two parts
    wide: bool,
    /// write zero coordinates as -0.0: 1 all of them, 2 every other
    nz: u64,
    /// one axis whose lattice has another scale (a power of two more)
    apart: Option<(usize, i32)>,
}

/// a squared distance in two parts (base 2^26)
const BASE: f64 = 67108864.0;
fn parts(m: f64) -> Value {
    if !(m >= 0.0) || m >= 9007199254740992.0 {
        return json!([-1, 0]);
    }
    let h = (m / BASE).floor();
    json!([h as i64, (m - h * BASE) as i64])
}

impl Frame {
    fn of(o: &Obj) -> Frame {
        let sc = o.get("sc").and_then(|v| v.as_i64()).unwrap_or(0) as i32;
        let off = match o.get("off") {
            Some(v) => v
                .as_array()
                .unwrap()
                .iter()
                .map(|x| x.as_str().unwrap().parse::<f64>().unwrap())
                .collect(),
            None => vec![],
        };
        let flag = |k: &str| o.get(k).and_then(|v| v.as_bool()).unwrap_or(false);
        let apart = o.get("apart").map(|v| (v[0].as_u64().unwrap() as usize, v[1].as_i64().unwrap() as i32));
        let wild = flag("wild") || apart.is_some();
        Frame { sc, off, wild, wide: flag("wide"), apart, nz: o.get("nz").and_then(|v| v.as_u64()).unwrap_or(0) }
    }
    /// the exponent of an axis
    fn exp(&self, axis: usize) -> i32 {
        match self.apart {
            Some((a, e)) if a == axis => self.sc + e,
            _ => self.sc,
        }
    }
    /// how the two parts of an axis-split answer are read
    fn split(&self, axis: usize) -> (Frame, Frame) {
        match self.apart {
            Some((a, _)) if a == axis => (
                Frame { sc: self.exp(axis), wild: false, ..self.clone() },
                Frame { wild: false, ..self.clone() },
            ),
            _ => (self.clone(), self.clone()),
        }
    }
    fn real<T: Fl>(&self, c: i64, axis: usize) -> T {
        let x = scaled(self.off.get(axis).copied().unwrap_or(0.0) + c as f64, self.exp(axis));
        let t: T = T::from(x).unwrap();
        if t.to_f64().unwrap() != x {
            eprintln!("TOOL-ERROR: coordinate {x} is not representable");
            std::process::exit(3);
        }
        static ZEROS: AtomicUsize = AtomicUsize::new(0);
        if self.nz > 0 && x == 0.0 && ZEROS.fetch_add(1, Ordering::Relaxed) % self.nz as usize == 0 {
            -T::zero()
        } else {
            t
        }
    }
    fn len<T: Fl>(&self, c: i64) -> T {
        T::from(scaled(c as f64, self.sc)).unwrap()
    }
    fn point<T: Fl, const D: usize>(&self, v: &Value) -> [T; D] {
        let a = v.as_array().unwrap();
        assert_eq!(a.len(), D);
        let mut p = [T::zero(); D];
        for i in 0..D {
            p[i] = self.real(a[i].as_i64().unwrap(), i);
        }
        p
    }
    /// lattice coordinate of a float, or a value that no lattice point has
    fn lattice<T: Fl>(&self, x: T, axis: usize) -> i64 {
        let y = scaled(x.to_f64().unwrap(), -self.exp(axis)) - self.off.get(axis).copied().unwrap_or(0.0);
        if y == y.trunc() && y.abs() < 9e8 {
            y as i64
        } else {
            BADINT
        }
    }
    /// squared lattice distance of a squared distance
    fn sq<T: Fl>(&self, r: T) -> i64 {
        let y = scaled(scaled(r.to_f64().unwrap(), -self.sc), -self.sc);
        if !(y >= 0.0) || y > 2e9 {
            return -1;
        }
        let m = y.round();
        if (y - m).abs() <= 4.0 * T::EPS * m {
            m as i64
        } else {
            -1
        }
    }
    /// squared lattice distance of a distance
    fn root<T: Fl>(&self, r: T) -> i64 {
        let y = scaled(r.to_f64().unwrap(), -self.sc);
        if !(y >= 0.0) || y > 44000.0 {
            return -1;
        }
        let m = (y * y).round();
        let s = m.sqrt();
        if (y - s).abs() <= 4.0 * T::EPS * s {
            m as i64
        } else {
            -1
        }
    }
    /// results of a query
    fn dists<T: Fl>(&self, v: &[T]) -> Value {
        if self.wild {
            // only the order of the values
            let mut u: Vec<f64> = v.iter().map(|x| x.to_f64().unwrap()).collect();
            u.sort_by(|a, b| a.total_cmp(b));
            u.dedup();
            let rank = |x: &T| {
                let y = x.to_f64().unwrap();
                if y >= 0.0 {
                    u.iter().position(|z| *z == y).unwrap_or(0) as i64
                } else {
                    -1
                }
            };
            return json!(v.iter().map(rank).collect::<Vec<_>>());
        }
        if self.wide {
            return json!(v.iter().map(|x| self.bounds(*x)).collect::<Vec<_>>());
        }
        json!(v.iter().map(|x| self.dist(*x)).collect::<Vec<_>>())
    }
    /// least and greatest squared lattice distance that a result can stand for
    fn bounds<T: Fl>(&self, r: T) -> Value {
        let y = scaled(r.to_f64().unwrap(), -self.sc);
        if SQRT {
            if !(y >= 0.0) || y > 9.4e7 {
                return json!([[-1, 0], [-1, 0]]);
            }
            let e = 8.0 * T::EPS;
            json!([parts((y * y * (1.0 - e)).ceil()), parts((y * y * (1.0 + e)).floor())])
        } else {
            let m = scaled(y, -self.sc);
            if m != m.trunc() {
                return json!([[-1, 0], [-1, 0]]);
            }
            json!([parts(m), parts(m)])
        }
    }
    /// result of a query, whose unit depends on the configuration
    fn dist<T: Fl>(&self, r: T) -> i64 {
        if SQRT {
            self.root(r)
        } else {
            self.sq(r)
        }
    }
}

fn kind<T: Fl>(k: &str) -> T {
    match k {
        // of either sign
        "nan" => {
            static N: AtomicUsize = AtomicUsize::new(0);
            if N.fetch_add(1, Ordering::Relaxed) % 2 == 0 { T::nan() } else { -T::nan() }
        }
        "inf" => T::infinity(),
        "-inf" => T::neg_infinity(),
        _ => panic!("unknown kind {k}"),
    }
}

/// bad: [[axis (1-based), kind, row (0-based)], ...]
fn spoil<T: Fl, const D: usize>(o: &Obj, pts: &mut [[T; D]]) {
    if let Some(b) = o.get("bad") {
        for e in b.as_array().unwrap() {
            let ax = e[0].as_u64().unwrap() as usize - 1;
            let row = e.get(2).and_then(|v| v.as_u64()).unwrap_or(0) as usize;
            pts[row][ax] = kind(e[1].as_str().unwrap());
        }
    }
}

fn gen_points<T: Fl, const D: usize>(fr: &Frame, g: &Value) -> Vec<[T; D]> {
    let n = g["n"].as_i64().unwrap();
    let m = g["m"].as_i64().unwrap();
    let f = |k: &str, j: usize| g[k][j].as_i64().unwrap();
    (0..n)
        .map(|i| {
            let mut p = [T::zero(); D];
            for j in 0..D {
                let c = f("s", j) * (((f("a", j) * (i % m) + f("b", j)) % m) / f("q", j)) + f("c", j);
                p[j] = fr.real(c, j);
            }
            p
        })
        .collect()
}

fn points<T: Fl, const D: usize>(fr: &Frame, o: &Obj) -> Vec<[T; D]> {
    let mut v: Vec<[T; D]> = if let Some(g) = o.get("gen") {
        gen_points(fr, g)
    } else {
        o["pts"].as_array().unwrap().iter().map(|p| fr.point(p)).collect()
    };
    spoil(o, &mut v);
    v
}

fn code<T: Float>(e: &FnntwError<T>) -> &'static str {
    match e {
        FnntwError::InvalidInputData { .. } => "Invalid",
        FnntwError::ZeroLengthInputData => "ZeroLength",
        FnntwError::SmallBoxsize => "SmallBox",
        FnntwError::InvalidBoxsize => "InvalidBox",
        FnntwError::InvalidAxis => "InvalidAxis",
        FnntwError::NegativeDataPeriodicQuery => "Negative",
    }
}

/// the outcome of a refused call: its code, and the point the error names
fn refused<T: Fl>(fr: &Frame, e: &FnntwError<T>, out: &mut Obj) {
    out.insert("res".into(), json!(code(e)));
    if let FnntwError::InvalidInputData { data_point } = e {
        let c: Vec<Value> = data_point
            .iter()
            .enumerate()
            .map(|(i, x)| {
                let k = if x.is_nan() {
                    "nan"
                } else if x.is_infinite() {
                    if *x > T::zero() { "inf" } else { "-inf" }
                } else {
                    return json!(["num", fr.lattice(*x, i)]);
                };
                json!([k, 0])
            })
            .collect();
        out.insert("ept".into(), json!(c));
    }
}

/// negative numbers stand for sizes beyond the specification's integers
fn usize_of(v: &Value) -> usize {
    match v.as_i64().unwrap() {
        -2 => 1 << 32,
        -3 => (1 << 32) + 1,
        -4 => 1 << 31,
        -5 => isize::MAX as usize,
        -6 => 1 << 63,
        x if x < 0 => usize::MAX,
        x => x as usize,
    }
}

fn pool(n: usize) -> Arc<rayon::ThreadPool> {
    static POOLS: OnceLock<Mutex<HashMap<usize, Arc<rayon::ThreadPool>>>> = OnceLock::new();
    let mut m = POOLS.get_or_init(Default::default).lock().unwrap();
    m.entry(n)
        .or_insert_with(|| {
            Arc::new(
                rayon::ThreadPoolBuilder::new()
                    .num_threads(n)
                    .stack_size(stack_size())
                    .build()
                    .unwrap(),
            )
        })
        .clone()
}

fn in_pool<R: Send>(o: &Obj, f: impl FnOnce() -> R + Send) -> R {
    match o.get("pool").and_then(|v| v.as_u64()).unwrap_or(0) {
        0 => f(),
        n => pool(n as usize).install(f),
    }
}

fn stack_size() -> usize {
    std::env::var("EXEC_STACK").ok().and_then(|s| s.parse().ok()).unwrap_or(2 << 20)
}

/// Owned data that trees borrow; freed after the tree, so that addresses are reused.
struct Data<T: Fl, const D: usize>(&'static [[T; D]]);
impl<T: Fl, const D: usize> Data<T, D> {
    fn new(v: Vec<[T; D]>) -> Self {
        Data(Box::leak(v.into_boxed_slice()))
    }
}
impl<T: Fl, const D: usize> Drop for Data<T, D> {
    fn drop(&mut self) {
        // SAFETY: leaked in new, and nothing borrows it any more
        unsafe { drop(Box::from_raw(self.0 as *const [[T; D]] as *mut [[T; D]])) }
    }
}

/// A tree of any type and dimension.
trait Any: Send + Sync {
    fn call(&self, o: &Obj, out: &mut Obj);
    fn boxed(self: Box<Self>, o: &Obj, out: &mut Obj) -> Option<Box<dyn Any>>;
    fn dump(&self, out: &mut Obj);
}

struct Holder<T: Fl, const D: usize> {
    // dropped before the data it borrows
    tree: Tree<'static, T, D>,
    data: Data<T, D>,
    copy: Vec<[T; D]>,
    fr: Frame,
}

fn bits<T: Fl>(x: T) -> (u64, i16, i8) {
    x.integer_decode()
}

fn idx(i: u64) -> i64 {
    if i < BADINT as u64 {
        i as i64
    } else {
        BADINT
    }
}

impl<T: Fl, const D: usize> Holder<T, D> {
    #[allow(unused)]
    fn posv(&self, p: &[NotNan<T>; D]) -> Value {
        json!((0..D).map(|i| self.fr.lattice(p[i].into_inner(), i)).collect::<Vec<_>>())
    }
    /// the list of queries, repeated `tile` times
    fn queries(&self, o: &Obj) -> Vec<[T; D]> {
        let mut v: Vec<[T; D]> =
            o["qs"].as_array().unwrap().iter().map(|p| self.fr.point(p)).collect();
        spoil(o, &mut v);
        match o.get("tile").and_then(|x| x.as_u64()) {
            Some(m) => v.repeat(m as usize),
            None => v,
        }
    }
    /// Folds the answer to a tiled list: the rows of the first copy stay, and every
    /// different row that another copy got is reported with the query it answers.
    #[allow(unused)]
    fn fold(&self, o: &Obj, out: &mut Obj, fl: &mut [&mut Vec<T>], ix: &mut Vec<u64>) {
        let m = match o.get("tile").and_then(|x| x.as_u64()) {
            Some(m) => m as usize,
            None => return,
        };
        let nq = o["qs"].as_array().unwrap().len();
        out.insert("n".into(), json!(fl.iter().map(|v| v.len()).collect::<Vec<_>>()));
        let n = fl[0].len();
        if n == 0 || n % (m * nq) != 0 || fl.iter().any(|v| v.len() != n) {
            return;
        }
        let k = n / (m * nq);
        let with_idx = ix.len() == n;
        let row = |fl: &[&mut Vec<T>], ix: &[u64], r: usize| -> (Vec<Vec<(u64, i16, i8)>>, Vec<u64>) {
            (
                fl.iter().map(|v| v[r * k..(r + 1) * k].iter().map(|x| bits(*x)).collect()).collect(),
                if with_idx { ix[r * k..(r + 1) * k].to_vec() } else { vec![] },
            )
        };
        let mut alt: Vec<Value> = vec![];
        for q in 0..nq {
            let mut seen = vec![row(fl, ix, q)];
            for c in 1..m {
                let r = c * nq + q;
                let x = row(fl, ix, r);
                if !seen.contains(&x) && alt.len() < 64 {
                    let d: Vec<Value> = fl.iter().map(|v| self.fr.dists(&v[r * k..(r + 1) * k])).collect();
                    alt.push(json!({"q": q, "d": d, "i": x.1.iter().map(|y| idx(*y)).collect::<Vec<_>>()}));
                    seen.push(x);
                }
            }
        }
        for v in fl.iter_mut() {
            v.truncate(nq * k);
        }
        if with_idx {
            ix.truncate(nq * k);
        }
        out.insert("alt".into(), json!(alt));
    }
    fn q1(&self, o: &Obj, out: &mut Obj) {
        let mut q = [self.fr.point::<T, D>(&o["q"])];
        spoil(o, &mut q);
        match self.tree.query_nearest(&q[0]) {
            Err(e) => refused(&self.fr, &e, out),
            Ok(r) => {
                out.insert("res".into(), json!("ok"));
                out.insert("d".into(), self.fr.dists(&[r.0])[0].clone());
                out.insert("i".into(), json!(idx(r.1)));
                #[cfg(not(feature = "nopos"))]
                out.insert("pos".into(), self.posv(r.2));
            }
        }
    }
    fn put_k(&self, out: &mut Obj, d: &[T], i: &[u64]) {
        out.insert("res".into(), json!("ok"));
        out.insert("d".into(), self.fr.dists(d));
        out.insert("i".into(), json!(i.iter().map(|x| idx(*x)).collect::<Vec<_>>()));
    }
    fn qk(&self, o: &Obj, out: &mut Obj) {
        let mut q = [self.fr.point::<T, D>(&o["q"])];
        spoil(o, &mut q);
        match self.tree.query_nearest_k(&q[0], usize_of(&o["k"])) {
            Err(e) => refused(&self.fr, &e, out),
            Ok(r) => {
                self.put_k(out, &r.0, &r.1);
                #[cfg(not(feature = "nopos"))]
                out.insert("pos".into(), json!(r.2.iter().map(|p| self.posv(p)).collect::<Vec<_>>()));
            }
        }
    }
    #[cfg(all(feature = "par", feature = "nopos"))]
    fn batch(&self, o: &Obj, out: &mut Obj) {
        let qs = self.queries(o);
        let k = usize_of(&o["k"]);
        let with = o["api"].as_str().unwrap() == "with";
        let r = in_pool(o, || {
            if with {
                self.tree.query_nearest_k_parallel_with(&qs, k)
            } else {
                self.tree.query_nearest_k_parallel(&qs, k)
            }
        });
        match r {
            Err(e) => refused(&self.fr, &e, out),
            Ok(mut r) => {
                self.fold(o, out, &mut [&mut r.0], &mut r.1);
                self.put_k(out, &r.0, &r.1)
            }
        }
    }
    #[cfg(all(feature = "par", feature = "nopos"))]
    fn axis(&self, o: &Obj, out: &mut Obj) {
        let qs = self.queries(o);
        let k = usize_of(&o["k"]);
        let ax = usize_of(&o["ax"]);
        let r = in_pool(o, || self.tree.query_nearest_k_parallel_axis(&qs, k, ax));
        match r {
            Err(e) => refused(&self.fr, &e, out),
            Ok(mut r) => {
                #[cfg(not(feature = "noidx"))]
                self.fold(o, out, &mut [&mut r.0, &mut r.1], &mut r.2);
                #[cfg(feature = "noidx")]
                self.fold(o, out, &mut [&mut r.0, &mut r.1], &mut vec![]);
                out.insert("res".into(), json!("ok"));
                let (fa, fb) = self.fr.split(ax);
                out.insert("a".into(), fa.dists(&r.0));
                out.insert("b".into(), fb.dists(&r.1));
                #[cfg(not(feature = "noidx"))]
                out.insert("i".into(), json!(r.2.iter().map(|x| idx(*x)).collect::<Vec<_>>()));
            }
        }
    }
    #[cfg(not(all(feature = "par", feature = "nopos")))]
    fn batch(&self, _: &Obj, out: &mut Obj) {
        out.insert("res".into(), json!("unsupported"));
    }
    #[cfg(not(all(feature = "par", feature = "nopos")))]
    fn axis(&self, o: &Obj, out: &mut Obj) {
        let _ = self.queries(o);
        out.insert("res".into(), json!("unsupported"));
    }
    fn index_of(&self, p: &Point<T, D>) -> i64 {
        // SAFETY: component 0 exists; only its address is used
        let a = unsafe { p.get_unchecked(0) } as *const NotNan<T> as usize;
        let b = self.data.0.as_ptr() as usize;
        let sz = std::mem::size_of::<[T; D]>();
        if a >= b && a < b + sz * self.data.0.len() && (a - b) % sz == 0 {
            ((a - b) / sz) as i64
        } else {
            BADINT
        }
    }
}

impl<T: Fl, const D: usize> Any for Holder<T, D> {
    fn call(&self, o: &Obj, out: &mut Obj) {
        match o["op"].as_str().unwrap() {
            "q1" => self.q1(o, out),
            "qk" => self.qk(o, out),
            "batch" => self.batch(o, out),
            "axis" => self.axis(o, out),
            x => panic!("unknown op {x}"),
        }
    }
    fn boxed(self: Box<Self>, o: &Obj, out: &mut Obj) -> Option<Box<dyn Any>> {
        let mut l = [[T::zero(); D]];
        for i in 0..D {
            l[0][i] = self.fr.len(o["L"][i].as_i64().unwrap());
        }
        spoil(o, &mut l);
        let Holder { tree, data, copy, fr } = *self;
        match tree.with_boxsize(&l[0]) {
            Err(e) => {
                refused(&fr, &e, out);
                None
            }
            Ok(tree) => {
                out.insert("res".into(), json!("ok"));
                Some(Box::new(Holder { tree, data, copy, fr }))
            }
        }
    }
    fn dump(&self, out: &mut Obj) {
        let lat = |b: &[NotNan<T>; D]| -> Value {
            json!((0..D).map(|i| self.fr.lattice(b[i].into_inner(), i)).collect::<Vec<_>>())
        };
        let nodes: Vec<Value> = self
            .tree
            .nodes
            .iter()
            .map(|n| match n {
                Node::Stem { split_dim, point, left, right, lower, upper } => json!({
                    "k":"S","dim":split_dim,"pt":self.index_of(point),"l":idx(*left as u64),"r":idx(*right as u64),
                    "lo":lat(lower),"hi":lat(upper)}),
                Node::Leaf { points, lower, upper } => json!({
                    "k":"L","pts":points.iter().map(|p|self.index_of(p)).collect::<Vec<_>>(),
                    "lo":lat(lower),"hi":lat(upper)}),
            })
            .collect();
        // witness: where each point is held, and which one the root must hold
        let mut own: Vec<[i64; 2]> = vec![[-1, -1]; self.data.0.len()];
        let mut note = |p: &Point<T, D>, x: usize, j: usize| {
            let i = self.index_of(p);
            if i != BADINT {
                own[i as usize] = [x as i64, j as i64];
            }
        };
        for (x, n) in self.tree.nodes.iter().enumerate() {
            match n {
                Node::Stem { point, .. } => note(point, x, 0),
                Node::Leaf { points, .. } => {
                    for (j, p) in points.iter().enumerate() {
                        note(p, x, j)
                    }
                }
            }
        }
        let root = own.iter().position(|o| o[0] < 0).map(|i| i as i64).unwrap_or(-1);
        out.insert("own".into(), json!(own));
        out.insert("root".into(), json!(root));
        let g = self.tree.get_data();
        let same = g.as_ptr() == self.data.0.as_ptr()
            && g.len() == self.copy.len()
            && g.iter().zip(&self.copy).all(|(a, b)| (0..D).all(|i| bits(a[i]) == bits(b[i])));
        out.insert("res".into(), json!("ok"));
        out.insert("nodes".into(), json!(nodes));
        out.insert("size".into(), json!(self.tree.size()));
        out.insert("same".into(), json!(same));
    }
}

fn build<T: Fl, const D: usize>(o: &Obj, out: &mut Obj) -> Option<Box<dyn Any>> {
    let fr = Frame::of(o);
    let owned = Data::new(points::<T, D>(&fr, o));
    let data = owned.0;
    let leaf = usize_of(&o["leaf"]);
    let psl = o.get("psl").and_then(|v| v.as_i64()).unwrap_or(-1);
    let make = || {
        in_pool(o, || match psl {
            -1 => Tree::new(data, leaf),
            -2 => Tree::new_parallel(data, leaf, usize::MAX),
            p => Tree::new_parallel(data, leaf, p as usize),
        })
    };
    #[cfg(not(feature = "work"))]
    let r = make();
    #[cfg(feature = "work")]
    let (r, _, cmps) = effort::counted(make);
    #[cfg(feature = "work")]
    if o["ty"] == "cnt" {
        out.insert("cmps".into(), json!(cmps.min(2_000_000_000)));
    }
    match r {
        Err(e) => {
            refused(&fr, &e, out);
            None
        }
        Ok(tree) => {
            out.insert("res".into(), json!("ok"));
            out.insert("size".into(), json!(tree.size()));
            Some(Box::new(Holder { tree, data: owned, copy: data.to_vec(), fr }))
        }
    }
}

fn nn<T: Fl, const D: usize>(p: [T; D]) -> [NotNan<T>; D] {
    p.map(|x| NotNan::new(x).unwrap())
}

fn helper<T: Fl, const D: usize>(o: &Obj, out: &mut Obj) {
    use fnntw::distance::*;
    let fr = Frame::of(o);
    match o["op"].as_str().unwrap() {
        "hd" => {
            let (x, y) = (nn(fr.point::<T, D>(&o["x"])), nn(fr.point::<T, D>(&o["y"])));
            out.insert("d".into(), json!(fr.sq(squared_euclidean(&x, &y))));
            let (t, a, b) = squared_euclidean_axis(&x, &y, usize_of(&o["ax"]));
            out.insert("tot".into(), json!(fr.sq(t)));
            out.insert("a".into(), json!(fr.sq(a)));
            out.insert("b".into(), json!(fr.sq(b)));
        }
        "hs" => {
            let q = nn(fr.point::<T, D>(&o["q"]));
            let (lo, hi) = (nn(fr.point::<T, D>(&o["lo"])), nn(fr.point::<T, D>(&o["hi"])));
            out.insert("d".into(), json!(fr.sq(calc_dist_sq_to_space(&q, &lo, &hi))));
        }
        "hb" => {
            let q = nn(fr.point::<T, D>(&o["q"]));
            let c = nn(fr.point::<T, D>(&o["c"]));
            let c0 = nn(fr.point::<T, D>(&o["q"]));
            let b0 = o["best0"].as_i64().unwrap();
            let s: f64 = pow2(fr.sc) * pow2(fr.sc);
            let start: T = if b0 < 0 { T::max_value() } else { T::from(b0 as f64 * s).unwrap() };
            let enc = |b: T| if b == T::max_value() { -1 } else { fr.sq(b) };
            let (p0, p1) = (Point::new(&c0), Point::new(&c));
            let (mut b, mut who) = (start, &p0);
            new_best(&q, &p1, &mut b, &mut who);
            out.insert("best1".into(), json!(enc(b)));
            out.insert("rep".into(), json!(std::ptr::eq(who, &p1)));
            let (mut b, mut who) = (start, &c0);
            let ret = new_best_short(&q, &c, &mut b, &mut who);
            out.insert("sbest1".into(), json!(enc(b)));
            out.insert("srep".into(), json!(std::ptr::eq(who, &c)));
            out.insert("sret".into(), json!(ret));
        }
        "moms" => {
            let data: Vec<[NotNan<T>; D]> =
                points::<T, D>(&fr, o).into_iter().map(nn).collect();
            let ax = usize_of(&o["ax"]);
            let chunk = match o.get("chunk").and_then(|v| v.as_u64()).unwrap_or(0) {
                0 => None,
                c => Some(c as usize),
            };
            let mut v: Vec<Point<T, D>> = data.iter().map(Point::new).collect();
            let sz = std::mem::size_of::<[T; D]>();
            let base = data.as_ptr() as usize;
            let all = sz * data.len();
            let index = |p: &Point<T, D>| {
                let a = unsafe { p.get_unchecked(0) } as *const NotNan<T> as usize;
                if a >= base && a < base + all { ((a - base) / sz) as i64 } else { BADINT }
            };
            // the parts must be the pieces of the slice, in order
            let start = v.as_ptr() as usize;
            let (nl, contiguous) = in_pool(o, || {
                let n = v.len();
                let (l, m, r) = fnntw::moms::moms_seq(&mut v, chunk, ax);
                let psz = std::mem::size_of::<Point<T, D>>();
                (
                    l.len(),
                    l.as_ptr() as usize == start
                        && m as *mut _ as usize == start + l.len() * psz
                        && r.as_ptr() as usize == start + (l.len() + 1) * psz
                        && l.len() + 1 + r.len() == n,
                )
            });
            out.insert("nl".into(), json!(if contiguous { nl as i64 } else { -1 }));
            let order: Vec<i64> = v.iter().map(index).collect();
            let mut inv = vec![-1i64; order.len()];
            for (j, i) in order.iter().enumerate() {
                if *i != BADINT {
                    inv[*i as usize] = j as i64;
                }
            }
            out.insert("inv".into(), json!(inv));
            out.insert("order".into(), json!(order));
        }
        x => panic!("unknown op {x}"),
    }
    out.insert("res".into(), json!("ok"));
}

macro_rules! dispatch {
    ($o:expr, $f:ident, $($a:expr),*) => {{
        let o: &Obj = $o;
        let d = o["dim"].as_u64().unwrap();
        match (o.get("ty").and_then(|v| v.as_str()).unwrap_or("f64"), d) {
            ("f64", 1) => $f::<f64, 1>(o, $($a),*),
            ("f64", 2) => $f::<f64, 2>(o, $($a),*),
            ("f64", 3) => $f::<f64, 3>(o, $($a),*),
            ("f32", 2) => $f::<f32, 2>(o, $($a),*),
            ("f32", 3) => $f::<f32, 3>(o, $($a),*),
            #[cfg(feature = "work")]
            ("cnt", 1) => $f::<effort::Cnt, 1>(o, $($a),*),
            #[cfg(feature = "work")]
            ("cnt", 2) => $f::<effort::Cnt, 2>(o, $($a),*),
            #[cfg(feature = "work")]
            ("cnt", 3) => $f::<effort::Cnt, 3>(o, $($a),*),
            #[cfg(not(feature = "lite"))]
            ("f64", 4) => $f::<f64, 4>(o, $($a),*),
            #[cfg(not(feature = "lite"))]
            ("f64", 5) => $f::<f64, 5>(o, $($a),*),
            #[cfg(not(feature = "lite"))]
            ("f64", 6) => $f::<f64, 6>(o, $($a),*),
            #[cfg(not(feature = "lite"))]
            ("f64", 7) => $f::<f64, 7>(o, $($a),*),
            #[cfg(not(feature = "lite"))]
            ("f64", 8) => $f::<f64, 8>(o, $($a),*),
            #[cfg(not(feature = "lite"))]
            ("f64", 16) => $f::<f64, 16>(o, $($a),*),
            #[cfg(not(feature = "lite"))]
            ("f64", 65) => $f::<f64, 65>(o, $($a),*),
            #[cfg(not(feature = "lite"))]
            ("f64", 10) => $f::<f64, 10>(o, $($a),*),
            #[cfg(not(feature = "lite"))]
            ("f32", 6) => $f::<f32, 6>(o, $($a),*),
            #[cfg(not(feature = "lite"))]
            ("f32", 1) => $f::<f32, 1>(o, $($a),*),
            #[cfg(not(feature = "lite"))]
            ("f32", 4) => $f::<f32, 4>(o, $($a),*),
            (t, d) => {
                eprintln!("TOOL-ERROR: no tree type for {t} {d}");
                std::process::exit(3)
            }
        }
    }};
}

fn build_any(o: &Obj, out: &mut Obj) -> Option<Box<dyn Any>> {
    dispatch!(o, build, out)
}

fn conc_calls(ops: &Value, trees: &[Option<Box<dyn Any>>]) -> Value {
    let v: Vec<Value> = ops
        .as_array()
        .unwrap()
        .iter()
        .map(|c| {
            let c = c.as_object().unwrap();
            let mut out = c.clone();
            let slot = c["s"].as_u64().unwrap() as usize;
            let t = trees[slot].as_ref().unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut x = Obj::new();
                t.call(c, &mut x);
                x
            }));
            match r {
                Ok(x) => out.extend(x),
                Err(_) => {
                    out.insert("res".into(), json!("panic"));
                }
            }
            Value::Object(out)
        })
        .collect();
    json!(v)
}

fn conc(o: &Obj, trees: &[Option<Box<dyn Any>>]) -> Value {
    let thr = o["thr"].as_array().unwrap();
    if let Some(n) = o.get("nest").and_then(|v| v.as_u64()) {
        // calls made by the tasks of a pool, which their batches use as well
        use rayon::prelude::*;
        let r: Vec<Value> = pool(n as usize).install(|| thr.par_iter().map(|ops| conc_calls(ops, trees)).collect());
        return json!(r);
    }
    let barrier = Barrier::new(thr.len());
    let results: Vec<Value> = std::thread::scope(|s| {
        let hs: Vec<_> = thr
            .iter()
            .map(|ops| {
                let barrier = &barrier;
                s.spawn(move || {
                    barrier.wait();
                    conc_calls(ops, trees)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(json!([{"res":"panic"}]))).collect()
    });
    json!(results)
}

fn run() {
    let args: Vec<String> = std::env::args().collect();
    let script = std::fs::File::open(&args[1]).expect("script");
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("trace"));
    let mut trees: Vec<Option<Box<dyn Any>>> = (0..4).map(|_| None).collect();
    for line in std::io::BufReader::new(script).lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let mut ev: Obj = match serde_json::from_str(&line).unwrap() {
            Value::Object(o) => o,
            _ => panic!("not an object"),
        };
        let o = ev.clone();
        let slot = o.get("s").and_then(|v| v.as_u64()).unwrap_or(0) as usize;
        let op = o["op"].as_str().unwrap().to_string();
        let r: Result<Obj, _> = catch_unwind(AssertUnwindSafe(|| {
            let mut out = Obj::new();
            match op.as_str() {
                "new" => {
                    trees[slot] = None;
                    trees[slot] = build_any(&o, &mut out);
                }
                "hd" | "hs" | "hb" | "moms" => {
                    dispatch!(&o, helper, &mut out)
                }
                // a tree that is built, given a box and dropped, again and again
                "remake" => {
                    trees[slot] = None;
                    let n = o["n"].as_u64().unwrap() as usize;
                    let g = growth(n, || {
                        let mut x = Obj::new();
                        let t = build_any(&o, &mut x);
                        if let (Some(t), Some(b)) = (t, o.get("then")) {
                            t.boxed(b.as_object().unwrap(), &mut x);
                        }
                    });
                    out.insert("grow".into(), json!(g.min(BADINT)));
                    out.insert("res".into(), json!("ok"));
                }
                "conc" => {
                    out.insert("thr".into(), conc(&o, &trees));
                    out.insert("res".into(), json!("ok"));
                }
                _ if trees[slot].is_none() => {
                    out.insert("res".into(), json!("notree"));
                }
                "box" => {
                    let t = trees[slot].take().unwrap();
                    trees[slot] = t.boxed(&o, &mut out);
                }
                // a call made again and again; its last answer is reported
                "again" => {
                    let t = trees[slot].as_ref().unwrap();
                    let n = o["n"].as_u64().unwrap() as usize;
                    let calls = o["calls"].as_array().unwrap();
                    let g = growth(n, || {
                        for c in calls {
                            t.call(c.as_object().unwrap(), &mut Obj::new())
                        }
                    });
                    out.insert("grow".into(), json!(g.min(BADINT)));
                    out.insert("calls".into(), conc_calls(&o["calls"], &trees));
                    out.insert("res".into(), json!("ok"));
                }
                // the same calls for many rounds: the first outcomes, how many later ones are
                // different, and some of those
                "many" => {
                    let first = conc_calls(&o["calls"], &trees);
                    let (mut differ, mut other) = (0, vec![]);
                    for _ in 1..o["n"].as_u64().unwrap() {
                        let now = conc_calls(&o["calls"], &trees);
                        if now != first {
                            for (x, y) in now.as_array().unwrap().iter().zip(first.as_array().unwrap()) {
                                if x != y {
                                    differ += 1;
                                    if other.len() < 5 {
                                        other.push(x.clone());
                                    }
                                }
                            }
                        }
                    }
                    out.insert("calls".into(), first);
                    out.insert("differ".into(), json!(differ));
                    out.insert("other".into(), json!(other));
                    out.insert("res".into(), json!("ok"));
                }
                // calls, each with the differences it computed, and the tree they looked at
                #[cfg(feature = "work")]
                "work" => {
                    out.insert("per".into(), json!(effort::per_axis()));
                    let v: Vec<Value> = o["calls"].as_array().unwrap().iter().map(|c| {
                        let (r, subs, _) = effort::counted(|| conc_calls(&json!([c]), &trees));
                        let mut c = r[0].as_object().unwrap().clone();
                        c.insert("subs".into(), json!(subs.min(2_000_000_000)));
                        Value::Object(c)
                    }).collect();
                    trees[slot].as_ref().unwrap().dump(&mut out);
                    for f in ["own", "size", "same"] {
                        out.remove(f);
                    }
                    out.insert("calls".into(), json!(v));
                }
                "drop" => {
                    trees[slot] = None;
                    out.insert("res".into(), json!("ok"));
                }
                "dump" => trees[slot].as_ref().unwrap().dump(&mut out),
                _ => trees[slot].as_ref().unwrap().call(&o, &mut out),
            }
            out
        }));
        match r {
            Ok(x) => ev.extend(x),
            Err(_) => {
                ev.insert("res".into(), json!("panic"));
            }
        }
        serde_json::to_writer(&mut out, &ev).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}

fn main() {
    if std::env::var("EXEC_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    std::thread::Builder::new()
        .stack_size(stack_size())
        .spawn(run)
        .unwrap()
        .join()
        .unwrap();
}
