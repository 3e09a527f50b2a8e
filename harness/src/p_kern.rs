//! K01: kernels called directly, as a compiling backend calls them, honour the layout their metadata describes.
use crate::cx::*;
use crate::p_mat::mm_model;
use crate::rng::Rng;
use crate::rt::*;
use crate::{bail, check};
use hodu_core::op_metadatas as md;
use hodu_core::tensor::Tensor;
use hodu_core::types::{DType, Device, Layout, Shape};
use hodu_cpu_kernels::{self as k, macros::Kernel};
use std::ffi::c_void;

/// a random layout of `shape` in a buffer: permuted, padded, stepped, offset, broadcast
fn layout(r: &mut Rng, shape: &[usize]) -> (Layout, usize) {
    let n = shape.len();
    let kind = r.below(6);
    let mut order: Vec<usize> = (0..n).collect();
    match kind {
        0 => {},
        1 | 2 if n >= 2 => order.swap(n - 1, n - 2),
        _ => r.shuffle(&mut order),
    }
    let bc: Vec<bool> = (0..n).map(|_| kind == 5 && r.chance(0.5)).collect();
    let mut strides = vec![0; n];
    let mut step = if kind >= 3 && r.chance(0.4) { r.usize(2, 3) } else { 1 };
    for &d in order.iter().rev() {
        if bc[d] {
            continue;
        }
        strides[d] = step;
        step *= shape[d];
        if kind >= 2 && r.chance(0.3) {
            step += r.usize(1, 3);
        }
    }
    let offset = if r.chance(0.5) { r.usize(0, 9) } else { 0 };
    let last: usize = shape.iter().zip(&strides).map(|(&s, &t)| (s - 1) * t).sum();
    let mut l = Layout::new(Shape::new(shape), strides);
    l.set_offset(offset);
    (l, offset + last + 1 + r.usize(0, 3))
}

/// the elements a layout selects
fn pick(base: &RT, l: &Layout) -> RT {
    let s: Vec<usize> = l.shape().dims().to_vec();
    let mut data = vec![];
    for i in 0..numel(&s) {
        let (mut q, mut at) = (i, l.offset());
        for d in (0..s.len()).rev() {
            at += q % s[d] * l.strides()[d];
            q /= s[d];
        }
        data.push(base.data[at]);
    }
    RT { dt: base.dt, shape: s, data }
}

/// a buffer as a kernel sees it (aligned, with nothing to spare)
struct Buf(Vec<u64>, usize);
impl Buf {
    fn of(m: &RT) -> Result<Buf, Fail> {
        let b = m.t().to_bytes().map_err(|e| Fail::Bad("kernel: bytes of a tensor".into(), format!("{}", e)))?;
        let mut v = Buf::new(b.len());
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), v.0.as_mut_ptr() as *mut u8, b.len()) };
        Ok(v)
    }
    fn new(n: usize) -> Buf {
        Buf(vec![0xA5A5A5A5A5A5A5A5; n / 8 + 2], n)
    }
    fn p(&self) -> *const c_void {
        self.0.as_ptr() as *const c_void
    }
    fn m(&mut self) -> *mut c_void {
        self.0.as_mut_ptr() as *mut c_void
    }
    fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0.as_ptr() as *const u8, self.1) }
    }
    /// what lies behind the result is untouched
    fn whole(&self) -> bool {
        let all = unsafe { std::slice::from_raw_parts(self.0.as_ptr() as *const u8, self.0.len() * 8) };
        all[self.1..].iter().all(|&b| b == 0xA5)
    }
}

fn base(cx: &mut Cx, dt: DType, n: usize, lim: i64) -> RT {
    let lo = if is_unsigned(dt) || dt == DType::BOOL { 0 } else { -lim };
    let hi = if dt == DType::BOOL { 1 } else { lim };
    RT::from_fn(dt, &[n], |_| {
        let x = cx.rng.range(lo, hi);
        if is_float(dt) { V::F(x as f64) } else if dt == DType::BOOL { V::B(x == 1) } else { V::I(x as i128) }
    })
}

fn name(op: &str, dt: DType) -> &'static str {
    let s = format!("hodu_cpu_{}_{}", op, dt);
    s.leak()
}

fn product(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(&[INTS, FLOATS, &[DType::F32, DType::F64, DType::F32, DType::F64][..]].concat());
    let dot = cx.rng.chance(0.4);
    let big = cx.rng.chance(0.05);
    let mut dim = |r: &mut Rng| if big { r.usize(1, 30) } else { *r.pick(&[1, 1, 2, 3, 4, 5]) };
    let (m, kk, n) = (dim(&mut cx.rng), dim(&mut cx.rng), dim(&mut cx.rng));
    let (mut sa, mut sb) = (vec![], vec![]);
    if !dot {
        let b: Vec<usize> = (0..cx.rng.usize(0, 3)).map(|_| cx.rng.usize(1, 3)).collect();
        let mk = |r: &mut Rng| -> Vec<usize> {
            let drop = if r.chance(0.3) { r.usize(0, b.len()) } else { 0 };
            b[drop..].iter().map(|&d| if r.chance(0.25) { 1 } else { d }).collect()
        };
        sa = mk(&mut cx.rng);
        sb = mk(&mut cx.rng);
    }
    sa.extend([m, kk]);
    sb.extend([kk, n]);
    let (la, na) = layout(&mut cx.rng, &sa);
    let (lb, nb) = layout(&mut cx.rng, &sb);
    let (ba, bb) = (base(cx, dt, na, 2), base(cx, dt, nb, 2));
    let (a, b) = (pick(&ba, &la), pick(&bb, &lb));
    let op = if dot { "dot" } else { "matmul" };
    cx.d(format!("{} {:?} {:?}/{:?}+{} {:?}/{:?}+{} {} {}", op, dt, sa, la.strides(), la.offset(), sb, lb.strides(), lb.offset(), ba.show(), bb.show()));
    let (e, tols) = mm_model(&a, &b);
    let bad = |e: &dyn std::fmt::Display| Fail::Bad(format!("kernel {}: refused", op), format!("{}", e));
    let meta = if dot { md::dot_metadata(&la, &lb) } else { md::matmul_metadata(&la, &lb, &Layout::from_shape(&Shape::new(&e.shape))) }.map_err(|e| bad(&e))?;
    let (xa, xb, mut out) = (Buf::of(&ba)?, Buf::of(&bb)?, Buf::new(e.data.len() * dt.size_in_bytes()));
    let ker = Kernel(name(op, dt));
    if dot { k::call_ops_dot(ker, xa.p(), xb.p(), out.m(), &meta) } else { k::call_ops_matmul(ker, xa.p(), xb.p(), out.m(), &meta) }.map_err(|e| bad(&e))?;
    check!(out.whole(), "kernel: writes behind its result", "{}", op);
    cx.count(&format!("{} {}", op, if la.is_contiguous() && lb.is_contiguous() { "dense" } else { "strided" }), 1);
    expect_tols(&format!("kernel {} {:?}", op, dt), Tensor::from_bytes(out.bytes(), &e.shape[..], dt, Device::CPU), &e, &tols)
}

const BIN: &[&str] = &["add", "sub", "mul", "div", "rem", "pow", "maximum", "minimum", "logical_and", "logical_or", "logical_xor", "eq", "ne", "lt", "le", "gt", "ge"];

/// the kernel found by its name is the kernel of that name
fn symbol(cx: &mut Cx) -> R {
    let op = *cx.rng.pick(BIN);
    let mut dts = [INTS, FLOATS].concat();
    dts.push(DType::BOOL);
    let dt = *cx.rng.pick(&dts);
    let nm = name(op, dt);
    if cx.rng.chance(0.1) {
        // names that are no kernel's
        let c: Vec<char> = nm.chars().collect();
        let at = cx.rng.usize(0, c.len() - 1);
        let s: String = match cx.rng.below(4) {
            0 => c[..at].iter().collect(),
            1 => format!("{}{}", nm, cx.rng.pick(&["_", " ", "x", "\0", "_f32"])),
            2 => nm.to_uppercase(),
            _ => format!("{}{}", cx.rng.pick(&[" ", "_", "lib"]), nm),
        };
        cx.d(format!("name {:?}", s));
        check!(k::jit_symbols::get_kernel_ptr(&s).is_none(), "kernel lookup: finds a kernel nobody named", "{:?}", s);
        return Ok(());
    }
    let n = cx.rng.usize(1, 3);
    let shape: Vec<usize> = (0..n).map(|_| cx.rng.usize(1, 5)).collect();
    let (la, na) = layout(&mut cx.rng, &shape);
    let (lb, nb) = layout(&mut cx.rng, &shape);
    let g = *cx.rng.pick(&[Gen::Small, Gen::Edge, Gen::Finite]);
    let (ba, bb) = (gen_rt(&mut cx.rng, dt, &[na], g), gen_rt(&mut cx.rng, dt, &[nb], g));
    cx.d(format!("{} {:?}/{:?}+{} {:?}+{} {} {}", nm, shape, la.strides(), la.offset(), lb.strides(), lb.offset(), ba.show(), bb.show()));
    let (a, b) = (pick(&ba, &la), pick(&bb, &lb));
    let logical = !["add", "sub", "mul", "div", "rem", "pow", "maximum", "minimum"].contains(&op);
    let odt = if logical { DType::BOOL } else { dt };
    let lo = Layout::from_shape(&Shape::new(&shape));
    let meta = if logical { md::cmp_metadata(&la, &lb, &lo) } else { md::binary_metadata(&la, &lb, &lo) };
    let (xa, xb) = (Buf::of(&ba)?, Buf::of(&bb)?);
    let mut out = Buf::new(numel(&shape) * odt.size_in_bytes());
    let Some(p) = k::jit_symbols::get_kernel_ptr(nm) else { bail!("kernel lookup: a kernel is not found", "{}", nm) };
    let f: unsafe extern "C" fn(*const c_void, *const c_void, *mut c_void, *const usize) = unsafe { std::mem::transmute(p) };
    unsafe { f(xa.p(), xb.p(), out.m(), meta.as_ptr()) };
    let mut direct = Buf::new(out.1);
    if let Err(e) = k::call_ops_binary(Kernel(nm), xa.p(), xb.p(), direct.m(), &meta) {
        bail!("kernel binary: refused", "{} {}", nm, e)
    }
    check!(out.bytes() == direct.bytes(), "kernel lookup: not the kernel of that name", "{}: {:?} and {:?}", nm, out.bytes(), direct.bytes());
    check!(out.whole() && direct.whole(), "kernel: writes behind its result", "{}", nm);
    // and it computes what the tensor operation of that name computes from the selected elements
    let (ta, tb) = (a.t(), b.t());
    let r = match op {
        "add" => ta.add(&tb),
        "sub" => ta.sub(&tb),
        "mul" => ta.mul(&tb),
        "div" => ta.div(&tb),
        "rem" => ta.rem(&tb),
        "pow" => ta.pow(&tb),
        "maximum" => ta.maximum(&tb),
        "minimum" => ta.minimum(&tb),
        "logical_and" => ta.logical_and(&tb),
        "logical_or" => ta.logical_or(&tb),
        "logical_xor" => ta.logical_xor(&tb),
        "eq" => ta.eq(&tb),
        "ne" => ta.ne(&tb),
        "lt" => ta.lt(&tb),
        "le" => ta.le(&tb),
        "gt" => ta.gt(&tb),
        _ => ta.ge(&tb),
    };
    cx.count(&format!("symbol {}", op), 1);
    match r {
        Ok(t) => {
            let want = read(&t).map_err(|e| Fail::Bad("kernel: reading a tensor".into(), format!("{}", e)))?;
            let tols: Vec<f64> = want.data.iter().map(|v| match v { V::F(x) if op == "pow" => 8.0 * eps(dt) * x.abs(), _ => 0.0 }).collect();
            expect_tols(&format!("kernel {} {:?}", op, dt), Tensor::from_bytes(out.bytes(), &shape[..], odt, Device::CPU), &want, &tols)?;
        },
        Err(_) => cx.count("symbol without a tensor operation", 1),
    }
    Ok(())
}

pub const GROUPS: &[Family] = &[fam("product", 20000, 200000, product), fam("symbol", 12000, 120000, symbol)];
