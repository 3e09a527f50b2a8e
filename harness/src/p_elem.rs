//! Element-wise operations against a scalar reference model.
use crate::cx::*;
use crate::rt::*;
use crate::{bail, check};
use hodu_core::error::HoduResult;
use hodu_core::scalar::Scalar;
use hodu_core::tensor::Tensor;
use hodu_core::types::DType;

pub const UN: usize = 0;
type TF = fn(&Tensor) -> HoduResult<Tensor>;
pub struct Un {
    pub name: &'static str,
    pub op: TF,
    pub f: fn(f64) -> f64,
    /// absolute error scale (times the machine epsilon of the compute type)
    pub cond: fn(f64) -> f64,
    /// domain on which the reference is binding
    pub dom: fn(f64) -> bool,
    pub ulp: f64,
}
fn z(_: f64) -> f64 {
    0.0
}
fn fin(_: f64) -> bool {
    true
}
fn notnan(x: f64) -> bool {
    !x.is_nan()
}
pub fn erf(x: f64) -> f64 {
    // series / continued fraction, accurate to ~1e-15
    if x.is_nan() {
        return x;
    }
    let a = x.abs();
    if a > 6.0 {
        return x.signum();
    }
    if a < 2.5 {
        let mut s = a;
        let mut t = a;
        let mut n = 0.0;
        while t.abs() > 1e-18 * s.abs().max(1e-300) && n < 200.0 {
            n += 1.0;
            t *= -a * a / n;
            s += t / (2.0 * n + 1.0);
        }
        // the alternating series loses at most ~1e-13 here
        return x.signum() * s * 2.0 / std::f64::consts::PI.sqrt();
    }
    let mut c = 0.0;
    let mut k = 60.0;
    while k >= 1.0 {
        c = (k / 2.0) / (a + c);
        k -= 1.0;
    }
    x.signum() * (1.0 - (-a * a).exp() / (a + c) / std::f64::consts::PI.sqrt())
}
pub fn r_sigmoid(x: f64) -> f64 {
    1.0 / (1.0 + (-x).exp())
}
pub fn r_softplus(x: f64) -> f64 {
    if x > 0.0 {
        x + (-x).exp().ln_1p()
    } else {
        x.exp().ln_1p()
    }
}
pub fn r_gelu(x: f64) -> f64 {
    if x == f64::INFINITY {
        return x;
    }
    // the documented constant of the tanh approximation, to the digits commonly published
    0.5 * x * (1.0 + (0.7978845608 * (x + 0.044715 * x * x * x)).tanh())
}
pub fn r_hsig(x: f64) -> f64 {
    ((x + 3.0) / 6.0).clamp(0.0, 1.0)
}
const SA: f64 = 1.6732632423543772848170429916717;
const SS: f64 = 1.0507009873554804934193349852946;
fn big(x: f64) -> f64 {
    x.abs().max(1.0)
}
pub const UNARY: &[Un] = &[
    Un { name: "neg", op: |t| t.neg(), f: |x| -x, cond: z, dom: fin, ulp: 0.0 },
    Un { name: "abs", op: |t| t.abs(), f: |x| x.abs(), cond: z, dom: fin, ulp: 0.0 },
    Un { name: "sign", op: |t| t.sign(), f: |x| if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 }, cond: z, dom: notnan, ulp: 0.0 },
    Un { name: "softsign", op: |t| t.softsign(), f: |x| x / (1.0 + x.abs()), cond: z, dom: fin, ulp: 3.0 },
    Un { name: "square", op: |t| t.square(), f: |x| x * x, cond: z, dom: fin, ulp: 1.0 },
    Un { name: "sqrt", op: |t| t.sqrt(), f: |x| x.sqrt(), cond: z, dom: fin, ulp: 1.0 },
    Un { name: "recip", op: |t| t.recip(), f: |x| 1.0 / x, cond: z, dom: |x| x != 0.0, ulp: 1.0 },
    Un { name: "relu", op: |t| t.relu(), f: |x| if x > 0.0 { x } else { 0.0 }, cond: z, dom: notnan, ulp: 0.0 },
    Un { name: "sigmoid", op: |t| t.sigmoid(), f: r_sigmoid, cond: |_| 1e-3, dom: fin, ulp: 4.0 },
    Un { name: "hardsigmoid", op: |t| t.hardsigmoid(), f: r_hsig, cond: |_| 4.0, dom: notnan, ulp: 2.0 },
    Un { name: "gelu", op: |t| t.gelu(), f: r_gelu, cond: |x| 8.0 * big(x), dom: |x| x.abs() < 1e4, ulp: 2.0 },
    Un { name: "softplus", op: |t| t.softplus(), f: r_softplus, cond: |_| 4.0, dom: fin, ulp: 2.0 },
    Un { name: "silu", op: |t| t.silu(), f: |x| x / (1.0 + (-x).exp()), cond: |_| 1e-3, dom: |x| x.abs() < 1e30, ulp: 4.0 },
    Un { name: "swish", op: |t| t.swish(), f: |x| x / (1.0 + (-x).exp()), cond: |_| 1e-3, dom: |x| x.abs() < 1e30, ulp: 4.0 },
    Un { name: "hardsilu", op: |t| t.hardsilu(), f: |x| x * r_hsig(x), cond: |x| 4.0 * big(x).min(4.0), dom: |x| x.is_finite(), ulp: 2.0 },
    Un { name: "hardswish", op: |t| t.hardswish(), f: |x| x * r_hsig(x), cond: |x| 4.0 * big(x).min(4.0), dom: |x| x.is_finite(), ulp: 2.0 },
    Un { name: "mish", op: |t| t.mish(), f: |x| x * r_softplus(x).tanh(), cond: |x| 4.0 * big(x).min(30.0), dom: |x| x.is_finite(), ulp: 4.0 },
    Un { name: "selu", op: |t| t.selu(), f: |x| SS * if x > 0.0 { x } else { SA * x.exp_m1() }, cond: |_| 4.0, dom: notnan, ulp: 3.0 },
    Un { name: "celu", op: |t| t.celu(), f: |x| if x > 0.0 { x } else { x.exp_m1() }, cond: |_| 4.0, dom: notnan, ulp: 2.0 },
    Un { name: "sin", op: |t| t.sin(), f: |x| x.sin(), cond: |_| 0.5, dom: |x| x.abs() < 1e6 || !x.is_finite(), ulp: 2.0 },
    Un { name: "cos", op: |t| t.cos(), f: |x| x.cos(), cond: |_| 0.5, dom: |x| x.abs() < 1e6 || !x.is_finite(), ulp: 2.0 },
    Un { name: "tan", op: |t| t.tan(), f: |x| x.tan(), cond: |x| 8.0 * big(x) * (1.0 + x.tan() * x.tan()), dom: |x| x.abs() < 100.0 && x.cos().abs() > 0.02, ulp: 3.0 },
    Un { name: "asin", op: |t| t.asin(), f: |x| x.asin(), cond: z, dom: fin, ulp: 3.0 },
    Un { name: "acos", op: |t| t.acos(), f: |x| x.acos(), cond: |_| 1.0, dom: fin, ulp: 3.0 },
    Un { name: "atan", op: |t| t.atan(), f: |x| x.atan(), cond: z, dom: fin, ulp: 3.0 },
    Un { name: "sinh", op: |t| t.sinh(), f: |x| x.sinh(), cond: z, dom: fin, ulp: 4.0 },
    Un { name: "cosh", op: |t| t.cosh(), f: |x| x.cosh(), cond: z, dom: fin, ulp: 4.0 },
    Un { name: "tanh", op: |t| t.tanh(), f: |x| x.tanh(), cond: z, dom: fin, ulp: 4.0 },
    Un { name: "asinh", op: |t| t.asinh(), f: |x| if x.abs() < 1e-4 { x - x * x * x / 6.0 } else { x.asinh() }, cond: z, dom: |x| x.abs() < 1e150 || !x.is_finite(), ulp: 5.0 },
    Un { name: "acosh", op: |t| t.acosh(), f: |x| x.acosh(), cond: z, dom: |x| x.abs() < 1e150 || x.is_nan(), ulp: 5.0 },
    Un { name: "atanh", op: |t| t.atanh(), f: |x| if x.abs() < 1e-3 { x + x * x * x / 3.0 + x.powi(5) / 5.0 } else { 0.5 * (x.ln_1p() - (-x).ln_1p()) }, cond: z, dom: fin, ulp: 5.0 },
    Un { name: "exp", op: |t| t.exp(), f: |x| x.exp(), cond: z, dom: fin, ulp: 3.0 },
    Un { name: "exp2", op: |t| t.exp2(), f: |x| x.exp2(), cond: z, dom: fin, ulp: 3.0 },
    Un { name: "exp10", op: |t| t.exp10(), f: |x| 10f64.powf(x), cond: |x| if x.is_finite() { 6.0 * big(x) * 10f64.powf(x.min(300.0)) } else { 0.0 }, dom: |x| x.abs() < 30.0 || !x.is_finite(), ulp: 3.0 },
    Un { name: "ln", op: |t| t.ln(), f: |x| x.ln(), cond: z, dom: fin, ulp: 3.0 },
    Un { name: "log2", op: |t| t.log2(), f: |x| x.log2(), cond: z, dom: fin, ulp: 3.0 },
    Un { name: "log10", op: |t| t.log10(), f: |x| x.log10(), cond: z, dom: fin, ulp: 3.0 },
    Un { name: "ceil", op: |t| t.ceil(), f: |x| x.ceil(), cond: z, dom: fin, ulp: 0.0 },
    Un { name: "floor", op: |t| t.floor(), f: |x| x.floor(), cond: z, dom: fin, ulp: 0.0 },
    Un { name: "round", op: |t| t.round(), f: |x| x.round(), cond: z, dom: fin, ulp: 0.0 },
    Un { name: "erf", op: |t| t.erf(), f: erf, cond: |_| 64.0, dom: fin, ulp: 6.0 },
];

pub fn ceps(dt: DType) -> f64 {
    if dt == DType::F64 {
        2f64.powi(-52)
    } else {
        2f64.powi(-23)
    }
}
/// compare element-wise with a per-element absolute tolerance
pub fn expect_abs(sig: &str, got: HoduResult<Tensor>, exp: &RT, k: f64, abs: &[f64]) -> R {
    let g = match got {
        Err(e) => bail!(format!("{}: error", sig), "returned error: {}", e),
        Ok(g) => g,
    };
    let g = match read(&g) {
        Err(e) => bail!(format!("{}: unreadable", sig), "{}", e),
        Ok(g) => g,
    };
    check!(g.dt == exp.dt && g.shape == exp.shape, format!("{}: type/shape", sig), "got {:?}{:?}, expected {:?}{:?}", g.dt, g.shape, exp.dt, exp.shape);
    for i in 0..exp.data.len() {
        let t = Tol { ulp: k, abs: abs[i], rel: 0.0 };
        if !vclose(exp.dt, g.data[i], exp.data[i], t) {
            bail!(format!("{}: wrong", sig), "element {:?} is {:?}, expected {:?}", unravel(i, &exp.shape), g.data[i], exp.data[i]);
        }
    }
    Ok(())
}

fn layout_desc(t: &Tensor) -> String {
    format!("{:?}/{:?}+{}", t.shape().dims(), t.strides(), t.offset())
}
pub fn vh(r: &RT) -> String {
    format!("#{:x}", crate::rng::hash_str(&format!("{:?}", r.data)) & 0xffffff)
}
pub fn describe(cx: &mut Cx, t: &Tensor, r: &RT) {
    let s = format!("{:?} {} {}", r.dt, layout_desc(t), vh(r));
    cx.d(s);
}

/// integer reference of the ops that exist for integers
fn int_unary(name: &str, dt: DType, x: i128) -> Option<i128> {
    Some(match name {
        "neg" if !is_unsigned(dt) => wrap(dt, -x),
        "relu" if !is_unsigned(dt) => x.max(0),
        "abs" if !is_unsigned(dt) => wrap(dt, x.abs()),
        "sign" if !is_unsigned(dt) => x.signum(),
        "square" => wrap(dt, x.wrapping_mul(x)),
        _ => return None,
    })
}

pub fn unary(cx: &mut Cx) -> R {
    let u = &UNARY[cx.rng.below(UNARY.len())];
    let int_ok = matches!(u.name, "neg" | "abs" | "sign" | "square" | "relu");
    let dt = if int_ok && cx.rng.chance(0.4) {
        let d = *cx.rng.pick(INTS);
        if is_unsigned(d) && u.name != "square" { DType::I32 } else { d }
    } else {
        *cx.rng.pick(FLOATS)
    };
    let g = if cx.rng.chance(0.5) { Gen::Edge } else { Gen::Finite };
    let shape = if cx.rng.chance(0.03) { vec![cx.rng.usize(100, 300)] } else { gen_shape(&mut cx.rng, 0, 4, 200) };
    let lay = gen_lay(&mut cx.rng);
    let (t, r) = gen_view(&mut cx.rng, dt, &shape, g, lay)?;
    cx.d(u.name);
    describe(cx, &t, &r);
    unary_check(u, &t, &r)
}
fn unary_check(u: &Un, t: &Tensor, r: &RT) -> R {
    let dt = r.dt;
    let mut abs = vec![0.0; r.data.len()];
    let exp = if is_float(dt) {
        for (i, v) in r.data.iter().enumerate() {
            abs[i] = (u.cond)(v.f()) * ceps(dt);
            if dt != DType::F64 && dt != DType::F32 {
                abs[i] += u.ulp * ceps(dt) * (u.f)(v.f()).abs().min(1e300);
            }
        }
        r.map(dt, |v| if (u.dom)(v.f()) { V::F((u.f)(v.f())) } else { V::Any })
    } else {
        r.map(dt, |v| int_unary(u.name, dt, v.i()).map(V::I).unwrap_or(V::Any))
    };
    let k = if matches!(dt, DType::F64 | DType::F32) { u.ulp } else if u.ulp > 0.0 { 1.0 } else { 0.0 };
    let sig = format!("unary {} {:?}", u.name, dt);
    expect_abs(&sig, (u.op)(t), &exp, k, &abs)
}

// ------------------------------------------------------------ binary

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bin {
    Add, Sub, Mul, Div, Rem, Pow, Max, Min,
}
pub const BINS: &[Bin] = &[Bin::Add, Bin::Sub, Bin::Mul, Bin::Div, Bin::Rem, Bin::Pow, Bin::Max, Bin::Min];
impl Bin {
    pub fn apply(self, a: &Tensor, b: &Tensor) -> HoduResult<Tensor> {
        match self {
            Bin::Add => a.add(b), Bin::Sub => a.sub(b), Bin::Mul => a.mul(b), Bin::Div => a.div(b),
            Bin::Rem => a.rem(b), Bin::Pow => a.pow(b), Bin::Max => a.maximum(b), Bin::Min => a.minimum(b),
        }
    }
    pub fn scalar(self, a: &Tensor, s: Scalar) -> HoduResult<Tensor> {
        match self {
            Bin::Add => a.add_scalar(s), Bin::Sub => a.sub_scalar(s), Bin::Mul => a.mul_scalar(s), Bin::Div => a.div_scalar(s),
            Bin::Rem => a.rem_scalar(s), Bin::Pow => a.pow_scalar(s), Bin::Max => a.maximum_scalar(s), Bin::Min => a.minimum_scalar(s),
        }
    }
    pub fn float_only(self) -> bool {
        matches!(self, Bin::Div | Bin::Pow)
    }
}
pub fn bin_f(op: Bin, dt: DType, a: f64, b: f64) -> (V, f64) {
    let nan = a.is_nan() || b.is_nan();
    match op {
        Bin::Add => (V::F(a + b), 0.0),
        Bin::Sub => (V::F(a - b), 0.0),
        Bin::Mul => (V::F(a * b), 0.0),
        Bin::Div => (V::F(a / b), 0.0),
        Bin::Rem => {
            if !a.is_finite() || !b.is_finite() || b == 0.0 {
                if nan || b == 0.0 || a.is_infinite() { (V::F(f64::NAN), 0.0) } else { (V::F(a), 0.0) }
            } else {
                (V::F(a % b), 0.0)
            }
        },
        Bin::Pow => {
            if nan {
                return (V::Any, 0.0);
            }
            let p = a.powf(b);
            // repeated multiplication / powf: a few ulp, growing with the exponent
            if !p.is_finite() || p == 0.0 || p.abs() < 1e-30 || p.abs() > 1e30 {
                // near the ends of the compute type only the class is binding
                let lim = if dt == DType::F64 { 1e300 } else { 1e36 };
                if p.is_nan() { return (V::F(p), 0.0); }
                if a == 0.0 && b < 0.0 { return (V::F(p), f64::INFINITY); }
                if p.abs() > lim || p.abs() < 1.0 / lim { return (V::Any, 0.0); }
            }
            (V::F(p), 24.0 * ceps(dt) * p.abs() * (1.0 + b.abs().min(64.0) / 4.0))
        },
        Bin::Max => if nan { (V::Any, 0.0) } else { (V::F(a.max(b)), 0.0) },
        Bin::Min => if nan { (V::Any, 0.0) } else { (V::F(a.min(b)), 0.0) },
    }
}
pub fn ipow(dt: DType, a: i128, b: i128) -> i128 {
    if b < 0 {
        return 0;
    }
    let mut r = 1i128;
    let mut base = a;
    let mut e = b;
    while e > 0 {
        if e & 1 == 1 {
            r = wrap(dt, r.wrapping_mul(base));
        }
        base = wrap(dt, base.wrapping_mul(base));
        e >>= 1;
    }
    r
}
pub fn bin_i(op: Bin, dt: DType, a: i128, b: i128) -> V {
    V::I(match op {
        Bin::Add => wrap(dt, a + b),
        Bin::Sub => if is_unsigned(dt) { (a - b).max(0) } else { wrap(dt, a - b) },
        Bin::Mul => wrap(dt, a.wrapping_mul(b)),
        Bin::Div => if b == 0 { 0 } else { wrap(dt, a / b) },
        Bin::Rem => if b == 0 { 0 } else { a % b },
        Bin::Pow => ipow(dt, a, b),
        Bin::Max => a.max(b),
        Bin::Min => a.min(b),
    })
}
/// a pair of operands whose shapes broadcast to `shape`
pub fn gen_pair(cx: &mut Cx, dt: DType, g: Gen) -> Result<(Tensor, RT, Tensor, RT, Vec<usize>), Fail> {
    let shape = if cx.rng.chance(0.03) { vec![cx.rng.usize(100, 300)] } else { gen_shape(&mut cx.rng, 0, 4, 150) };
    let mk = |cx: &mut Cx| -> Vec<usize> {
        let drop = if cx.rng.chance(0.3) { cx.rng.below(shape.len() + 1) } else { 0 };
        let mut s = shape[drop..].to_vec();
        for d in s.iter_mut() {
            if cx.rng.chance(0.2) {
                *d = 1;
            }
        }
        s
    };
    let (sa, sb) = match cx.rng.below(3) {
        0 => (shape.clone(), shape.clone()),
        1 => if cx.rng.chance(0.5) { (shape.clone(), mk(cx)) } else { (mk(cx), shape.clone()) },
        _ => (mk(cx), mk(cx)),
    };
    let nd = sa.len().max(sb.len());
    let mut out = vec![1; nd];
    for i in 0..nd {
        let a = if i + sa.len() >= nd { sa[i + sa.len() - nd] } else { 1 };
        let b = if i + sb.len() >= nd { sb[i + sb.len() - nd] } else { 1 };
        out[i] = a.max(b);
    }
    let (la, lb) = (gen_lay(&mut cx.rng), gen_lay(&mut cx.rng));
    let (ta, ra) = gen_view(&mut cx.rng, dt, &sa, g, la)?;
    let (tb, rb) = gen_view(&mut cx.rng, dt, &sb, g, lb)?;
    describe(cx, &ta, &ra);
    describe(cx, &tb, &rb);
    Ok((ta, ra.broadcast(&out), tb, rb.broadcast(&out), out))
}
pub fn binary(cx: &mut Cx) -> R {
    let op = *cx.rng.pick(BINS);
    let dt = if op.float_only() || cx.rng.chance(0.5) { *cx.rng.pick(FLOATS) } else { *cx.rng.pick(INTS) };
    let g = if cx.rng.chance(0.4) { Gen::Edge } else { Gen::Finite };
    cx.d(format!("{:?}", op));
    let (ta, ra, tb, rb, out) = gen_pair(cx, dt, g)?;
    let mut abs = vec![0.0; ra.data.len()];
    let mut i = 0;
    let exp = RT::from_fn(dt, &out, |ix| {
        let (a, b) = (ra.at(ix), rb.at(ix));
        let v = if is_float(dt) {
            let (v, e) = bin_f(op, dt, a.f(), b.f());
            abs[i] = e;
            v
        } else {
            bin_i(op, dt, a.i(), b.i())
        };
        i += 1;
        v
    });
    let k = if is_float(dt) && !matches!(op, Bin::Max | Bin::Min) { 1.0 } else { 0.0 };
    expect_abs(&format!("binary {:?} {:?}", op, dt), op.apply(&ta, &tb), &exp, k, &abs)
}
pub fn scalar_of(v: V, dt: DType) -> Scalar {
    match dt {
        DType::BOOL => Scalar::from(v.truthy()),
        DType::F64 => Scalar::from(v.f()),
        DType::F32 => Scalar::from(v.f() as f32),
        DType::F16 => Scalar::from(half::f16::from_f64(v.f())),
        DType::BF16 => Scalar::from(half::bf16::from_f64(v.f())),
        DType::F8E4M3 => Scalar::from(float8::F8E4M3::from_f64(v.f())),
        DType::F8E5M2 => Scalar::from(float8::F8E5M2::from_f64(v.f())),
        DType::U8 => Scalar::from(v.i() as u8),
        DType::U16 => Scalar::from(v.i() as u16),
        DType::U32 => Scalar::from(v.i() as u32),
        DType::U64 => Scalar::from(v.i() as u64),
        DType::I8 => Scalar::from(v.i() as i8),
        DType::I16 => Scalar::from(v.i() as i16),
        DType::I32 => Scalar::from(v.i() as i32),
        _ => Scalar::from(v.i() as i64),
    }
}
pub fn unary_scalar(cx: &mut Cx) -> R {
    let op = *cx.rng.pick(BINS);
    let dt = if op.float_only() || cx.rng.chance(0.5) { *cx.rng.pick(FLOATS) } else { *cx.rng.pick(INTS) };
    let g = if cx.rng.chance(0.4) { Gen::Edge } else { Gen::Finite };
    let shape = gen_shape(&mut cx.rng, 0, 4, 150);
    let lay = gen_lay(&mut cx.rng);
    let (t, r) = gen_view(&mut cx.rng, dt, &shape, g, lay)?;
    let s = gen_v(&mut cx.rng, dt, g);
    cx.d(format!("{:?}_scalar {:?}", op, s));
    describe(cx, &t, &r);
    let mut abs = vec![0.0; r.data.len()];
    let mut i = 0;
    let exp = RT::from_fn(dt, &shape, |ix| {
        let a = r.at(ix);
        let v = if is_float(dt) {
            let (v, e) = bin_f(op, dt, a.f(), s.f());
            abs[i] = e;
            v
        } else {
            bin_i(op, dt, a.i(), s.i())
        };
        i += 1;
        v
    });
    let k = if is_float(dt) && !matches!(op, Bin::Max | Bin::Min) { 1.0 } else { 0.0 };
    expect_abs(&format!("scalar {:?} {:?}", op, dt), op.scalar(&t, scalar_of(s, dt)), &exp, k, &abs)
}
/// activations with a scalar parameter
pub fn act_scalar(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(FLOATS);
    let shape = gen_shape(&mut cx.rng, 0, 4, 150);
    let lay = gen_lay(&mut cx.rng);
    let (t, r) = gen_view(&mut cx.rng, dt, &shape, Gen::Finite, lay)?;
    let a = V::F(quant(dt, cx.rng.uni(0.05, 1.5)));
    let w = cx.rng.below(3);
    let name = ["leaky_relu", "elu", "prelu"][w];
    cx.d(format!("{} {:?}", name, a));
    describe(cx, &t, &r);
    let al = a.f();
    let exp = r.map(dt, |v| {
        let x = v.f();
        V::F(if x > 0.0 { x } else if w == 1 { al * x.exp_m1() } else { al * x })
    });
    let s = scalar_of(a, dt);
    let got = match w {
        0 => t.leaky_relu(s),
        1 => t.elu(s),
        _ => t.prelu(s),
    };
    expect(&format!("{} {:?}", name, dt), got, &exp, tol(2.0, 4.0 * ceps(dt)))
}

// ------------------------------------------------------------ boolean results

pub fn cmp(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(ALL);
    let w = if dt == DType::BOOL { cx.rng.below(2) } else { cx.rng.below(6) };
    let name = ["eq", "ne", "lt", "le", "gt", "ge"][w];
    let g = *cx.rng.pick(&[Gen::Edge, Gen::Small]);
    let f = |a: V, b: V| -> bool {
        let o = if is_float(dt) { a.f().partial_cmp(&b.f()) } else { a.i().partial_cmp(&b.i()) };
        use std::cmp::Ordering::*;
        match w {
            0 => o == Some(Equal),
            1 => o != Some(Equal),
            2 => o == Some(Less),
            3 => matches!(o, Some(Less | Equal)),
            4 => o == Some(Greater),
            _ => matches!(o, Some(Greater | Equal)),
        }
    };
    if cx.rng.chance(0.6) {
        cx.d(name);
        let (ta, ra, tb, rb, out) = gen_pair(cx, dt, g)?;
        let exp = RT::from_fn(DType::BOOL, &out, |ix| V::B(f(ra.at(ix), rb.at(ix))));
        let got = match w {
            0 => ta.eq(&tb), 1 => ta.ne(&tb), 2 => ta.lt(&tb), 3 => ta.le(&tb), 4 => ta.gt(&tb), _ => ta.ge(&tb),
        };
        expect(&format!("cmp {} {:?}", name, dt), got, &exp, EXACT)
    } else {
        let shape = gen_shape(&mut cx.rng, 0, 4, 150);
        let lay = gen_lay(&mut cx.rng);
        let (t, r) = gen_view(&mut cx.rng, dt, &shape, g, lay)?;
        let sv = if cx.rng.chance(0.5) { *cx.rng.pick(&r.data) } else { gen_v(&mut cx.rng, dt, g) };
        cx.d(format!("{}_scalar {:?}", name, sv));
        describe(cx, &t, &r);
        let exp = r.map(DType::BOOL, |v| V::B(f(v, sv)));
        let s = scalar_of(sv, dt);
        let got = match w {
            0 => t.eq_scalar(s), 1 => t.ne_scalar(s), 2 => t.lt_scalar(s), 3 => t.le_scalar(s), 4 => t.gt_scalar(s), _ => t.ge_scalar(s),
        };
        expect(&format!("cmp_scalar {} {:?}", name, dt), got, &exp, EXACT)
    }
}
pub fn logical(cx: &mut Cx) -> R {
    let w = cx.rng.below(7);
    let name = ["logical_and", "logical_or", "logical_xor", "logical_not", "isnan", "isinf", "isfinite"][w];
    let dt = if w >= 4 { *cx.rng.pick(FLOATS) } else { *cx.rng.pick(ALL) };
    let g = *cx.rng.pick(&[Gen::Edge, Gen::Small]);
    cx.d(name);
    let sig = format!("{} {:?}", name, dt);
    if w < 3 {
        let (ta, ra, tb, rb, out) = gen_pair(cx, dt, g)?;
        let exp = RT::from_fn(DType::BOOL, &out, |ix| {
            let (a, b) = (ra.at(ix).truthy(), rb.at(ix).truthy());
            V::B(match w { 0 => a && b, 1 => a || b, _ => a != b })
        });
        let got = match w { 0 => ta.logical_and(&tb), 1 => ta.logical_or(&tb), _ => ta.logical_xor(&tb) };
        return expect(&sig, got, &exp, EXACT);
    }
    let shape = gen_shape(&mut cx.rng, 0, 4, 150);
    let lay = gen_lay(&mut cx.rng);
    let (t, r) = gen_view(&mut cx.rng, dt, &shape, g, lay)?;
    describe(cx, &t, &r);
    let exp = r.map(DType::BOOL, |v| V::B(match w {
        3 => !v.truthy(),
        4 => v.f().is_nan(),
        5 => v.f().is_infinite(),
        _ => v.f().is_finite(),
    }));
    let got = match w { 3 => t.logical_not(), 4 => t.isnan(), 5 => t.isinf(), _ => t.isfinite() };
    expect(&sig, got, &exp, EXACT)
}
/// operands long enough to be split over threads, at an offset half of the time
pub fn large_bool(cx: &mut Cx) -> R {
    let k = cx.rng.below(19);
    let dt = if k < 5 || k == 11 { *cx.rng.pick(INTS) } else if [10, 17, 18].contains(&k) { *cx.rng.pick(FLOATS) } else { *cx.rng.pick(ALL) };
    let n = cx.rng.usize(200_000, 900_000);
    let offs: Vec<usize> = (0..2).map(|_| if cx.rng.chance(0.5) { cx.rng.usize(1, 9) } else { 0 }).collect();
    let mut mk = |len: usize, g: Gen, off: usize| -> Result<(Tensor, RT), Fail> {
        let base = gen_rt(&mut cx.rng, dt, &[len], g);
        let a = RT { dt, shape: vec![n + off], data: (0..n + off).map(|i| base.data[i % len]).collect() };
        let t = a.t();
        let t = if off > 0 { lay_op(t.slice(0i32, off as i32, None, 1i32), "slice")? } else { t };
        Ok((t, RT { dt, shape: vec![n], data: a.data[off..].to_vec() }))
    };
    let nb = if dt == DType::BOOL || is_float(dt) { 8 } else { bits(dt) as i64 };
    let (ta, a) = mk(997, Gen::Edge, offs[0])?;
    let (tb, b) = mk(1009, if k < 2 { Gen::Range(0.0, (nb - 1) as f64) } else { Gen::Edge }, offs[1])?;
    let name = ["shl", "shr", "and", "or", "xor", "eq", "lt", "ge", "logical_and", "logical_not", "isfinite", "not", "ne", "gt", "le", "logical_or", "logical_xor", "isnan", "isinf"][k];
    let tag = cx.rng.u64() >> 40;
    cx.d(format!("large {} {:?} n{} off{:?} #{:x}", name, dt, n, offs, tag));
    let ord = |x: V, y: V| if is_float(dt) { x.f().partial_cmp(&y.f()) } else { x.i().partial_cmp(&y.i()) };
    use std::cmp::Ordering::*;
    let e = |x: V, y: V| -> V {
        match k {
            0 => V::I(wrap(dt, x.i() << y.i())),
            1 => V::I(x.i() >> y.i()),
            2 => V::I(x.i() & y.i()),
            3 => V::I(x.i() | y.i()),
            4 => V::I(x.i() ^ y.i()),
            5 => V::B(ord(x, y) == Some(Equal)),
            6 => V::B(ord(x, y) == Some(Less)),
            7 => V::B(matches!(ord(x, y), Some(Greater | Equal))),
            8 => V::B(x.truthy() && y.truthy()),
            9 => V::B(!x.truthy()),
            10 => V::B(x.f().is_finite()),
            12 => V::B(ord(x, y) != Some(Equal)),
            13 => V::B(ord(x, y) == Some(Greater)),
            14 => V::B(matches!(ord(x, y), Some(Less | Equal))),
            15 => V::B(x.truthy() || y.truthy()),
            16 => V::B(x.truthy() != y.truthy()),
            17 => V::B(x.f().is_nan()),
            18 => V::B(x.f().is_infinite()),
            _ => V::I(wrap(dt, !x.i())),
        }
    };
    let odt = if k < 5 || k == 11 { dt } else { DType::BOOL };
    if dt == DType::BOOL && [6, 7, 13, 14].contains(&k) {
        return Err(Fail::Skip);
    }
    let exp = RT { dt: odt, shape: vec![n], data: (0..n).map(|i| e(a.data[i], b.data[i])).collect() };
    let got = match k {
        0 => ta.shl(&tb), 1 => ta.shr(&tb), 2 => ta.bitwise_and(&tb), 3 => ta.bitwise_or(&tb), 4 => ta.bitwise_xor(&tb),
        5 => ta.eq(&tb), 6 => ta.lt(&tb), 7 => ta.ge(&tb), 8 => ta.logical_and(&tb), 9 => ta.logical_not(), 10 => ta.isfinite(),
        12 => ta.ne(&tb), 13 => ta.gt(&tb), 14 => ta.le(&tb), 15 => ta.logical_or(&tb), 16 => ta.logical_xor(&tb), 17 => ta.isnan(), 18 => ta.isinf(), _ => ta.bitwise_not(),
    };
    expect(&format!("large {} {:?}", name, dt), got, &exp, EXACT)
}
pub fn bitwise(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(INTS);
    let w = cx.rng.below(8);
    let name = ["shl", "shr", "and", "or", "xor", "not", "shl_scalar", "shr_scalar"][w];
    cx.d(name);
    let sig = format!("bitwise {} {:?}", name, dt);
    let nb = bits(dt) as i64;
    let shl = |a: i128, s: i128| wrap(dt, a << s);
    let shr = |a: i128, s: i128| a >> s;
    if w < 5 {
        let shape = gen_shape(&mut cx.rng, 0, 4, 150);
        let (l1, l2) = (gen_lay(&mut cx.rng), gen_lay(&mut cx.rng));
        let (ta, ra) = gen_view(&mut cx.rng, dt, &shape, Gen::Edge, l1)?;
        let mut sb = shape.clone();
        for d in sb.iter_mut() {
            if cx.rng.chance(0.2) {
                *d = 1;
            }
        }
        let g2 = if w < 2 { Gen::Range(0.0, (nb - 1) as f64) } else { Gen::Edge };
        let (tb, rb) = gen_view(&mut cx.rng, dt, &sb, g2, l2)?;
        let rb = rb.broadcast(&shape);
        describe(cx, &ta, &ra);
        describe(cx, &tb, &rb);
        let exp = RT::from_fn(dt, &shape, |ix| {
            let (a, b) = (ra.at(ix).i(), rb.at(ix).i());
            V::I(match w { 0 => shl(a, b), 1 => shr(a, b), 2 => a & b, 3 => a | b, _ => a ^ b })
        });
        // operand order swapped sometimes for the symmetric operators
        let sw = w >= 2 && cx.rng.chance(0.5);
        let (x, y) = if sw { (&tb, &ta) } else { (&ta, &tb) };
        let got = match w { 0 => x.shl(y), 1 => x.shr(y), 2 => x.bitwise_and(y), 3 => x.bitwise_or(y), _ => x.bitwise_xor(y) };
        return expect(&sig, got, &exp, EXACT);
    }
    let shape = gen_shape(&mut cx.rng, 0, 4, 150);
    let lay = gen_lay(&mut cx.rng);
    let (t, r) = gen_view(&mut cx.rng, dt, &shape, Gen::Edge, lay)?;
    describe(cx, &t, &r);
    let s = cx.rng.range(0, nb - 1);
    cx.d(format!("s{}", s));
    let exp = r.map(dt, |v| V::I(match w { 5 => wrap(dt, !v.i()), 6 => shl(v.i(), s as i128), _ => shr(v.i(), s as i128) }));
    let got = match w { 5 => t.bitwise_not(), 6 => t.shl_scalar(s as u32), _ => t.shr_scalar(s as u32) };
    expect(&sig, got, &exp, EXACT)
}

/// where3 / masked_fill / clamp
pub fn select(cx: &mut Cx) -> R {
    let dt = if cx.rng.chance(0.6) { *cx.rng.pick(FLOATS) } else { *cx.rng.pick(INTS) };
    let w = cx.rng.below(5);
    let shape = gen_shape(&mut cx.rng, 0, 4, 120);
    let lay = gen_lay(&mut cx.rng);
    let g = if is_float(dt) && cx.rng.chance(0.3) { Gen::Edge } else { Gen::Finite };
    let (t, r) = gen_view(&mut cx.rng, dt, &shape, g, lay)?;
    let name = ["where3", "masked_fill", "clamp", "clamp_min", "clamp_max"][w];
    cx.d(name);
    describe(cx, &t, &r);
    let sig = format!("select {} {:?}", name, if is_float(dt) { "float" } else { "int" });
    if w < 2 {
        let mut ms = shape.clone();
        for d in ms.iter_mut() {
            if cx.rng.chance(0.2) {
                *d = 1;
            }
        }
        let l2 = gen_lay(&mut cx.rng);
        let (m, rm) = gen_view(&mut cx.rng, DType::BOOL, &ms, Gen::Small, l2)?;
        let rm = rm.broadcast(&shape);
        describe(cx, &m, &rm);
        if w == 0 {
            let l3 = gen_lay(&mut cx.rng);
            let (o, ro) = gen_view(&mut cx.rng, dt, &shape, g, l3)?;
            describe(cx, &o, &ro);
            let exp = RT::from_fn(dt, &shape, |ix| if rm.at(ix).truthy() { r.at(ix) } else { ro.at(ix) });
            return expect(&sig, t.where3(&m, &o), &exp, EXACT);
        }
        let gv = if cx.rng.chance(0.3) { Gen::Edge } else { Gen::Finite };
        let v = gen_v(&mut cx.rng, dt, gv);
        cx.d(format!("{:?}", v));
        let exp = RT::from_fn(dt, &shape, |ix| if rm.at(ix).truthy() { v } else { r.at(ix) });
        return expect(&sig, t.masked_fill(&m, scalar_of(v, dt)), &exp, EXACT);
    }
    let (a, b) = (gen_v(&mut cx.rng, dt, Gen::Finite), gen_v(&mut cx.rng, dt, Gen::Finite));
    let (lo, hi) = if a.f() <= b.f() { (a, b) } else { (b, a) };
    cx.d(format!("{:?} {:?}", lo, hi));
    let cl = |v: V| -> V {
        if v.f().is_nan() {
            return V::Any;
        }
        let mut v = v;
        if w != 4 && v.f() < lo.f() {
            v = lo;
        }
        if w != 3 && v.f() > hi.f() {
            v = hi;
        }
        v
    };
    let exp = r.map(dt, cl);
    let got = match w {
        2 => t.clamp(scalar_of(lo, dt), scalar_of(hi, dt)),
        3 => t.clamp_min(scalar_of(lo, dt)),
        _ => t.clamp_max(scalar_of(hi, dt)),
    };
    expect(&sig, got, &exp, EXACT)
}

/// large contiguous operands: the threaded / SIMD paths
pub fn large(cx: &mut Cx) -> R {
    let dt = if cx.rng.chance(0.5) { *cx.rng.pick(&[DType::F32, DType::F64]) } else { *cx.rng.pick(&ALL[1..]) };
    let n = cx.rng.usize(100_000, 650_000);
    let base = gen_rt(&mut cx.rng, dt, &[997], Gen::Finite);
    let base2 = gen_rt(&mut cx.rng, dt, &[1009], Gen::Pos);
    let a = RT { dt, shape: vec![n], data: (0..n).map(|i| base.data[i % 997]).collect() };
    let b = RT { dt, shape: vec![n], data: (0..n).map(|i| base2.data[i % 1009]).collect() };
    // non-zero storage offset half of the time
    let offs: Vec<usize> = (0..2).map(|_| if cx.rng.chance(0.5) { cx.rng.usize(1, 9) } else { 0 }).collect();
    let m = n - 9;
    let sl = |t: &RT, off: usize| -> Result<(Tensor, RT), Fail> {
        let x = t.t();
        Ok((lay_op(x.slice(0i32, off as i32, Some((off + m) as i32), 1i32), "slice")?, RT { dt, shape: vec![m], data: t.data[off..off + m].to_vec() }))
    };
    let (ta, ra) = sl(&a, offs[0])?;
    cx.d(format!("large {:?} n{} off{:?}", dt, n, offs));
    match cx.rng.below(3) {
        0 => {
            let op = *cx.rng.pick(&[Bin::Add, Bin::Sub, Bin::Mul, Bin::Max, Bin::Min, Bin::Rem]);
            let (tb, rb) = sl(&b, offs[1])?;
            cx.d(format!("{:?}", op));
            let exp = RT { dt, shape: vec![m], data: (0..m).map(|i| if is_float(dt) { bin_f(op, dt, ra.data[i].f(), rb.data[i].f()).0 } else { bin_i(op, dt, ra.data[i].i(), rb.data[i].i()) }).collect() };
            expect(&format!("large {:?} {:?}", op, dt), op.apply(&ta, &tb), &exp, ulp(if is_float(dt) { 1.0 } else { 0.0 }))
        },
        1 => {
            let op = *cx.rng.pick(&[Bin::Add, Bin::Sub, Bin::Mul, Bin::Max, Bin::Min]);
            let s = gen_v(&mut cx.rng, dt, Gen::Small);
            cx.d(format!("{:?}_scalar {:?}", op, s));
            let exp = RT { dt, shape: vec![m], data: (0..m).map(|i| if is_float(dt) { bin_f(op, dt, ra.data[i].f(), s.f()).0 } else { bin_i(op, dt, ra.data[i].i(), s.i()) }).collect() };
            expect(&format!("large {:?}_scalar {:?}", op, dt), op.scalar(&ta, scalar_of(s, dt)), &exp, ulp(if is_float(dt) { 1.0 } else { 0.0 }))
        },
        _ => {
            let u = if is_float(dt) {
                let k = *cx.rng.pick(&["neg", "abs", "square", "sqrt", "relu", "sigmoid", "exp", "tanh", "ceil", "sin"]);
                UNARY.iter().find(|u| u.name == k).unwrap()
            } else {
                UNARY.iter().find(|u| u.name == "square").unwrap()
            };
            cx.d(u.name);
            unary_check(u, &ta, &ra)
        },
    }
}

pub const ARITH: &[Family] = &[
    fam("unary", 6000, 90000, unary),
    fam("binary", 5000, 80000, binary),
    fam("unary_scalar", 3000, 40000, unary_scalar),
    fam("act_scalar", 800, 8000, act_scalar),
    fam("large", 64, 600, large),
];
pub const BOOL: &[Family] = &[
    fam("cmp", 4000, 60000, cmp),
    fam("logical", 3000, 40000, logical),
    fam("bitwise", 3000, 40000, bitwise),
    fam("select", 3000, 40000, select),
    fam("large_bool", 12, 300, large_bool),
];
