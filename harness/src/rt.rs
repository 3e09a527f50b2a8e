//! Reference tensors (model side) and the bridge to real hodu tensors.
use crate::cx::{Fail, R};
use crate::rng::Rng;
use float8::{F8E4M3, F8E5M2};
use half::{bf16, f16};
use hodu_core::error::HoduResult;
use hodu_core::tensor::Tensor;
use hodu_core::types::DType;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum V {
    F(f64),
    I(i128),
    B(bool),
    /// unspecified by the property: any value accepted
    Any,
}
impl V {
    pub fn f(self) -> f64 {
        match self {
            V::F(x) => x,
            V::I(x) => x as f64,
            V::B(b) => b as u8 as f64,
            V::Any => f64::NAN,
        }
    }
    pub fn i(self) -> i128 {
        match self {
            V::F(x) => x as i128,
            V::I(x) => x,
            V::B(b) => b as i128,
            V::Any => 0,
        }
    }
    pub fn truthy(self) -> bool {
        match self {
            V::F(x) => x != 0.0,
            V::I(x) => x != 0,
            V::B(b) => b,
            V::Any => false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct RT {
    pub dt: DType,
    pub shape: Vec<usize>,
    pub data: Vec<V>,
}

pub const FLOATS: &[DType] = &[DType::F8E4M3, DType::F8E5M2, DType::BF16, DType::F16, DType::F32, DType::F64];
pub const INTS: &[DType] =
    &[DType::U8, DType::U16, DType::U32, DType::U64, DType::I8, DType::I16, DType::I32, DType::I64];
pub const ALL: &[DType] = &[
    DType::BOOL, DType::F8E4M3, DType::F8E5M2, DType::BF16, DType::F16, DType::F32, DType::F64, DType::U8, DType::U16,
    DType::U32, DType::U64, DType::I8, DType::I16, DType::I32, DType::I64,
];
pub fn is_float(dt: DType) -> bool {
    FLOATS.contains(&dt)
}
pub fn is_int(dt: DType) -> bool {
    INTS.contains(&dt)
}
pub fn is_unsigned(dt: DType) -> bool {
    matches!(dt, DType::U8 | DType::U16 | DType::U32 | DType::U64)
}
pub fn bits(dt: DType) -> u32 {
    match dt {
        DType::BOOL | DType::U8 | DType::I8 | DType::F8E4M3 | DType::F8E5M2 => 8,
        DType::U16 | DType::I16 | DType::F16 | DType::BF16 => 16,
        DType::U32 | DType::I32 | DType::F32 => 32,
        _ => 64,
    }
}
pub fn imin(dt: DType) -> i128 {
    if is_unsigned(dt) {
        0
    } else {
        -(1i128 << (bits(dt) - 1))
    }
}
pub fn imax(dt: DType) -> i128 {
    if is_unsigned(dt) {
        (1i128 << bits(dt)) - 1
    } else {
        (1i128 << (bits(dt) - 1)) - 1
    }
}
pub fn wrap(dt: DType, x: i128) -> i128 {
    let m = 1i128 << bits(dt);
    let r = x.rem_euclid(m);
    if !is_unsigned(dt) && r > imax(dt) {
        r - m
    } else {
        r
    }
}
/// (mantissa bits, min exponent of a normal number, max finite)
pub fn fparams(dt: DType) -> (i32, i32, f64) {
    match dt {
        DType::F8E4M3 => (3, -6, 448.0),
        DType::F8E5M2 => (2, -14, 57344.0),
        DType::BF16 => (7, -126, 3.3895313892515355e38),
        DType::F16 => (10, -14, 65504.0),
        DType::F32 => (23, -126, f32::MAX as f64),
        DType::F64 => (52, -1022, f64::MAX),
        _ => unreachable!(),
    }
}
pub fn eps(dt: DType) -> f64 {
    2f64.powi(-fparams(dt).0)
}
pub fn min_normal(dt: DType) -> f64 {
    2f64.powi(fparams(dt).1)
}
/// round-to-nearest-even into the float format (overflow: infinity)
pub fn quant(dt: DType, x: f64) -> f64 {
    if !x.is_finite() || x == 0.0 {
        return x;
    }
    match dt {
        DType::F64 => x,
        DType::F32 => x as f32 as f64,
        _ => {
            let (m, emin, maxf) = fparams(dt);
            let a = x.abs();
            // frexp-like exponent
            let e = ((a.to_bits() >> 52) as i32) - 1023; // x is far above f64 subnormals for these formats
            let e = e.max(emin);
            let q = 2f64.powi(e - m);
            let r = a / q;
            let mut k = r.floor();
            let d = r - k;
            if d > 0.5 || (d == 0.5 && (k as u64) % 2 == 1) {
                k += 1.0;
            }
            let mut v = k * q;
            if v > maxf {
                v = f64::INFINITY;
            }
            if x < 0.0 {
                -v
            } else {
                v
            }
        }
    }
}

pub fn numel(s: &[usize]) -> usize {
    s.iter().product()
}
pub fn strides(s: &[usize]) -> Vec<usize> {
    let mut v = vec![1; s.len()];
    for i in (0..s.len().saturating_sub(1)).rev() {
        v[i] = v[i + 1] * s[i + 1];
    }
    v
}
pub fn unravel(mut i: usize, s: &[usize]) -> Vec<usize> {
    let mut v = vec![0; s.len()];
    for d in (0..s.len()).rev() {
        v[d] = i % s[d];
        i /= s[d];
    }
    v
}
pub fn ravel(ix: &[usize], s: &[usize]) -> usize {
    let mut r = 0;
    for d in 0..s.len() {
        r = r * s[d] + ix[d];
    }
    r
}

impl RT {
    pub fn new(dt: DType, shape: &[usize], data: Vec<V>) -> RT {
        assert_eq!(numel(shape), data.len());
        RT { dt, shape: shape.to_vec(), data }
    }
    pub fn from_fn(dt: DType, shape: &[usize], mut f: impl FnMut(&[usize]) -> V) -> RT {
        let n = numel(shape);
        let data = (0..n).map(|i| f(&unravel(i, shape))).collect();
        RT { dt, shape: shape.to_vec(), data }
    }
    pub fn at(&self, ix: &[usize]) -> V {
        self.data[ravel(ix, &self.shape)]
    }
    pub fn set(&mut self, ix: &[usize], v: V) {
        let i = ravel(ix, &self.shape);
        self.data[i] = v;
    }
    pub fn map(&self, dt: DType, f: impl Fn(V) -> V) -> RT {
        RT { dt, shape: self.shape.clone(), data: self.data.iter().map(|&v| f(v)).collect() }
    }
    pub fn permute(&self, p: &[usize]) -> RT {
        let ns: Vec<usize> = p.iter().map(|&d| self.shape[d]).collect();
        RT::from_fn(self.dt, &ns, |ix| {
            let mut o = vec![0; p.len()];
            for (i, &d) in p.iter().enumerate() {
                o[d] = ix[i];
            }
            self.at(&o)
        })
    }
    pub fn reshape(&self, s: &[usize]) -> RT {
        assert_eq!(numel(s), self.data.len());
        RT { dt: self.dt, shape: s.to_vec(), data: self.data.clone() }
    }
    pub fn broadcast(&self, s: &[usize]) -> RT {
        let off = s.len() - self.shape.len();
        RT::from_fn(self.dt, s, |ix| {
            let o: Vec<usize> =
                (0..self.shape.len()).map(|d| if self.shape[d] == 1 { 0 } else { ix[d + off] }).collect();
            self.at(&o)
        })
    }
    pub fn fs(&self) -> Vec<f64> {
        self.data.iter().map(|v| v.f()).collect()
    }
    pub fn build(&self) -> HoduResult<Tensor> {
        macro_rules! b {
            ($t:ty, $f:expr) => {{
                let v: Vec<$t> = self.data.iter().map($f).collect();
                Tensor::from_slice(v, self.shape.clone())
            }};
        }
        match self.dt {
            DType::BOOL => b!(bool, |v| v.truthy()),
            DType::F8E4M3 => b!(F8E4M3, |v| F8E4M3::from_f64(v.f())),
            // (the library's conversion saturates infinities)
            DType::F8E5M2 => b!(F8E5M2, |v| if v.f().is_infinite() { F8E5M2::from_bits(if v.f() > 0.0 { 0x7c } else { 0xfc }) } else { F8E5M2::from_f64(v.f()) }),
            DType::BF16 => b!(bf16, |v| bf16::from_f64(v.f())),
            DType::F16 => b!(f16, |v| f16::from_f64(v.f())),
            DType::F32 => b!(f32, |v| v.f() as f32),
            DType::F64 => b!(f64, |v| v.f()),
            DType::U8 => b!(u8, |v| v.i() as u8),
            DType::U16 => b!(u16, |v| v.i() as u16),
            DType::U32 => b!(u32, |v| v.i() as u32),
            DType::U64 => b!(u64, |v| v.i() as u64),
            DType::I8 => b!(i8, |v| v.i() as i8),
            DType::I16 => b!(i16, |v| v.i() as i16),
            DType::I32 => b!(i32, |v| v.i() as i32),
            DType::I64 => b!(i64, |v| v.i() as i64),
        }
    }
    pub fn t(&self) -> Tensor {
        self.build().expect("building a tensor from a vector")
    }
    pub fn show(&self) -> String {
        let v: Vec<String> = self
            .data
            .iter()
            .take(24)
            .map(|v| match v {
                V::F(x) => format!("{}", x),
                V::I(x) => format!("{}", x),
                V::B(x) => format!("{}", x),
                V::Any => "*".into(),
            })
            .collect();
        format!("{:?}{:?}[{}{}]", self.dt, self.shape, v.join(","), if self.data.len() > 24 { ",…" } else { "" })
    }
}

pub fn shape_of(t: &Tensor) -> Vec<usize> {
    t.shape().dims().to_vec()
}
/// read the logical content of a tensor
pub fn read(t: &Tensor) -> Result<RT, String> {
    let dt = t.dtype();
    let shape = shape_of(t);
    macro_rules! r {
        ($t:ty, $f:expr) => {
            t.to_flatten_vec::<$t>().map_err(|e| format!("reading result: {}", e))?.into_iter().map($f).collect::<Vec<V>>()
        };
    }
    let data = match dt {
        DType::BOOL => r!(bool, |x| V::B(x)),
        DType::F8E4M3 => r!(F8E4M3, |x| V::F(x.to_f64())),
        DType::F8E5M2 => r!(F8E5M2, |x| V::F(x.to_f64())),
        DType::BF16 => r!(bf16, |x| V::F(x.to_f64())),
        DType::F16 => r!(f16, |x| V::F(x.to_f64())),
        DType::F32 => r!(f32, |x| V::F(x as f64)),
        DType::F64 => r!(f64, |x| V::F(x)),
        DType::U8 => r!(u8, |x| V::I(x as i128)),
        DType::U16 => r!(u16, |x| V::I(x as i128)),
        DType::U32 => r!(u32, |x| V::I(x as i128)),
        DType::U64 => r!(u64, |x| V::I(x as i128)),
        DType::I8 => r!(i8, |x| V::I(x as i128)),
        DType::I16 => r!(i16, |x| V::I(x as i128)),
        DType::I32 => r!(i32, |x| V::I(x as i128)),
        DType::I64 => r!(i64, |x| V::I(x as i128)),
    };
    if data.len() != numel(&shape) {
        return Err(format!("tensor of shape {:?} yields {} elements", shape, data.len()));
    }
    Ok(RT { dt, shape, data })
}

#[derive(Clone, Copy)]
pub struct Tol {
    /// units in the last place of the result dtype
    pub ulp: f64,
    pub abs: f64,
    pub rel: f64,
}
pub const EXACT: Tol = Tol { ulp: 0.0, abs: 0.0, rel: 0.0 };
pub fn ulp(k: f64) -> Tol {
    Tol { ulp: k, abs: 0.0, rel: 0.0 }
}
pub fn tol(ulp: f64, abs: f64) -> Tol {
    Tol { ulp, abs, rel: 0.0 }
}

pub fn fclose(dt: DType, got: f64, exp: f64, t: Tol) -> bool {
    if exp.is_nan() {
        return got.is_nan();
    }
    let (_, _, maxf) = fparams(dt);
    let lim = maxf * (1.0 - (t.ulp + 0.5) * eps(dt) - t.rel);
    if exp.abs() >= lim && (exp.is_infinite() || exp.abs() - t.abs >= lim) {
        if got.is_finite() && exp.is_finite() && (got - exp).abs() <= t.ulp.max(0.5) * eps(dt) * exp.abs() + t.abs + t.rel * exp.abs() {
            return true;
        }
        // overflow: infinity (or NaN / saturation for the 8-bit formats, which may not have one)
        let f8 = matches!(dt, DType::F8E4M3 | DType::F8E5M2);
        if got.is_nan() {
            return f8;
        }
        if got.is_infinite() {
            return got.signum() == exp.signum();
        }
        if got.signum() == exp.signum() && got.abs() >= lim.min(maxf * 0.85) && (f8 || !exp.is_infinite()) {
            return true;
        }
        return false;
    }
    if got == exp {
        return true;
    }
    let tolv = t.ulp * eps(dt) * exp.abs().max(min_normal(dt)) + t.abs + t.rel * exp.abs();
    (got - exp).abs() <= tolv
}
pub fn vclose(dt: DType, got: V, exp: V, t: Tol) -> bool {
    match (got, exp) {
        (_, V::Any) => true,
        (V::F(g), e) => fclose(dt, g, e.f(), t),
        (V::I(g), V::I(e)) => g == e,
        (V::B(g), V::B(e)) => g == e,
        (V::I(g), V::F(e)) => g as f64 == e,
        (g, e) => g.f() == e.f(),
    }
}
pub fn diff(got: &RT, exp: &RT, t: Tol) -> Option<String> {
    if got.dt != exp.dt {
        return Some(format!("dtype {:?}, expected {:?}", got.dt, exp.dt));
    }
    if got.shape != exp.shape {
        return Some(format!("shape {:?}, expected {:?}", got.shape, exp.shape));
    }
    for i in 0..exp.data.len() {
        if !vclose(exp.dt, got.data[i], exp.data[i], t) {
            return Some(format!(
                "element {:?} is {:?}, expected {:?}; got {} expected {}",
                unravel(i, &exp.shape), got.data[i], exp.data[i], got.show(), exp.show()
            ));
        }
    }
    None
}
/// run-time oracle: the tensor equals the reference
pub fn expect(sig: &str, got: HoduResult<Tensor>, exp: &RT, t: Tol) -> R {
    match got {
        Err(e) => Err(Fail::Bad(format!("{}: error", sig), format!("returned error: {}", e))),
        Ok(g) => match read(&g) {
            Err(e) => Err(Fail::Bad(format!("{}: unreadable", sig), e)),
            Ok(g) => match diff(&g, exp, t) {
                None => Ok(()),
                Some(m) => Err(Fail::Bad(format!("{}: wrong", sig), m)),
            },
        },
    }
}

/// like `expect`, with an absolute tolerance per element (plus one ulp of the result type)
pub fn expect_tols(sig: &str, got: HoduResult<Tensor>, exp: &RT, tols: &[f64]) -> R {
    let g = match got {
        Err(e) => return Err(Fail::Bad(format!("{}: error", sig), format!("returned error: {}", e))),
        Ok(g) => g,
    };
    match read(&g) {
        Err(e) => Err(Fail::Bad(format!("{}: unreadable", sig), e)),
        Ok(g) => match diff_tols(&g, exp, tols) {
            None => Ok(()),
            Some(m) => Err(Fail::Bad(format!("{}: wrong", sig), m)),
        },
    }
}
pub fn diff_tols(got: &RT, exp: &RT, tols: &[f64]) -> Option<String> {
    if got.dt != exp.dt {
        return Some(format!("dtype {:?}, expected {:?}", got.dt, exp.dt));
    }
    if got.shape != exp.shape {
        return Some(format!("shape {:?}, expected {:?}", got.shape, exp.shape));
    }
    for i in 0..exp.data.len() {
        let t = Tol { ulp: if is_float(exp.dt) { 1.0 } else { 0.0 }, abs: tols[i], rel: 0.0 };
        if !vclose(exp.dt, got.data[i], exp.data[i], t) {
            return Some(format!("element {:?} is {:?}, expected {:?} +- {:e}; got {} expected {}", unravel(i, &exp.shape), got.data[i], exp.data[i], tols[i], got.show(), exp.show()));
        }
    }
    None
}

// ---------------------------------------------------------------- generators

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Gen {
    /// small exactly representable values
    Small,
    /// includes extremes, zeros, infinities and NaN
    Edge,
    /// finite, moderately sized, includes zero
    Finite,
    /// strictly positive, away from zero
    Pos,
    /// uniform range
    Range(f64, f64),
    /// all distinct (as far as the dtype allows), shuffled
    Distinct,
}

pub fn gen_v(rng: &mut Rng, dt: DType, g: Gen) -> V {
    if dt == DType::BOOL {
        return V::B(rng.chance(0.5));
    }
    if is_float(dt) {
        let (m, emin, maxf) = fparams(dt);
        let x = match g {
            Gen::Small => rng.range(-12, 12) as f64 / 4.0,
            Gen::Finite | Gen::Distinct => match rng.below(6) {
                0 => rng.range(-3, 3) as f64,
                1 => rng.uni(-1.0, 1.0),
                _ => rng.uni(-6.0, 6.0),
            },
            Gen::Pos => rng.uni(0.3, 5.0),
            Gen::Range(a, b) => rng.uni(a, b),
            Gen::Edge => match rng.below(14) {
                0 => 0.0,
                1 => -0.0,
                2 => f64::INFINITY,
                3 => f64::NEG_INFINITY,
                4 => f64::NAN,
                5 => maxf * if rng.chance(0.5) { 1.0 } else { -1.0 },
                6 => 2f64.powi(emin) * if rng.chance(0.5) { 1.0 } else { -1.0 },
                7 => 2f64.powi(emin - m.min(4)) * rng.usize(1, 3) as f64,
                8 => rng.range(-3, 3) as f64,
                9 => rng.range(-40, 40) as f64,
                10 => rng.uni(-100.0, 100.0),
                11 => rng.uni(-1.0, 1.0),
                _ => rng.uni(-6.0, 6.0),
            },
        };
        let mut q = quant(dt, x);
        if dt == DType::F8E4M3 && q.is_infinite() {
            q = if q > 0.0 { 448.0 } else { -448.0 };
        }
        if matches!(dt, DType::F8E5M2) && q.is_infinite() {
            q = if q > 0.0 { 57344.0 } else { -57344.0 };
        }
        return V::F(q);
    }
    let (lo, hi) = (imin(dt), imax(dt));
    let clampi = |x: i128| x.clamp(lo, hi);
    V::I(match g {
        Gen::Small => clampi(rng.range(if is_unsigned(dt) { 0 } else { -7 }, 7) as i128),
        Gen::Pos => rng.range(1, 9) as i128,
        Gen::Range(a, b) => clampi(rng.range(a.ceil() as i64, b.floor() as i64) as i128),
        Gen::Finite | Gen::Distinct => clampi(rng.range(if is_unsigned(dt) { 0 } else { -100 }, 100) as i128),
        Gen::Edge => match rng.below(9) {
            0 => lo,
            1 => hi,
            2 => 0,
            3 => 1,
            4 => clampi(-1),
            5 => wrap(dt, rng.u64() as i128),
            6 => clampi(hi - rng.range(0, 3) as i128),
            _ => clampi(rng.range(-20, 20) as i128),
        },
    })
}
pub fn gen_rt(rng: &mut Rng, dt: DType, shape: &[usize], g: Gen) -> RT {
    let n = numel(shape);
    if g == Gen::Distinct {
        let mut base: Vec<i64> = (0..n as i64).collect();
        rng.shuffle(&mut base);
        let off = if is_unsigned(dt) || dt == DType::BOOL { 0 } else { n as i64 / 2 };
        let data = base
            .into_iter()
            .map(|x| if is_float(dt) { V::F(quant(dt, (x - off) as f64 / 2.0)) } else if dt == DType::BOOL { V::B(x % 2 == 0) } else { V::I(wrap(dt, (x - off) as i128)) })
            .collect();
        return RT { dt, shape: shape.to_vec(), data };
    }
    RT { dt, shape: shape.to_vec(), data: (0..n).map(|_| gen_v(rng, dt, g)).collect() }
}
pub fn gen_shape(rng: &mut Rng, lo_dim: usize, hi_dim: usize, max_numel: usize) -> Vec<usize> {
    loop {
        let nd = rng.usize(lo_dim, hi_dim);
        let s: Vec<usize> = (0..nd)
            .map(|_| match rng.below(6) {
                0 => 1,
                1 => rng.usize(1, 9),
                _ => rng.usize(1, 4),
            })
            .collect();
        if numel(&s) <= max_numel {
            return s;
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lay {
    Contig,
    Permuted,
    Sliced,
    Broadcast,
    Mixed,
}
pub fn gen_lay(rng: &mut Rng) -> Lay {
    *rng.pick(&[Lay::Contig, Lay::Permuted, Lay::Sliced, Lay::Broadcast, Lay::Mixed, Lay::Mixed])
}

/// A real tensor with the requested layout kind whose logical content is the returned model tensor.
/// The storage around the view holds other (junk) values.
pub fn gen_view(rng: &mut Rng, dt: DType, shape: &[usize], g: Gen, lay: Lay) -> Result<(Tensor, RT), Fail> {
    let mut logical = shape.to_vec();
    let bc = matches!(lay, Lay::Broadcast) || (lay == Lay::Mixed && rng.chance(0.4));
    if bc {
        for d in 0..logical.len() {
            if rng.chance(0.5) {
                logical[d] = 1;
            }
        }
    }
    let content = gen_rt(rng, dt, &logical, g);
    let t = view_of(rng, &content, lay)?;
    let model = content.broadcast(shape);
    let t = if logical != shape { lay_op(t.broadcast(shape.to_vec()), "broadcast")? } else { t };
    Ok((t, model))
}
pub fn lay_op(r: HoduResult<Tensor>, what: &str) -> Result<Tensor, Fail> {
    r.map_err(|e| Fail::Bad(format!("view construction: {}", what), format!("{} failed: {}", what, e)))
}
/// real tensor holding `content` through a (possibly) permuted / sliced view of a larger buffer
pub fn view_of(rng: &mut Rng, content: &RT, lay: Lay) -> Result<Tensor, Fail> {
    let nd = content.shape.len();
    if (lay == Lay::Sliced || lay == Lay::Mixed) && rng.chance(if nd == 0 { 0.8 } else { 0.25 }) {
        // contiguous view that does not start at the beginning of its buffer (0-d ones included)
        let n = content.data.len();
        let (lo, hi) = (rng.below(4), rng.below(3));
        let mut big = gen_rt(rng, content.dt, &[lo + n + hi], Gen::Finite);
        for i in 0..n {
            big.data[lo + i] = content.data[i];
        }
        let t = lay_op(big.t().slice(0, lo as i32, Some((lo + n) as i32), 1), "slice")?;
        return if nd == 0 { lay_op(t.squeeze(&[0]), "squeeze") } else { lay_op(t.reshape(&content.shape), "reshape") };
    }
    let permute = nd >= 2 && (lay == Lay::Permuted || (lay == Lay::Mixed && rng.chance(0.6)));
    let slice = nd >= 1 && (lay == Lay::Sliced || (lay == Lay::Mixed && rng.chance(0.6)));
    // logical = permute(slice(base))
    let mut p: Vec<usize> = (0..nd).collect();
    if permute {
        rng.shuffle(&mut p);
    }
    let mut inv = vec![0; nd];
    for (i, &d) in p.iter().enumerate() {
        inv[d] = i;
    }
    let unperm = if permute { content.permute(&inv) } else { content.clone() };
    let mut cuts = vec![];
    let mut big_shape = unperm.shape.clone();
    if slice {
        for d in 0..nd {
            if rng.chance(0.6) {
                let n = unperm.shape[d];
                let start = rng.below(3);
                let step = if rng.chance(0.4) { rng.usize(2, 3) } else { 1 };
                let tail = rng.below(3);
                let last = start + (n - 1) * step;
                big_shape[d] = last + 1 + tail;
                cuts.push((d, start, last + 1, step));
            }
        }
    }
    let mut big = gen_rt(rng, content.dt, &big_shape, Gen::Finite);
    for i in 0..unperm.data.len() {
        let mut ix = unravel(i, &unperm.shape);
        for &(d, s, _, st) in &cuts {
            ix[d] = s + ix[d] * st;
        }
        big.set(&ix, unperm.data[i]);
    }
    let mut t = big.t();
    rng.shuffle(&mut cuts);
    for (d, s, e, st) in cuts {
        let end: Option<i32> = if e == big_shape[d] && rng.chance(0.5) { None } else { Some(e as i32) };
        t = lay_op(t.slice(d as i32, s as i32, end, st as i32), "slice")?;
    }
    if permute {
        let ax: Vec<i32> = p.iter().map(|&x| x as i32).collect();
        t = lay_op(t.permute(&ax), "permute")?;
    }
    Ok(t)
}
