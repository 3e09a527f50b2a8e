//! G01: the gradient recorded for every operation is its derivative (finite differences of the same operation).
use crate::cx::*;
use crate::p_conv::{cat, geo, run_conv};
use crate::p_elem::{scalar_of, UNARY};
use crate::rng::Rng;
use crate::rt::*;
use crate::{bail, check};
use hodu_core::error::HoduResult;
use hodu_core::scalar::Scalar;
use hodu_core::tensor::Tensor;
use hodu_core::types::DType;

type F = Box<dyn Fn(&[Tensor]) -> HoduResult<Tensor>>;
pub struct Case {
    pub name: String,
    /// float inputs the result is differentiated by (F64 contents)
    pub ins: Vec<RT>,
    pub f: F,
    /// the function is piecewise constant / has no gradient by design in some inputs
    pub zero_ok: bool,
}
fn case(name: impl Into<String>, ins: Vec<RT>, f: F) -> Option<Case> {
    Some(Case { name: name.into(), ins, f, zero_ok: false })
}

const D: DType = DType::F64;
pub fn rnd(rng: &mut Rng, s: &[usize], lo: f64, hi: f64) -> RT {
    // values of few mantissa bits, so that the same inputs exist in every float type used
    RT::from_fn(D, s, |_| V::F(quant(DType::BF16, rng.uni(lo, hi))))
}
/// distinct, well separated values (no ties for max/min/sort)
fn distinct(rng: &mut Rng, s: &[usize]) -> RT {
    let n = numel(s);
    let mut v: Vec<f64> = (0..n).map(|i| (i as f64 - n as f64 / 2.0) * 0.25).collect();
    rng.shuffle(&mut v);
    let mut i = 0;
    RT::from_fn(D, s, |_| {
        i += 1;
        V::F(v[i - 1])
    })
}
fn shp(rng: &mut Rng, lo: usize, hi: usize) -> Vec<usize> {
    gen_shape(rng, lo, hi, 40)
}
/// a shape that broadcasts into `s`
fn bshape(rng: &mut Rng, s: &[usize]) -> Vec<usize> {
    let drop = if rng.chance(0.4) { rng.usize(0, s.len()) } else { 0 };
    s[drop..].iter().map(|&d| if rng.chance(0.35) { 1 } else { d }).collect()
}
fn dims(rng: &mut Rng, n: usize) -> Vec<i32> {
    let mut d: Vec<usize> = (0..n).filter(|_| rng.chance(0.5)).collect();
    rng.shuffle(&mut d);
    crate::p_red::spell(rng, &d, n)
}
fn ax(rng: &mut Rng, n: usize) -> i32 {
    let d = rng.below(n) as i32;
    if rng.chance(0.4) {
        d - n as i32
    } else {
        d
    }
}
fn norm_ax(d: i32, n: usize) -> usize {
    if d < 0 {
        (d + n as i32) as usize
    } else {
        d as usize
    }
}
/// a scalar of the tensor's own dtype
fn sc(t: &Tensor, x: f64) -> Scalar {
    scalar_of(V::F(quant(t.dtype(), x)), t.dtype())
}
fn idx(rng: &mut Rng, s: &[usize], n: usize, neg: bool) -> Vec<i32> {
    (0..numel(s)).map(|_| if neg && rng.chance(0.2) { -(1 + rng.below(n) as i32) } else { rng.below(n) as i32 }).collect()
}

pub const GROUPS: &[&str] = &[
    "unary", "unary_big", "scalar", "actscalar", "binary", "select", "reduce", "softmax", "cumsum", "sum_to", "matmul", "linalg", "einsum",
    "join", "split", "index", "scatter", "conv", "window", "pad", "resize", "shape", "shape_memory", "topk", "contiguous",
];

pub fn gen_case(cx: &mut Cx, group: &str) -> Option<Case> {
    let r = &mut cx.rng;
    match group {
        "unary" | "unary_big" => {
            let u = r.pick(UNARY);
            let s = shp(r, 0, 4);
            let (lo, hi) = match u.name {
                "sqrt" | "ln" | "log2" | "log10" => (0.1, 4.0),
                "recip" => if r.chance(0.5) { (0.2, 3.0) } else { (-3.0, -0.2) },
                "asin" | "acos" | "atanh" => (-0.9, 0.9),
                "acosh" => (1.2, 4.0),
                "tan" => (-1.2, 1.2),
                "exp10" => (-2.0, 1.5),
                "relu" | "sigmoid" | "hardsigmoid" | "gelu" | "softplus" | "silu" | "swish" | "hardsilu" | "hardswish" | "mish" | "selu" | "celu" | "tanh" | "erf" | "softsign" | "abs" | "atan" if group == "unary_big" => (-900.0, 900.0),
                _ => (-4.0, 4.0),
            };
            let mut x = rnd(r, &s, lo, hi);
            if lo < 0.0 && hi > 0.0 && r.chance(0.3) && !x.data.is_empty() {
                let k = r.below(x.data.len());
                x.data[k] = V::F(*r.pick(&[0.0, 3.0, -3.0, 1.0]) * if hi < 3.0 { 0.0 } else { 1.0 });
            }
            let op = u.op;
            let zero = matches!(u.name, "sign" | "ceil" | "floor" | "round");
            Some(Case { name: u.name.to_string(), ins: vec![x], f: Box::new(move |t| op(&t[0])), zero_ok: zero })
        },
        "scalar" => {
            let k = r.below(8);
            let c = quant(DType::BF16, if r.chance(0.15) { 1e-10 } else { r.uni(0.3, 3.0) } * if r.chance(0.3) { -1.0 } else { 1.0 });
            let c = if k == 4 && c.abs() < 0.1 { 0.75 } else { c };
            let c = if k == 5 { *r.pick(&[0.0, 1.0, 2.0, 3.0, 0.5, -1.0, 1.5]) } else { c };
            let s = shp(r, 0, 4);
            let x = if k == 5 { rnd(r, &s, 0.2, 3.0) } else { rnd(r, &s, -4.0, 4.0) };
            let n = ["add_scalar", "sub_scalar", "mul_scalar", "div_scalar", "rem_scalar", "pow_scalar", "maximum_scalar", "minimum_scalar"][k];
            case(n, vec![x], Box::new(move |t| {
                let (t, c) = (&t[0], sc(&t[0], c));
                match k {
                    0 => t.add_scalar(c),
                    1 => t.sub_scalar(c),
                    2 => t.mul_scalar(c),
                    3 => t.div_scalar(c),
                    4 => t.rem_scalar(c),
                    5 => t.pow_scalar(c),
                    6 => t.maximum_scalar(c),
                    _ => t.minimum_scalar(c),
                }
            }))
        },
        "actscalar" => {
            let k = r.below(3);
            let c = quant(DType::BF16, r.uni(0.05, 1.5));
            let s = shp(r, 0, 4);
            let big = if r.chance(0.3) { 900.0 } else { 4.0 };
            let x = rnd(r, &s, -big, big);
            case(["leaky_relu", "elu", "prelu"][k], vec![x], Box::new(move |t| match k {
                0 => t[0].leaky_relu(sc(&t[0], c)),
                1 => t[0].elu(sc(&t[0], c)),
                _ => t[0].prelu(sc(&t[0], c)),
            }))
        },
        "binary" => {
            let k = r.below(8);
            let s = shp(r, 0, 4);
            let (sa, sb) = match r.below(4) {
                0 => (s.clone(), s.clone()),
                1 => (s.clone(), bshape(r, &s)),
                2 => (bshape(r, &s), s.clone()),
                _ => (bshape(r, &s), bshape(r, &s)),
            };
            let (la, lb) = match k {
                3 | 4 => ((-4.0, 4.0), if r.chance(0.5) { (0.4, 3.0) } else { (-3.0, -0.4) }),
                5 => ((0.3, 3.0), (-2.0, 2.0)),
                _ => ((-4.0, 4.0), (-4.0, 4.0)),
            };
            let (mut a, b) = (rnd(r, &sa, la.0, la.1), rnd(r, &sb, lb.0, lb.1));
            if r.chance(0.2) && k != 5 && sa == sb {
                a = b.clone(); // ties
            }
            case(["add", "sub", "mul", "div", "rem", "pow", "maximum", "minimum"][k], vec![a, b], Box::new(move |t| match k {
                0 => t[0].add(&t[1]),
                1 => t[0].sub(&t[1]),
                2 => t[0].mul(&t[1]),
                3 => t[0].div(&t[1]),
                4 => t[0].rem(&t[1]),
                5 => t[0].pow(&t[1]),
                6 => t[0].maximum(&t[1]),
                _ => t[0].minimum(&t[1]),
            }))
        },
        "select" => {
            let k = r.below(5);
            let s = shp(r, 1, 3);
            let x = rnd(r, &s, -4.0, 4.0);
            let bs = bshape(r, &s);
            let y = rnd(r, &bs, -4.0, 4.0);
            let m = RT::from_fn(DType::BOOL, &s, |_| V::B(r.chance(0.5)));
            let (lo, hi) = (quant(DType::BF16, r.uni(-3.0, 0.0)), quant(DType::BF16, r.uni(0.1, 3.0)));
            let ins = if k == 0 { vec![x, y] } else { vec![x] };
            case(["where3", "masked_fill", "clamp", "clamp_min", "clamp_max"][k], ins, Box::new(move |t| match k {
                0 => t[0].where3(&m.t(), &t[1]),
                1 => t[0].masked_fill(&m.t(), sc(&t[0], lo)),
                2 => t[0].clamp(sc(&t[0], lo), sc(&t[0], hi)),
                3 => t[0].clamp_min(sc(&t[0], lo)),
                _ => t[0].clamp_max(sc(&t[0], hi)),
            }))
        },
        "reduce" => {
            let k = r.below(16);
            let s = shp(r, if k >= 10 { 0 } else { 1 }, 4);
            let d = dims(r, s.len());
            let keep = r.chance(0.5);
            let n = ["sum", "mean", "max", "min", "prod", "std", "var", "logsum", "logsumexp", "norm", "l1_norm", "l2_norm", "sum_all", "mean_all", "std_all", "var_all"][k];
            let cnt: usize = if d.is_empty() || k >= 12 { numel(&s) } else { d.iter().map(|&x| s[norm_ax(x, s.len())]).product() };
            if (k == 5 || k == 14) && cnt < 2 {
                return None; // the deviation of a single element is not differentiable
            }
            let mut x = match k {
                2 | 3 => if r.chance(0.2) { rnd(r, &s, -1.0, 1.0).map(D, |v| V::F(v.f().round())) } else { distinct(r, &s) },
                4 => rnd(r, &s, -1.6, 1.6),
                7 => rnd(r, &s, 0.2, 3.0),
                9 | 10 | 11 => rnd(r, &s, -3.0, 3.0),
                5 | 6 | 14 | 15 => distinct(r, &s),
                8 if r.chance(0.3) => rnd(r, &s, -800.0, 800.0),
                _ => rnd(r, &s, -3.0, 3.0),
            };
            if matches!(k, 4 | 10) && r.chance(0.25) && !x.data.is_empty() {
                let z = r.below(x.data.len());
                x.data[z] = V::F(0.0);
                if r.chance(0.4) { let z = r.below(x.data.len()); x.data[z] = V::F(0.0); }
            }
            let p = *r.pick(&[1.0, 2.0, 3.0, 1.5, 4.0]);
            // slices without spread or length: any subgradient, but a number
            if matches!(k, 5 | 9 | 10 | 11 | 14) && r.chance(0.08) {
                let c = if matches!(k, 5 | 14) { V::F(1.5) } else { V::F(0.0) };
                x = x.map(D, |_| c);
            }
            case(if k == 9 { format!("norm p={}", p) } else { n.to_string() }, vec![x], Box::new(move |t| {
                let t = &t[0];
                let d = &d[..];
                match k {
                    0 => t.sum(d, keep),
                    1 => t.mean(d, keep),
                    2 => t.max(d, keep),
                    3 => t.min(d, keep),
                    4 => t.prod(d, keep),
                    5 => t.std(d, keep),
                    6 => t.var(d, keep),
                    7 => t.logsum(d, keep),
                    8 => t.logsumexp(d, keep),
                    9 => t.norm(sc(t, p), d, keep),
                    10 => t.l1_norm(d, keep),
                    11 => t.l2_norm(d, keep),
                    12 => t.sum_all(),
                    13 => t.mean_all(),
                    14 => t.std_all(),
                    _ => t.var_all(),
                }
            }))
        },
        "softmax" => {
            let s = shp(r, 1, 4);
            let d = ax(r, s.len());
            let x = rnd(r, &s, -4.0, 4.0);
            let l = r.chance(0.5);
            case(if l { "log_softmax" } else { "softmax" }, vec![x], Box::new(move |t| if l { t[0].log_softmax(d) } else { t[0].softmax(d) }))
        },
        "cumsum" => {
            let s = shp(r, 1, 4);
            let d = ax(r, s.len());
            let x = rnd(r, &s, -4.0, 4.0);
            case("cumsum", vec![x], Box::new(move |t| t[0].cumsum(d)))
        },
        "sum_to" => {
            let s = shp(r, 1, 4);
            let b = bshape(r, &s);
            let x = rnd(r, &s, -4.0, 4.0);
            case("sum_to_shape", vec![x], Box::new(move |t| t[0].sum_to_shape(b.clone())))
        },
        "matmul" => {
            let (m, k, n) = (r.usize(1, 4), r.usize(1, 4), r.usize(1, 4));
            let w = r.below(7);
            let bt = gen_shape(r, 1, 2, 6);
            let b1 = bshape(r, &bt);
            let b2 = bshape(r, &bt);
            let j = |b: &[usize], x: usize, y: usize| { let mut v = b.to_vec(); v.extend([x, y]); v };
            let (sa, sb) = match w {
                0 => (vec![k], vec![k]),
                1 => (vec![m, k], vec![k]),
                2 => (vec![k], vec![k, n]),
                3 => (vec![m, k], vec![k, n]),
                4 => (j(&bt, m, k), j(&bt, k, n)),
                5 => (j(&b1, m, k), j(&b2, k, n)),
                _ => if r.chance(0.5) { (vec![m, k], j(&bt, k, n)) } else { (j(&bt, m, k), vec![k, n]) },
            };
            let dot = w < 4 && r.chance(0.4);
            let (a, b) = (rnd(r, &sa, -2.0, 2.0), rnd(r, &sb, -2.0, 2.0));
            case(format!("{} {}Dx{}D{}", if dot { "dot" } else { "matmul" }, sa.len().min(3), sb.len().min(3), if w >= 5 { " broadcast" } else { "" }), vec![a, b], Box::new(move |t| if dot { t[0].dot(&t[1]) } else { t[0].matmul(&t[1]) }))
        },
        "linalg" => {
            let k = r.below(4);
            let n = r.usize(1, 4);
            let mut s = if r.chance(0.5) { vec![] } else { gen_shape(r, 1, 2, 6) };
            let bt = s.clone();
            s.extend([n, n]);
            let mut x = rnd(r, &s, -1.0, 1.0);
            for i in 0..x.data.len() {
                let ix = unravel(i, &s);
                if ix[s.len() - 1] == ix[s.len() - 2] {
                    x.data[i] = V::F(x.data[i].f() + if k == 0 { 1.5 } else { 4.0 });
                }
            }
            // a singular matrix still has a determinant gradient (its cofactors)
            let singular = k == 0 && r.chance(0.1);
            if singular {
                let row = r.below(n);
                for i in 0..n {
                    x.data[row * n + i] = V::F(0.0);
                }
            }
            let mut bs = bt.clone();
            if bt.is_empty() && r.chance(0.5) { bs.push(n) } else { bs.extend([n, r.usize(1, 3)]) }
            let b = rnd(r, &bs, -2.0, 2.0);
            let ins = if k == 3 { vec![x, b] } else { vec![x] };
            case(format!("{}{}", if singular { "det of a singular matrix" } else { ["det", "inv", "trace", "solve"][k] }, if bt.is_empty() { "" } else { " batched" }), ins, Box::new(move |t| match k {
                0 => t[0].det(),
                1 => t[0].inv(),
                2 => t[0].trace(),
                _ => t[0].solve(&t[1]),
            }))
        },
        "einsum" => {
            let letters = ['i', 'j', 'k', 'b', 'm'];
            let ext: Vec<usize> = letters.iter().map(|_| r.usize(1, 3)).collect();
            let n = r.usize(1, 3);
            let mut subs: Vec<Vec<usize>> = vec![];
            for _ in 0..n {
                let mut l: Vec<usize> = (0..5).collect();
                r.shuffle(&mut l);
                l.truncate(r.usize(1, 3));
                if l.len() > 1 && r.chance(0.15) { l[1] = l[0]; } // diagonal
                subs.push(l);
            }
            let mut used: Vec<usize> = subs.iter().flatten().copied().collect();
            used.sort();
            used.dedup();
            let diag = subs.iter().any(|s| { let mut t = s.clone(); t.sort(); t.dedup(); t.len() != s.len() });
            r.shuffle(&mut used);
            let keep = r.usize(0, used.len().min(3));
            let out: Vec<usize> = used[..keep].to_vec();
            let st = |v: &[usize]| v.iter().map(|&i| letters[i]).collect::<String>();
            let eq = format!("{}->{}", subs.iter().map(|s| st(s)).collect::<Vec<_>>().join(","), st(&out));
            let ins: Vec<RT> = subs.iter().map(|s| s.iter().map(|&i| ext[i]).collect::<Vec<_>>()).map(|s| rnd(r, &s, -2.0, 2.0)).collect();
            case(format!("einsum{} n={}", if diag { " diagonal" } else { "" }, n), ins, {
                cx.desc.push_str(&eq);
                Box::new(move |t| Tensor::einsum(&eq, &t.iter().collect::<Vec<_>>()))
            })
        },
        "join" => {
            let st = r.chance(0.4);
            let s = shp(r, 1, 3);
            let n = r.usize(1, 3);
            let d = if st { ax(r, s.len() + 1) } else { ax(r, s.len()) };
            let ins = (0..n)
                .map(|_| {
                    let mut q = s.clone();
                    if !st { q[norm_ax(d, s.len())] = r.usize(1, 3); }
                    rnd(r, &q, -3.0, 3.0)
                })
                .collect();
            case(if st { "stack" } else { "concat" }, ins, Box::new(move |t| {
                let v: Vec<&Tensor> = t.iter().collect();
                if st { Tensor::stack(&v, d) } else { Tensor::concat(&v, d) }
            }))
        },
        "split" => {
            let mut s = shp(r, 1, 3);
            let d = ax(r, s.len());
            let a = norm_ax(d, s.len());
            s[a] = r.usize(2, 5);
            let x = rnd(r, &s, -3.0, 3.0);
            if r.chance(0.5) {
                let n = r.usize(1, s[a]);
                let which: Vec<f64> = (0..s[a]).map(|_| *r.pick(&[0.0, 1.0, 2.0, -1.0])).collect();
                return case("chunk", vec![x], Box::new(move |t| weigh(&t[0].chunk(n, d)?, &which)));
            }
            let mut sizes = vec![];
            let mut left = s[a];
            while left > 0 {
                let k = r.usize(1, left);
                sizes.push(k);
                left -= k;
            }
            let which: Vec<f64> = sizes.iter().map(|_| *r.pick(&[0.0, 1.0, 2.0, -1.0])).collect();
            case("split", vec![x], Box::new(move |t| weigh(&t[0].split(&sizes, d)?, &which)))
        },
        "index" => {
            let s = shp(r, 1, 3);
            let d = ax(r, s.len());
            let a = norm_ax(d, s.len());
            let x = rnd(r, &s, -3.0, 3.0);
            match r.below(3) {
                0 => {
                    let n = r.usize(1, 5);
                    let ix = idx(r, &[n], s[a], true);
                    case("index_select", vec![x], Box::new(move |t| t[0].index_select(d, &Tensor::from_slice(ix.clone(), [n])?)))
                },
                1 => {
                    let mut q: Vec<usize> = s.iter().map(|&e| r.usize(1, e)).collect();
                    q[a] = r.usize(1, 4);
                    let ix = idx(r, &q, s[a], true);
                    case("gather", vec![x], Box::new(move |t| t[0].gather(d, &Tensor::from_slice(ix.clone(), q.clone())?)))
                },
                _ => {
                    let n = r.usize(1, s[a]);
                    let mut all: Vec<usize> = (0..s[a]).collect();
                    r.shuffle(&mut all);
                    let ix: Vec<i32> = all[..n].iter().map(|&i| i as i32).collect();
                    let mut q = s.clone();
                    q[a] = n;
                    let v = rnd(r, &q, -3.0, 3.0);
                    case("index_put", vec![x, v], Box::new(move |t| t[0].index_put(d, &Tensor::from_slice(ix.clone(), [n])?, &t[1])))
                },
            }
        },
        "scatter" => {
            let s = shp(r, 1, 3);
            let d = ax(r, s.len());
            let a = norm_ax(d, s.len());
            let k = r.below(4);
            let mut q: Vec<usize> = s.iter().map(|&e| r.usize(1, e)).collect();
            q[a] = r.usize(1, 4);
            if k != 1 && k < 2 { q[a] = q[a].min(s[a]); }
            let mut ix = idx(r, &q, s[a], false);
            if k == 0 {
                // plain scatter: distinct targets (duplicates are order dependent)
                let lanes = numel(&q) / q[a];
                let _ = lanes;
                let mut ixr = RT::from_fn(DType::I32, &q, |_| V::I(0));
                let mut base: Vec<i128> = (0..s[a] as i128).collect();
                r.shuffle(&mut base);
                for i in 0..ixr.data.len() {
                    let p = unravel(i, &q);
                    ixr.data[i] = V::I(base[p[a]]);
                }
                ix = ixr.data.iter().map(|v| v.i() as i32).collect();
            }
            let nn = numel(&s) + numel(&q);
            let all = distinct(r, &[nn]);
            let x = RT::new(D, &s, all.data[..numel(&s)].to_vec());
            let v = RT::new(D, &q, all.data[numel(&s)..].to_vec());
            let n = ["scatter", "scatter_add", "scatter_max", "scatter_min"][k];
            case(n, vec![x, v], Box::new(move |t| {
                let i = Tensor::from_slice(ix.clone(), q.clone())?;
                match k {
                    0 => t[0].scatter(d, &i, &t[1]),
                    1 => t[0].scatter_add(d, &i, &t[1]),
                    2 => t[0].scatter_max(d, &i, &t[1]),
                    _ => t[0].scatter_min(d, &i, &t[1]),
                }
            }))
        },
        "conv" => {
            let nd = *r.pick(&[1, 1, 2, 2, 3]);
            let tr = r.chance(0.4);
            let g = geo(cx, nd, tr)?;
            let r = &mut cx.rng;
            if numel(&g.inp) > 40 { return None; }
            let x = rnd(r, &cat(g.n, g.ci, &g.inp), -2.0, 2.0);
            let ws = if tr { cat(g.ci, g.co, &g.ker) } else { cat(g.co, g.ci, &g.ker) };
            let w = rnd(r, &ws, -2.0, 2.0);
            cx.desc.push_str(&format!("s{} p{} op{} d{} ", g.s, g.p, g.op, g.d));
            case(format!("conv{}{}d", if tr { "_transpose" } else { "" }, nd), vec![x, w], Box::new(move |t| run_conv(nd, tr, &t[0], &t[1], g.s, g.p, g.op, g.d)))
        },
        "window" => {
            let red = *r.pick(&["max", "min", "sum", "mean"]);
            let nd = r.usize(1, 4);
            let s: Vec<usize> = (0..nd).map(|_| r.usize(1, if nd > 2 { 3 } else { 5 })).collect();
            let win: Vec<usize> = (0..nd).map(|_| *r.pick(&[1, 1, 2, 3])).collect();
            let st: Vec<usize> = (0..nd).map(|_| *r.pick(&[1, 1, 2, 3])).collect();
            let pad: Vec<(usize, usize)> = (0..nd).map(|i| (*r.pick(&[0, 0, 1]).min(&(win[i] - 1)), *r.pick(&[0, 0, 1]).min(&(win[i] - 1)))).collect();
            for i in 0..nd {
                if s[i] + pad[i].0 + pad[i].1 < win[i] { return None; }
            }
            let x = distinct(r, &s);
            cx.desc.push_str(&format!("win{:?} st{:?} pad{:?} ", win, st, pad));
            case(format!("reduce_window {} {}d", red, nd), vec![x], Box::new(move |t| t[0].reduce_window(win.clone(), st.clone(), &pad, red)))
        },
        "pad" => {
            let mode = *r.pick(&["constant", "reflect", "replicate", "circular"]);
            let nd = r.usize(1, 4);
            let s: Vec<usize> = (0..nd).map(|_| r.usize(1, 4)).collect();
            let wide = r.chance(0.3);
            let p: Vec<(usize, usize)> = s.iter().map(|&n| { let hi = if wide { 5 } else if mode == "reflect" { n - 1 } else { 2 }; (r.usize(0, hi), r.usize(0, hi)) }).collect();
            let c = quant(DType::BF16, r.uni(-2.0, 2.0));
            let x = rnd(r, &s, -2.0, 2.0);
            cx.desc.push_str(&format!("{:?} ", p));
            case(format!("pad {}", mode), vec![x], Box::new(move |t| t[0].pad(&p, mode, sc(&t[0], c))))
        },
        "resize" => {
            let nd = *r.pick(&[2, 2, 3]);
            let mut s = vec![r.usize(1, 2), r.usize(1, 2)];
            s.extend((0..nd).map(|_| r.usize(1, 4)));
            let o: Vec<usize> = (0..nd).map(|_| r.usize(1, 5)).collect();
            let mode = *r.pick(&["nearest", "linear", "cubic"]);
            let ct = *r.pick(&["half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel"]);
            let nm = *r.pick(&["floor", "ceil", "round_prefer_floor", "round_prefer_ceil"]);
            let x = rnd(r, &s, -2.0, 2.0);
            cx.desc.push_str(&format!("{} {} -> {:?} ", ct, nm, o));
            case(format!("resize {}", mode), vec![x], Box::new(move |t| t[0].resize(&o, mode, ct, nm)))
        },
        "shape" => {
            let s = shp(r, 1, 4);
            let x = rnd(r, &s, -3.0, 3.0);
            let nd = s.len();
            let mut k = r.below(12);
            if k == 8 && nd < 2 {
                k = 9;
            }
            let n = ["reshape", "view", "flatten", "unsqueeze", "squeeze", "broadcast", "broadcast_like", "broadcast_left", "transpose", "permute", "t", "expand_dims"][k];
            let (d1, d2) = (ax(r, nd), ax(r, nd));
            let ud = ax(r, nd + 1);
            let mut p: Vec<usize> = (0..nd).collect();
            r.shuffle(&mut p);
            let p: Vec<i32> = crate::p_red::spell(r, &p, nd);
            let to = r.usize(1, 3);
            let big: Vec<usize> = { let mut b: Vec<usize> = (0..r.usize(0, 2)).map(|_| r.usize(1, 3)).collect(); b.extend(s.iter().map(|&e| if e == 1 { to } else { e })); b };
            let left: Vec<usize> = (0..r.usize(1, 2)).map(|_| r.usize(1, 3)).collect();
            let mut flat = s.clone();
            r.shuffle(&mut flat);
            if k == 10 && nd != 2 { return None; }
            let sq: Vec<i32> = { let d: Vec<usize> = (0..nd).filter(|&i| s[i] == 1 && r.chance(0.7)).collect(); crate::p_red::spell(r, &d, nd) };
            case(n, vec![x], Box::new(move |t| {
                let t = &t[0];
                match k {
                    0 => t.reshape(flat.clone()),
                    1 => t.view(flat.clone()),
                    2 => t.flatten(),
                    3 | 11 => t.unsqueeze(ud),
                    4 => t.squeeze(&sq),
                    5 => t.broadcast(big.clone()),
                    6 => t.broadcast_like(&Tensor::zeros(big.clone(), t.dtype())?),
                    7 => t.broadcast_left(&left),
                    8 => t.transpose(d1, d2),
                    9 => t.permute(&p),
                    _ => t.t(),
                }
            }))
        },
        "shape_memory" => {
            let s = shp(r, 1, 4);
            let x = rnd(r, &s, -3.0, 3.0);
            let nd = s.len();
            match r.below(3) {
                0 => {
                    let reps: Vec<usize> = (0..nd).map(|_| r.usize(1, 3)).collect();
                    case("repeat", vec![x], Box::new(move |t| t[0].repeat(&reps)))
                },
                1 => {
                    let d: Vec<i32> = { let v: Vec<usize> = (0..nd).filter(|_| r.chance(0.5)).collect(); crate::p_red::spell(r, &v, nd) };
                    if d.is_empty() { return None; }
                    case("flip", vec![x], Box::new(move |t| t[0].flip(&d)))
                },
                _ => {
                    let d = ax(r, nd);
                    let n = s[norm_ax(d, nd)] as i32;
                    let back = r.chance(0.4);
                    let st = r.usize(1, 3) as i32;
                    let a = r.below(n as usize) as i32;
                    let (a, e, st) = if back { (a, if r.chance(0.5) { None } else { Some((a - 1 - r.below(3) as i32).max(0)) }, -st) } else { (a, if r.chance(0.5) { None } else { Some(a + 1 + r.below(3) as i32) }, st) };
                    if back && e == Some(a) { return None; }
                    cx.desc.push_str(&format!("slice {} {} {:?} {} ", d, a, e, st));
                    case(if back { "slice backwards" } else { "slice" }, vec![x], Box::new(move |t| t[0].slice(d, a, e, st)))
                },
            }
        },
        "topk" => {
            let s = shp(r, 1, 3);
            let d = ax(r, s.len());
            let x = distinct(r, &s);
            let k = r.usize(1, s[norm_ax(d, s.len())]);
            let (l, so) = (r.chance(0.5), r.chance(0.5));
            // unsorted results come in an unspecified order: only their sum is a function of the input
            case("topk", vec![x], Box::new(move |t| { let (v, i) = t[0].topk(k, d, l, so)?; drop(i); if so { Ok(v) } else { v.sum(&[d], false) } }))
        },
        _ => {
            let s = shp(r, 2, 4);
            let x = rnd(r, &s, -3.0, 3.0);
            let mut p: Vec<i32> = (0..s.len() as i32).collect();
            r.shuffle(&mut p);
            case("contiguous", vec![x], Box::new(move |t| t[0].permute(&p)?.contiguous()))
        },
    }
}

fn weigh(parts: &[Tensor], w: &[f64]) -> HoduResult<Tensor> {
    // a combination of some of the parts; parts with weight 0 stay unused
    let mut acc: Option<Tensor> = None;
    for (p, &w) in parts.iter().zip(w) {
        if w == 0.0 {
            continue;
        }
        let t = p.mul_scalar(sc(p, w))?.sum_all()?;
        acc = Some(match acc {
            Some(a) => a.add(&t)?,
            None => t,
        });
    }
    match acc {
        Some(a) => Ok(a),
        None => parts[0].sum_all(),
    }
}

fn cast_rt(x: &RT, dt: DType) -> RT {
    x.map(dt, |v| V::F(quant(dt, v.f())))
}
pub fn dotw(o: &RT, w: &[f64]) -> f64 {
    o.data.iter().zip(w).map(|(a, b)| if *b == 0.0 { 0.0 } else { a.f() * b }).sum()
}
fn eval(c: &Case, ins: &[RT], w: &[f64]) -> Result<f64, String> {
    let ts: Vec<Tensor> = ins.iter().map(|r| r.t()).collect();
    let o = (c.f)(&ts).map_err(|e| e.to_string())?;
    Ok(dotw(&read(&o)?, w))
}

/// analytic gradients in one dtype
pub fn analytic(c: &Case, leaves: &[Tensor], want: &[bool], w: &[f64], sig: &str) -> Result<Vec<Option<RT>>, Fail> {
    let o = match (c.f)(leaves) {
        Ok(o) => o,
        Err(e) => return bad(format!("{}: forward", sig), e.to_string()),
    };
    if !o.is_requires_grad() {
        if c.zero_ok {
            return Err(Fail::Skip);
        }
        return bad(format!("{}: gradient not recorded", sig), "the result of a differentiable operation does not require gradient");
    }
    let dt = o.dtype();
    let shape = shape_of(&o);
    let wt = RT::new(dt, &shape, w.iter().map(|&x| V::F(x)).collect()).t();
    let loss = match o.mul(&wt).and_then(|m| m.sum_all()) {
        Ok(l) => l,
        Err(e) => return bad(format!("{}: loss", sig), e.to_string()),
    };
    if let Err(e) = loss.backward() {
        return bad(format!("{}: backward", sig), e.to_string());
    }
    let mut v = vec![];
    for (l, &want) in leaves.iter().zip(want) {
        if !want {
            if l.grad().is_ok() {
                return bad(format!("{}: gradient for a tensor that needs none", sig), "");
            }
            v.push(None);
            continue;
        }
        let g = match l.grad() {
            Ok(g) => g,
            Err(e) => return bad(format!("{}: no gradient", sig), e.to_string()),
        };
        let g = read(&g).map_err(|e| Fail::Bad(format!("{}: gradient unreadable", sig), e))?;
        if g.shape != shape_of(l) || g.dt != l.dtype() {
            return bad(format!("{}: gradient shape", sig), format!("gradient is {:?} {:?}, input {:?} {:?}", g.dt, g.shape, l.dtype(), shape_of(l)));
        }
        v.push(Some(g));
    }
    Ok(v)
}

/// finite-difference verdict for the collected gradients of one f64 function of several inputs
pub fn check_fd(cx: &mut Cx, sig: &str, ins: &[RT], grads: &[Option<RT>], max_elems: usize, eval: &dyn Fn(&[RT]) -> Result<f64, String>) -> R {
    let mut ins = ins.to_vec();
    let f0 = eval(&ins).map_err(|e| Fail::Bad(format!("{}: forward", sig), e))?;
    if !f0.is_finite() {
        return Err(Fail::Skip);
    }
    let mut smooth = 0;
    let mut kinks = 0;
    for k in 0..ins.len() {
        let Some(g) = &grads[k] else { continue };
        let n = ins[k].data.len();
        let mut order: Vec<usize> = (0..n).collect();
        cx.rng.shuffle(&mut order);
        for &i in order.iter().take(max_elems) {
            let x = ins[k].data[i].f();
            let h = 2f64.powi(-16) * x.abs().max(1.0);
            let mut at = |d: f64| -> Result<f64, Fail> {
                ins[k].data[i] = V::F(x + d);
                let v = eval(&ins).map_err(|e| Fail::Bad(format!("{}: forward", sig), e));
                ins[k].data[i] = V::F(x);
                v
            };
            let (p, m) = (at(h)?, at(-h)?);
            let (p2, m2) = (at(h / 2.0)?, at(-h / 2.0)?);
            if ![p, m, p2, m2].iter().all(|v| v.is_finite()) {
                continue;
            }
            let (fw, bw) = ((p - f0) / h, (f0 - m) / h);
            let ctr = (8.0 * (p2 - m2) - (p - m)) / (6.0 * h);
            let noise = 1e-14 * (f0.abs() + p.abs()) / h;
            let got = g.data[i].f();
            let t = 1e-4 * (1.0 + ctr.abs()) + 4.0 * noise;
            if (fw - bw).abs() <= 1e-3 * (1.0 + ctr.abs()) + noise {
                smooth += 1;
                if !got.is_finite() {
                    return bad(format!("{}: not finite", sig), format!("input {} element {:?}: gradient {} but the derivative is {} (x={})", k, unravel(i, &ins[k].shape), got, ctr, x));
                }
                if !((got - ctr).abs() <= t) {
                    return bad(format!("{}: derivative", sig), format!("input {} element {:?}: gradient {} but the derivative is {} (x={})", k, unravel(i, &ins[k].shape), got, ctr, x));
                }
            } else {
                kinks += 1;
                let t = t + 1e-3 * (fw.abs() + bw.abs());
                // jumps (integer rounding inside) have no one-sided derivative to compare with
                if fw.abs().max(bw.abs()) > 1e3 * (1.0 + f0.abs()) {
                    continue;
                }
                if !(got >= fw.min(bw) - t && got <= fw.max(bw) + t) {
                    return bad(format!("{}: one-sided derivative", sig), format!("input {} element {:?}: gradient {} outside [{}, {}] (x={})", k, unravel(i, &ins[k].shape), got, fw.min(bw), fw.max(bw), x));
                }
            }
        }
    }
    cx.count("derivatives_compared", smooth);
    cx.count("kinks_compared", kinks);
    if smooth + kinks == 0 {
        return Err(Fail::Skip);
    }
    Ok(())
}

fn one(cx: &mut Cx, group: &str) -> R {
    let Some(c) = gen_case(cx, group) else { return Err(Fail::Skip) };
    let sig = c.name.clone();
    // which inputs require gradient
    let mut want: Vec<bool> = c.ins.iter().map(|_| cx.rng.chance(0.8)).collect();
    if !want.iter().any(|&w| w) {
        let k = cx.rng.below(want.len());
        want[k] = true;
    }
    let mk = |rng: &mut Rng, dt: DType| -> Result<(Vec<Tensor>, Vec<RT>), Fail> {
        let mut ts = vec![];
        let mut rs = vec![];
        for (r, &w) in c.ins.iter().zip(&want) {
            let q = cast_rt(r, dt);
            let l = gen_lay(rng);
            let l = if matches!(l, Lay::Broadcast) { Lay::Contig } else { l };
            let t = view_of(rng, &q, l)?;
            if w {
                if let Err(e) = t.set_requires_grad(true) {
                    return bad("requires_grad", e.to_string());
                }
            }
            ts.push(t);
            rs.push(q);
        }
        Ok((ts, rs))
    };
    let (ts, rs) = mk(&mut cx.rng, D)?;
    cx.d(format!("{} want{:?} {}", c.name, want, rs.iter().map(|r| r.show()).collect::<Vec<_>>().join(" ; ")));
    let probe = match (c.f)(&rs.iter().map(|r| r.t()).collect::<Vec<_>>()) {
        Ok(o) => o,
        Err(e) => bail!(format!("{}: forward", sig), "{}", e),
    };
    let n = probe.size();
    let all_ones = cx.rng.chance(0.2);
    let w: Vec<f64> = (0..n).map(|_| if all_ones { 1.0 } else if cx.rng.chance(0.1) { 0.0 } else { quant(DType::F8E4M3, cx.rng.uni(0.3, 2.0)) * if cx.rng.chance(0.5) { -1.0 } else { 1.0 } }).collect();
    let before: Vec<RT> = rs.clone();
    let g = analytic(&c, &ts, &want, &w, &sig)?;
    for (t, b) in ts.iter().zip(&before) {
        let now = read(t).map_err(|e| Fail::Bad(format!("{}: input unreadable", sig), e))?;
        if let Some(d) = diff(&now, b, EXACT) {
            return bad(format!("{}: input changed", sig), d);
        }
    }
    let n = if cx.thorough { 40 } else { 14 };
    match check_fd(cx, &sig, &rs, &g, n, &|i| eval(&c, i, &w)) {
        Err(Fail::Bad(_, m)) if sig.starts_with("det of a singular matrix") => return bad("det of a singular matrix: gradient is not the cofactors", m),
        r => r?,
    }
    // the same derivative in the other element types
    if cx.rng.chance(0.35) {
        let dt = *cx.rng.pick(&[DType::F32, DType::F32, DType::F16, DType::BF16, DType::F8E4M3, DType::F8E5M2]);
        let big = rs.iter().any(|r| r.data.iter().any(|v| v.f().abs() > 60.0));
        if dt != DType::F32 && big {
            return Ok(());
        }
        let (ts, qs) = mk(&mut cx.rng, dt)?;
        let sig32 = format!("{} {:?}", sig, dt);
        let g32 = analytic(&c, &ts, &want, &w, &sig32)?;
        // values are only comparable where the inputs survive the conversion and the function is tame
        let same = qs.iter().zip(&rs).all(|(a, b)| a.data.iter().zip(&b.data).all(|(x, y)| x.f() == y.f()));
        if dt == DType::F32 && same {
            for (a, b) in g32.iter().zip(&g) {
                let (Some(a), Some(b)) = (a, b) else { continue };
                let scale = b.data.iter().map(|v| v.f().abs()).filter(|v| v.is_finite()).fold(0.0, f64::max);
                for (x, y) in a.data.iter().zip(&b.data) {
                    if !y.f().is_finite() || y.f().abs() > 1e30 {
                        continue;
                    }
                    let t = 2e-3 * (scale + 1.0);
                    check!((x.f() - y.f()).abs() <= t, format!("{}: value", sig32), "gradient {} in f32, {} in f64", x.f(), y.f());
                }
            }
            cx.count("f32_gradients_compared", 1);
        }
    }
    Ok(())
}

macro_rules! groups {
    ($($f:ident $g:literal),*) => { $(fn $f(cx: &mut Cx) -> R { one(cx, $g) })* };
}
groups!(g_unary "unary", g_unary_big "unary_big", g_scalar "scalar", g_act "actscalar", g_binary "binary", g_select "select", g_reduce "reduce", g_softmax "softmax",
    g_cumsum "cumsum", g_sumto "sum_to", g_matmul "matmul", g_linalg "linalg", g_einsum "einsum", g_join "join", g_split "split", g_index "index", g_scatter "scatter",
    g_conv "conv", g_window "window", g_pad "pad", g_resize "resize", g_shape "shape", g_smem "shape_memory", g_topk "topk", g_contig "contiguous");

/// where the function is not differentiable the gradient still lies between the one-sided derivatives; tied operands share it
fn kinks(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(&[DType::F32, DType::F64]);
    let n = cx.rng.usize(1, 12);
    let w: Vec<f64> = (0..n).map(|_| quant(DType::BF16, cx.rng.uni(-2.0, 2.0))).collect();
    let wt = RT::new(dt, &[n], w.iter().map(|&x| V::F(x)).collect()).t();
    let mk = |v: &[f64]| -> Result<Tensor, Fail> {
        let t = RT::new(dt, &[v.len()], v.iter().map(|&x| V::F(x)).collect()).t();
        lay_op(t.set_requires_grad(true).map(|_| t.clone()), "set_requires_grad")?;
        Ok(t)
    };
    let grad = |t: &Tensor, what: &str| -> Result<Vec<f64>, Fail> {
        match t.grad() {
            Ok(g) => Ok(read(&g).map_err(|e| Fail::Bad("unreadable".into(), e))?.data.iter().map(|v| v.f()).collect()),
            Err(e) => bail!(format!("kink {}: no gradient", what), "{}", e),
        }
    };
    let back = |o: HoduResult<Tensor>, w: &Tensor, what: &str| -> R {
        let r = o.and_then(|o| o.mul(w)).and_then(|m| m.sum_all()).and_then(|l| l.backward());
        check!(r.is_ok(), format!("kink {}: backward", what), "{}", r.unwrap_err());
        Ok(())
    };
    let tol = 1e-5;
    match cx.rng.below(4) {
        0 => {
            // two equal operands (some elements differ)
            let a: Vec<f64> = (0..n).map(|_| quant(DType::BF16, cx.rng.uni(-3.0, 3.0))).collect();
            let b: Vec<f64> = a.iter().map(|&x| if cx.rng.chance(0.6) { x } else { x + *cx.rng.pick(&[-1.0, 1.0, 0.25]) }).collect();
            let max = cx.rng.chance(0.5);
            let what = if max { "maximum" } else { "minimum" };
            cx.d(format!("{} {:?} {:?} {:?} w{:?}", what, dt, a, b, w));
            let (ta, tb) = (mk(&a)?, mk(&b)?);
            back(if max { ta.maximum(&tb) } else { ta.minimum(&tb) }, &wt, what)?;
            let (ga, gb) = (grad(&ta, what)?, grad(&tb, what)?);
            for i in 0..n {
                let (lo, hi) = (w[i].min(0.0) - tol, w[i].max(0.0) + tol);
                let pick_a = (a[i] > b[i]) == max;
                let ok = if a[i] == b[i] { ga[i] >= lo && ga[i] <= hi && gb[i] >= lo && gb[i] <= hi && (ga[i] + gb[i] - w[i]).abs() < tol }
                    else if pick_a { ga[i] == w[i] && gb[i] == 0.0 } else { gb[i] == w[i] && ga[i] == 0.0 };
                check!(ok, format!("kink {}", what), "elements {} and {} with weight {}: gradients {} and {}", a[i], b[i], w[i], ga[i], gb[i]);
            }
        },
        1 => {
            // a reduction with several extreme elements
            let max = cx.rng.chance(0.5);
            let what = if max { "max" } else { "min" };
            let v: Vec<f64> = (0..n).map(|_| cx.rng.range(-1, 1) as f64).collect();
            cx.d(format!("{} {:?} {:?} w{}", what, dt, v, w[0]));
            let t = mk(&v)?;
            let w1 = RT::new(dt, &[], vec![V::F(w[0])]).t();
            back(if max { t.max(&[] as &[i32], false) } else { t.min(&[] as &[i32], false) }, &w1, what)?;
            let g = grad(&t, what)?;
            let m = v.iter().cloned().fold(if max { f64::MIN } else { f64::MAX }, |x, y| if max { x.max(y) } else { x.min(y) });
            let (lo, hi) = (w[0].min(0.0) - tol, w[0].max(0.0) + tol);
            let ok = (g.iter().sum::<f64>() - w[0]).abs() < tol && (0..n).all(|i| if v[i] == m { g[i] >= lo && g[i] <= hi } else { g[i] == 0.0 });
            check!(ok, format!("kink {}", what), "{:?} with weight {}: gradient {:?}", v, w[0], g);
        },
        _ => {
            // kinks of one-operand functions
            let c: f64 = *cx.rng.pick(&[0.25, 1.5, -0.75]);
            let k = cx.rng.below(16);
            let what = ["relu", "abs", "leaky_relu", "prelu", "elu", "selu", "celu", "hardsigmoid", "hardsilu", "hardswish", "clamp", "clamp_min", "clamp_max", "maximum_scalar", "minimum_scalar", "square"][k];
            let at: &[f64] = match k { 0..=6 => &[0.0], 7..=9 => &[-3.0, 3.0], 10 => &[-1.0, 2.0], 11 | 13 => &[-1.0], 12 | 14 => &[2.0], _ => &[0.0] };
            let x: Vec<f64> = (0..n).map(|_| if cx.rng.chance(0.7) { *cx.rng.pick(at) } else { quant(DType::BF16, cx.rng.uni(-4.0, 4.0)) }).collect();
            cx.d(format!("{} {:?} c{} {:?} w{:?}", what, dt, c, x, w));
            let f = |t: &Tensor| -> HoduResult<Tensor> {
                match k {
                    0 => t.relu(), 1 => t.abs(), 2 => t.leaky_relu(sc(t, c.abs())), 3 => t.prelu(sc(t, c)), 4 => t.elu(sc(t, c.abs())), 5 => t.selu(), 6 => t.celu(),
                    7 => t.hardsigmoid(), 8 => t.hardsilu(), 9 => t.hardswish(),
                    10 => t.clamp(sc(t, -1.0), sc(t, 2.0)), 11 => t.clamp_min(sc(t, -1.0)), 12 => t.clamp_max(sc(t, 2.0)), 13 => t.maximum_scalar(sc(t, -1.0)), 14 => t.minimum_scalar(sc(t, 2.0)),
                    _ => t.square(),
                }
            };
            let t = mk(&x)?;
            back(f(&t), &wt, what)?;
            let g = grad(&t, what)?;
            // one-sided slopes of the executed function, in f64
            let ev = |d: f64| -> Result<Vec<f64>, Fail> {
                let t = RT::new(D, &[n], x.iter().map(|&v| V::F(v + d)).collect()).t();
                match f(&t) { Ok(o) => Ok(read(&o).map_err(|e| Fail::Bad("unreadable".into(), e))?.data.iter().map(|v| v.f()).collect()), Err(e) => bail!(format!("kink {}: forward", what), "{}", e) }
            };
            let h = 1e-6;
            let (m, z, p) = (ev(-h)?, ev(0.0)?, ev(h)?);
            for i in 0..n {
                let (l, r) = ((z[i] - m[i]) / h * w[i], (p[i] - z[i]) / h * w[i]);
                let t = 1e-4 * (1.0 + l.abs() + r.abs());
                check!(g[i] >= l.min(r) - t && g[i] <= l.max(r) + t, format!("kink {}", what), "at {} with weight {}: gradient {} outside the one-sided derivatives {} and {}", x[i], w[i], g[i], l, r);
            }
        },
    }
    Ok(())
}

pub const GRAD: &[Family] = &[
    fam("kinks", 4000, 40000, kinks),
    fam("unary", 4000, 60000, g_unary),
    fam("unary_big", 800, 8000, g_unary_big),
    fam("scalar", 1500, 20000, g_scalar),
    fam("actscalar", 800, 8000, g_act),
    fam("binary", 3000, 40000, g_binary),
    fam("select", 1200, 15000, g_select),
    fam("reduce", 5000, 60000, g_reduce),
    fam("softmax", 600, 8000, g_softmax),
    fam("cumsum", 400, 4000, g_cumsum),
    fam("sum_to", 400, 4000, g_sumto),
    fam("matmul", 2000, 30000, g_matmul),
    fam("linalg", 1200, 15000, g_linalg),
    fam("einsum", 1200, 20000, g_einsum),
    fam("join", 800, 8000, g_join),
    fam("split", 600, 8000, g_split),
    fam("index", 1500, 20000, g_index),
    fam("scatter", 1200, 15000, g_scatter),
    fam("conv", 1500, 25000, g_conv),
    fam("window", 1500, 20000, g_window),
    fam("pad", 1500, 20000, g_pad),
    fam("resize", 1200, 15000, g_resize),
    fam("shape", 1500, 20000, g_shape),
    fam("shape_memory", 1200, 15000, g_smem),
    fam("topk", 500, 5000, g_topk),
    fam("contiguous", 400, 4000, g_contig),
];
