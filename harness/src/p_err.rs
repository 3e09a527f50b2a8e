//! A01: arbitrary requests either give a well-formed tensor or an error, never a panic, and change nothing.
use crate::cx::*;
use crate::p_elem::{scalar_of, UNARY};
use crate::rng::Rng;
use crate::rt::*;
use crate::{bail, check};
use hodu_core::error::HoduResult;
use hodu_core::scalar::Scalar;
use hodu_core::tensor::{tensor_count, Tensor};
use hodu_core::types::{DType, Device};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Want {
    Any,
    Bad(&'static str),
}
use Want::*;
pub type Call = Box<dyn Fn(&[Tensor]) -> HoduResult<Vec<Tensor>>>;
pub struct Req {
    pub name: String,
    pub args: String,
    pub ins: Vec<(DType, Vec<usize>)>,
    pub want: Want,
    pub call: Call,
}

fn shape(r: &mut Rng) -> Vec<usize> {
    let n = r.below(5);
    (0..n).map(|_| if r.chance(0.04) { 0 } else { r.usize(1, 4) }).collect()
}
fn near(r: &mut Rng, s: &[usize]) -> Vec<usize> {
    let mut v = s.to_vec();
    match r.below(6) {
        0 if !v.is_empty() => { let i = r.below(v.len()); v[i] = r.usize(0, 5) },
        1 if !v.is_empty() => { v.remove(0); },
        2 => v.insert(0, r.usize(1, 3)),
        3 if !v.is_empty() => { let i = r.below(v.len()); v[i] = 1 },
        4 => return shape(r),
        _ => {},
    }
    v
}
fn axis(r: &mut Rng, n: usize) -> i32 {
    let n = n as i32;
    if n > 0 && r.chance(0.65) {
        r.range(-n as i64, n as i64 - 1) as i32
    } else {
        *r.pick(&[n, n + 1, -n - 1, -n - 2, 0, -1, 1, i32::MAX, i32::MIN, 1000, 65536])
    }
}
fn okax(a: i32, n: usize) -> bool {
    (a as i64) >= -(n as i64) && (a as i64) < n as i64
}
fn normax(a: i32, n: usize) -> usize {
    if a < 0 { (a as i64 + n as i64) as usize } else { a as usize }
}
fn big(r: &mut Rng) -> usize {
    if r.chance(0.8) { r.usize(0, 5) } else { *r.pick(&[6, 7, 100, 1000, usize::MAX, usize::MAX / 2, 1 << 63, (1 << 32) + 1]) }
}
fn bcast(a: &[usize], b: &[usize]) -> bool {
    a.iter().rev().zip(b.iter().rev()).all(|(&x, &y)| x == y || x == 1 || y == 1)
}
fn one(t: HoduResult<Tensor>) -> HoduResult<Vec<Tensor>> {
    t.map(|t| vec![t])
}
fn rdt(r: &mut Rng) -> DType {
    if r.chance(0.5) { *r.pick(&[DType::F32, DType::F64, DType::I32]) } else { *r.pick(ALL) }
}
/// usually the same type, sometimes another
fn odt(r: &mut Rng, d: DType) -> DType {
    if r.chance(0.85) { d } else { rdt(r) }
}
fn rscalar(r: &mut Rng, d: DType) -> (Scalar, String, DType) {
    let d = if r.chance(0.8) { d } else { rdt(r) };
    let v = gen_v(r, d, *r.clone().pick(&[Gen::Small, Gen::Edge]));
    (scalar_of(v, d), format!("{:?}:{:?}", v, d), d)
}
fn axes(r: &mut Rng, n: usize) -> (Vec<i32>, Want) {
    let k = r.below(4);
    let v: Vec<i32> = (0..k).map(|_| axis(r, n)).collect();
    if v.iter().any(|&a| !okax(a, n)) {
        return (v, Bad("axis out of range"));
    }
    let mut u: Vec<usize> = v.iter().map(|&a| normax(a, n)).collect();
    u.sort();
    u.dedup();
    let dup = u.len() < v.len();
    (v, if dup { Bad("duplicate axis") } else { Any })
}
fn pads(r: &mut Rng, n: usize) -> Vec<(usize, usize)> {
    let m = if r.chance(0.85) { n } else { r.below(6) };
    (0..m).map(|_| (if r.chance(0.9) { r.usize(0, 4) } else { big(r) }, if r.chance(0.9) { r.usize(0, 4) } else { big(r) })).collect()
}

pub fn gen(r: &mut Rng) -> Req {
    let d = rdt(r);
    let s = shape(r);
    let n = s.len();
    let q = |name: &str, args: String, ins: Vec<(DType, Vec<usize>)>, want: Want, call: Call| Req { name: name.into(), args, ins, want, call };
    let x = (d, s.clone());
    match r.below(40) {
        0 => {
            let u = r.pick(UNARY);
            let (name, op) = (u.name, u.op);
            q(name, "".into(), vec![x], Any, Box::new(move |t| one(op(&t[0]))))
        },
        1 | 2 => {
            let k = r.below(19);
            let d2 = odt(r, d);
            let s2 = near(r, &s);
            let name = ["add", "sub", "mul", "div", "rem", "pow", "maximum", "minimum", "eq", "ne", "lt", "le", "gt", "ge", "logical_and", "logical_xor", "bitwise_and", "shl", "shr"][k];
            let want = if !bcast(&s, &s2) { Bad("shapes do not broadcast") } else if d2 != d { Bad("element types differ") } else if d == DType::BOOL && k < 8 { Bad("arithmetic on booleans") } else if k >= 16 && (is_float(d)) { Bad("bitwise on floats") } else { Any };
            q(name, "".into(), vec![x, (d2, s2)], want, Box::new(move |t| {
                let (a, b) = (&t[0], &t[1]);
                one(match k { 0 => a.add(b), 1 => a.sub(b), 2 => a.mul(b), 3 => a.div(b), 4 => a.rem(b), 5 => a.pow(b), 6 => a.maximum(b), 7 => a.minimum(b), 8 => a.eq(b), 9 => a.ne(b), 10 => a.lt(b), 11 => a.le(b), 12 => a.gt(b), 13 => a.ge(b), 14 => a.logical_and(b), 15 => a.logical_xor(b), 16 => a.bitwise_and(b), 17 => a.shl(b), _ => a.shr(b) })
            }))
        },
        3 => {
            let k = r.below(14);
            let (sc, show, ds) = rscalar(r, d);
            let (sc2, show2, ds2) = rscalar(r, d);
            let sh = r.u64() as u32 >> r.below(33).min(31);
            let name = ["add_scalar", "sub_scalar", "mul_scalar", "div_scalar", "rem_scalar", "pow_scalar", "maximum_scalar", "leaky_relu", "elu", "prelu", "eq_scalar", "clamp", "clamp_min", "shl_scalar"][k];
            let want = if k < 10 && ds != d { Bad("scalar of another type") } else if k == 11 && (ds != d || ds2 != d) { Any } else { Any };
            q(name, format!("{} {} {}", show, show2, sh), vec![x], want, Box::new(move |t| {
                let a = &t[0];
                one(match k { 0 => a.add_scalar(sc), 1 => a.sub_scalar(sc), 2 => a.mul_scalar(sc), 3 => a.div_scalar(sc), 4 => a.rem_scalar(sc), 5 => a.pow_scalar(sc), 6 => a.maximum_scalar(sc), 7 => a.leaky_relu(sc), 8 => a.elu(sc), 9 => a.prelu(sc), 10 => a.eq_scalar(sc), 11 => a.clamp(sc, sc2), 12 => a.clamp_min(sc), _ => a.shl_scalar(sh) })
            }))
        },
        4 | 5 => {
            let k = r.below(13);
            let (v, w) = axes(r, n);
            let keep = r.chance(0.5);
            let name = ["sum", "mean", "max", "min", "prod", "std", "var", "logsum", "logsumexp", "argmax", "any", "l2_norm", "flip"][k];
            let w = match w { Bad("duplicate axis") => Any, w => w };
            q(name, format!("{:?} keep {}", v, keep), vec![x], w, Box::new(move |t| {
                let a = &t[0];
                one(match k { 0 => a.sum(&v, keep), 1 => a.mean(&v, keep), 2 => a.max(&v, keep), 3 => a.min(&v, keep), 4 => a.prod(&v, keep), 5 => a.std(&v, keep), 6 => a.var(&v, keep), 7 => a.logsum(&v, keep), 8 => a.logsumexp(&v, keep), 9 => a.argmax(&v, keep), 10 => a.any(&v, keep), 11 => a.l2_norm(&v, keep), _ => a.flip(&v) })
            }))
        },
        6 => {
            let s2 = near(r, &s);
            let k = r.below(4);
            let name = ["reshape", "view", "broadcast", "sum_to_shape"][k];
            let want = match k {
                0 | 1 if numel(&s) != numel(&s2) => Bad("size differs"),
                2 if s2.len() < n || !s.iter().rev().zip(s2.iter().rev()).all(|(&a, &b)| a == b || a == 1) => Bad("not broadcastable to the target"),
                3 if n < s2.len() || !s2.iter().rev().zip(s.iter().rev()).all(|(&a, &b)| a == b || a == 1) => Bad("target cannot be summed to"),
                _ => Any,
            };
            q(name, format!("{:?}", s2), vec![x], want, Box::new(move |t| one(match k { 0 => t[0].reshape(&s2), 1 => t[0].view(&s2), 2 => t[0].broadcast(&s2), _ => t[0].sum_to_shape(&s2) })))
        },
        7 => {
            // shapes whose size does not fit
            let m: Vec<usize> = (0..r.usize(1, 4)).map(|_| *r.pick(&[1usize << 32, 1 << 33, 1 << 62, usize::MAX, 3, 0, 1, 1 << 40])).collect();
            let k = r.below(10);
            let tot = m.iter().map(|&v| v.max(1) as u128).fold(1u128, |a, b| a.saturating_mul(b));
            let name = ["zeros", "ones", "full", "randn", "rand_uniform", "broadcast", "reshape", "repeat", "broadcast_left", "empty"][k];
            if k < 5 || k == 9 {
                // only sizes which can never be addressed: others may or may not be available
                if tot != 0 && tot.saturating_mul(8) <= isize::MAX as u128 {
                    return gen(r);
                }
            }
            if k == 5 && tot.saturating_mul(8) <= isize::MAX as u128 && tot > 4096 {
                return gen(r);
            }
            if k == 8 && tot.saturating_mul(numel(&s).max(1) as u128).saturating_mul(8) <= isize::MAX as u128 && tot > 1 << 22 {
                return gen(r);
            }
            if k == 7 && m.iter().zip(&s).map(|(&a, &b)| (a.max(1) as u128).saturating_mul(b.max(1) as u128)).fold(1u128, |a, b| a.saturating_mul(b)).saturating_mul(8) <= isize::MAX as u128 && tot > 4096 {
                return gen(r);
            }
            let want = if (k < 5 || k == 9) && !m.contains(&0) { Bad("size cannot be addressed") } else { Any };
            q(name, format!("{:?}", m), vec![x], want, Box::new(move |t| one(match k {
                0 => Tensor::zeros(&m, d), 1 => Tensor::ones(&m, d), 2 => Tensor::full(&m, 1.0f32), 3 => Tensor::randn(&m, 0.0f32, 1.0), 4 => Tensor::rand_uniform(&m, 0.0f32, 1.0),
                5 => t[0].broadcast(&m), 6 => t[0].reshape(&m), 7 => t[0].repeat(&m), 8 => t[0].broadcast_left(&m), _ => Tensor::empty(&m, d),
            })))
        },
        8 => {
            let (v, w) = axes(r, n);
            let a = axis(r, n + 1);
            let (b, c) = (axis(r, n), axis(r, n));
            let k = r.below(5);
            let (name, want) = match k {
                0 => ("squeeze", match w { Bad("duplicate axis") => Any, w => w }),
                1 => ("unsqueeze", if okax(a, n + 1) { Any } else { Bad("axis out of range") }),
                2 => ("transpose", if okax(b, n) && okax(c, n) { Any } else { Bad("axis out of range") }),
                3 => ("permute", if w == Any && v.len() == n { Any } else { Bad("not a permutation") }),
                _ => ("t", Any),
            };
            q(name, format!("{:?} {} {} {}", v, a, b, c), vec![x], want, Box::new(move |t| one(match k { 0 => t[0].squeeze(&v), 1 => t[0].unsqueeze(a), 2 => t[0].transpose(b, c), 3 => t[0].permute(&v), _ => t[0].t() })))
        },
        9 | 10 => {
            let a = axis(r, n);
            let mut e = |r: &mut Rng| if r.chance(0.7) { r.range(-6, 6) as i32 } else { *r.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, 100, -100]) };
            let (st, en, sp) = (e(r), if r.chance(0.3) { None } else { Some(e(r)) }, if r.chance(0.6) { *r.pick(&[1, 2, -1, -2, 3]) } else { e(r) });
            let want = if !okax(a, n) { Bad("axis out of range") } else if sp == 0 { Bad("zero step") } else { Any };
            q("slice", format!("{} {} {:?} {}", a, st, en, sp), vec![x], want, Box::new(move |t| one(t[0].slice(a, st, en, sp))))
        },
        11 | 12 => {
            let k = r.below(9);
            let a = axis(r, n);
            let di = if r.chance(0.85) { DType::I32 } else { rdt(r) };
            let si = near(r, &s);
            let ss = if r.chance(0.6) { si.clone() } else { near(r, &si) };
            let ds = odt(r, d);
            let name = ["gather", "scatter", "scatter_add", "scatter_max", "scatter_min", "index_select", "index_put", "compress", "nonzero"][k];
            let want = if k < 7 && !okax(a, n) { Bad("axis out of range") } else if k < 7 && di != DType::I32 { Bad("indices must be i32") } else if (1..5).contains(&k) && ds != d { Bad("element types differ") } else if k < 5 && si.len() != n { Bad("ranks differ") } else if (1..5).contains(&k) && si.iter().zip(&ss).any(|(a, b)| a > b) { Bad("source smaller than the indices") } else { Any };
            let dc = if r.chance(0.7) { DType::BOOL } else { rdt(r) };
            q(name, format!("{}", a), vec![x, (if k == 7 { dc } else { di }, si), (ds, ss)], want, Box::new(move |t| one(match k {
                0 => t[0].gather(a, &t[1]), 1 => t[0].scatter(a, &t[1], &t[2]), 2 => t[0].scatter_add(a, &t[1], &t[2]), 3 => t[0].scatter_max(a, &t[1], &t[2]), 4 => t[0].scatter_min(a, &t[1], &t[2]),
                5 => t[0].index_select(a, &t[1]), 6 => t[0].index_put(a, &t[1], &t[2]), 7 => t[0].compress(&t[1], Some(a)), _ => t[0].nonzero(),
            })))
        },
        13 if r.chance(0.4) => {
            let a = if r.chance(0.3) { None } else { Some(axis(r, n)) };
            let len = match a {
                Some(a) if okax(a, n) => s[if a < 0 { (a + n as i32) as usize } else { a as usize }],
                _ => numel(&s),
            };
            let cs = match r.below(8) { 0 => vec![len + 1], 1 => near(r, &[len]), 2 => vec![len.saturating_sub(1)], _ => vec![len] };
            let dc = if r.chance(0.9) { DType::BOOL } else { rdt(r) };
            let want = if dc != DType::BOOL { Bad("condition is not boolean") } else if a.is_some_and(|a| !okax(a, n)) { Bad("axis out of range") } else if cs != [len] { Bad("condition of another size") } else { Any };
            q("compress", format!("{:?}", a), vec![x, (dc, cs)], want, Box::new(move |t| one(t[0].compress(&t[1], a))))
        },
        13 => {
            let k = r.below(2);
            let di = if r.chance(0.7) { DType::I32 } else { d };
            let nc = if r.chance(0.7) { r.range(0, 6) as i32 } else { *r.pick(&[-1, -5, i32::MIN]) };
            let a = axis(r, n + 1);
            let dt2 = rdt(r);
            let want = if k == 0 { Any } else if di != DType::I32 { Bad("indices must be i32") } else if !okax(a, n + 1) { Bad("axis out of range") } else if nc < 0 { Bad("negative number of classes") } else { Any };
            if k == 0 {
                q("unique", "".into(), vec![x], Any, Box::new(move |t| t[0].unique().map(|(a, b, c)| vec![a, b, c])))
            } else {
                q("onehot", format!("{} {} {:?}", nc, a, dt2), vec![(di, s)], want, Box::new(move |t| one(t[0].onehot(nc, a, dt2))))
            }
        },
        14 | 15 => {
            let m = if r.chance(0.7) { r.usize(0, 3) } else { r.usize(4, 9) };
            let k = r.below(2);
            let odd = r.below(m + 1);
            let mut ins = vec![];
            for i in 0..m {
                // of many operands at most one is odd
                ins.push(if i == 0 || (m > 3 && i != odd) { (d, s.clone()) } else { (odt(r, d), if r.chance(0.6) { s.clone() } else { near(r, &s) }) });
            }
            let a = axis(r, n + k);
            let want = if m == 0 { Bad("no tensors") } else if ins.iter().any(|i| i.0 != d) { Bad("element types differ") } else if ins.iter().any(|i| i.1.len() != n) { Bad("ranks differ") } else if !okax(a, n + k) { Bad("axis out of range") } else {
                let ax = normax(a, n + k);
                if ins.iter().any(|i| (0..n).any(|j| i.1[j] != s[j] && (k == 1 || j != ax))) { Bad("shapes differ") } else { Any }
            };
            q(["concat", "stack"][k], format!("{}", a), ins, want, Box::new(move |t| {
                let v: Vec<&Tensor> = t.iter().collect();
                one(if k == 0 { Tensor::concat(&v, a) } else { Tensor::stack(&v, a) })
            }))
        },
        16 => {
            let a = axis(r, n);
            let k = r.below(2);
            let sizes: Vec<usize> = if okax(a, n) && r.chance(0.5) {
                let m = s[normax(a, n)];
                let c = r.usize(0, m);
                vec![c, m - c]
            } else { (0..r.below(4)).map(|_| big(r)).collect() };
            let c = big(r);
            let want = if !okax(a, n) { Bad("axis out of range") } else if k == 0 && sizes.iter().fold(0u128, |x, &y| x + y as u128) > s[normax(a, n)] as u128 { Bad("sizes exceed the dimension") } else if k == 1 && c == 0 { Bad("no chunks") } else { Any };
            q(["split", "chunk"][k], format!("{} {:?} {}", a, sizes, c), vec![x], want, Box::new(move |t| if k == 0 { t[0].split(&sizes, a) } else { t[0].chunk(c, a) }))
        },
        17 | 18 => {
            let nd = r.usize(1, 3);
            let tr = r.chance(0.4);
            let (ci, co) = (r.usize(1, 3), r.usize(1, 3));
            let mut si = vec![r.usize(1, 2), ci];
            let mut sw = if tr { vec![ci, co] } else { vec![co, ci] };
            for _ in 0..nd {
                si.push(r.usize(1, 5));
                sw.push(r.usize(1, 4));
            }
            let mut d2 = d;
            if r.chance(0.3) {
                match r.below(4) {
                    0 => si = near(r, &si),
                    1 => sw = near(r, &sw),
                    2 => d2 = rdt(r),
                    _ => si[1] += 1,
                }
            }
            let st = if r.chance(0.8) { r.usize(1, 3) } else { big(r) };
            let pd = if r.chance(0.8) { r.usize(0, 2) } else { big(r) };
            let op = if r.chance(0.8) { 0 } else { big(r) };
            let di = if r.chance(0.8) { r.usize(1, 2) } else { big(r) };
            if tr && (st > 8 && st < 1 << 40 || di > 8 && di < 1 << 40 || op > 8 && op < 1 << 40) || !tr && pd > 8 && pd < 1 << 40 {
                return gen(r); // possible but enormous
            }
            let want = if d2 != d { Bad("element types differ") } else if si.len() != nd + 2 || sw.len() != nd + 2 { Bad("rank") } else if si[1] != sw[if tr { 0 } else { 1 }] { Bad("channels differ") } else if st == 0 { Bad("zero stride") } else if di == 0 { Bad("zero dilation") }
                else if !tr && (0..nd).any(|i| (si[i + 2] as u128 + 2 * pd as u128) < di as u128 * (sw[i + 2] as u128).saturating_sub(1) + 1) { Bad("kernel larger than the padded input") } else { Any };
            q(["conv1d", "conv2d", "conv3d", "conv_transpose1d", "conv_transpose2d", "conv_transpose3d"][nd - 1 + if tr { 3 } else { 0 }], format!("stride {} pad {} outpad {} dil {}", st, pd, op, di), vec![(d, si), (d2, sw)], want, Box::new(move |t| {
                let (a, w) = (&t[0], &t[1]);
                one(match (nd, tr) {
                    (1, false) => a.conv1d(w, st, pd, di), (2, false) => a.conv2d(w, st, pd, di), (3, false) => a.conv3d(w, st, pd, di),
                    (1, true) => a.conv_transpose1d(w, st, pd, op, di), (2, true) => a.conv_transpose2d(w, st, pd, op, di), _ => a.conv_transpose3d(w, st, pd, op, di),
                })
            }))
        },
        19 => {
            let nd = r.usize(1, 3);
            let tr = r.chance(0.4);
            let mut si = vec![1, 2];
            let mut sg = vec![1, 2];
            let mut ws = vec![2, 2];
            for _ in 0..nd { si.push(r.usize(1, 5)); sg.push(r.usize(1, 5)); ws.push(r.usize(1, 3)); }
            if r.chance(0.4) { match r.below(3) { 0 => si = near(r, &si), 1 => sg = near(r, &sg), _ => ws = near(r, &ws) } }
            let (st, pd, di) = (if r.chance(0.8) { r.usize(1, 2) } else { big(r) }, if r.chance(0.8) { r.usize(0, 1) } else { big(r) }, if r.chance(0.8) { 1 } else { big(r) });
            let d2 = odt(r, d);
            let want = if d2 != d { Bad("element types differ") } else if st == 0 || di == 0 { Bad("zero stride or dilation") } else if si.len() != nd + 2 || sg.len() != nd + 2 || ws.len() != nd + 2 { Bad("rank") } else { Any };
            q("conv_grad_weight", format!("{}d transposed {} weight {:?} stride {} pad {} dil {}", nd, tr, ws, st, pd, di), vec![(d, si), (d2, sg)], want, Box::new(move |t| {
                let (a, g) = (&t[0], &t[1]);
                one(match (nd, tr) {
                    (1, false) => a.conv1d_grad_weight(g, &ws, st, pd, di), (2, false) => a.conv2d_grad_weight(g, &ws, st, pd, di), (3, false) => a.conv3d_grad_weight(g, &ws, st, pd, di),
                    (1, true) => a.conv_transpose1d_grad_weight(g, &ws, st, pd, di), (2, true) => a.conv_transpose2d_grad_weight(g, &ws, st, pd, di), _ => a.conv_transpose3d_grad_weight(g, &ws, st, pd, di),
                })
            }))
        },
        20 | 21 => {
            let k = r.below(6);
            let p = pads(r, n);
            if p.iter().any(|p| p.0.max(p.1) > 8 && p.0.max(p.1) < 1 << 40) {
                return gen(r);
            }
            let (sc, show, _) = rscalar(r, d);
            let want = if p.len() != n { Bad("one pair per dimension") } else if (1..5).contains(&k) && numel(&s) == 0 && s.iter().zip(&p).all(|(&m, p)| m > 0 || p.0 > 0 || p.1 > 0) { Bad("nothing to copy") } else { Any };
            let mode = *r.pick(&["constant", "reflect", "edge", "replicate", "wrap", "circular", "", "Constant", "mirror", "\u{0}"]);
            q(["pad_constant", "pad_reflect", "pad_replicate", "pad_circular", "pad_wrap", "pad"][k], format!("{:?} {} {}", p, show, mode), vec![x], want, Box::new(move |t| one(match k {
                0 => t[0].pad_constant(&p, sc), 1 => t[0].pad_reflect(&p), 2 => t[0].pad_replicate(&p), 3 => t[0].pad_circular(&p), 4 => t[0].pad_wrap(&p), _ => t[0].pad(&p, mode, sc),
            })))
        },
        22 | 23 => {
            let m = if r.chance(0.85) { n } else { r.below(5) };
            let w: Vec<usize> = (0..m).map(|_| if r.chance(0.9) { r.usize(1, 3) } else { big(r) }).collect();
            let m = if r.chance(0.9) { n } else { r.below(5) };
            let st: Vec<usize> = (0..m).map(|_| if r.chance(0.9) { r.usize(1, 3) } else { big(r) }).collect();
            let p: Vec<(usize, usize)> = if r.chance(0.5) { vec![(0, 0); n] } else { pads(r, n) };
            if p.iter().any(|p| p.0.max(p.1) > 8 && p.0.max(p.1) < 1 << 40) {
                return gen(r);
            }
            let red = *r.pick(&["sum", "mean", "max", "min", "prod", "", "avg"]);
            let want = if w.len() != n || st.len() != n || p.len() != n { Bad("one window size, stride and padding per dimension") } else if st.contains(&0) || w.contains(&0) { Bad("zero window or stride") } else if (0..n).any(|i| s[i] as u128 + p[i].0 as u128 + (p[i].1 as u128) < w[i] as u128) { Bad("window larger than the padded input") } else if red.is_empty() { Bad("unknown reduction") } else { Any };
            q("reduce_window", format!("{:?} {:?} {:?} {}", w, st, p, red), vec![x], want, Box::new(move |t| one(t[0].reduce_window(&w, &st, &p, red))))
        },
        24 => {
            let nd = if r.chance(0.8) { r.usize(2, 3) } else { r.below(4) };
            let mut si = vec![1, 2];
            for _ in 0..nd { si.push(r.usize(1, 4)); }
            let m = if r.chance(0.85) { nd } else { r.below(5) };
            let out: Vec<usize> = (0..m).map(|_| if r.chance(0.9) { r.usize(1, 6) } else { *r.pick(&[0, usize::MAX, 1 << 62]) }).collect();
            let md = *r.pick(&["nearest", "linear", "bilinear", "trilinear", "cubic", "bicubic", "x", ""]);
            let ct = *r.pick(&["half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel", "bad"]);
            let nm = *r.pick(&["floor", "ceil", "round_prefer_floor", "round_prefer_ceil", "bad"]);
            let want = if out.len() != nd { Bad("one output size per dimension") } else { Any };
            q("resize", format!("{:?} {} {} {}", out, md, ct, nm), vec![(d, si)], want, Box::new(move |t| one(t[0].resize(&out, md, ct, nm))))
        },
        25 | 26 => {
            let s2 = if r.chance(0.5) && n >= 1 {
                let mut v = s[..n.saturating_sub(2)].to_vec();
                v.push(*s.last().unwrap());
                v.push(r.usize(1, 3));
                near(r, &v)
            } else { shape(r) };
            let d2 = odt(r, d);
            let k = r.below(2);
            let want = if d2 != d { Bad("element types differ") } else if n == 0 || s2.is_empty() { Bad("scalar operand") } else if n >= 2 && s2.len() >= 2 && s[n - 1] != s2[s2.len() - 2] { Bad("inner sizes differ") } else if n == 1 && s2.len() == 1 && s != s2 { Bad("inner sizes differ") } else if d == DType::BOOL { Bad("arithmetic on booleans") } else { Any };
            q(["matmul", "dot"][k], "".into(), vec![x, (d2, s2)], want, Box::new(move |t| one(if k == 0 { t[0].matmul(&t[1]) } else { t[0].dot(&t[1]) })))
        },
        27 => {
            let m = r.usize(1, 4);
            let sq = if r.chance(0.7) { let mut v = if r.chance(0.3) { vec![2] } else { vec![] }; v.extend([m, m]); v } else { shape(r) };
            let sb = if r.chance(0.6) { vec![m, r.usize(1, 2)] } else { shape(r) };
            let k = r.below(4);
            let d2 = odt(r, d);
            let l = sq.len();
            let want = if l < 2 || sq[l - 1] != sq[l - 2] { Bad("not square") } else if k == 3 && d2 != d { Bad("element types differ") } else { Any };
            q(["det", "inv", "trace", "solve"][k], "".into(), vec![(d, sq), (d2, sb)], want, Box::new(move |t| one(match k { 0 => t[0].det(), 1 => t[0].inv(), 2 => t[0].trace(), _ => t[0].solve(&t[1]) })))
        },
        28 | 29 => {
            if r.chance(0.4) {
                // a fitting equation of up to five operands, of which at most one has another type, rank or size
                let m = r.usize(1, 5);
                let sizes: Vec<usize> = (0..5).map(|_| r.usize(1, 3)).collect();
                let mut ins = vec![];
                let mut terms = vec![];
                for _ in 0..m {
                    let t: Vec<usize> = (0..r.usize(1, 3)).map(|_| r.below(5)).collect();
                    ins.push((d, t.iter().map(|&l| sizes[l]).collect::<Vec<_>>()));
                    terms.push(t);
                }
                let used: Vec<usize> = (0..5).filter(|l| terms.iter().any(|t| t.contains(l)) && r.chance(0.4)).collect();
                let word = |t: &[usize]| t.iter().map(|&l| (b'i' + l as u8) as char).collect::<String>();
                let eq = terms.iter().map(|t| word(t)).collect::<Vec<_>>().join(",") + "->" + &word(&used);
                let at = r.below(m);
                let mut want = Any;
                match r.below(5) {
                    0 if m > 1 => { ins[at].0 = if d == DType::F32 { DType::I32 } else { DType::F32 }; want = Bad("element types differ") },
                    1 => { ins[at].1.push(2); want = Bad("rank differs from the subscripts") },
                    2 => {
                        let l = terms[at][0];
                        if terms.iter().flatten().filter(|&&x| x == l).count() > 1 { ins[at].1[0] += 1; want = Bad("one subscript with two sizes") }
                    },
                    _ => {},
                }
                return q("einsum", format!("{:?}", eq), ins, want, Box::new(move |t| {
                    let v: Vec<&Tensor> = t.iter().collect();
                    one(Tensor::einsum(&eq, &v))
                }));
            }
            let m = r.usize(0, 3);
            let ins: Vec<(DType, Vec<usize>)> = (0..m).map(|_| (odt(r, d), if r.chance(0.6) { s.clone() } else { shape(r) })).collect();
            let letters = ["i", "j", "k", "A", "", ".", "...", "->", ",", " ", "é", "1", "ii"];
            let mut eq = String::new();
            if r.chance(0.6) {
                for (i, x) in ins.iter().enumerate() {
                    if i > 0 { eq.push(','); }
                    for _ in 0..(if r.chance(0.85) { x.1.len() } else { r.below(5) }) { eq.push(*r.pick(&['i', 'j', 'k', 'l', 'm'])); }
                }
                if r.chance(0.8) { eq += "->"; for _ in 0..r.below(4) { eq.push(*r.pick(&['i', 'j', 'k', 'l', 'm', 'z'])); } }
            } else {
                for _ in 0..r.below(10) { eq += r.pick(&letters[..]); }
            }
            let want = if m == 0 { Bad("no operands") } else if ins.iter().any(|i| i.0 != ins[0].0) { Bad("element types differ") } else { Any };
            q("einsum", format!("{:?}", eq), ins, want, Box::new(move |t| {
                let v: Vec<&Tensor> = t.iter().collect();
                one(Tensor::einsum(&eq, &v))
            }))
        },
        30 => {
            let k = r.below(4);
            let a = axis(r, n);
            let kk = big(r);
            let want = if !okax(a, n) { Bad("axis out of range") } else if k == 3 && kk > s[normax(a, n)] { Bad("k larger than the dimension") } else { Any };
            q(["softmax", "log_softmax", "cumsum", "topk"][k], format!("{} k {}", a, kk), vec![x], want, Box::new(move |t| match k { 0 => one(t[0].softmax(a)), 1 => one(t[0].log_softmax(a)), 2 => one(t[0].cumsum(a)), _ => t[0].topk(kk, a, true, true).map(|(a, b)| vec![a, b]) }))
        },
        31 => {
            let (dc, d2) = (if r.chance(0.8) { DType::BOOL } else { rdt(r) }, odt(r, d));
            let (sc, s2) = (near(r, &s), near(r, &s));
            let k = r.below(2);
            let (v, show, _) = rscalar(r, d);
            let want = if k == 0 && d2 != d { Bad("element types differ") } else if k == 0 && !(bcast(&s, &s2) && bcast(&s, &sc) && bcast(&s2, &sc)) { Bad("shapes do not broadcast") } else if k == 1 && !bcast(&s, &sc) { Bad("shapes do not broadcast") } else { Any };
            q(["where3", "masked_fill"][k], show, vec![x, (dc, sc), (d2, s2)], want, Box::new(move |t| one(if k == 0 { t[0].where3(&t[1], &t[2]) } else { t[0].masked_fill(&t[1], v) })))
        },
        32 => {
            // extracting with the wrong type or rank
            let k = r.below(6);
            let want = if (1..6).contains(&k) && n != k { Bad("rank") } else { Any };
            q(["to_flatten_vec", "to_vec1d", "to_vec2d", "to_vec3d", "to_vec4d", "to_vec5d"][k], "".into(), vec![x], want, Box::new(move |t| {
                let a = &t[0];
                match k { 0 => a.to_flatten_vec::<f32>().map(|_| vec![]), 1 => a.to_vec1d::<i32>().map(|_| vec![]), 2 => a.to_vec2d::<f32>().map(|_| vec![]), 3 => a.to_vec3d::<u8>().map(|_| vec![]), 4 => a.to_vec4d::<f64>().map(|_| vec![]), _ => a.to_vec5d::<f32>().map(|_| vec![]) }
            }))
        },
        33 => {
            let m = near(r, &s);
            let len = if r.chance(0.5) { numel(&m) * d.size_in_bytes() } else { r.usize(0, 80) };
            let k = r.below(3);
            let want = if k == 0 && len != numel(&m) * d.size_in_bytes() { Bad("byte count") } else if k == 1 && len != numel(&m) { Bad("element count") } else { Any };
            q(["from_bytes", "from_slice", "set_"][k], format!("{} bytes as {:?}", len, m), vec![x, (odt(r, d), m.clone())], want, Box::new(move |t| match k {
                0 => one(Tensor::from_bytes(&vec![1u8; len], &m, d, Device::CPU)),
                1 => one(Tensor::from_slice(vec![1.5f32; len], &m)),
                _ => { let c = t[0].add(&t[0])?; c.set_(&t[1]).map(|_| vec![c]) },
            }))
        },
        34 => {
            let k = r.below(5);
            let mut f = |r: &mut Rng| *r.pick(&[0.0, 1.0, -1.0, 2.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 10.0, -0.0, 1e-3]);
            let (a, b, c) = (f(r), f(r), f(r));
            let st = r.below(6);
            let e = d;
            let want = match k { 0 if c == 0.0 || c.is_nan() || a.is_nan() || b.is_nan() => Bad("arange step"), 0 if b.is_infinite() || a.is_infinite() => Bad("endless range"), _ => Any };
            q(["arange", "linspace", "rand_uniform", "randn", "eye"][k], format!("{} {} {} {}", a, b, c, st), vec![], want, Box::new(move |_| one(match k {
                0 => Tensor::arange(a, b, c), 1 => Tensor::linspace(a, b, st), 2 => Tensor::rand_uniform([2, 2], a, b), 3 => Tensor::randn([2, 2], a, b), _ => Tensor::eye_nm(st, 2, e),
            })))
        },
        35 => {
            let k = r.below(5);
            let want = match k { 0 | 1 => Bad("nothing recorded"), 2 => Bad("no gradient"), _ => Any };
            q(["backward", "backward of a constant result", "grad", "zero_grad", "requires_grad"][k], "".into(), vec![x], want, Box::new(move |t| match k {
                0 => t[0].backward().map(|_| vec![]),
                1 => { let y = t[0].contiguous()?; y.backward().map(|_| vec![]) },
                2 => one(t[0].grad()),
                3 => { let _ = t[0].zero_grad(); Ok(vec![]) },
                _ => { let c = t[0].contiguous()?; let _ = c.set_requires_grad(true); Ok(vec![]) },
            }))
        },
        36 => {
            let dt2 = rdt(r);
            let rep: Vec<usize> = (0..(if r.chance(0.8) { n } else { r.below(5) })).map(|_| r.usize(0, 3)).collect();
            let k = r.below(4);
            let want = if k == 1 && rep.len() != n { Bad("one count per dimension") } else { Any };
            q(["to_dtype", "repeat", "contiguous", "flatten"][k], format!("{:?} {:?}", dt2, rep), vec![x], want, Box::new(move |t| one(match k { 0 => t[0].to_dtype(dt2), 1 => t[0].repeat(&rep), 2 => t[0].contiguous(), _ => t[0].flatten() })))
        },
        37 => {
            let s2 = shape(r);
            let k = r.below(3);
            q(["broadcast_like", "save to a directory", "load of nothing"][k], "".into(), vec![x, (d, s2)], if k == 0 { Any } else { Bad("no such file") }, Box::new(move |t| match k {
                0 => one(t[0].broadcast_like(&t[1])),
                1 => t[0].save("/nonexistent-dir/x.hdt").map(|_| vec![]),
                _ => one(Tensor::load("/nonexistent-dir/x.hdt")),
            }))
        },
        38 => {
            // axes given by scalars of other types
            let v: Vec<Scalar> = vec![Scalar::F32(1.0), Scalar::F32(-1.5), Scalar::F32(f32::NAN), Scalar::F32(1e30), Scalar::U32(u32::MAX), Scalar::I64(i64::MIN), Scalar::U64(u64::MAX), Scalar::BOOL(true), Scalar::I8(-1)];
            let a = *r.pick(&v);
            let k = r.below(6);
            q(["sum", "softmax", "cumsum", "unsqueeze", "transpose", "slice"][k], format!("{:?}", a), vec![x], Any, Box::new(move |t| one(match k { 0 => t[0].sum(&[a], false), 1 => t[0].softmax(a), 2 => t[0].cumsum(a), 3 => t[0].unsqueeze(a), 4 => t[0].transpose(a, 0), _ => t[0].slice(0, a, None, Scalar::I32(1)) })))
        },
        _ => {
            let p = *r.pick(&[0.0, -1.0, 1.0, 2.0, f64::NAN, f64::INFINITY, 0.5]);
            let (v, w) = axes(r, n);
            let w = match w { Bad("duplicate axis") => Any, w => w };
            q("norm", format!("{} {:?}", p, v), vec![x], w, Box::new(move |t| one(t[0].norm(p, &v, false))))
        },
    }
}

pub fn wf(t: &Tensor) -> Result<(), String> {
    let s = shape_of(t);
    let n = s.iter().fold(1u128, |a, &b| a.saturating_mul(b as u128));
    if t.size() as u128 != n {
        return Err(format!("size {} of shape {:?}", t.size(), s));
    }
    if t.ndim() != s.len() || t.strides().len() != s.len() {
        return Err(format!("rank {} strides {:?} shape {:?}", t.ndim(), t.strides(), s));
    }
    if n > 1 << 22 {
        return Ok(()); // a huge view: not materialised
    }
    match t.to_bytes() {
        Ok(b) if b.len() as u128 == n * t.dtype().size_in_bytes() as u128 => {},
        Ok(b) => return Err(format!("{} bytes for {:?} {:?}", b.len(), s, t.dtype())),
        Err(e) => return Err(format!("to_bytes: {}", e)),
    }
    read(t).map(|_| ())
}

fn requests(cx: &mut Cx) -> R {
    let q = gen(&mut cx.rng);
    cx.d(format!("{} {}", q.name, q.args));
    let mut ts = vec![];
    let mut contents = vec![];
    let grads = cx.rng.chance(0.2);
    for (d, s) in &q.ins {
        let lay = if numel(s) == 0 { Lay::Contig } else { gen_lay(&mut cx.rng) };
        let g = if *d == DType::I32 && cx.rng.chance(0.6) { Gen::Range(-6.0, 6.0) } else { *cx.rng.pick(&[Gen::Small, Gen::Edge]) };
        let (t, m) = if numel(s) == 0 {
            match Tensor::zeros(s, *d) { Ok(t) => (t, RT::new(*d, s, vec![])), Err(_) => return Err(Fail::Skip) }
        } else {
            gen_view(&mut cx.rng, *d, s, g, lay)?
        };
        if grads && is_float(*d) {
            let _ = t.set_requires_grad(true);
        }
        cx.d(format!("{:?}{:?}", d, s));
        contents.push(m);
        ts.push(t);
    }
    cx.d(format!("grads {}", grads));
    let before = tensor_count();
    let res = (q.call)(&ts);
    let failed = res.is_err();
    let want = if grads && q.name.starts_with("backward") { Any } else { q.want };
    match (&res, want) {
        (Ok(_), Bad(why)) => bail!(format!("{}: invalid request accepted ({})", q.name, why), "gave {:?}", res.as_ref().unwrap().iter().map(|t| format!("{:?}{:?}", t.dtype(), shape_of(t))).collect::<Vec<_>>()),
        (Ok(v), _) => {
            for t in v {
                if let Err(e) = wf(t) {
                    bail!(format!("{}: ill-formed result", q.name), "{}", e);
                }
            }
            cx.count("accepted", 1);
        },
        (Err(_), w) => cx.count(if w == Any { "refused" } else { "rejected as required" }, 1),
    }
    drop(res);
    for (t, m) in ts.iter().zip(&contents) {
        if numel(&m.shape) == 0 {
            continue;
        }
        let ok = t.dtype() == m.dt && shape_of(t) == m.shape;
        check!(ok, format!("{}: operand changed", q.name), "{:?}", shape_of(t));
        if let Some(d) = diff_exact(t, m) {
            bail!(format!("{}: operand changed", q.name), "{}", d);
        }
    }
    if !grads {
        let after = tensor_count();
        check!(after == before, format!("{}: {} tensors left behind", q.name, if failed { "a failing request has" } else { "a request has" }), "{} tensors before, {} after", before, after);
    }
    // and the library still computes
    let p = Tensor::from_slice(vec![1.0f32, 2.0, 3.0], [3]).and_then(|t| t.add(&t)).and_then(|t| t.to_flatten_vec::<f32>());
    check!(matches!(&p, Ok(v) if v == &[2.0, 4.0, 6.0]), format!("{}: later computation", q.name), "{:?}", p);
    Ok(())
}
pub fn diff_exact(t: &Tensor, m: &RT) -> Option<String> {
    match read(t) {
        Ok(g) => (0..m.data.len()).find(|&i| !same(g.data[i], m.data[i])).map(|i| format!("element {} is {:?}, was {:?}", i, g.data[i], m.data[i])),
        Err(e) => Some(e),
    }
}
pub fn same(a: V, b: V) -> bool {
    match (a, b) {
        (V::F(x), V::F(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        (V::I(x), V::I(y)) => x == y,
        (V::B(x), V::B(y)) => x == y,
        (_, V::Any) => true,
        _ => false,
    }
}

pub const GROUPS: &[Family] = &[fam("requests", 120000, 2000000, requests)];
