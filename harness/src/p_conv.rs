//! E05: convolutions and their weight gradients, window reductions, resizes, padding.
use crate::cx::*;
use crate::p_elem::{describe, scalar_of};
use crate::p_mat::sop;
use crate::rt::*;
use crate::{bail, check};
use hodu_core::error::HoduResult;
use hodu_core::tensor::Tensor;
use hodu_core::types::DType;

const FL: &[DType] = &[DType::F8E4M3, DType::F8E5M2, DType::BF16, DType::F16, DType::F32, DType::F32, DType::F32, DType::F64, DType::F64];

/// the geometry of one n-dimensional convolution
pub struct Geo {
    pub n: usize,
    pub ci: usize,
    pub co: usize,
    pub inp: Vec<usize>,
    pub ker: Vec<usize>,
    pub s: usize,
    pub p: usize,
    pub d: usize,
    pub op: usize,
}

pub fn geo(cx: &mut Cx, nd: usize, transposed: bool) -> Option<Geo> {
    let r = &mut cx.rng;
    let big = nd == 1 && r.chance(0.1);
    let g = Geo {
        n: r.usize(1, 3),
        ci: r.usize(1, 4),
        co: r.usize(1, 4),
        inp: (0..nd).map(|_| if big { r.usize(1, 40) } else { r.usize(1, [0, 9, 6, 4][nd]) }).collect(),
        ker: (0..nd).map(|_| r.usize(1, [0, 4, 3, 3][nd])).collect(),
        s: *r.pick(&[1, 1, 2, 3]),
        p: *r.pick(&[0, 0, 1, 2, 3]),
        d: *r.pick(&[1, 1, 2, 3]),
        op: if transposed { *r.pick(&[0, 0, 0, 1, 2]) } else { 0 },
    };
    let mut g = g;
    if g.op >= g.s.max(g.d) {
        g.op = 0;
    }
    g.out(transposed)?;
    Some(g)
}

impl Geo {
    /// output extents, None when the configuration is not admissible
    pub fn out(&self, transposed: bool) -> Option<Vec<usize>> {
        self.inp
            .iter()
            .zip(&self.ker)
            .map(|(&i, &k)| {
                let span = (self.d * (k - 1) + 1) as i64;
                let o = if transposed {
                    (i as i64 - 1) * self.s as i64 - 2 * self.p as i64 + span + self.op as i64
                } else {
                    let room = i as i64 + 2 * self.p as i64 - span;
                    if room < 0 {
                        return None;
                    }
                    room / self.s as i64 + 1
                };
                if o >= 1 { Some(o as usize) } else { None }
            })
            .collect()
    }
}

pub fn cat(a: usize, b: usize, v: &[usize]) -> Vec<usize> {
    let mut s = vec![a, b];
    s.extend_from_slice(v);
    s
}

/// pairs (input position, kernel position) feeding output position `o` of a forward convolution
fn taps(g: &Geo, o: &[usize]) -> Vec<(Vec<usize>, Vec<usize>)> {
    let mut v = vec![];
    for q in 0..numel(&g.ker) {
        let k = unravel(q, &g.ker);
        let pos: Option<Vec<usize>> = (0..k.len())
            .map(|x| {
                let i = (o[x] * g.s + k[x] * g.d) as i64 - g.p as i64;
                if i >= 0 && (i as usize) < g.inp[x] { Some(i as usize) } else { None }
            })
            .collect();
        if let Some(p) = pos {
            v.push((p, k));
        }
    }
    v
}

/// pairs (input position, kernel position) of a transposed convolution
fn taps_t(g: &Geo, o: &[usize]) -> Vec<(Vec<usize>, Vec<usize>)> {
    let mut v = vec![];
    for q in 0..numel(&g.ker) {
        let k = unravel(q, &g.ker);
        let pos: Option<Vec<usize>> = (0..k.len())
            .map(|x| {
                let t = o[x] as i64 + g.p as i64 - (k[x] * g.d) as i64;
                if t >= 0 && t % g.s as i64 == 0 && ((t / g.s as i64) as usize) < g.inp[x] { Some((t / g.s as i64) as usize) } else { None }
            })
            .collect();
        if let Some(p) = pos {
            v.push((p, k));
        }
    }
    v
}

fn at(m: &RT, a: usize, b: usize, r: &[usize]) -> V {
    m.at(&cat(a, b, r))
}

pub fn conv_model(g: &Geo, x: &RT, w: &RT, tr: bool) -> (RT, Vec<f64>) {
    let os = cat(g.n, g.co, &g.out(tr).unwrap());
    let mut tols = vec![];
    let e = RT::from_fn(x.dt, &os, |ix| {
        let t = if tr { taps_t(g, &ix[2..]) } else { taps(g, &ix[2..]) };
        let (v, tl) = sop(
            x.dt,
            (0..g.ci).flat_map(|c| t.iter().map(move |(p, k)| (c, p, k))).map(|(c, p, k)| {
                let wv = if tr { at(w, c, ix[1], k) } else { at(w, ix[1], c, k) };
                vec![at(x, ix[0], c, p), wv]
            }),
        );
        tols.push(tl);
        v
    });
    (e, tols)
}

fn pick_val(cx: &mut Cx) -> Gen {
    *cx.rng.pick(&[Gen::Small, Gen::Small, Gen::Range(-2.0, 2.0)])
}

fn ten(cx: &mut Cx, dt: DType, s: &[usize]) -> Result<(Tensor, RT), Fail> {
    let g = pick_val(cx);
    let l = gen_lay(&mut cx.rng);
    gen_view(&mut cx.rng, dt, s, g, l)
}

pub fn run_conv(nd: usize, tr: bool, x: &Tensor, w: &Tensor, s: usize, p: usize, op: usize, d: usize) -> HoduResult<Tensor> {
    match (nd, tr) {
        (1, false) => x.conv1d(w, s, p, d),
        (2, false) => x.conv2d(w, s, p, d),
        (3, false) => x.conv3d(w, s, p, d),
        (1, true) => x.conv_transpose1d(w, s, p, op, d),
        (2, true) => x.conv_transpose2d(w, s, p, op, d),
        _ => x.conv_transpose3d(w, s, p, op, d),
    }
}

fn conv_any(cx: &mut Cx, tr: bool) -> R {
    let dt = *cx.rng.pick(FL);
    let nd = *cx.rng.pick(&[1, 1, 2, 2, 2, 3]);
    let Some(g) = geo(cx, nd, tr) else { return Err(Fail::Skip) };
    let (tx, x) = ten(cx, dt, &cat(g.n, g.ci, &g.inp))?;
    // a transposed convolution is parameterised as [in, out, kernel], the adjoint of [out, in, kernel]
    let ws = if tr { cat(g.ci, g.co, &g.ker) } else { cat(g.co, g.ci, &g.ker) };
    let (tw, w) = ten(cx, dt, &ws)?;
    describe(cx, &tx, &x);
    describe(cx, &tw, &w);
    cx.d(format!("conv{}d tr={} s{} p{} op{} d{} x{:?} w{:?} {} {}", nd, tr, g.s, g.p, g.op, g.d, x.shape, w.shape, x.show(), w.show()));
    let (e, tols) = conv_model(&g, &x, &w, tr);
    let r = run_conv(nd, tr, &tx, &tw, g.s, g.p, g.op, g.d);
    expect_tols(&format!("conv{}{}d {:?}", if tr { "_transpose" } else { "" }, nd, dt), r, &e, &tols)
}
fn conv(cx: &mut Cx) -> R {
    conv_any(cx, false)
}
fn conv_transpose(cx: &mut Cx) -> R {
    conv_any(cx, true)
}

fn grad_weight(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(FL);
    let nd = *cx.rng.pick(&[1, 1, 2, 2, 2, 3]);
    let tr = cx.rng.chance(0.4);
    let Some(g) = geo(cx, nd, tr) else { return Err(Fail::Skip) };
    let o = g.out(tr).unwrap();
    let (tx, x) = ten(cx, dt, &cat(g.n, g.ci, &g.inp))?;
    let (tg, gr) = ten(cx, dt, &cat(g.n, g.co, &o))?;
    let ws = if tr { cat(g.ci, g.co, &g.ker) } else { cat(g.co, g.ci, &g.ker) };
    describe(cx, &tx, &x);
    describe(cx, &tg, &gr);
    cx.d(format!("grad_weight{}d tr={} s{} p{} op{} d{} x{:?} g{:?} w{:?} {} {}", nd, tr, g.s, g.p, g.op, g.d, x.shape, gr.shape, ws, x.show(), gr.show()));
    // the adjoint: collect for every weight element the (input, output) pairs it joins
    let mut pairs: Vec<Vec<(Vec<usize>, Vec<usize>)>> = vec![vec![]; numel(&g.ker)];
    for q in 0..numel(&o) {
        let op = unravel(q, &o);
        for (p, k) in if tr { taps_t(&g, &op) } else { taps(&g, &op) } {
            pairs[ravel(&k, &g.ker)].push((p, op.clone()));
        }
    }
    let mut tols = vec![];
    let e = RT::from_fn(dt, &ws, |ix| {
        let (ci, co) = if tr { (ix[0], ix[1]) } else { (ix[1], ix[0]) };
        let (v, t) = sop(
            dt,
            (0..g.n).flat_map(|b| pairs[ravel(&ix[2..], &g.ker)].iter().map(move |(p, o)| (b, p, o))).map(|(b, p, o)| vec![at(&x, b, ci, p), at(&gr, b, co, o)]),
        );
        tols.push(t);
        v
    });
    let r = match (nd, tr) {
        (1, false) => tx.conv1d_grad_weight(&tg, &ws, g.s, g.p, g.d),
        (2, false) => tx.conv2d_grad_weight(&tg, &ws, g.s, g.p, g.d),
        (3, false) => tx.conv3d_grad_weight(&tg, &ws, g.s, g.p, g.d),
        (1, true) => tx.conv_transpose1d_grad_weight(&tg, &ws, g.s, g.p, g.d),
        (2, true) => tx.conv_transpose2d_grad_weight(&tg, &ws, g.s, g.p, g.d),
        _ => tx.conv_transpose3d_grad_weight(&tg, &ws, g.s, g.p, g.d),
    };
    expect_tols(&format!("conv{}{}d_grad_weight {:?}", if tr { "_transpose" } else { "" }, nd, dt), r, &e, &tols)
}

/// the adjoint identity <conv(x,w),g> = <x, conv_transpose(g,w)> on integer data (exact in any order)
fn adjoint(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(&[DType::F32, DType::F64]);
    let nd = *cx.rng.pick(&[1, 2, 2, 3]);
    let Some(g) = geo(cx, nd, false) else { return Err(Fail::Skip) };
    let o = g.out(false).unwrap();
    // choose the input so that no trailing row is dropped: then the transposed output has the input's extents
    let inp: Vec<i64> = o.iter().zip(&g.ker).map(|(&o, &k)| (o as i64 - 1) * g.s as i64 + (g.d * (k - 1) + 1) as i64 - 2 * g.p as i64).collect();
    if inp.iter().any(|&i| i < 1) {
        return Err(Fail::Skip);
    }
    let inp: Vec<usize> = inp.iter().map(|&i| i as usize).collect();
    let ints = |cx: &mut Cx, s: &[usize]| RT::from_fn(dt, s, |_| V::F(cx.rng.range(-3, 3) as f64));
    let x = ints(cx, &cat(g.n, g.ci, &inp));
    let w = ints(cx, &cat(g.co, g.ci, &g.ker));
    let y = ints(cx, &cat(g.n, g.co, &o));
    let (lx, lw, ly) = (gen_lay(&mut cx.rng), gen_lay(&mut cx.rng), gen_lay(&mut cx.rng));
    let (tx, tw, ty) = (view_of(&mut cx.rng, &x, lx)?, view_of(&mut cx.rng, &w, lw)?, view_of(&mut cx.rng, &y, ly)?);
    cx.d(format!("adjoint {}d {:?} s{} p{} d{} x{:?} w{:?} {} {}", nd, dt, g.s, g.p, g.d, x.shape, w.shape, x.show(), w.show()));
    let dotp = |a: &RT, b: &RT| a.data.iter().zip(&b.data).map(|(a, b)| a.f() * b.f()).sum::<f64>();
    let c = read(&lay_op(run_conv(nd, false, &tx, &tw, g.s, g.p, 0, g.d), "conv")?).map_err(|e| Fail::Bad("adjoint: read".into(), e))?;
    let ct = lay_op(run_conv(nd, true, &ty, &tw, g.s, g.p, 0, g.d), "conv_transpose")?;
    check!(shape_of(&ct) == x.shape, format!("adjoint {}d shape", nd), "conv_transpose gives {:?}, input was {:?}", shape_of(&ct), x.shape);
    let ct = read(&ct).map_err(|e| Fail::Bad("adjoint: read".into(), e))?;
    let (l, r) = (dotp(&c, &y), dotp(&x, &ct));
    check!(l == r, format!("adjoint {}d {:?}", nd, dt), "<conv(x,w),y> = {} but <x,conv_transpose(y,w)> = {}", l, r);
    Ok(())
}

fn window(cx: &mut Cx) -> R {
    let red = *cx.rng.pick(&["max", "min", "sum", "mean"]);
    let dt = if red == "mean" { *cx.rng.pick(FL) } else { *cx.rng.pick(ALL) };
    if dt == DType::BOOL {
        return Err(Fail::Skip);
    }
    let nd = cx.rng.usize(1, 4);
    let s: Vec<usize> = (0..nd).map(|_| cx.rng.usize(1, if nd > 2 { 4 } else { 7 })).collect();
    let win: Vec<usize> = (0..nd).map(|_| *cx.rng.pick(&[1, 1, 2, 3])).collect();
    let st: Vec<usize> = (0..nd).map(|_| *cx.rng.pick(&[1, 1, 2, 3])).collect();
    let pad: Vec<(usize, usize)> = (0..nd).map(|_| (*cx.rng.pick(&[0, 0, 1, 2]), *cx.rng.pick(&[0, 0, 1, 2]))).collect();
    let mut o = vec![];
    for i in 0..nd {
        let l = s[i] + pad[i].0 + pad[i].1;
        if l < win[i] {
            return Err(Fail::Skip);
        }
        o.push((l - win[i]) / st[i] + 1);
    }
    let g = if red == "max" || red == "min" { *cx.rng.pick(&[Gen::Small, Gen::Finite]) } else { Gen::Small };
    let l = gen_lay(&mut cx.rng);
    let (t, m) = gen_view(&mut cx.rng, dt, &s, g, l)?;
    describe(cx, &t, &m);
    cx.d(format!("reduce_window {} {:?} win{:?} st{:?} pad{:?} {}", red, s, win, st, pad, m.show()));
    let mut tols = vec![];
    let wn = numel(&win);
    let e = RT::from_fn(dt, &o, |ix| {
        let mut vals = vec![];
        for q in 0..wn {
            let k = unravel(q, &win);
            let p: Option<Vec<usize>> = (0..nd)
                .map(|x| {
                    let i = (ix[x] * st[x] + k[x]) as i64 - pad[x].0 as i64;
                    if i >= 0 && (i as usize) < s[x] { Some(i as usize) } else { None }
                })
                .collect();
            if let Some(p) = p {
                vals.push(m.at(&p));
            }
        }
        match red {
            "max" | "min" => {
                tols.push(0.0);
                if vals.is_empty() || vals.iter().any(|v| is_float(dt) && v.f().is_nan()) {
                    return V::Any; // a window lying entirely in the padding has no extreme value
                }
                let lt = |a: &V, b: &V| if is_float(dt) { a.f() < b.f() } else { a.i() < b.i() };
                vals.iter().copied().reduce(|a, b| if (red == "max") == lt(&a, &b) { b } else { a }).unwrap()
            },
            _ => {
                let (v, t) = sop(dt, vals.iter().map(|v| vec![*v]));
                if red == "sum" || v == V::Any {
                    tols.push(t);
                    return v;
                }
                // the mean divides by the full window: padding counts as zeros
                tols.push(t / wn as f64 + 2.0 * eps(dt) * v.f().abs() / wn as f64 + min_normal(dt) * eps(dt) * 2.0);
                V::F(v.f() / wn as f64)
            },
        }
    });
    expect_tols(&format!("reduce_window {} {:?}", red, dt), t.reduce_window(win, st, &pad, red), &e, &tols)
}

fn pad(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(ALL);
    let nd = cx.rng.usize(1, 4);
    let s: Vec<usize> = (0..nd).map(|_| cx.rng.usize(1, 5)).collect();
    let mode = *cx.rng.pick(&["constant", "reflect", "replicate", "edge", "circular", "wrap", "CONSTANT", "Reflect"]);
    let low = mode.to_lowercase();
    let wide = cx.rng.chance(0.25);
    let p: Vec<(usize, usize)> = (0..nd)
        .map(|i| {
            // reflecting more than size-1 elements has no standard meaning: repeated reflection is what is asked for then
            let hi = if low == "reflect" && !wide { s[i] - 1 } else if wide { 7 } else { 3 };
            (cx.rng.usize(0, hi), cx.rng.usize(0, hi))
        })
        .collect();
    let g = *cx.rng.pick(&[Gen::Small, Gen::Edge]);
    let l = gen_lay(&mut cx.rng);
    let (t, m) = gen_view(&mut cx.rng, dt, &s, g, l)?;
    describe(cx, &t, &m);
    let c = gen_v(&mut cx.rng, dt, g);
    cx.d(format!("pad {} {:?} {:?} value {:?} {}", mode, s, p, c, m.show()));
    let o: Vec<usize> = (0..nd).map(|i| s[i] + p[i].0 + p[i].1).collect();
    let e = RT::from_fn(dt, &o, |ix| {
        let mut q = vec![];
        for i in 0..nd {
            let n = s[i] as i64;
            let x = ix[i] as i64 - p[i].0 as i64;
            let y = match low.as_str() {
                "constant" => {
                    if x < 0 || x >= n {
                        return c;
                    }
                    x
                },
                "reflect" => {
                    if n == 1 {
                        0
                    } else {
                        let per = 2 * (n - 1);
                        let r = x.rem_euclid(per);
                        if r < n { r } else { per - r }
                    }
                },
                "replicate" | "edge" => x.clamp(0, n - 1),
                _ => x.rem_euclid(n),
            };
            q.push(y as usize);
        }
        m.at(&q)
    });
    let sc = scalar_of(c, dt);
    let r = match (mode, cx.rng.chance(0.5)) {
        ("constant", true) => t.pad_constant(&p, sc),
        ("reflect", true) => t.pad_reflect(&p),
        ("replicate", true) => t.pad_replicate(&p),
        ("edge", true) => t.pad_edge(&p),
        ("circular", true) => t.pad_circular(&p),
        ("wrap", true) => t.pad_wrap(&p),
        _ => t.pad(&p, mode, sc),
    };
    expect(&format!("pad {} {:?}", low, dt), r, &e, EXACT)
}

/// (position, weight) pairs of the interpolation along one axis, from the exact rational source coordinate
fn axis_taps(o: usize, n_in: usize, n_out: usize, mode: &str, ct: &str, nm: &str) -> Vec<(usize, f64)> {
    // source coordinate = num/den, exactly
    let (oi, i, u) = (o as i128, n_in as i128, n_out as i128);
    let (num, den) = match ct {
        "asymmetric" => (oi * i, u),
        "align_corners" => {
            if u == 1 {
                (0, 1)
            } else {
                (oi * (i - 1), u - 1)
            }
        },
        "pytorch_half_pixel" if u == 1 => (0, 1),
        _ => ((2 * oi + 1) * i - u, 2 * u),
    };
    let fl = num.div_euclid(den);
    let clamp = |x: i128| x.clamp(0, i - 1) as usize;
    let t = (num - fl * den) as f64 / den as f64;
    let twice = 2 * (num - fl * den);
    match mode {
        "nearest" => {
            let r = match nm {
                "floor" => fl,
                "ceil" => fl + (num != fl * den) as i128,
                "round_prefer_floor" => fl + (twice > den) as i128,
                _ => fl + (twice >= den) as i128,
            };
            vec![(clamp(r), 1.0)]
        },
        "linear" => vec![(clamp(fl), 1.0 - t), (clamp(fl + 1), t)],
        _ => {
            // Catmull-Rom
            let w = [
                -0.5 * t * t * t + t * t - 0.5 * t,
                1.5 * t * t * t - 2.5 * t * t + 1.0,
                -1.5 * t * t * t + 2.0 * t * t + 0.5 * t,
                0.5 * t * t * t - 0.5 * t * t,
            ];
            (0..4).map(|k| (clamp(fl - 1 + k as i128), w[k])).collect()
        },
    }
}

fn resize(cx: &mut Cx) -> R {
    let dt = *cx.rng.pick(FL);
    let nd = *cx.rng.pick(&[2, 2, 3]);
    let mut s = vec![cx.rng.usize(1, 2), cx.rng.usize(1, 3)];
    let hi = if nd == 3 { 4 } else { 7 };
    s.extend((0..nd).map(|_| cx.rng.usize(1, hi)));
    let o: Vec<usize> = (0..nd).map(|i| if cx.rng.chance(0.15) { s[2 + i] } else { cx.rng.usize(1, hi + 4) }).collect();
    let mode = *cx.rng.pick(&["nearest", "linear", "cubic"]);
    let ct = *cx.rng.pick(&["half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel"]);
    let nm = *cx.rng.pick(&["floor", "ceil", "round_prefer_floor", "round_prefer_ceil"]);
    let l = gen_lay(&mut cx.rng);
    let g = if mode == "nearest" { *cx.rng.pick(&[Gen::Small, Gen::Edge]) } else { Gen::Small };
    let (t, m) = gen_view(&mut cx.rng, dt, &s, g, l)?;
    describe(cx, &t, &m);
    let (mut mode2, mut ct2, mut nm2) = (mode, ct, nm);
    let which = cx.rng.below(8);
    match which {
        0 => (mode2, ct2, nm2) = ("nearest", "asymmetric", "floor"),
        1 => (mode2, ct2) = ("linear", "half_pixel"),
        2 => (mode2, ct2) = ("linear", "align_corners"),
        3 => (mode2, ct2) = ("cubic", "half_pixel"),
        _ => {},
    }
    if which == 0 && mode != "nearest" || which < 4 && mode == "nearest" && which > 0 {
        return Err(Fail::Skip);
    }
    cx.d(format!("resize {} {} {} {:?} -> {:?} {}", mode2, ct2, nm2, s, o, m.show()));
    let name = match (mode2, cx.rng.chance(0.5)) {
        ("linear", true) => {
            if nd == 2 { "bilinear" } else { "trilinear" }
        },
        ("cubic", true) => "bicubic",
        _ => mode2,
    };
    let mut os = s[..2].to_vec();
    os.extend(&o);
    let mut tols = vec![];
    let e = RT::from_fn(dt, &os, |ix| {
        let ax: Vec<Vec<(usize, f64)>> = (0..nd).map(|i| axis_taps(ix[2 + i], s[2 + i], o[i], mode2, ct2, nm2)).collect();
        let sizes: Vec<usize> = ax.iter().map(|a| a.len()).collect();
        let (mut sum, mut mag) = (0.0, 0.0);
        let mut only = V::Any;
        for q in 0..numel(&sizes) {
            let k = unravel(q, &sizes);
            let p: Vec<usize> = (0..nd).map(|i| ax[i][k[i]].0).collect();
            let w: f64 = (0..nd).map(|i| ax[i][k[i]].1).product();
            let v = at(&m, ix[0], ix[1], &p);
            only = v;
            sum += w * v.f();
            mag += v.f().abs().max(1e-30);
        }
        if mode2 == "nearest" {
            tols.push(0.0);
            return only;
        }
        if mag > 0.4 * fparams(dt).2 {
            tols.push(0.0);
            return V::Any;
        }
        // interpolation weights are evaluated in the precision of the element type, f32 at least for the small ones
        let we = if dt == DType::F64 { eps(dt) } else { eps(DType::F32) };
        tols.push(eps(dt) * sum.abs() + 16.0 * we * mag + min_normal(dt) * eps(dt) * 2.0);
        V::F(sum)
    });
    let r = match which {
        0 => t.resize_nearest(&o),
        1 => t.resize_bilinear(&o),
        2 => t.resize_bilinear_align_corners(&o),
        3 => t.resize_bicubic(&o),
        _ => t.resize(&o, name, ct, nm),
    };
    let _ = nm2;
    expect_tols(&format!("resize {} {}d {:?}", mode2, nd, dt), r, &e, &tols)
}

/// configurations without any admissible output are errors, and weight-gradient shapes that disagree too
fn reject(cx: &mut Cx) -> R {
    let nd = *cx.rng.pick(&[1, 2, 3]);
    let dt = DType::F32;
    let mk = |cx: &mut Cx, s: &[usize]| gen_rt(&mut cx.rng, dt, s, Gen::Small).t();
    let sp: Vec<usize> = (0..nd).map(|_| cx.rng.usize(1, 4)).collect();
    let kind = cx.rng.below(8);
    let u = cx.rng.u64();
    cx.d(format!("reject kind {} nd {} {:?} {}", kind, nd, sp, u));
    let big: Vec<usize> = sp.iter().map(|s| s + 1).collect();
    let (what, r) = match kind {
        0 => ("kernel larger than the padded input", run_conv(nd, false, &mk(cx, &cat(1, 2, &sp)), &mk(cx, &cat(3, 2, &big)), 1, 0, 0, 1)),
        1 => ("stride 0", run_conv(nd, cx.rng.chance(0.5), &mk(cx, &cat(1, 2, &sp)), &mk(cx, &cat(2, 2, &vec![1; nd])), 0, 0, 0, 1)),
        2 => ("channel mismatch", run_conv(nd, false, &mk(cx, &cat(1, 2, &sp)), &mk(cx, &cat(2, 3, &vec![1; nd])), 1, 0, 0, 1)),
        3 => ("transposed padding swallows the output", run_conv(nd, true, &mk(cx, &cat(1, 2, &sp)), &mk(cx, &cat(2, 2, &vec![1; nd])), 1, 3, 0, 1)),
        4 => ("transposed channel mismatch", run_conv(nd, true, &mk(cx, &cat(1, 2, &sp)), &mk(cx, &cat(3, 2, &vec![1; nd])), 1, 0, 0, 1)),
        5 => {
            let t = mk(cx, &sp);
            ("window larger than the padded input", t.reduce_window(big, vec![1; nd], &vec![(0, 0); nd], "max"))
        },
        6 => {
            let t = mk(cx, &sp);
            ("window stride 0", t.reduce_window(vec![1; nd], vec![0; nd], &vec![(0, 0); nd], "sum"))
        },
        _ => {
            let (x, g) = (mk(cx, &cat(2, 2, &sp)), mk(cx, &cat(2, 3, &sp)));
            let ws = if cx.rng.chance(0.5) { cat(2, 2, &vec![1; nd]) } else { cat(3, 1, &vec![1; nd]) };
            (
                "weight gradient of other channel counts",
                match nd {
                    1 => x.conv1d_grad_weight(&g, &ws, 1, 0, 1),
                    2 => x.conv2d_grad_weight(&g, &ws, 1, 0, 1),
                    _ => x.conv3d_grad_weight(&g, &ws, 1, 0, 1),
                },
            )
        },
    };
    if let Ok(t) = r {
        bail!(format!("accepted: {}", what), "{} gave a tensor of shape {:?}", what, shape_of(&t));
    }
    Ok(())
}

pub const CONV: &[Family] = &[
    fam("conv", 9000, 60000, conv),
    fam("conv_transpose", 7000, 50000, conv_transpose),
    fam("grad_weight", 7000, 50000, grad_weight),
    fam("adjoint", 3000, 20000, adjoint),
    fam("window", 15000, 100000, window),
    fam("pad", 15000, 100000, pad),
    fam("resize", 10000, 60000, resize),
    fam("conv_reject", 1500, 5000, reject),
];
