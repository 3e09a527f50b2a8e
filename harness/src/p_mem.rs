//! M01: kernels stay inside their buffers also for tensors of very many dimensions (the results equal those of the
//! same operation without the unit dimensions).  The other families of M01 are those of E01-E08, G01, A01 under sanitizers.
use crate::cx::*;
use crate::rt::*;
use crate::bail;
use hodu_core::error::HoduResult;
use hodu_core::tensor::Tensor;
use hodu_core::types::DType;

struct Map {
    /// position of each base dimension among the many
    pos: Vec<usize>,
    nd: usize,
}
impl Map {
    fn up(&self, s: &[usize]) -> Vec<usize> {
        let mut v = vec![1; self.nd];
        for (i, &p) in self.pos.iter().enumerate() {
            v[p] = s[i];
        }
        v
    }
}
fn rank(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let dt = *r.pick(&[DType::F32, DType::F64, DType::I32, DType::U8, DType::F16, DType::I64]);
    let shape = gen_shape(r, 1, 3, 60);
    let bn = shape.len();
    let nd = bn + r.usize(0, 4) + *r.pick(&[0, 4, 8, 12, 14, 18, 28, 31, 40]);
    let mut pos: Vec<usize> = (0..nd).collect();
    r.shuffle(&mut pos);
    pos.truncate(bn);
    pos.sort();
    let m = Map { pos, nd };
    let a = gen_rt(r, dt, &shape, Gen::Small);
    let b = gen_rt(r, dt, &shape, Gen::Small);
    let d = r.below(bn);
    let n = shape[d];
    let k = r.below(26);
    let ix: Vec<i32> = (0..r.usize(1, 4)).map(|_| r.below(n) as i32).collect();
    let cond: Vec<bool> = (0..n).map(|i| i == 0 || r.chance(0.5)).collect();
    let keep = r.chance(0.5);
    let pw = (r.usize(0, 2), r.usize(0, 2));
    let ixs = gen_rt(r, DType::I32, &shape, Gen::Small).map(DType::I32, |v| V::I(v.i().rem_euclid(n as i128)));
    let names = ["neg", "add", "gt", "sum", "max", "argmax", "cumsum", "index_select", "gather", "scatter", "scatter_add", "index_put", "concat", "split", "topk", "flip", "pad", "reduce_window", "onehot", "matmul", "compress", "where3", "contiguous", "cast", "softmax", "nonzero"];
    cx.d(format!("{} rank {} {:?} dim {} pos {:?} {} {}", names[k], nd, dt, d, m.pos, a.show(), b.show()));
    // one operation on a tensor of any rank, given where the base dimensions are
    let go = |m: &Map, a: &Tensor, b: &Tensor, ixs: &Tensor| -> HoduResult<Tensor> {
        let dd = m.pos[d] as i32;
        let one = |x: usize, other: usize| -> Vec<usize> {
            let mut v = vec![other; m.nd];
            v[m.pos[d]] = x;
            v
        };
        let ixt = || Tensor::from_slice(ix.clone(), [ix.len()]);
        match k {
            0 => a.add(a),
            1 => a.add(b),
            2 => a.gt(b)?.to_dtype(DType::I32),
            3 => a.sum(&[dd], true),
            4 => a.max(&[dd], true),
            5 => a.argmax(&[dd], true),
            6 => a.cumsum(dd),
            7 => a.index_select(dd, &ixt()?),
            8 => a.gather(dd, ixs),
            9 => a.scatter(dd, ixs, b),
            10 => a.scatter_add(dd, ixs, b),
            11 => {
                let mut u: Vec<i32> = ix.clone();
                u.sort();
                u.dedup();
                let v = b.index_select(dd, &Tensor::from_slice(u.clone(), [u.len()])?)?;
                a.index_put(dd, &Tensor::from_slice(u.clone(), [u.len()])?, &v)
            },
            12 => Tensor::concat(&[a, b], dd),
            13 => if n < 2 { Ok(a.clone()) } else { Ok(a.split(&[1, n - 1], dd)?[1].clone()) },
            14 => Ok(a.topk(n, dd, keep, true)?.0),
            15 => a.flip(&[dd]),
            16 => {
                let p: Vec<(usize, usize)> = one(1, 0).iter().map(|&x| if x == 1 { pw } else { (0, 0) }).collect();
                a.pad_constant(&p, crate::p_elem::scalar_of(V::I(3), dt))
            },
            17 => {
                let z: Vec<(usize, usize)> = vec![(0, 0); m.nd];
                a.reduce_window(one(n.min(2), 1), one(1, 1), &z, "max")
            },
            18 => ixs.onehot(n as i32, -1, dt)?.sum(&[-1], false),
            19 => {
                // batch dimensions only: every matrix is n x n
                let v = a.flatten()?.reshape([a.size(), 1])?;
                let h = v.reshape({
                    let mut s = m.up(&shape);
                    s.extend([1, 1]);
                    s
                })?;
                let c = h.matmul(&h)?;
                c.reshape(a.shape())
            },
            20 => a.compress(&Tensor::from_slice(cond.clone(), [n])?, Some(dd)),
            21 => a.where3(&a.gt(b)?, b),
            22 => a.flip(&[dd])?.contiguous(),
            23 => a.to_dtype(DType::F64),
            24 => a.to_dtype(DType::F32)?.softmax(dd),
            _ => {
                // coordinates of the non-zero elements, unit dimensions are all zero
                let z = a.nonzero()?.to_dtype(DType::I32)?;
                let cols: Vec<i32> = m.pos.iter().map(|&p| p as i32).collect();
                z.index_select(1, &Tensor::from_slice(cols.clone(), [cols.len()])?)
            },
        }
    };
    let low = Map { pos: (0..bn).collect(), nd: bn };
    let (la, lb, li) = (a.t(), b.t(), ixs.t());
    let exp = match go(&low, &la, &lb, &li) {
        Ok(t) => t,
        Err(_) => return Err(Fail::Skip),
    };
    let exp = match read(&exp) {
        Ok(e) => e,
        Err(e) => bail!(format!("rank {}: low", names[k]), "{}", e),
    };
    let f = |t: &RT| t.reshape(&m.up(&shape)).t();
    let r = go(&m, &f(&a), &f(&b), &f(&ixs));
    match r {
        // refusing a rank is allowed
        Err(_) => {
            cx.count("ranks_refused", 1);
            cx.trivial = true;
            Ok(())
        },
        Ok(t) => {
            let got = match read(&t) {
                Ok(g) => g,
                Err(e) => bail!(format!("rank {}: unreadable", names[k]), "{}", e),
            };
            cx.count("ranks_above_16", (nd > 16) as u64);
            if got.data.len() != exp.data.len() {
                bail!(format!("rank {}: size", names[k]), "{:?} but {:?} without unit dimensions", got.shape, exp.shape);
            }
            let g = RT::new(got.dt, &exp.shape, got.data.clone());
            match diff(&g, &exp, if matches!(k, 3 | 24) && is_float(g.dt) { Tol { abs: 1e-6, ..ulp(16.0) } } else { EXACT }) {
                Some(x) => bail!(format!("rank {}: differs", names[k]), "{}", x),
                None => Ok(()),
            }
        },
    }
}

pub const MEM: &[Family] = &[fam("rank", 24000, 240000, rank)];
