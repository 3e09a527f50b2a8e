//! R03: a captured program, evaluated by an independent interpreter of the snapshot, is the executed program.
use crate::cx::*;
use crate::p_err::same;
use crate::p_view::{from_bytes_model, slice_model};
use crate::rt::*;
use crate::{bail, check};
use hodu_core::error::{HoduError, HoduResult};
use hodu_core::op_params::*;
use hodu_core::ops::*;
use hodu_core::snapshot::{CaptureBoard, Snapshot, SnapshotNode};
use hodu_core::tensor::{tensor_count, Tensor};
use hodu_core::types::{DType, Layout};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

struct Val {
    dt: DType,
    buf: Rc<Vec<V>>,
    /// how the elements lie in the buffer, where the snapshot says so
    shape: Vec<usize>,
    layout: Option<Layout>,
}
/// a snapshot that cannot be evaluated
type E = String;

fn gather(v: &Val, l: &Layout) -> Result<RT, E> {
    let s = l.shape().dims().to_vec();
    if l.strides().len() != s.len() {
        return Err("a layout has another number of strides than dimensions".into());
    }
    let mut data = Vec::with_capacity(numel(&s));
    for i in 0..numel(&s) {
        let ix = unravel(i, &s);
        let at = l.offset() + ix.iter().zip(l.strides()).map(|(a, b)| a * b).sum::<usize>();
        match v.buf.get(at) {
            Some(x) => data.push(*x),
            None => return Err(format!("a layout (shape {:?} strides {:?} offset {}) reaches element {} of a buffer of {}", s, l.strides(), l.offset(), at, v.buf.len())),
        }
    }
    Ok(RT::new(v.dt, &s, data))
}
fn value(v: &Val) -> Result<RT, E> {
    match &v.layout {
        Some(l) => gather(v, l),
        None => Ok(RT::new(v.dt, &v.shape, v.buf[..].to_vec())),
    }
}
/// the elements of a tensor as they lie in memory are not visible: a node's result starts a buffer of its own
fn fresh(m: RT) -> Val {
    Val { dt: m.dt, shape: m.shape.clone(), buf: Rc::new(m.data), layout: None }
}
fn un(o: UnaryOp, a: &Tensor) -> HoduResult<Tensor> {
    use UnaryOp::*;
    match o {
        Neg => a.neg(), Abs => a.abs(), Sign => a.sign(), Softsign => a.softsign(), Square => a.square(), Sqrt => a.sqrt(), Recip => a.recip(),
        Relu => a.relu(), Sigmoid => a.sigmoid(), HardSigmoid => a.hardsigmoid(), Gelu => a.gelu(), Softplus => a.softplus(), Silu => a.silu(), HardSilu => a.hardsilu(), Mish => a.mish(), Selu => a.selu(), Celu => a.celu(),
        Sin => a.sin(), Cos => a.cos(), Tan => a.tan(), Asin => a.asin(), Acos => a.acos(), Atan => a.atan(), Sinh => a.sinh(), Cosh => a.cosh(), Tanh => a.tanh(), Asinh => a.asinh(), Acosh => a.acosh(), Atanh => a.atanh(),
        Exp => a.exp(), Exp2 => a.exp2(), Exp10 => a.exp10(), Ln => a.ln(), Log2 => a.log2(), Log10 => a.log10(), Ceil => a.ceil(), Floor => a.floor(), Round => a.round(), Erf => a.erf(),
    }
}
fn dims_i(v: &[hodu_core::scalar::Scalar]) -> Vec<i32> {
    v.iter().map(|s| s.to_i32()).collect()
}
/// one recorded operation, executed from what the snapshot records and nothing else
fn exec(n: &SnapshotNode, t: &[Tensor]) -> HoduResult<Tensor> {
    use OpParams as P;
    let odd = || Err(HoduError::InvalidArgument(format!("operation {:?} recorded with parameters {:?} and {} operands", n.op, n.params, t.len())));
    let need = |k: usize| t.len() == k;
    let arity = match n.op {
        Op::Binary(_) | Op::BinaryLogical(_) | Op::BitwiseBinary(_) | Op::Cmp(_) | Op::Matrix(_) | Op::Conv(_) => Some(2),
        Op::Indexing(IndexingOp::IndexSelect | IndexingOp::Gather | IndexingOp::Compress) => Some(2),
        Op::Indexing(IndexingOp::Onehot | IndexingOp::Nonzero | IndexingOp::Unique) => Some(1),
        Op::Indexing(_) => Some(3),
        Op::Concat(_) | Op::Einsum(_) => None,
        _ => Some(1),
    };
    if arity.map_or(t.is_empty(), |k| !need(k)) {
        return odd();
    }
    let p = n.params.as_ref();
    let a = &t[0];
    let shape = |i: usize| shape_of(&t[i]);
    match n.op {
        Op::Binary(o) => match o {
            BinaryOp::Add => a.add(&t[1]), BinaryOp::Sub => a.sub(&t[1]), BinaryOp::Mul => a.mul(&t[1]), BinaryOp::Div => a.div(&t[1]),
            BinaryOp::Rem => a.rem(&t[1]), BinaryOp::Pow => a.pow(&t[1]), BinaryOp::Maximum => a.maximum(&t[1]), BinaryOp::Minimum => a.minimum(&t[1]),
        },
        Op::BinaryLogical(o) => match o { BinaryLogicalOp::LogicalAnd => a.logical_and(&t[1]), BinaryLogicalOp::LogicalOr => a.logical_or(&t[1]), BinaryLogicalOp::LogicalXor => a.logical_xor(&t[1]) },
        Op::BitwiseBinary(o) => match o { BitwiseBinaryOp::Shl => a.shl(&t[1]), BitwiseBinaryOp::Shr => a.shr(&t[1]), BitwiseBinaryOp::And => a.bitwise_and(&t[1]), BitwiseBinaryOp::Or => a.bitwise_or(&t[1]), BitwiseBinaryOp::Xor => a.bitwise_xor(&t[1]) },
        Op::BitwiseUnary(BitwiseUnaryOp::Not) => a.bitwise_not(),
        Op::BitwiseUnaryScalar(o) => match (o, p) {
            (BitwiseUnaryScalarOp::ShlScalar, Some(P::BitwiseUnaryScalar(s))) => a.shl_scalar(s.shift),
            (BitwiseUnaryScalarOp::ShrScalar, Some(P::BitwiseUnaryScalar(s))) => a.shr_scalar(s.shift),
            _ => odd(),
        },
        Op::Cmp(o) => match o { CmpOp::Eq => a.eq(&t[1]), CmpOp::Ne => a.ne(&t[1]), CmpOp::Lt => a.lt(&t[1]), CmpOp::Le => a.le(&t[1]), CmpOp::Gt => a.gt(&t[1]), CmpOp::Ge => a.ge(&t[1]) },
        Op::CmpScalar(o) => {
            let Some(P::CmpScalar(s)) = p else { return odd() };
            let s = s.scalar;
            match o { CmpScalarOp::EqScalar => a.eq_scalar(s), CmpScalarOp::NeScalar => a.ne_scalar(s), CmpScalarOp::LtScalar => a.lt_scalar(s), CmpScalarOp::LeScalar => a.le_scalar(s), CmpScalarOp::GtScalar => a.gt_scalar(s), CmpScalarOp::GeScalar => a.ge_scalar(s) }
        },
        Op::Unary(o) => un(o, a),
        Op::UnaryLogical(o) => match o { UnaryLogicalOp::LogicalNot => a.logical_not(), UnaryLogicalOp::IsNan => a.isnan(), UnaryLogicalOp::IsInf => a.isinf(), UnaryLogicalOp::IsFinite => a.isfinite() },
        Op::UnaryScalar(o) => {
            let Some(P::UnaryScalar(s)) = p else { return odd() };
            let s = s.scalar;
            match o {
                UnaryScalarOp::AddScalar => a.add_scalar(s), UnaryScalarOp::SubScalar => a.sub_scalar(s), UnaryScalarOp::MulScalar => a.mul_scalar(s), UnaryScalarOp::DivScalar => a.div_scalar(s),
                UnaryScalarOp::RemScalar => a.rem_scalar(s), UnaryScalarOp::PowScalar => a.pow_scalar(s), UnaryScalarOp::MaximumScalar => a.maximum_scalar(s), UnaryScalarOp::MinimumScalar => a.minimum_scalar(s),
                UnaryScalarOp::LeakyRelu => a.leaky_relu(s), UnaryScalarOp::Elu => a.elu(s), UnaryScalarOp::Prelu => a.prelu(s),
            }
        },
        Op::Matrix(o) => match o { MatrixOp::Matmul => a.matmul(&t[1]), MatrixOp::Dot => a.dot(&t[1]) },
        Op::Linalg(o) => match o { LinalgOp::Det => a.det(), LinalgOp::Inv => a.inv(), LinalgOp::Trace => a.trace() },
        Op::Reduce(o) => {
            let Some(P::Reduce(r)) = p else { return odd() };
            let (d, k) = (dims_i(&r.dims), r.keep_dim);
            match o {
                ReduceOp::Sum => a.sum(&d, k), ReduceOp::Mean => a.mean(&d, k), ReduceOp::Max => a.max(&d, k), ReduceOp::Min => a.min(&d, k), ReduceOp::Prod => a.prod(&d, k), ReduceOp::Std => a.std(&d, k), ReduceOp::Var => a.var(&d, k),
                ReduceOp::Norm => a.l2_norm(&d, k), ReduceOp::LogSum => a.logsum(&d, k), ReduceOp::LogSumExp => a.logsumexp(&d, k), ReduceOp::ArgMax => a.argmax(&d, k), ReduceOp::ArgMin => a.argmin(&d, k), ReduceOp::Any => a.any(&d, k), ReduceOp::All => a.all(&d, k),
            }
        },
        Op::Concat(_) => match p { Some(P::Concat(c)) => Tensor::concat(&t.iter().collect::<Vec<_>>(), c.dim), _ => odd() },
        Op::Split(_) => match p {
            Some(P::Split(s)) => {
                let sizes: Vec<usize> = s.sizes.iter().map(|x| x.to_usize()).collect();
                match a.split(&sizes, s.dim)?.into_iter().nth(s.output_index) { Some(t) => Ok(t), None => odd() }
            },
            _ => odd(),
        },
        Op::Indexing(o) => match (o, p) {
            (IndexingOp::IndexSelect, Some(P::IndexSelect(x))) => a.index_select(x.dim, &t[1]),
            (IndexingOp::IndexPut, Some(P::IndexPut(x))) => a.index_put(x.dim, &t[2], &t[1]),
            (IndexingOp::Gather, Some(P::Gather(x))) => a.gather(x.dim, &t[1]),
            (IndexingOp::Scatter, Some(P::Scatter(x))) => a.scatter(x.dim, &t[2], &t[1]),
            (IndexingOp::ScatterAdd, Some(P::ScatterAdd(x))) => a.scatter_add(x.dim, &t[2], &t[1]),
            (IndexingOp::ScatterMax, Some(P::ScatterMax(x))) => a.scatter_max(x.dim, &t[2], &t[1]),
            (IndexingOp::ScatterMin, Some(P::ScatterMin(x))) => a.scatter_min(x.dim, &t[2], &t[1]),
            (IndexingOp::Onehot, Some(P::Onehoto(x))) => a.onehot(x.num_classes, x.axis, x.dtype),
            (IndexingOp::Nonzero, Some(P::Nonzero(_))) => a.nonzero(),
            (IndexingOp::Unique, Some(P::Unique(x))) => {
                let (v, i, c) = a.unique()?;
                let id = n.output_id.0;
                Ok(if id == x.inverse_id.as_usize() { i } else if id == x.counts_id.as_usize() { c } else { v })
            },
            (IndexingOp::Compress, Some(P::Compress(x))) => a.compress(&t[1], x.axis.map(|s| s.to_i32())),
            _ => odd(),
        },
        Op::Conv(o) => {
            let (x, w) = (shape(0), shape(1));
            let b = &t[1];
            match (o, p) {
                (ConvOp::Conv1d, Some(P::Conv1d(c))) if x == [c.batch_size, c.channels_input, c.length_input] && w == [c.channels_output, c.channels_input, c.kernel_size] => a.conv1d(b, c.stride, c.padding, c.dilation),
                (ConvOp::Conv2d, Some(P::Conv2d(c))) if x == [c.batch_size, c.channels_input, c.input_height, c.input_width] && w == [c.channels_output, c.channels_input, c.kernel_height, c.kernel_width] => a.conv2d(b, c.stride, c.padding, c.dilation),
                (ConvOp::Conv3d, Some(P::Conv3d(c))) if x == [c.batch_size, c.channels_input, c.input_depth, c.input_height, c.input_width] && w == [c.channels_output, c.channels_input, c.kernel_depth, c.kernel_height, c.kernel_width] => a.conv3d(b, c.stride, c.padding, c.dilation),
                (ConvOp::ConvTranspose1d, Some(P::ConvTranspose1d(c))) if x == [c.batch_size, c.channels_input, c.length_input] && w == [c.channels_input, c.channels_output, c.kernel_size] => a.conv_transpose1d(b, c.stride, c.padding, c.output_padding, c.dilation),
                (ConvOp::ConvTranspose2d, Some(P::ConvTranspose2d(c))) if x == [c.batch_size, c.channels_input, c.input_height, c.input_width] && w == [c.channels_input, c.channels_output, c.kernel_height, c.kernel_width] => a.conv_transpose2d(b, c.stride, c.padding, c.output_padding, c.dilation),
                (ConvOp::ConvTranspose3d, Some(P::ConvTranspose3d(c))) if x == [c.batch_size, c.channels_input, c.input_depth, c.input_height, c.input_width] && w == [c.channels_input, c.channels_output, c.kernel_depth, c.kernel_height, c.kernel_width] => a.conv_transpose3d(b, c.stride, c.padding, c.output_padding, c.dilation),
                (ConvOp::Conv1dGradWeight, Some(P::Conv1dGradWeight(c))) => a.conv1d_grad_weight(b, &[c.out_channels, c.in_channels, c.kernel_size], c.stride, c.padding, c.dilation),
                (ConvOp::Conv2dGradWeight, Some(P::Conv2dGradWeight(c))) => a.conv2d_grad_weight(b, &[c.out_channels, c.in_channels, c.kernel_height, c.kernel_width], c.stride, c.padding, c.dilation),
                (ConvOp::Conv3dGradWeight, Some(P::Conv3dGradWeight(c))) => a.conv3d_grad_weight(b, &[c.out_channels, c.in_channels, c.kernel_depth, c.kernel_height, c.kernel_width], c.stride, c.padding, c.dilation),
                (ConvOp::ConvTranspose1dGradWeight, Some(P::ConvTranspose1dGradWeight(c))) => a.conv_transpose1d_grad_weight(b, &[c.in_channels, c.out_channels, c.kernel_size], c.stride, c.padding, c.dilation),
                (ConvOp::ConvTranspose2dGradWeight, Some(P::ConvTranspose2dGradWeight(c))) => a.conv_transpose2d_grad_weight(b, &[c.in_channels, c.out_channels, c.kernel_height, c.kernel_width], c.stride, c.padding, c.dilation),
                (ConvOp::ConvTranspose3dGradWeight, Some(P::ConvTranspose3dGradWeight(c))) => a.conv_transpose3d_grad_weight(b, &[c.in_channels, c.out_channels, c.kernel_depth, c.kernel_height, c.kernel_width], c.stride, c.padding, c.dilation),
                _ => odd(),
            }
        },
        Op::Windowing(o) => match p {
            Some(P::ReduceWindow(w)) => a.reduce_window(&w.window_shape, &w.strides, &w.padding, match o { WindowingOp::ReduceWindowMax => "max", WindowingOp::ReduceWindowMean => "mean", WindowingOp::ReduceWindowSum => "sum", WindowingOp::ReduceWindowMin => "min" }),
            _ => odd(),
        },
        Op::Resize(_) => match p {
            Some(P::Resize(r)) => a.resize(
                &r.output_size,
                match r.mode { ResizeMode::Nearest => "nearest", ResizeMode::Linear => "linear", ResizeMode::Cubic => "cubic" },
                match r.coord_transform { ResizeCoordTransform::HalfPixel => "half_pixel", ResizeCoordTransform::Asymmetric => "asymmetric", ResizeCoordTransform::AlignCorners => "align_corners", ResizeCoordTransform::PytorchHalfPixel => "pytorch_half_pixel" },
                match r.nearest_mode { ResizeNearestMode::Floor => "floor", ResizeNearestMode::Ceil => "ceil", ResizeNearestMode::RoundPreferFloor => "round_prefer_floor", ResizeNearestMode::RoundPreferCeil => "round_prefer_ceil" },
            ),
            _ => odd(),
        },
        Op::Padding(o) => match p {
            Some(P::Padding(q)) => match o { PaddingOp::PadConstant => a.pad_constant(&q.padding, q.pad_value), PaddingOp::PadReflect => a.pad_reflect(&q.padding), PaddingOp::PadReplicate => a.pad_replicate(&q.padding), PaddingOp::PadCircular => a.pad_circular(&q.padding) },
            _ => odd(),
        },
        Op::Scan(ScanOp::CumSum) => match p { Some(P::Scan(s)) => a.cumsum(s.dim as i32), _ => odd() },
        Op::Sort(SortOp::TopK) => match p {
            Some(P::TopK(k)) => {
                let (v, i) = a.topk(k.k, k.dim, k.largest, k.sorted)?;
                Ok(if n.output_id.0 == k.indices_id.as_usize() { i } else { v })
            },
            _ => odd(),
        },
        Op::Einsum(_) => match p { Some(P::Einsum(e)) => Tensor::einsum(&e.equation, &t.iter().collect::<Vec<_>>()), _ => odd() },
        Op::ShapeMemory(ShapeMemoryOp::Flip) => match p { Some(P::Flip(f)) => a.flip(&f.dims.iter().map(|&d| d as i32).collect::<Vec<_>>()), _ => odd() },
        Op::Cast(CastOp::ToDType) => match p { Some(P::ToDType(c)) => a.to_dtype(c.dtype), _ => odd() },
        Op::Memory(MemoryOp::Contiguous) => Ok(a.clone()),
        Op::Shape(_) | Op::ShapeScalars(_) | Op::Dummy => odd(),
    }
}
/// the elements a view selects, by the meaning of the operation
fn view_model(n: &SnapshotNode, x: &RT) -> Result<Option<RT>, E> {
    let out = n.output_layout.shape().dims();
    Ok(match n.op {
        Op::Shape(ShapeOp::Reshape | ShapeOp::Flatten | ShapeOp::Squeeze | ShapeOp::Unsqueeze) => {
            if numel(out) != x.data.len() {
                return Err(format!("{} of {:?} to {:?}", n.op, x.shape, out));
            }
            if matches!(n.op, Op::Shape(ShapeOp::Squeeze | ShapeOp::Unsqueeze)) && out.iter().filter(|&&d| d != 1).ne(x.shape.iter().filter(|&&d| d != 1)) {
                return Err(format!("{} of {:?} to {:?}", n.op, x.shape, out));
            }
            Some(x.reshape(out))
        },
        Op::Shape(ShapeOp::Broadcast) => {
            let ok = out.len() >= x.shape.len() && out.iter().rev().zip(x.shape.iter().rev()).all(|(&o, &i)| i == o || i == 1);
            if !ok {
                return Err(format!("broadcast of {:?} to {:?}", x.shape, out));
            }
            Some(x.broadcast(out))
        },
        Op::Shape(ShapeOp::Transpose | ShapeOp::Permute) => {
            let (mut a, mut b) = (out.to_vec(), x.shape.clone());
            a.sort();
            b.sort();
            if a != b {
                return Err(format!("{} of {:?} to {:?}", n.op, x.shape, out));
            }
            None // which axes moved is recorded in the layout alone
        },
        Op::ShapeScalars(ShapeScalarsOp::Slice) => match &n.params {
            Some(OpParams::Slice(s)) => {
                let nd = x.shape.len() as i32;
                let d = s.dim.to_i32();
                let d = if d < 0 { d + nd } else { d };
                if d < 0 || d >= nd || s.step.to_i32() == 0 {
                    return Err(format!("slice along {} of {:?}", s.dim.to_i32(), x.shape));
                }
                let end = s.end.to_i32();
                let m = slice_model(x, d as usize, s.start.to_i32() as i64, if end == i32::MAX { None } else { Some(end as i64) }, s.step.to_i32() as i64);
                if m.shape != out {
                    return Err(format!("slice of {:?} with {:?} has shape {:?}, recorded {:?}", x.shape, s, m.shape, out));
                }
                Some(m)
            },
            _ => return Err("slice without parameters".into()),
        },
        _ => return Err("not a view".into()),
    })
}

/// evaluates a snapshot on the inputs given by name
pub fn interpret(s: &Snapshot, inputs: &HashMap<String, RT>) -> Result<Vec<(String, RT)>, E> {
    let mut tab: HashMap<usize, Val> = HashMap::new();
    for i in &s.inputs {
        let m = inputs.get(&i.name).ok_or_else(|| format!("input {:?} is not one of the program's", i.name))?;
        if m.dt != i.dtype || m.shape != i.shape.dims() {
            return Err(format!("input {:?} is recorded as {:?}{:?}", i.name, i.dtype, i.shape.dims()));
        }
        if tab.insert(i.id.0, fresh(m.clone())).is_some() {
            return Err(format!("value {} is defined twice", i.id.0));
        }
    }
    for c in &s.constants {
        let m = from_bytes_model(c.dtype, c.shape.dims(), &c.data).ok_or_else(|| format!("constant {} has {} bytes for {:?}{:?}", c.id.0, c.data.len(), c.dtype, c.shape.dims()))?;
        if tab.insert(c.id.0, fresh(m)).is_some() {
            return Err(format!("value {} is defined twice", c.id.0));
        }
    }
    for (k, n) in s.nodes.iter().enumerate() {
        let w = |e: String| format!("node {} ({}): {}", k, n.op, e);
        if n.input_ids.len() != n.input_layouts.len() {
            return Err(w("operands and layouts differ in number".into()));
        }
        let mut ops = vec![];
        let mut first = None;
        for (id, l) in n.input_ids.iter().zip(&n.input_layouts) {
            let v = tab.get(&id.0).ok_or_else(|| w(format!("uses value {} which nothing before it defines", id.0)))?;
            let m = gather(v, l).map_err(w)?;
            // the layout must present the value as it is
            let whole = value(v).map_err(w)?;
            if whole.shape != m.shape || !whole.data.iter().zip(&m.data).all(|(a, b)| same(*a, *b)) {
                return Err(w(format!("its layout of operand {} (shape {:?} strides {:?} offset {}) is not that value", id.0, m.shape, l.strides(), l.offset())));
            }
            if first.is_none() {
                first = Some((v.buf.clone(), v.dt));
            }
            ops.push(m);
        }
        let out = n.output_layout.shape().dims().to_vec();
        let val = if matches!(n.op, Op::Shape(_) | Op::ShapeScalars(_)) {
            if ops.len() != 1 {
                return Err(w("a view of several values".into()));
            }
            let (buf, dt) = first.unwrap();
            let v = Val { dt, buf, shape: out.clone(), layout: Some(n.output_layout.clone()) };
            let m = value(&v).map_err(w)?;
            if let Some(x) = view_model(n, &ops[0]).map_err(w)? {
                if !x.data.iter().zip(&m.data).all(|(a, b)| same(*a, *b)) {
                    return Err(w(format!("the recorded layout does not select the elements of {}", n.op)));
                }
            }
            v
        } else {
            let t: Vec<Tensor> = ops.iter().map(|m| m.build()).collect::<HoduResult<_>>().map_err(|e| w(e.to_string()))?;
            let r = exec(n, &t).map_err(|e| w(format!("cannot be executed: {}", e)))?;
            let m = read(&r).map_err(w)?;
            match &n.symbolic_output_layout {
                None if m.shape != out => return Err(w(format!("gives shape {:?}, recorded {:?}", m.shape, out))),
                Some(_) if m.shape.len() != out.len() || m.shape.iter().zip(&out).any(|(a, b)| a > b) => return Err(w(format!("gives shape {:?}, recorded at most {:?}", m.shape, out))),
                _ => {},
            }
            if n.output_layout.offset() != 0 || (numel(&out) > 0 && !out.is_empty() && n.output_layout.strides() != strides(&out)) {
                return Err(w(format!("result recorded with strides {:?} offset {}", n.output_layout.strides(), n.output_layout.offset())));
            }
            fresh(m)
        };
        if val.dt != n.output_dtype {
            return Err(w(format!("gives {:?}, recorded {:?}", val.dt, n.output_dtype)));
        }
        if tab.insert(n.output_id.0, val).is_some() {
            return Err(w(format!("value {} is defined twice", n.output_id.0)));
        }
    }
    s.targets.iter().map(|t| tab.get(&t.id.0).ok_or_else(|| format!("target {:?} is value {} which nothing defines", t.name, t.id.0)).and_then(value).map(|m| (t.name.clone(), m))).collect()
}
/// everything recorded contributes to a target
fn unreachable(s: &Snapshot) -> Option<String> {
    let mut live: HashSet<usize> = s.targets.iter().map(|t| t.id.0).collect();
    for (k, n) in s.nodes.iter().enumerate().rev() {
        if !live.contains(&n.output_id.0) {
            return Some(format!("node {} ({}) contributes to no target", k, n.op));
        }
        live.extend(n.input_ids.iter().map(|i| i.0));
    }
    s.constants.iter().find(|c| !live.contains(&c.id.0)).map(|c| format!("constant {} contributes to no target", c.id.0))
}
fn close(got: &RT, exp: &RT, one: bool) -> Option<String> {
    if got.dt != exp.dt || got.shape != exp.shape {
        return Some(format!("{:?}{:?}, expected {:?}{:?}", got.dt, got.shape, exp.dt, exp.shape));
    }
    // (programs whose intermediate layouts differ round differently, relative to the values that were summed)
    let top = exp.data.iter().map(|v| if let V::F(x) = v { x.abs() } else { 0.0 }).filter(|x| x.is_finite()).fold(0.0, f64::max).max(if one { 1.0 } else { 0.0 });
    for i in 0..exp.data.len() {
        let (a, b) = (got.data[i], exp.data[i]);
        if same(a, b) {
            continue;
        }
        if let (V::F(x), V::F(y)) = (a, b) {
            let e = eps(exp.dt).max(1e-14);
            if x == y || (x - y).abs() <= 64.0 * e * x.abs().max(y.abs()).max(top).max(min_normal(exp.dt)) {
                continue;
            }
        }
        return Some(format!("element {} is {:?}, eagerly {:?}", i, a, b));
    }
    None
}
const NAMES: [&str; 8] = ["x", "y", "input 2", "ünï", "", "a.b", "x0", "../z"];

/// captures `f` over the given operands and compares the snapshot with the eager results
fn capture_and_compare(cx: &mut Cx, sig: &str, contents: &[RT], ts: &[Tensor], is_input: &[bool], late: bool, eager: &[RT], f: &dyn Fn(&[Tensor]) -> HoduResult<Vec<Tensor>>, keep: &[usize]) -> R {
    let before = tensor_count();
    let named = cx.rng.chance(0.5);
    let board = if named { CaptureBoard::with_name("prog") } else { CaptureBoard::new() };
    board.open();
    let mut inputs = HashMap::new();
    let mut cap = vec![];
    let mut k = 0;
    for (i, t) in ts.iter().enumerate() {
        if is_input[i] {
            let name = NAMES[k % NAMES.len()];
            k += 1;
            let x = Tensor::input(name, &contents[i].shape, contents[i].dt).map_err(|e| Fail::Bad(format!("{}: input", sig), e.to_string()))?;
            inputs.insert(name.to_string(), contents[i].clone());
            cap.push(x);
        } else {
            cap.push(t.clone());
        }
    }
    let outs = f(&cap);
    if !late {
        board.close();
    }
    let outs = match outs {
        Ok(o) => o,
        Err(e) => {
            drop(board);
            bail!(format!("{}: refused in capture", sig), "{}", e);
        },
    };
    check!(outs.len() == eager.len(), format!("{}: results", sig), "{} results captured, {} eagerly", outs.len(), eager.len());
    for &i in keep {
        board.with_target(format!("t{}", i), outs[i].clone());
    }
    drop(cap);
    drop(outs);
    let snap = board.capture();
    drop(board);
    let after = tensor_count();
    check!(after == before, format!("{}: tensors left behind by a capture", sig), "{} before, {} after", before, after);
    check!(snap.name.as_deref() == if named { Some("prog") } else { None }, "capture: name", "{:?}", snap.name);
    check!(snap.targets.len() == keep.len(), format!("{}: targets", sig), "{:?}", snap.targets.len());
    if let Some(e) = unreachable(&snap) {
        bail!(format!("{}: superfluous", sig), "{}", e);
    }
    let cmp = |s: &Snapshot, how: &str| -> R {
        let r = interpret(s, &inputs).map_err(|e| Fail::Bad(format!("{}: {}snapshot cannot be evaluated", sig, how), e))?;
        for ((name, got), &i) in r.iter().zip(keep) {
            check!(*name == format!("t{}", i), format!("{}: {}target name", sig, how), "{:?}", name);
            if let Some(d) = close(got, &eager[i], sig.starts_with("module")) {
                bail!(format!("{}: {}snapshot computes something else", sig, how), "target {}: {} (operands {})", i, d, contents.iter().map(|c| crate::cx::trunc(&c.show(), 80)).collect::<Vec<_>>().join(" "));
            }
        }
        Ok(())
    };
    cmp(&snap, "")?;
    let bytes = snap.to_bytes().map_err(|e| Fail::Bad(format!("{}: serialising", sig), e.to_string()))?;
    let again = Snapshot::from_bytes(&bytes).map_err(|e| Fail::Bad(format!("{}: reloading", sig), e.to_string()))?;
    let show = |s: &Snapshot| format!("{:?}", s);
    // NaN constants are bytes, NaN parameters print alike: the debug form is complete
    check!(show(&again) == show(&snap), format!("{}: reloading changes the snapshot", sig), "{}", crate::cx::trunc(&show(&again), 400));
    cmp(&again, "reloaded ")?;
    cx.count("nodes", snap.nodes.len() as u64);
    cx.count("constants", snap.constants.len() as u64);
    // eager computation is as before
    check!(!hodu_core::snapshot::capture::is_active(), format!("{}: capture remains active", sig), "");
    let again = f(ts).and_then(|v| v.iter().map(|t| read(t).map_err(|e| HoduError::InternalError(e))).collect::<HoduResult<Vec<_>>>());
    match again {
        Ok(v) => {
            for (a, b) in v.iter().zip(eager) {
                check!(a.shape == b.shape && a.data.iter().zip(&b.data).all(|(x, y)| same(*x, *y)), format!("{}: later eager work differs", sig), "");
            }
        },
        Err(e) => bail!(format!("{}: later eager work fails", sig), "{}", e),
    }
    Ok(())
}

/// single operations of every kind, with hostile arguments where eager execution accepts them
fn requests(cx: &mut Cx) -> R {
    let q = crate::p_err::gen(&mut cx.rng);
    if q.ins.is_empty() || ["zeros", "ones", "full", "randn", "rand_uniform", "empty", "from_bytes", "from_slice", "set_"].contains(&q.name.as_str()) || ["to_", "backward", "grad", "zero_grad", "requires", "save", "load"].iter().any(|p| q.name.starts_with(p) && q.name != "to_dtype") {
        return Err(Fail::Skip);
    }
    cx.d(format!("{} {}", q.name, q.args));
    let mut ts = vec![];
    let mut contents = vec![];
    let mut is_input = vec![];
    for (d, s) in &q.ins {
        let inp = cx.rng.chance(0.5);
        let lay = if inp || numel(s) == 0 { Lay::Contig } else { gen_lay(&mut cx.rng) };
        let g = if *d == DType::I32 && cx.rng.chance(0.6) { Gen::Range(-6.0, 6.0) } else { *cx.rng.pick(&[Gen::Small, Gen::Edge]) };
        let (t, m) = if numel(s) == 0 {
            match Tensor::zeros(s, *d) { Ok(t) => (t, RT::new(*d, s, vec![])), Err(_) => return Err(Fail::Skip) }
        } else {
            gen_view(&mut cx.rng, *d, s, g, lay)?
        };
        cx.d(format!("{}{:?}{:?}{:?}", if inp { "input " } else { "" }, d, s, lay));
        contents.push(m);
        ts.push(t);
        is_input.push(inp);
    }
    let Ok(res) = (q.call)(&ts) else {
        cx.count("refused eagerly", 1);
        return Err(Fail::Skip);
    };
    let mut eager = vec![];
    for t in &res {
        eager.push(read(t).map_err(|e| Fail::Bad(format!("{}: unreadable", q.name), e))?);
    }
    drop(res);
    let mut keep: Vec<usize> = (0..eager.len()).filter(|_| cx.rng.chance(0.8)).collect();
    if keep.is_empty() && !eager.is_empty() {
        keep.push(cx.rng.below(eager.len()));
    }
    let late = cx.rng.chance(0.3);
    capture_and_compare(cx, &q.name, &contents, &ts, &is_input, late, &eager, &*q.call, &keep)
}

/// whole programs with several targets, unused parts and constants of any layout
fn programs(cx: &mut Cx) -> R {
    let len = cx.rng.usize(1, 14);
    let p = crate::p_graph::gen(&mut cx.rng, len).map_err(|e| Fail::Bad("generator".into(), e.to_string()))?;
    cx.d(p.desc());
    let nl = p.leaves.len();
    let mut ts = vec![];
    let mut is_input = vec![];
    for l in &p.leaves {
        let inp = cx.rng.chance(0.6);
        let lay = if inp || numel(&l.shape) == 0 { Lay::Contig } else { gen_lay(&mut cx.rng) };
        cx.d(format!("{}{:?}", if inp { "input " } else { "" }, lay));
        ts.push(view_of(&mut cx.rng, l, lay)?);
        is_input.push(inp);
    }
    let body = p.body.clone();
    let f = move |ins: &[Tensor]| -> HoduResult<Vec<Tensor>> {
        let mut v: Vec<Tensor> = ins.to_vec();
        for i in &body {
            let t = crate::p_graph::exec1(i, &v)?;
            v.push(t);
        }
        Ok(v)
    };
    let Ok(res) = f(&ts) else { return Err(Fail::Skip) };
    let mut eager = vec![];
    for t in &res {
        eager.push(read(t).map_err(|e| Fail::Bad("program: unreadable".into(), e))?);
    }
    drop(res);
    let n = eager.len();
    let mut keep: Vec<usize> = (0..n).filter(|&i| cx.rng.chance(if i < nl { 0.1 } else { 0.25 })).collect();
    if keep.is_empty() || cx.rng.chance(0.6) {
        if !keep.contains(&(n - 1)) {
            keep.push(n - 1);
        }
    }
    let late = cx.rng.chance(0.3);
    let c = p.leaves.clone();
    capture_and_compare(cx, "program", &c, &ts, &is_input, late, &eager, &f, &keep)
}

/// a neural-network module or loss, over inputs and parameters of any layout
pub fn module(cx: &mut Cx, sig: &str, contents: &[RT], ts: &[Tensor], f: &dyn Fn(&[Tensor]) -> HoduResult<Vec<Tensor>>) -> R {
    let Ok(res) = f(ts) else { return Err(Fail::Skip) };
    let eager = vec![read(&res[0]).map_err(|e| Fail::Bad(format!("{}: unreadable", sig), e))?];
    drop(res);
    let is_input: Vec<bool> = contents.iter().map(|c| numel(&c.shape) > 0 && cx.rng.chance(0.7)).collect();
    let late = cx.rng.chance(0.3);
    capture_and_compare(cx, &format!("module {}", sig), contents, ts, &is_input, late, &eager, f, &[0])
}
fn modules(cx: &mut Cx) -> R {
    crate::p_nn::CAPTURE.with(|c| c.set(true));
    let f = *cx.rng.pick(crate::p_nn::CAPTURABLE);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(cx)));
    crate::p_nn::CAPTURE.with(|c| c.set(false));
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}

pub const GROUPS: &[Family] = &[fam("requests", 8000, 300000, requests), fam("programs", 3000, 100000, programs), fam("modules", 3000, 60000, modules)];
