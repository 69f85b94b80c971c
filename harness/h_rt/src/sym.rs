//! The meaning of an operation graph on plaintext bits, 64 cases at a time: the reference the
//! integer programs are judged against. Written from the documentation of FheOp.
use std::result::Result;
use parasol_runtime::*;
use petgraph::{stable_graph::NodeIndex, visit::EdgeRef, Direction};
use std::collections::{BTreeMap, HashMap};

/// Non-zero message coefficients, one bit per lane.
pub type Poly = BTreeMap<usize, u64>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Sv {
    Lwe0(u64),
    Lwe1(u64),
    Glwe(Poly),
    Ggsw(u64),
    Glev(Poly),
    None,
}

impl Sv {
    pub fn of(t: CiphertextType, v: u64) -> Sv {
        match t {
            CiphertextType::L0LweCiphertext => Sv::Lwe0(v),
            CiphertextType::L1LweCiphertext => Sv::Lwe1(v),
            CiphertextType::L1GlweCiphertext => Sv::Glwe(constant(v)),
            CiphertextType::L1GgswCiphertext => Sv::Ggsw(v),
            CiphertextType::L1GlevCiphertext => Sv::Glev(constant(v)),
        }
    }
}

pub fn constant(v: u64) -> Poly {
    trim(BTreeMap::from([(0, v)]))
}
fn trim(mut p: Poly) -> Poly {
    p.retain(|_, v| *v != 0);
    p
}
fn join(a: &Poly, b: &Poly, f: impl Fn(u64, u64) -> u64) -> Poly {
    let g = |p: &Poly, i: usize| p.get(&i).copied().unwrap_or(0);
    let mut r = Poly::new();
    for &i in a.keys().chain(b.keys()) {
        r.insert(i, f(g(a, i), g(b, i)));
    }
    trim(r)
}
fn mux(s: u64, lo: &Poly, hi: &Poly) -> Poly {
    join(lo, hi, |l, h| (l & !s) | (h & s))
}

/// Identity of the ciphertext an input or output node refers to.
pub fn cell(op: &FheOp) -> Option<usize> {
    use std::sync::Arc;
    Some(match op {
        FheOp::InputLwe0(x) | FheOp::OutputLwe0(x) => Arc::as_ptr(x) as usize,
        FheOp::InputLwe1(x) | FheOp::OutputLwe1(x) => Arc::as_ptr(x) as usize,
        FheOp::InputGlwe1(x) | FheOp::OutputGlwe1(x) => Arc::as_ptr(x) as usize,
        FheOp::InputGgsw1(x) | FheOp::OutputGgsw1(x) => Arc::as_ptr(x) as usize,
        FheOp::InputGlev1(x) | FheOp::OutputGlev1(x) => Arc::as_ptr(x) as usize,
        _ => return None,
    })
}

pub struct Values {
    pub node: HashMap<NodeIndex, Sv>,
    /// what each output node's ciphertext receives, by `cell`
    pub out: HashMap<usize, Sv>,
}

/// Evaluate every node. `inputs` gives the message of each input ciphertext by `cell`; `n` is the
/// ring degree.
pub fn eval(c: &FheCircuit, inputs: &HashMap<usize, Sv>, n: usize) -> Result<Values, String> {
    let order = petgraph::algo::toposort(&c.graph, None).map_err(|_| "the graph has a cycle".to_string())?;
    let mut node: HashMap<NodeIndex, Sv> = HashMap::new();
    let mut out = HashMap::new();
    for i in order {
        let op = &c.graph[i];
        let mut ins: Vec<(FheEdge, &Sv)> = vec![];
        for e in c.graph.edges_directed(i, Direction::Incoming) {
            ins.push((*e.weight(), &node[&e.source()]));
        }
        let bad = || format!("ill-formed node {op:?} with inputs {:?}", ins);
        let one = || match &ins[..] {
            [(FheEdge::Unary, v)] => Ok(*v),
            _ => Err(bad()),
        };
        let pick = |f: fn(&FheEdge) -> bool| {
            let v: Vec<_> = ins.iter().filter(|x| f(&x.0)).collect();
            if v.len() == 1 { Ok(v[0].1) } else { Err(bad()) }
        };
        let count = |k: usize| if ins.len() == k { Ok(()) } else { Err(bad()) };
        let v = match op {
            FheOp::InputLwe0(_) | FheOp::InputLwe1(_) | FheOp::InputGlwe1(_) | FheOp::InputGgsw1(_) | FheOp::InputGlev1(_) => {
                count(0)?;
                let v = inputs.get(&cell(op).unwrap()).ok_or("unknown input")?.clone();
                match (op, &v) {
                    (FheOp::InputLwe0(_), Sv::Lwe0(_)) | (FheOp::InputLwe1(_), Sv::Lwe1(_)) | (FheOp::InputGlwe1(_), Sv::Glwe(_)) | (FheOp::InputGgsw1(_), Sv::Ggsw(_)) | (FheOp::InputGlev1(_), Sv::Glev(_)) => v,
                    _ => return Err(bad()),
                }
            }
            FheOp::OutputLwe0(_) | FheOp::OutputLwe1(_) | FheOp::OutputGlwe1(_) | FheOp::OutputGgsw1(_) | FheOp::OutputGlev1(_) => {
                let v = one()?.clone();
                match (op, &v) {
                    (FheOp::OutputLwe0(_), Sv::Lwe0(_)) | (FheOp::OutputLwe1(_), Sv::Lwe1(_)) | (FheOp::OutputGlwe1(_), Sv::Glwe(_)) | (FheOp::OutputGgsw1(_), Sv::Ggsw(_)) | (FheOp::OutputGlev1(_), Sv::Glev(_)) => {}
                    _ => return Err(bad()),
                }
                out.insert(cell(op).unwrap(), v);
                Sv::None
            }
            FheOp::SampleExtract(k) => match one()? {
                Sv::Glwe(p) if *k < n => Sv::Lwe1(p.get(k).copied().unwrap_or(0)),
                _ => return Err(bad()),
            },
            FheOp::KeyswitchL1toL0 => match one()? {
                Sv::Lwe1(v) => Sv::Lwe0(*v),
                _ => return Err(bad()),
            },
            FheOp::Not => match one()? {
                Sv::Glwe(p) => Sv::Glwe(join(p, &constant(!0), |a, b| a ^ b)),
                _ => return Err(bad()),
            },
            FheOp::GlweAdd => {
                count(2)?;
                match (pick(|e| matches!(e, FheEdge::Left))?, pick(|e| matches!(e, FheEdge::Right))?) {
                    (Sv::Glwe(a), Sv::Glwe(b)) => Sv::Glwe(join(a, b, |a, b| a ^ b)),
                    _ => return Err(bad()),
                }
            }
            FheOp::CMux | FheOp::GlevCMux => {
                count(3)?;
                match (op, pick(|e| matches!(e, FheEdge::Sel))?, pick(|e| matches!(e, FheEdge::Low))?, pick(|e| matches!(e, FheEdge::High))?) {
                    (FheOp::CMux, Sv::Ggsw(s), Sv::Glwe(l), Sv::Glwe(h)) => Sv::Glwe(mux(*s, l, h)),
                    (FheOp::GlevCMux, Sv::Ggsw(s), Sv::Glev(l), Sv::Glev(h)) => Sv::Glev(mux(*s, l, h)),
                    _ => return Err(bad()),
                }
            }
            FheOp::MultiplyGgswGlwe => {
                count(2)?;
                match (pick(|e| matches!(e, FheEdge::Ggsw))?, pick(|e| matches!(e, FheEdge::Glwe))?) {
                    (Sv::Ggsw(s), Sv::Glwe(p)) => Sv::Glwe(mux(*s, &Poly::new(), p)),
                    _ => return Err(bad()),
                }
            }
            FheOp::CircuitBootstrap => match one()? {
                Sv::Lwe0(v) => Sv::Ggsw(*v),
                _ => return Err(bad()),
            },
            FheOp::SchemeSwitch => match one()? {
                Sv::Glev(p) if p.keys().all(|&k| k == 0) => Sv::Ggsw(p.get(&0).copied().unwrap_or(0)),
                _ => return Err(bad()),
            },
            FheOp::ZeroLwe0 => Sv::Lwe0(0),
            FheOp::OneLwe0 => Sv::Lwe0(!0),
            FheOp::ZeroGlwe1 => Sv::Glwe(constant(0)),
            FheOp::OneGlwe1 => Sv::Glwe(constant(!0)),
            FheOp::ZeroGgsw1 => Sv::Ggsw(0),
            FheOp::OneGgsw1 => Sv::Ggsw(!0),
            FheOp::ZeroGlev1 => Sv::Glev(constant(0)),
            FheOp::OneGlev1 => Sv::Glev(constant(!0)),
            FheOp::MulXN(k) => match one()? {
                Sv::Glwe(p) => Sv::Glwe(p.iter().map(|(i, v)| ((i + k) % n, *v)).collect()),
                _ => return Err(bad()),
            },
            FheOp::Nop => {
                count(0)?;
                Sv::None
            }
            FheOp::Retire => return Err(bad()),
        };
        node.insert(i, v);
    }
    Ok(Values { node, out })
}
