//! R02: the circuit executor against one-at-a-time evaluation of the same graph.
use crate::common::*;
use parasol_concurrency::AtomicRefCell;
use parasol_runtime::*;
use petgraph::stable_graph::NodeIndex;
use rayon::ThreadPool;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::result::Result;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};
use vkit::proptest::prelude::*;
use vkit::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum K {
    L0,
    L1,
    Glwe,
    Ggsw,
    Glev,
}
const KINDS: [K; 5] = [K::L0, K::L1, K::Glwe, K::Ggsw, K::Glev];

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Tag {
    Low,
    High,
    Sel,
    Unary,
    Glwe,
    Ggsw,
    Left,
    Right,
}
const TAGS: [Tag; 8] = [Tag::Low, Tag::High, Tag::Sel, Tag::Unary, Tag::Glwe, Tag::Ggsw, Tag::Left, Tag::Right];
impl Tag {
    fn edge(self) -> FheEdge {
        match self {
            Tag::Low => FheEdge::Low,
            Tag::High => FheEdge::High,
            Tag::Sel => FheEdge::Sel,
            Tag::Unary => FheEdge::Unary,
            Tag::Glwe => FheEdge::Glwe,
            Tag::Ggsw => FheEdge::Ggsw,
            Tag::Left => FheEdge::Left,
            Tag::Right => FheEdge::Right,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    In(K, u8),
    Out(K),
    Const(K, bool),
    SampleExtract(usize),
    Keyswitch,
    Not,
    Add,
    CMux,
    GlevCMux,
    Multiply,
    Bootstrap,
    SchemeSwitch,
    MulXN(usize),
    Nop,
    Retire,
}
impl Op {
    /// operands by edge, from the documentation of each operation
    fn wants(self) -> Vec<(Tag, K)> {
        use Op::*;
        match self {
            In(..) | Const(..) | Nop | Retire => vec![],
            Out(k) => vec![(Tag::Unary, k)],
            SampleExtract(_) | Not | MulXN(_) => vec![(Tag::Unary, K::Glwe)],
            Keyswitch => vec![(Tag::Unary, K::L1)],
            Add => vec![(Tag::Left, K::Glwe), (Tag::Right, K::Glwe)],
            CMux => vec![(Tag::Sel, K::Ggsw), (Tag::Low, K::Glwe), (Tag::High, K::Glwe)],
            GlevCMux => vec![(Tag::Sel, K::Ggsw), (Tag::Low, K::Glev), (Tag::High, K::Glev)],
            Multiply => vec![(Tag::Ggsw, K::Ggsw), (Tag::Glwe, K::Glwe)],
            Bootstrap => vec![(Tag::Unary, K::L0)],
            SchemeSwitch => vec![(Tag::Unary, K::Glev)],
        }
    }
    fn gives(self) -> Option<K> {
        use Op::*;
        match self {
            In(k, _) | Const(k, _) => Some(k),
            Out(_) | Nop | Retire => None,
            SampleExtract(_) => Some(K::L1),
            Not | MulXN(_) | Add | CMux | Multiply => Some(K::Glwe),
            Keyswitch => Some(K::L0),
            GlevCMux => Some(K::Glev),
            Bootstrap | SchemeSwitch => Some(K::Ggsw),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    op: u8,
    arg: u16,
    a: [u16; 3],
    out: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mutation {
    Drop(u16),
    Duplicate(u16),
    Retag(u16, u8),
    Resource(u16, u16),
    Extra { to: u16, from: u16, tag: u8 },
    ExtractFar(u16, u16),
    Retire(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Graph {
    steps: Vec<Step>,
    mutations: Vec<Mutation>,
    /// insertion order of nodes and edges
    order: u64,
    holes: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    graphs: Vec<Graph>,
    /// 0: the global pool
    threads: usize,
    flow: usize,
    k: usize,
    /// submit everything before waiting for anything
    pipelined: bool,
    /// the graphs go round-robin to this many processors sharing the pool, each on its own thread
    procs: usize,
}

/// A graph in topological order.
struct Plan {
    ops: Vec<Op>,
    ins: Vec<Vec<(usize, Tag)>>,
}

fn nth<T: Copy>(v: &[T], i: u16) -> Option<T> {
    if v.is_empty() {
        None
    } else {
        // prefer recent nodes, so that graphs get deep
        let n = v.len();
        let i = i as usize;
        Some(if i % 4 != 0 { v[n - 1 - (i / 4) % n.min(4)] } else { v[(i / 4) % n] })
    }
}

fn plan(g: &Graph, degree: usize) -> Plan {
    let mut p = Plan { ops: vec![], ins: vec![] };
    let mut of: HashMap<K, Vec<usize>> = HashMap::new();
    let mut want_out = vec![];
    fn push(p: &mut Plan, of: &mut HashMap<K, Vec<usize>>, op: Op, ins: Vec<(usize, Tag)>) -> usize {
        let i = p.ops.len();
        if let Some(k) = op.gives() {
            of.entry(k).or_default().push(i);
        }
        p.ops.push(op);
        p.ins.push(ins);
        i
    }
    for s in &g.steps {
        let kind = KINDS[s.arg as usize % 5];
        let op = match s.op {
            0 => Op::In(kind, (s.arg >> 8) as u8 % 4),
            // there is no trivial level-1 LWE operation
            1 => Op::Const(if kind == K::L1 { K::Glwe } else { kind }, s.arg >> 8 & 1 == 1),
            2 => Op::SampleExtract(s.arg as usize % degree),
            3 => Op::Keyswitch,
            4 => Op::Not,
            5 | 6 => Op::Add,
            7 | 8 => Op::CMux,
            9 => Op::GlevCMux,
            10 => Op::Multiply,
            11 => Op::Bootstrap,
            12 => Op::SchemeSwitch,
            13 => Op::MulXN(s.arg as usize % (5 * degree)),
            14 => Op::Nop,
            _ => Op::In(K::Glwe, (s.arg >> 8) as u8 % 4),
        };
        let mut ins = vec![];
        for (j, (tag, k)) in op.wants().into_iter().enumerate() {
            let src = match nth(of.get(&k).map(|v| &v[..]).unwrap_or(&[]), s.a[j]) {
                Some(i) => i,
                None => push(&mut p, &mut of, Op::In(k, s.a[j] as u8 % 4), vec![]),
            };
            ins.push((src, tag));
        }
        let i = push(&mut p, &mut of, op, ins);
        if s.out && op.gives().is_some() {
            want_out.push(i);
        }
    }
    // read every sink
    for i in 0..p.ops.len() {
        if p.ops[i].gives().is_some() && !p.ins.iter().flatten().any(|x| x.0 == i) && !want_out.contains(&i) {
            want_out.push(i);
        }
    }
    for i in want_out {
        let k = p.ops[i].gives().unwrap();
        p.ops.push(Op::Out(k));
        p.ins.push(vec![(i, Tag::Unary)]);
    }
    let n = p.ops.len();
    for m in &g.mutations {
        let edges: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..p.ins[i].len()).map(move |j| (i, j))).collect();
        let edge = |e: u16| if edges.is_empty() { None } else { Some(edges[e as usize % edges.len()]) };
        match m {
            Mutation::Drop(e) => {
                if let Some((i, j)) = edge(*e) {
                    p.ins[i].remove(j);
                }
            }
            Mutation::Duplicate(e) => {
                if let Some((i, j)) = edge(*e) {
                    let x = p.ins[i][j];
                    p.ins[i].push(x);
                }
            }
            Mutation::Retag(e, t) => {
                if let Some((i, j)) = edge(*e) {
                    p.ins[i][j].1 = TAGS[*t as usize % 8];
                }
            }
            Mutation::Resource(e, s) => {
                if let Some((i, j)) = edge(*e) {
                    p.ins[i][j].0 = *s as usize % i;
                }
            }
            Mutation::Extra { to, from, tag } => {
                let to = *to as usize % n;
                if to > 0 {
                    p.ins[to].push((*from as usize % to, TAGS[*tag as usize % 8]));
                }
            }
            Mutation::ExtractFar(i, by) => {
                let c: Vec<usize> = (0..n).filter(|&i| matches!(p.ops[i], Op::SampleExtract(_))).collect();
                if !c.is_empty() {
                    p.ops[c[*i as usize % c.len()]] = Op::SampleExtract(degree + (*by as usize % 4) * (*by as usize));
                }
            }
            Mutation::Retire(i) => {
                p.ops.push(Op::Retire);
                p.ins.push(vec![]);
                let _ = i;
            }
        }
    }
    p
}

macro_rules! raw {
    ($x:expr) => {
        bincode::serialize(&$x.0).unwrap()
    };
}

#[derive(Clone)]
enum Ct {
    L0(L0LweCiphertext),
    L1(L1LweCiphertext),
    Glwe(L1GlweCiphertext),
    Ggsw(L1GgswCiphertext),
    Glev(L1GlevCiphertext),
}
impl Ct {
    fn kind(&self) -> K {
        match self {
            Ct::L0(_) => K::L0,
            Ct::L1(_) => K::L1,
            Ct::Glwe(_) => K::Glwe,
            Ct::Ggsw(_) => K::Ggsw,
            Ct::Glev(_) => K::Glev,
        }
    }
    fn bytes(&self) -> Vec<u8> {
        match self {
            Ct::L0(x) => raw!(x),
            Ct::L1(x) => raw!(x),
            Ct::Glwe(x) => raw!(x),
            Ct::Ggsw(x) => raw!(x),
            Ct::Glev(x) => raw!(x),
        }
    }
}
macro_rules! get {
    ($v:expr, $k:ident) => {
        match $v {
            Ct::$k(x) => x,
            _ => unreachable!(),
        }
    };
}

/// Ciphertexts to use as inputs, four of each kind.
fn stock(k: usize) -> &'static HashMap<K, Vec<Ct>> {
    static S: [OnceLock<HashMap<K, Vec<Ct>>>; 4] = [const { OnceLock::new() }; 4];
    S[k].get_or_init(|| {
        let c = ctx(k);
        let n = c.params.l1_poly_degree().0;
        let poly = |i: u64| sunscreen_tfhe::entities::Polynomial::new(&(0..n as u64).map(|j| (j * j + i * j + i) / 3 % 2).collect::<Vec<_>>());
        let mut m: HashMap<K, Vec<Ct>> = HashMap::new();
        for i in 0..4u64 {
            let b = i % 2 == 1;
            m.entry(K::L0).or_default().push(Ct::L0(c.enc.encrypt_lwe_l0_secret(b, &c.sk)));
            m.entry(K::L1).or_default().push(Ct::L1(c.enc.encrypt_lwe_l1_secret(b, &c.sk)));
            m.entry(K::Glwe).or_default().push(Ct::Glwe(c.enc.encrypt_glwe_l1_secret(&poly(i), &c.sk)));
            m.entry(K::Ggsw).or_default().push(Ct::Ggsw(c.enc.encrypt_ggsw_l1_secret(b, &c.sk)));
            m.entry(K::Glev).or_default().push(Ct::Glev(c.enc.encrypt_glev_l1_secret(&poly(i), &c.sk)));
        }
        m
    })
}

/// What each output receives, evaluating one operation after another; `Err` if the graph is malformed.
fn reference(p: &Plan, k: usize) -> Result<HashMap<usize, Ct>, String> {
    let c = ctx(k);
    let mut v: Vec<Option<Ct>> = vec![];
    let mut out = HashMap::new();
    for (i, op) in p.ops.iter().enumerate() {
        let want = op.wants();
        if p.ins[i].len() != want.len() {
            return Err(format!("node {i} {op:?} has {} inputs", p.ins[i].len()));
        }
        let mut args: Vec<&Ct> = vec![];
        for (tag, kind) in want {
            let Some((s, _)) = p.ins[i].iter().find(|x| x.1 == tag) else { return Err(format!("node {i} {op:?} has no {tag:?} edge")) };
            match &v[*s] {
                Some(x) if x.kind() == kind => args.push(x),
                _ => return Err(format!("node {i} {op:?} gets the wrong kind on {tag:?}")),
            }
        }
        let e = &c.eval;
        macro_rules! glwe {
            ($f:expr) => {{
                let mut r = c.enc.allocate_glwe_l1();
                #[allow(clippy::redundant_closure_call)]
                ($f)(&mut r);
                Some(Ct::Glwe(r))
            }};
        }
        let r = match op {
            Op::In(kind, j) => Some(stock(k)[kind][*j as usize % 4].clone()),
            Op::Out(_) => {
                out.insert(i, args[0].clone());
                None
            }
            Op::Const(k, b) => Some(match (k, b) {
                (K::L0, false) => Ct::L0(c.enc.trivial_lwe_l0_zero()),
                (K::L0, true) => Ct::L0(c.enc.trivial_lwe_l0_one()),
                (K::Glwe, false) => Ct::Glwe(c.enc.trivial_glwe_l1_zero()),
                (K::Glwe, true) => Ct::Glwe(c.enc.trivial_glwe_l1_one()),
                (K::Ggsw, false) => Ct::Ggsw(e.l1ggsw_zero().clone()),
                (K::Ggsw, true) => Ct::Ggsw(e.l1ggsw_one().clone()),
                (K::Glev, false) => Ct::Glev(c.enc.trivial_glev_l1_zero()),
                (K::Glev, true) => Ct::Glev(c.enc.trivial_glev_l1_one()),
                (K::L1, _) => unreachable!(),
            }),
            Op::SampleExtract(x) => {
                if *x >= c.params.l1_poly_degree().0 {
                    return Err(format!("node {i} extracts coefficient {x}"));
                }
                let mut r = c.enc.allocate_lwe_l1();
                e.sample_extract_l1(&mut r, get!(args[0], Glwe), *x);
                Some(Ct::L1(r))
            }
            Op::Keyswitch => {
                let mut r = c.enc.allocate_lwe_l0();
                e.keyswitch_lwe_l1_lwe_l0(&mut r, get!(args[0], L1));
                Some(Ct::L0(r))
            }
            Op::Not => glwe!(|r| e.not(r, get!(args[0], Glwe))),
            Op::MulXN(x) => glwe!(|r| e.mul_xn(r, get!(args[0], Glwe), *x)),
            Op::Add => glwe!(|r| e.xor(r, get!(args[0], Glwe), get!(args[1], Glwe))),
            Op::CMux => glwe!(|r| e.cmux(r, get!(args[0], Ggsw), get!(args[1], Glwe), get!(args[2], Glwe))),
            Op::Multiply => glwe!(|r| e.multiply_glwe_ggsw(r, get!(args[1], Glwe), get!(args[0], Ggsw))),
            Op::GlevCMux => {
                let mut r = c.enc.allocate_glev_l1();
                e.glev_cmux(&mut r, get!(args[0], Ggsw), get!(args[1], Glev), get!(args[2], Glev));
                Some(Ct::Glev(r))
            }
            Op::Bootstrap => {
                let mut r = c.enc.allocate_ggsw_l1();
                e.circuit_bootstrap(&mut r, get!(args[0], L0));
                Some(Ct::Ggsw(r))
            }
            Op::SchemeSwitch => {
                let mut r = c.enc.allocate_ggsw_l1();
                e.scheme_switch(&mut r, get!(args[0], Glev));
                Some(Ct::Ggsw(r))
            }
            Op::Nop => None,
            Op::Retire => return Err("a retire operation".into()),
        };
        v.push(r);
    }
    Ok(out)
}

/// The ciphertext cells a graph refers to, kept to read results and watch for their release.
#[derive(Clone)]
enum Cell {
    L0(Arc<AtomicRefCell<L0LweCiphertext>>),
    L1(Arc<AtomicRefCell<L1LweCiphertext>>),
    Glwe(Arc<AtomicRefCell<L1GlweCiphertext>>),
    Ggsw(Arc<AtomicRefCell<L1GgswCiphertext>>),
    Glev(Arc<AtomicRefCell<L1GlevCiphertext>>),
}
macro_rules! cell {
    ($c:expr, $x:ident => $e:expr) => {
        match $c {
            Cell::L0($x) => $e,
            Cell::L1($x) => $e,
            Cell::Glwe($x) => $e,
            Cell::Ggsw($x) => $e,
            Cell::Glev($x) => $e,
        }
    };
}
impl Cell {
    fn new(ct: Ct) -> Cell {
        fn a<T>(x: T) -> Arc<AtomicRefCell<T>> {
            Arc::new(AtomicRefCell::new(x))
        }
        match ct {
            Ct::L0(x) => Cell::L0(a(x)),
            Ct::L1(x) => Cell::L1(a(x)),
            Ct::Glwe(x) => Cell::Glwe(a(x)),
            Ct::Ggsw(x) => Cell::Ggsw(a(x)),
            Ct::Glev(x) => Cell::Glev(a(x)),
        }
    }
    fn input(&self) -> FheOp {
        match self {
            Cell::L0(x) => FheOp::InputLwe0(x.clone()),
            Cell::L1(x) => FheOp::InputLwe1(x.clone()),
            Cell::Glwe(x) => FheOp::InputGlwe1(x.clone()),
            Cell::Ggsw(x) => FheOp::InputGgsw1(x.clone()),
            Cell::Glev(x) => FheOp::InputGlev1(x.clone()),
        }
    }
    fn output(&self) -> FheOp {
        match self {
            Cell::L0(x) => FheOp::OutputLwe0(x.clone()),
            Cell::L1(x) => FheOp::OutputLwe1(x.clone()),
            Cell::Glwe(x) => FheOp::OutputGlwe1(x.clone()),
            Cell::Ggsw(x) => FheOp::OutputGgsw1(x.clone()),
            Cell::Glev(x) => FheOp::OutputGlev1(x.clone()),
        }
    }
    fn refs(&self) -> usize {
        cell!(self, x => Arc::strong_count(x))
    }
    fn bytes(&self) -> Vec<u8> {
        cell!(self, x => { let x = x.borrow(); raw!(x) })
    }
}

fn empty(k: K, c: &Ctx) -> Ct {
    match k {
        K::L0 => Ct::L0(c.enc.allocate_lwe_l0()),
        K::L1 => Ct::L1(c.enc.allocate_lwe_l1()),
        K::Glwe => Ct::Glwe(c.enc.allocate_glwe_l1()),
        K::Ggsw => Ct::Ggsw(c.enc.allocate_ggsw_l1()),
        K::Glev => Ct::Glev(c.enc.allocate_glev_l1()),
    }
}

fn fhe_op(op: Op, cell: Option<&Cell>) -> FheOp {
    match op {
        Op::In(..) => cell.unwrap().input(),
        Op::Out(_) => cell.unwrap().output(),
        Op::Const(K::L0, false) => FheOp::ZeroLwe0,
        Op::Const(K::L0, true) => FheOp::OneLwe0,
        Op::Const(K::Glwe, false) => FheOp::ZeroGlwe1,
        Op::Const(K::Glwe, true) => FheOp::OneGlwe1,
        Op::Const(K::Ggsw, false) => FheOp::ZeroGgsw1,
        Op::Const(K::Ggsw, true) => FheOp::OneGgsw1,
        Op::Const(K::Glev, false) => FheOp::ZeroGlev1,
        Op::Const(K::Glev, true) => FheOp::OneGlev1,
        Op::Const(K::L1, _) => unreachable!(),
        Op::SampleExtract(i) => FheOp::SampleExtract(i),
        Op::Keyswitch => FheOp::KeyswitchL1toL0,
        Op::Not => FheOp::Not,
        Op::Add => FheOp::GlweAdd,
        Op::CMux => FheOp::CMux,
        Op::GlevCMux => FheOp::GlevCMux,
        Op::Multiply => FheOp::MultiplyGgswGlwe,
        Op::Bootstrap => FheOp::CircuitBootstrap,
        Op::SchemeSwitch => FheOp::SchemeSwitch,
        Op::MulXN(i) => FheOp::MulXN(i),
        Op::Nop => FheOp::Nop,
        Op::Retire => FheOp::Retire,
    }
}

fn shuffle<T>(v: &mut [T], s: &mut u64) {
    for i in (1..v.len()).rev() {
        *s ^= *s << 13;
        *s ^= *s >> 7;
        *s ^= *s << 17;
        v.swap(i, (*s % (i as u64 + 1)) as usize);
    }
}

struct Built {
    circuit: FheCircuit,
    cells: Vec<Option<Cell>>,
    expect: Result<HashMap<usize, Ct>, String>,
    nodes: usize,
    edges: usize,
}

fn build(g: &Graph, k: usize, extra: &[(u16, u16, u8)]) -> Built {
    let c = ctx(k);
    let p = plan(g, c.params.l1_poly_degree().0);
    let expect = if extra.is_empty() { reference(&p, k) } else { Ok(HashMap::new()) };
    let n = p.ops.len();
    let cells: Vec<Option<Cell>> = p
        .ops
        .iter()
        .map(|op| match op {
            Op::In(kind, j) => Some(Cell::new(stock(k)[kind][*j as usize % 4].clone())),
            Op::Out(kind) => Some(Cell::new(empty(*kind, c))),
            _ => None,
        })
        .collect();
    let mut circuit = FheCircuit::new();
    let mut s = g.order | 1;
    // real nodes among dummies that are removed again
    let mut order: Vec<Option<usize>> = (0..n).map(Some).collect();
    order.extend((0..g.holes as usize).map(|_| None));
    if g.order != 0 {
        shuffle(&mut order, &mut s);
    }
    let mut id = vec![NodeIndex::default(); n];
    let mut dummies = vec![];
    for o in order {
        match o {
            Some(i) => id[i] = circuit.add_node(fhe_op(p.ops[i], cells[i].as_ref())),
            None => dummies.push(circuit.add_node(FheOp::Nop)),
        }
    }
    let mut edges: Vec<(usize, usize, Tag)> = p.ins.iter().enumerate().flat_map(|(t, v)| v.iter().map(move |(s, tag)| (*s, t, *tag))).collect();
    for (a, b, t) in extra {
        edges.push((*a as usize % n, *b as usize % n, TAGS[*t as usize % 8]));
    }
    if g.order != 0 {
        shuffle(&mut edges, &mut s);
    }
    for (a, b, t) in &edges {
        circuit.add_edge(id[*a], id[*b], t.edge());
    }
    for d in dummies {
        circuit.remove_node(d);
    }
    Built { circuit, cells, expect, nodes: n, edges: edges.len() }
}

static PANICS: Mutex<Vec<String>> = Mutex::new(vec![]);
static PANICKED: AtomicBool = AtomicBool::new(false);

/// A panic in a pool thread would abort the process; record it instead.
fn on_panic(e: Box<dyn std::any::Any + Send>) {
    let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    PANICS.lock().unwrap().push(s);
    PANICKED.store(true, Ordering::Release);
}

pub fn pool(threads: usize) -> Option<Arc<ThreadPool>> {
    static G: OnceLock<()> = OnceLock::new();
    static P: Mutex<Option<HashMap<usize, Arc<ThreadPool>>>> = Mutex::new(None);
    G.get_or_init(|| {
        let _ = rayon::ThreadPoolBuilder::new().panic_handler(on_panic).build_global();
    });
    if threads == 0 {
        return None;
    }
    let mut p = P.lock().unwrap();
    Some(
        p.get_or_insert_with(HashMap::new)
            .entry(threads)
            .or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(threads).panic_handler(on_panic).build().unwrap()))
            .clone(),
    )
}

/// Run `f` on its own thread; an error if it panics, if a pool thread panics, or if the process goes
/// idle before it is done.
pub fn supervised<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Result<T, Fail> {
    PANICS.lock().unwrap().clear();
    PANICKED.store(false, Ordering::Release);
    let done = Arc::new(AtomicBool::new(false));
    let d = done.clone();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let r = catch(f);
        let _ = tx.send(r);
        d.store(true, Ordering::Release);
    });
    // a pool panic leaves the run unfinished: stop waiting for it after a moment
    let d = done.clone();
    let watch = std::thread::spawn(move || {
        let mut since: Option<Instant> = None;
        while !d.load(Ordering::Acquire) {
            if PANICKED.load(Ordering::Acquire) && since.get_or_insert_with(Instant::now).elapsed() > Duration::from_secs(2) {
                d.store(true, Ordering::Release);
                break;
            }
            std::thread::park_timeout(Duration::from_millis(20));
        }
    });
    let idle = wait_or_quiescent(&done, 12);
    let r = rx.try_recv();
    let panics = PANICS.lock().unwrap().clone();
    watch.thread().unpark();
    if !panics.is_empty() {
        return fail("pool-thread-panic", panics.join("; "));
    }
    match (idle, r) {
        (_, Ok(Ok(x))) => Ok(x),
        (_, Ok(Err(e))) => fail("panic", e),
        (Err(()), _) => fail("never-completes", "the run is idle and has not completed"),
        (Ok(()), Err(_)) => fail("panic", "the submitting thread died"),
    }
}

type Outcome = Vec<(usize, usize, Option<String>)>;

fn run(case: &Case, cov: &Cover) -> Res {
    let k = case.k;
    let built: Vec<Arc<Built>> = case.graphs.iter().map(|g| Arc::new(build(g, k, &[]))).collect();
    let base: Vec<Vec<usize>> = built.iter().map(|b| b.cells.iter().map(|c| c.as_ref().map_or(0, Cell::refs)).collect()).collect();
    let (bs, cs) = (built.clone(), case.clone());
    // (graph, number of completions, error)
    let outcomes: Outcome = supervised(move || {
        let c = ctx(k);
        let tp = pool(cs.threads);
        let work = |which: Vec<usize>| -> Outcome {
            let (mut proc, fc) = CircuitProcessor::new(cs.flow, tp.clone(), &c.eval, &c.enc);
            let mut res = vec![];
            if cs.pipelined {
                let (tx, rx) = mpsc::channel();
                let mut counts = HashMap::new();
                for &i in &which {
                    let n = Arc::new(AtomicUsize::new(0));
                    counts.insert(i, n.clone());
                    let tx = Mutex::new(tx.clone());
                    let h = CompletionHandler::new(move |e: Option<RuntimeError>| {
                        n.fetch_add(1, Ordering::AcqRel);
                        let _ = tx.lock().unwrap().send((i, e.map(|e| e.0)));
                    });
                    proc.spawn_graph(&bs[i].circuit, &fc, Arc::new(h));
                }
                let mut got = HashMap::new();
                for _ in &which {
                    let (i, e) = rx.recv().unwrap();
                    got.insert(i, e);
                }
                // a second notification would arrive with the retirement of the processor's last task
                for (i, e) in got {
                    res.push((i, counts[&i].load(Ordering::Acquire), e));
                }
            } else {
                for &i in &which {
                    let r = proc.run_graph_blocking(&bs[i].circuit, &fc);
                    res.push((i, 1, r.err().map(|e| e.0)));
                }
            }
            // all flow-control credits come back, and no more than there were
            let mut back = 0;
            let t = Instant::now();
            while back < cs.flow && t.elapsed() < Duration::from_secs(20) {
                match fc.recv_timeout(Duration::from_secs(5)) {
                    Ok(()) => back += 1,
                    Err(_) => break,
                }
            }
            if back != cs.flow || fc.try_recv().is_ok() {
                res.push((usize::MAX, back, None));
            }
            // let stray tasks finish before the receiver goes
            res
        };
        let np = cs.procs.max(1);
        let parts: Vec<Vec<usize>> = (0..np).map(|p| (0..bs.len()).filter(|i| i % np == p).collect()).collect();
        std::thread::scope(|s| {
            let hs: Vec<_> = parts.into_iter().map(|p| s.spawn(|| work(p))).collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        })
    })?;
    let mut seen = 0;
    for (i, n, e) in &outcomes {
        ensure!(*i != usize::MAX, "flow-control-credits", "{n} of {} credits returned", case.flow);
        seen += 1;
        let b = &built[*i];
        ensure_eq!(*n, 1, "completed-more-than-once");
        match (&b.expect, e) {
            (Ok(_), Some(e)) => return fail("valid-graph-refused", format!("graph {i}: {e}")),
            (Err(why), None) => return fail("malformed-graph-accepted", format!("graph {i}: {why}")),
            (Err(_), Some(_)) => cov.label("malformed"),
            (Ok(out), None) => {
                for (j, want) in out {
                    let got = b.cells[*j].as_ref().unwrap().bytes();
                    ensure!(got == want.bytes(), "wrong-output", "graph {i}: output node {j} differs from one-at-a-time evaluation");
                    cov.comparisons(1);
                }
            }
        }
        cov.label_if(b.edges > b.nodes, "shared values");
    }
    ensure_eq!(seen, built.len(), "missing-completion");
    // every ciphertext the run held is released
    let t = Instant::now();
    loop {
        let held = built.iter().zip(&base).any(|(b, base)| b.cells.iter().zip(base).any(|(c, n)| c.as_ref().map_or(0, Cell::refs) != *n));
        if !held {
            break;
        }
        if t.elapsed() > Duration::from_secs(20) {
            return fail("ciphertexts-not-released", "20 s after completion");
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    cov.label_if(case.flow <= 2, "tight flow control");
    cov.label_if(case.threads == 1, "one thread");
    cov.label_if(case.pipelined && built.len() > 1, "pipelined");
    cov.label_if(case.procs > 1, "several processors");
    cov.nontrivial_if(built.iter().any(|b| b.edges >= 3));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cyclic {
    graph: Graph,
    extra: Vec<(u16, u16, u8)>,
    flow: usize,
    threads: usize,
}

/// A cyclic graph may give any answer, but the run ends, nothing panics, and the processor stays
/// usable.
fn cyclic(case: &Cyclic, cov: &Cover) -> Res {
    let b = build(&case.graph, 0, &case.extra);
    cov.nontrivial_if(petgraph::algo::is_cyclic_directed(&b.circuit.graph));
    let good = build(&Graph { steps: vec![], mutations: vec![], order: 0, holes: 0 }, 0, &[]);
    let mut g = good.circuit;
    let c0 = ctx(0);
    let out = Arc::new(AtomicRefCell::new(c0.enc.allocate_glwe_l1()));
    let one = g.add_node(FheOp::OneGlwe1);
    let o = g.add_node(FheOp::OutputGlwe1(out.clone()));
    g.add_edge(one, o, FheEdge::Unary);
    let (flow, threads, circuit) = (case.flow, case.threads, b.circuit);
    let r = supervised(move || {
        let c = ctx(0);
        let (mut proc, fc) = CircuitProcessor::new(flow, pool(threads), &c.eval, &c.enc);
        let _ = proc.run_graph_blocking(&circuit, &fc);
        proc.run_graph_blocking(&g, &fc).map_err(|e| e.0)
    })?;
    ensure!(r.is_ok(), "processor-unusable-after-cycle", "{r:?}");
    let got = bincode::serialize(&*out.borrow()).unwrap();
    ensure!(got == bincode::serialize(&c0.enc.trivial_glwe_l1_one()).unwrap(), "wrong-output", "after a cyclic graph");
    cov.comparisons(1);
    Ok(())
}

fn graphs(mutated: bool, len: std::ops::Range<usize>) -> BoxedStrategy<Graph> {
    let step = (prop_oneof![3 => 0u8..16, 1 => prop::sample::select(vec![4u8, 5, 7, 13])], any::<u16>(), any::<[u16; 3]>(), prop::bool::weighted(0.2)).prop_map(|(op, arg, a, out)| Step { op, arg, a, out });
    let m = prop_oneof![
        1 => any::<u16>().prop_map(Mutation::Drop),
        1 => any::<u16>().prop_map(Mutation::Duplicate),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mutation::Retag(a, b)),
        3 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Mutation::Resource(a, b)),
        1 => (any::<u16>(), any::<u16>(), any::<u8>()).prop_map(|(to, from, tag)| Mutation::Extra { to, from, tag }),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Mutation::ExtractFar(a, b)),
        1 => any::<u16>().prop_map(Mutation::Retire),
    ];
    let m = if mutated { prop_oneof![3 => prop::collection::vec(m.clone(), 1), 1 => prop::collection::vec(m, 0..4)].boxed() } else { Just(vec![]).boxed() };
    (prop::collection::vec(step, len), m, prop_oneof![1 => Just(0u64), 4 => any::<u64>()], 0u8..4)
        .prop_map(|(steps, mutations, order, holes)| Graph { steps, mutations, order, holes })
        .boxed()
}

fn cases(mutated: bool, len: std::ops::Range<usize>, n: std::ops::Range<usize>, procs: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    let g = if mutated { prop_oneof![2 => graphs(true, len.clone()), 1 => graphs(false, len)].boxed() } else { graphs(false, len) };
    (prop::collection::vec(g, n), 0usize..=8, prop_oneof![2 => 1usize..=3, 3 => 4usize..64, 1 => Just(1024usize)], prop_oneof![6 => Just(0usize), 1 => Just(2usize)], any::<bool>(), procs)
        .prop_map(|(graphs, threads, flow, k, pipelined, procs)| Case { graphs, threads, flow, k, pipelined, procs })
        .boxed()
}

/// Graphs in which one value, or a few, is an operand of very many nodes.
fn fan_out() -> BoxedStrategy<Case> {
    let user = (prop::sample::select(vec![4u8, 5, 6, 7, 10, 13, 2]), any::<u16>(), any::<[u16; 3]>(), prop::bool::weighted(0.3));
    (1u16..=3, 0u16..6, prop::collection::vec(user, 20..240), any::<u64>(), 0usize..=8, prop_oneof![1 => 1usize..=3, 2 => 16usize..128, 2 => Just(1024usize)])
        .prop_map(|(hubs, wait, users, order, threads, flow)| {
            let st = |op, arg, a, out| Step { op, arg, a, out };
            // a selector, then products of inputs by it: the hubs, each available only after `wait` others
            let mut steps = vec![st(0, 0, [0; 3], false), st(11, 0, [0; 3], false)];
            for i in 0..hubs + wait {
                steps.push(st(10, 0, [0, if i == 0 { 0 } else { 1 }, 0], false));
            }
            // the first GLWE is the input the first product brings along
            let last = 1 + wait;
            for (op, arg, a, out) in users {
                let hub = |x: u16| 4 * (last + x % hubs);
                steps.push(st(op, arg, if op == 7 || op == 10 { [0, hub(a[1]), hub(a[2])] } else { [hub(a[0]), hub(a[1]), 0] }, out));
            }
            Case { graphs: vec![Graph { steps, mutations: vec![], order, holes: 0 }], threads, flow, k: 0, pipelined: false, procs: 1 }
        })
        .boxed()
}

pub fn check() -> Check {
    Check {
        id: "R02",
        assumptions: vec![
            "the real thread pool schedules the work: interleavings are sampled by running many graphs over 1 to 8 threads, flow-control lengths from 1, and several processors at once, not enumerated".into(),
            "flow-control length at least one; no ciphertext is an output of two nodes, or both an input and an output, of graphs in flight together".into(),
            "outputs are compared bit for bit with calling the evaluation operations one at a time in topological order".into(),
            "for cyclic graphs, whose answer is documented as arbitrary, only termination, absence of panics and a usable processor are required".into(),
        ],
        subs: vec![
            sub("graphs", 500, 40000, "a graph with three or more edges", cases(false, 1..40, 1..3, 1..2), run).serial(),
            sub("deep-graphs", 25, 2000, "a graph with three or more edges", cases(false, 100..400, 1..3, 1..3), run).serial().shrink(200),
            sub("fan-out", 400, 30000, "a graph with three or more edges", fan_out(), run).serial().shrink(200),
            sub("malformed", 700, 60000, "a graph with three or more edges", cases(true, 1..16, 1..4, 1..2), run).serial(),
            sub("concurrent", 120, 10000, "a graph with three or more edges", cases(true, 1..30, 2..8, 1..5), run).serial(),
            sub(
                "cyclic",
                400,
                30000,
                "the graph has a cycle",
                (graphs(false, 1..16), prop::collection::vec((any::<u16>(), any::<u16>(), any::<u8>()), 1..4), prop_oneof![1usize..=3, 4usize..64], 0usize..=4).prop_map(|(graph, extra, flow, threads)| Cyclic { graph, extra, flow, threads }),
                cyclic,
            )
            .serial(),
        ],
    }
}
