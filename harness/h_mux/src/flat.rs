//! An independent evaluator of mux circuits: validates the graph's shape, then runs it on 64 input
//! vectors at once, one bit of a word per vector.
use mux_circuits::{MuxCircuit, MuxEdgeInfo, MuxOp};
use petgraph::{graph::NodeIndex, visit::EdgeRef, Direction};
use std::collections::HashMap;
use vkit::*;

#[derive(Clone, Copy, Debug)]
enum Op {
    Const(u64),
    Var(u32),
    Mux(u32, u32, u32), // select, low, high
}

pub struct Flat {
    ops: Vec<Op>,
    outs: Vec<u32>,
    pub inputs: usize,
    pub muxes: usize,
    /// Two muxes with the same three sources exist.
    pub redundant: bool,
}

/// Flattens a circuit; an error if it is malformed by the rules documented on `MuxOp`.
pub fn flatten(c: &MuxCircuit) -> std::result::Result<Flat, Fail> {
    let g = &c.graph;
    let mut vars: HashMap<u32, NodeIndex> = HashMap::new();
    let mut outs: HashMap<u32, NodeIndex> = HashMap::new();
    let mut args: HashMap<NodeIndex, [NodeIndex; 3]> = HashMap::new();
    for n in g.node_indices() {
        let mut e: Vec<(MuxEdgeInfo, NodeIndex)> = g.edges_directed(n, Direction::Incoming).map(|e| (*e.weight(), e.source())).collect();
        e.sort_by_key(|(k, _)| match k {
            MuxEdgeInfo::Select => 0,
            MuxEdgeInfo::Low => 1,
            MuxEdgeInfo::High => 2,
            MuxEdgeInfo::Output => 3,
        });
        let kinds: Vec<MuxEdgeInfo> = e.iter().map(|x| x.0).collect();
        let ok = match g[n] {
            MuxOp::One | MuxOp::Zero => e.is_empty(),
            MuxOp::Variable(i) => e.is_empty() && vars.insert(i, n).is_none(),
            MuxOp::Output(i) => {
                if kinds == [MuxEdgeInfo::Output] {
                    outs.insert(i, e[0].1).is_none()
                } else {
                    false
                }
            }
            MuxOp::Mux => kinds == [MuxEdgeInfo::Select, MuxEdgeInfo::Low, MuxEdgeInfo::High] && args.insert(n, [e[0].1, e[1].1, e[2].1]).is_none(),
        };
        ensure!(ok, "malformed", "node {n:?} {:?} with incoming {kinds:?}", g[n]);
    }
    ensure!((0..vars.len() as u32).all(|i| vars.contains_key(&i)), "malformed", "variable indices have holes");
    ensure!((0..outs.len() as u32).all(|i| outs.contains_key(&i)), "malformed", "output indices have holes");
    ensure_eq!(c.inputs.len(), vars.len(), "malformed", "inputs list");
    for (i, n) in c.inputs.iter().enumerate() {
        ensure!(vars[&(i as u32)] == *n, "malformed", "inputs[{i}] is not variable {i}");
    }
    // Topological order by an explicit depth-first search from the outputs and every mux.
    let mut ops = vec![];
    let mut at: HashMap<NodeIndex, u32> = HashMap::new();
    let mut open: HashMap<NodeIndex, ()> = HashMap::new();
    for root in g.node_indices().filter(|n| !matches!(g[*n], MuxOp::Output(_))) {
        let mut stack = vec![root];
        while let Some(&n) = stack.last() {
            if at.contains_key(&n) {
                stack.pop();
                continue;
            }
            let op = match g[n] {
                MuxOp::One => Op::Const(!0),
                MuxOp::Zero => Op::Const(0),
                MuxOp::Variable(i) => Op::Var(i),
                MuxOp::Output(_) => return fail("malformed", "an output feeds another node"),
                MuxOp::Mux => {
                    let a = args[&n];
                    let missing: Vec<_> = a.iter().filter(|x| !at.contains_key(x)).copied().collect();
                    if !missing.is_empty() {
                        ensure!(open.insert(n, ()).is_none(), "malformed", "cycle through {n:?}");
                        stack.extend(missing);
                        continue;
                    }
                    Op::Mux(at[&a[0]], at[&a[1]], at[&a[2]])
                }
            };
            at.insert(n, ops.len() as u32);
            ops.push(op);
            stack.pop();
        }
    }
    let mut seen = std::collections::HashSet::new();
    let mut muxes = 0;
    let mut redundant = false;
    for a in args.values() {
        muxes += 1;
        redundant |= !seen.insert(*a);
    }
    Ok(Flat { outs: (0..outs.len() as u32).map(|i| at[&outs[&i]]).collect(), inputs: vars.len(), ops, muxes, redundant })
}

impl Flat {
    pub fn outputs(&self) -> usize {
        self.outs.len()
    }
    /// One word per input, one word per output.
    pub fn run(&self, x: &[u64]) -> Vec<u64> {
        let mut v = vec![0u64; self.ops.len()];
        for (i, op) in self.ops.iter().enumerate() {
            v[i] = match *op {
                Op::Const(c) => c,
                Op::Var(k) => x[k as usize],
                Op::Mux(s, l, h) => {
                    let s = v[s as usize];
                    (s & v[h as usize]) | (!s & v[l as usize])
                }
            };
        }
        self.outs.iter().map(|o| v[*o as usize]).collect()
    }
}
