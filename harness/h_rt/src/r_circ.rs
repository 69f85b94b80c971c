//! R01, second half: double-width products, pruning and mux-circuit insertion.
use crate::{common::*, r_prog::*, sym, sym::Sv};
use biodivine_lib_bdd::{Bdd, BddVariableSet};
use mux_circuits::MuxCircuit;
use parasol_concurrency::AtomicRefCell;
use parasol_runtime::{circuits::{add::add_circuit, mul::*, sub_circuit}, *};
use petgraph::{stable_graph::{NodeIndex, StableGraph}, visit::EdgeRef, Direction};
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use std::result::Result;
use std::sync::Arc;
use vkit::proptest::prelude::*;
use vkit::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mul {
    signed: bool,
    glev: bool,
    wa: usize,
    wb: usize,
    va: u64,
    vb: u64,
}

/// The low and high words of a double-width product, for operands of any two widths.
pub fn multiply(c: &Mul, cov: &Cover) -> Res {
    let mut g = FheCircuit::new();
    let mut cells: HashMap<usize, Sv> = HashMap::new();
    let (la, lb) = (spread(c.va, c.wa), spread(c.vb, c.wb));
    let enc = plain_enc();
    let mut input = |l: &Vec<u64>| -> Vec<NodeIndex> {
        l.iter()
            .map(|v| {
                let ct = Arc::new(AtomicRefCell::new(enc.allocate_ggsw_l1()));
                cells.insert(Arc::as_ptr(&ct) as usize, Sv::Ggsw(*v));
                g.add_node(FheOp::InputGgsw1(ct))
            })
            .collect()
    };
    let (a, b) = (input(&la), input(&lb));
    let r = catch(|| match (c.signed, c.glev) {
        (false, false) => append_uint_multiply::<L1GlweCiphertext>(&mut g, &a, &b),
        (false, true) => append_uint_multiply::<L1GlevCiphertext>(&mut g, &a, &b),
        (true, false) => append_int_multiply::<L1GlweCiphertext>(&mut g, &a, &b),
        (true, true) => append_int_multiply::<L1GlevCiphertext>(&mut g, &a, &b),
    });
    let (lo, hi) = match r {
        Ok(r) => r,
        Err(e) => return fail("panic-while-building", e),
    };
    ensure_eq!((lo.len(), hi.len()), (c.wa, c.wb), "wrong-width");
    let v = match sym::eval(&g, &cells, 128) {
        Ok(v) => v,
        Err(e) => return fail("ill-formed-graph", e),
    };
    let w = c.wa + c.wb;
    let prod = from_lanes(
        |k| {
            let (a, b) = (lane(&la, k), lane(&lb, k));
            let p = if c.signed { signed(&a).wrapping_mul(signed(&b)) as u128 } else { unsigned(&a).wrapping_mul(unsigned(&b)) };
            to_bits(p, w)
        },
        w,
    );
    let t = if c.glev { CiphertextType::L1GlevCiphertext } else { CiphertextType::L1GlweCiphertext };
    for (i, (n, p)) in lo.iter().chain(&hi).zip(&prod).enumerate() {
        let want = Sv::of(t, *p);
        ensure!(v.node.get(n) == Some(&want), "wrong-product", "bit {i} is {:?}, want {want:?}", v.node.get(n));
    }
    cov.comparisons(64 * w as u64);
    cov.label(if c.signed { "signed" } else { "unsigned" });
    cov.label_if(c.wa != c.wb, "unequal widths");
    cov.label_if(c.wa.max(c.wb) > 16, "split operands");
    cov.nontrivial_if(c.wa > 1 && c.wb > 1);
    Ok(())
}

fn mul_cases() -> BoxedStrategy<Mul> {
    let small = (1usize..=8, 1usize..=8).boxed();
    // pieces that stay within stored or quickly generated blocks
    let wide = prop::sample::select(vec![(16, 16), (17, 17), (17, 16), (16, 17), (18, 17), (17, 1), (3, 17), (18, 8), (5, 20), (32, 16), (16, 32), (32, 32), (33, 3), (4, 34), (20, 17), (9, 4), (3, 11), (32, 2), (40, 2), (2, 66)]).boxed();
    (prop_oneof![3 => small, 1 => wide], any::<bool>(), any::<bool>(), any::<u64>(), any::<u64>())
        .prop_map(|((wa, wb), signed, glev, va, vb)| Mul { signed, glev, wa, wb, va, vb })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pr {
    weights: Vec<u32>,
    /// (source, target, weight); source < target after ordering by `rank`
    edges: Vec<(u16, u16, u8)>,
    rank: Vec<u16>,
    /// nodes removed again, leaving holes in the index space
    holes: Vec<u16>,
    keep: Vec<u16>,
}

/// Pruning keeps exactly the chosen nodes and everything they depend on, with every edge.
pub fn prune_case(c: &Pr, cov: &Cover) -> Res {
    let n = c.weights.len();
    let mut g: StableGraph<u32, u8> = StableGraph::new();
    let ids: Vec<NodeIndex> = c.weights.iter().map(|w| g.add_node(*w)).collect();
    let key = |i: usize| (c.rank[i % c.rank.len()], i);
    for (a, b, w) in &c.edges {
        let (a, b) = (*a as usize % n, *b as usize % n);
        if a != b {
            let (s, t) = if key(a) < key(b) { (a, b) } else { (b, a) };
            g.add_edge(ids[s], ids[t], *w);
        }
    }
    for h in &c.holes {
        g.remove_node(ids[*h as usize % n]);
    }
    let left: Vec<NodeIndex> = g.node_indices().collect();
    if left.is_empty() {
        return Ok(());
    }
    let keep: Vec<NodeIndex> = c.keep.iter().map(|k| left[*k as usize % left.len()]).collect();
    let mut want: HashSet<NodeIndex> = HashSet::new();
    let mut todo = keep.clone();
    while let Some(x) = todo.pop() {
        if want.insert(x) {
            todo.extend(g.neighbors_directed(x, Direction::Incoming));
        }
    }
    let (out, rename) = prune(&g, &keep);
    let got: HashSet<NodeIndex> = rename.keys().copied().collect();
    ensure!(got == want, "wrong-nodes", "kept {got:?}, want {want:?}");
    let image: HashSet<NodeIndex> = rename.values().copied().collect();
    ensure!(image.len() == want.len() && image == out.node_indices().collect(), "not-a-renaming", "{rename:?}");
    for (o, r) in &rename {
        ensure_eq!(out[*r], g[*o], "wrong-weight");
        let mut a: Vec<(NodeIndex, u8)> = g.edges_directed(*o, Direction::Incoming).map(|e| (rename[&e.source()], *e.weight())).collect();
        let mut b: Vec<(NodeIndex, u8)> = out.edges_directed(*r, Direction::Incoming).map(|e| (e.source(), *e.weight())).collect();
        a.sort();
        b.sort();
        ensure!(a == b, "wrong-edges", "edges into {o:?}: {b:?}, want {a:?}");
        cov.comparisons(a.len() as u64 + 1);
    }
    cov.label_if(left.len() < n, "holes");
    cov.label_if(want.len() < left.len(), "something removed");
    cov.nontrivial_if(want.len() > 2 && want.len() < left.len());
    Ok(())
}

fn prunes() -> BoxedStrategy<Pr> {
    (
        prop::collection::vec(any::<u32>(), 1..24),
        prop::collection::vec((any::<u16>(), any::<u16>(), any::<u8>()), 0..40),
        prop::collection::vec(any::<u16>(), 1..24),
        prop::collection::vec(any::<u16>(), 0..4),
        prop::collection::vec(any::<u16>(), 0..4),
    )
        .prop_map(|(weights, edges, rank, holes, keep)| Pr { weights, edges, rank, holes, keep })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ins {
    Add { w: usize, a: u64, b: u64, carry: Option<bool> },
    Sub { w: usize, a: u64, b: u64, borrow: Option<bool> },
    /// functions of `vars` bits given by truth tables
    Tables { vars: usize, tables: Vec<u32>, x: u8, mode: u8 },
}

/// Mux circuits inserted into a graph compute the same function on ciphertexts.
pub fn insert(c: &Ins, k: usize, cov: &Cover) -> Res {
    let cx = ctx(k);
    let run = |g: &FheCircuit| {
        let (mut proc, fc) = CircuitProcessor::new(256, None, &cx.eval, &cx.enc);
        proc.run_graph_blocking(g, &fc)
    };
    let enc_bits = |v: u64, w: usize| -> Vec<Arc<AtomicRefCell<L1GlweCiphertext>>> {
        (0..w)
            .map(|i| {
                let mut p = vec![0u64; cx.params.l1_poly_degree().0];
                p[0] = v >> i & 1;
                let p = sunscreen_tfhe::entities::Polynomial::new(&p);
                Arc::new(AtomicRefCell::new(cx.enc.encrypt_glwe_l1_secret(&p, &cx.sk)))
            })
            .collect()
    };
    let dec = |o: &Arc<AtomicRefCell<L1GlweCiphertext>>| cx.enc.decrypt_glwe_l1(&o.borrow(), &cx.sk).coeffs().to_vec();
    let mask = |w: usize| if w == 64 { u64::MAX } else { (1 << w) - 1 };
    match c {
        Ins::Add { w, a, b, carry } | Ins::Sub { w, a, b, borrow: carry } => {
            let sub = matches!(c, Ins::Sub { .. });
            let (a, b) = (a & mask(*w), b & mask(*w));
            let cin = carry.map(|c| enc_bits(c as u64, 1));
            let f = if sub { sub_circuit } else { add_circuit };
            let (g, outs) = f(*w, &enc_bits(a, *w), &enc_bits(b, *w), cin.as_deref(), &cx.enc);
            let r = run(&g);
            ensure!(r.is_ok(), "run-error", "{r:?}");
            let cv = carry.unwrap_or(false) as u128;
            let want = if sub { (a as u128).wrapping_sub(b as u128).wrapping_sub(cv) } else { a as u128 + b as u128 + cv };
            ensure_eq!(outs.len(), w + 1, "wrong-width");
            for (i, o) in outs.iter().enumerate() {
                let mut p = vec![0u64; cx.params.l1_poly_degree().0];
                p[0] = (want >> i & 1) as u64;
                let d = dec(o);
                ensure!(d == p, format!("wrong-{}", if sub { "difference" } else { "sum" }), "bit {i} of {a} and {b} ({carry:?}): {d:?}");
                cov.comparisons(1);
            }
            cov.label(if sub { "sub" } else { "add" });
            cov.label_if(carry.is_some(), "carry in");
            cov.nontrivial_if(*w > 1);
        }
        Ins::Tables { vars, tables, x, mode } => {
            let vs = BddVariableSet::new_anonymous(*vars as u16);
            let v = vs.variables();
            let bdds: Vec<Bdd> = tables
                .iter()
                .map(|t| {
                    let mut f = vs.mk_false();
                    for i in 0..1usize << vars {
                        if t >> i & 1 == 1 {
                            let mut m = vs.mk_true();
                            for j in 0..*vars {
                                m = m.and(&vs.mk_literal(v[j], i >> j & 1 == 1));
                            }
                            f = f.or(&m);
                        }
                    }
                    f
                })
                .collect();
            let mc = MuxCircuit::from(bdds.as_slice());
            let x = *x as usize % (1 << vars);
            // which variable each input stands for
            let names: Vec<usize> = mc
                .inputs
                .iter()
                .map(|i| match mc.graph[*i] {
                    mux_circuits::MuxOp::Variable(v) => v as usize,
                    _ => unreachable!(),
                })
                .collect();
            let bits = enc_bits(names.iter().enumerate().fold(0, |s, (i, v)| s | (x as u64 >> v & 1) << i), names.len());
            let mut g = FheCircuit::new();
            let outs: Vec<Vec<u64>> = match mode % 3 {
                0 => {
                    let outs = g.insert_mux_circuit_and_connect_inputs(&mc, &bits, &cx.enc);
                    let r = run(&g);
                    ensure!(r.is_ok(), "run-error", "{r:?}");
                    outs.iter().map(dec).collect()
                }
                m => {
                    let ins: Vec<NodeIndex> = bits
                        .iter()
                        .map(|b| {
                            let i = g.add_node(FheOp::InputGlwe1(b.clone()));
                            insert_ciphertext_conversion(&mut g, i, CiphertextType::L1GlweCiphertext, CiphertextType::L1GgswCiphertext)
                        })
                        .collect();
                    if m == 1 {
                        let outs = g.insert_mux_circuit_l1glwe_outputs(&mc, &ins, &cx.enc);
                        let r = run(&g);
                        ensure!(r.is_ok(), "run-error", "{r:?}");
                        outs.iter().map(dec).collect()
                    } else {
                        let mode = <L1GlevCiphertext as fluent::Muxable>::MUX_MODE;
                        let outs: Vec<_> = g
                            .insert_mux_circuit(&mc, &ins, mode)
                            .into_iter()
                            .map(|o| {
                                let ct = Arc::new(AtomicRefCell::new(<L1GlevCiphertext as fluent::CiphertextOps>::allocate(&cx.enc)));
                                let n = g.add_node(FheOp::OutputGlev1(ct.clone()));
                                g.add_edge(o, n, FheEdge::Unary);
                                ct
                            })
                            .collect();
                        let r = run(&g);
                        ensure!(r.is_ok(), "run-error", "{r:?}");
                        outs.iter().map(|o| cx.enc.decrypt_glev_l1(&o.borrow(), &cx.sk).coeffs().to_vec()).collect()
                    }
                }
            };
            ensure_eq!(outs.len(), tables.len(), "wrong-output-count");
            for (i, (o, t)) in outs.iter().zip(tables).enumerate() {
                let mut p = vec![0u64; cx.params.l1_poly_degree().0];
                p[0] = (t >> x & 1) as u64;
                ensure!(*o == p, "wrong-output", "output {i} at {x}: {o:?}");
                cov.comparisons(1);
            }
            cov.label("truth tables");
            cov.nontrivial_if(*vars > 1);
        }
    }
    Ok(())
}

fn inserts() -> BoxedStrategy<Ins> {
    let w = prop_oneof![6 => 1usize..=8, 1 => 9usize..=16].boxed();
    let tab = (1usize..=5, prop::collection::vec(prop_oneof![6 => any::<u32>(), 1 => Just(0), 1 => Just(u32::MAX)], 1..4), any::<u8>(), any::<u8>()).prop_map(|(vars, mut tables, x, mode)| {
        let m = ((1u64 << (1 << vars)) - 1) as u32;
        for t in &mut tables {
            *t &= m;
        }
        Ins::Tables { vars, tables, x, mode }
    });
    prop_oneof![
        1 => (w.clone(), any::<u64>(), any::<u64>(), any::<Option<bool>>()).prop_map(|(w, a, b, carry)| Ins::Add { w, a, b, carry }),
        1 => (w, any::<u64>(), any::<u64>(), any::<Option<bool>>()).prop_map(|(w, a, b, borrow)| Ins::Sub { w, a, b, borrow }),
        2 => tab,
    ]
    .boxed()
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub("multiply", 300, 6000, "both operands wider than one bit", mul_cases(), multiply),
        sub("prune", 20000, 200000, "more than two nodes kept and some removed", prunes(), prune_case),
        sub("insert", 1200, 60000, "two or more input bits", inserts(), |c, cov| insert(c, 0, cov)).serial(),
    ]
}
