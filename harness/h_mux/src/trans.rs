//! X02: building circuits from decision diagrams, optimizing, remapping inputs and storing them keep
//! the function they compute.
use crate::flat::*;
use biodivine_lib_bdd::{Bdd, BddVariableSet};
use mux_circuits::{test_mux_circuit, Bit, MuxCircuit, MuxEdgeInfo, MuxOp};
use petgraph::{graph::NodeIndex, stable_graph::StableGraph};
use serde::{Deserialize, Serialize};
use vkit::proptest::prelude::*;
use vkit::*;

/// All assignments of `n` variables: word w, lane l is assignment 64 w + l.
fn all(n: usize) -> Vec<Vec<u64>> {
    const P: [u64; 6] = [0xaaaaaaaaaaaaaaaa, 0xcccccccccccccccc, 0xf0f0f0f0f0f0f0f0, 0xff00ff00ff00ff00, 0xffff0000ffff0000, 0xffffffff00000000];
    (0..if n > 6 { 1 << (n - 6) } else { 1usize }).map(|w| (0..n).map(|i| if i < 6 { P[i] } else if w >> (i - 6) & 1 == 1 { !0 } else { 0 }).collect()).collect()
}

fn same(c: &MuxCircuit, n: usize, want: &dyn Fn(&[u64]) -> Vec<u64>, stage: &str, cov: &Cover) -> std::result::Result<Flat, Fail> {
    let f = flatten(c).map_err(|e| Fail { sig: format!("{stage}-{}", e.sig), msg: e.msg })?;
    ensure_eq!(f.inputs, n, format!("{stage}-shape"), "inputs");
    let m = c.metrics();
    ensure_eq!((m.inputs, m.outputs, m.mux_gates), (f.inputs, f.outputs(), f.muxes), format!("{stage}-metrics"));
    for x in all(n) {
        let (g, w) = (f.run(&x), want(&x));
        ensure_eq!(g.len(), w.len(), format!("{stage}-shape"), "outputs");
        for (o, (g, w)) in g.iter().zip(&w).enumerate() {
            ensure!(g == w, format!("{stage}-value"), "output {o} is wrong at assignments {:x} of word {x:x?}", g ^ w);
        }
        cov.comparisons(g.len() as u64);
    }
    Ok(f)
}

fn own_evaluator(c: &MuxCircuit, n: usize, a: u64, want: &dyn Fn(&[u64]) -> Vec<u64>, stage: &str) -> Res {
    let x: Vec<u64> = (0..n).map(|i| a >> i & 1).collect();
    let bits: Vec<Bit> = x.iter().map(|b| Bit(*b == 1)).collect();
    let got = match catch(|| test_mux_circuit(c, &bits)) {
        Ok(g) => g,
        Err(e) => return fail("test_mux_circuit", format!("{stage}: {e}")),
    };
    let want: Vec<Bit> = want(&x).iter().map(|w| Bit(w & 1 == 1)).collect();
    ensure_eq!(got, want, "test_mux_circuit", "{stage}: assignment {x:?}");
    Ok(())
}

/// Everything after construction.
fn pipeline(mut c: MuxCircuit, n: usize, a: u64, map: &[u16], want: &dyn Fn(&[u64]) -> Vec<u64>, cov: &Cover) -> Res {
    let f = same(&c, n, want, "built", cov)?;
    own_evaluator(&c, n, a, want, "built")?;
    let orig = c.clone();

    let run = |c: &mut MuxCircuit, stage: &str| -> Res {
        match catch(|| c.optimize()) {
            Ok(()) => Ok(()),
            Err(e) => fail("optimize-panic", format!("{stage}: {e}")),
        }
    };
    run(&mut c, "first")?;
    let g = same(&c, n, want, "optimized", cov)?;
    own_evaluator(&c, n, a, want, "optimized")?;
    ensure!(g.muxes <= f.muxes, "optimize-grows", "{} gates became {}", f.muxes, g.muxes);
    ensure!(!g.redundant, "optimize-incomplete", "two muxes with the same operands remain");
    cov.label_if(g.muxes < f.muxes, "optimization removed gates");
    let once = g.muxes;
    run(&mut c, "second")?;
    let g = same(&c, n, want, "optimized", cov)?;
    ensure_eq!(g.muxes, once, "optimize-idempotent");

    for (what, c) in [("built", &orig), ("optimized", &c)] {
        let ser = bincode::serialize(c).map_err(|e| Fail { sig: "store".into(), msg: format!("{what}: {e}") })?;
        let back: MuxCircuit = bincode::deserialize(&ser).map_err(|e| Fail { sig: "store".into(), msg: format!("{what}: {e}") })?;
        same(&back, n, want, "stored", cov)?;
        own_evaluator(&back, n, a, want, "stored")?;
    }

    // Remapping: a surjection of the inputs onto 0..k.
    if n > 0 {
        let k = 1 + map[0] as usize % n;
        let mut to: Vec<u32> = (0..n).map(|i| if i < k { i as u32 } else { map[i % map.len()] as u32 % k as u32 }).collect();
        for i in (1..n).rev() {
            to.swap(i, map[(i + 1) % map.len()] as usize % (i + 1));
        }
        let mapped = |x: &[u64]| want(&to.iter().map(|t| x[*t as usize]).collect::<Vec<_>>());
        for (what, c) in [("built", &orig), ("optimized", &c)] {
            let mut c = c.clone();
            if let Err(e) = catch(|| c.remap_inputs(k as u32, || to.clone())) {
                return fail("remap-panic", format!("{what}: {to:?}: {e}"));
            }
            let h = same(&c, k, &mapped, "remapped", cov)?;
            own_evaluator(&c, k, a, &mapped, "remapped")?;
            run(&mut c, "after remapping")?;
            let o = same(&c, k, &mapped, "remapped", cov)?;
            own_evaluator(&c, k, a, &mapped, "remapped and optimized")?;
            ensure!(o.muxes <= h.muxes && !o.redundant, "optimize-incomplete", "after remapping");
        }
        cov.label_if(k < n, "inputs merged");
    }
    Ok(())
}

// ---- decision diagrams

#[derive(Clone, Debug, Serialize, Deserialize)]
enum E {
    Const(bool),
    Var(u8),
    Not(Box<E>),
    Bin(u8, Box<E>, Box<E>),
    Ite(Box<E>, Box<E>, Box<E>),
}
fn expr() -> BoxedStrategy<E> {
    prop_oneof![1 => any::<bool>().prop_map(E::Const), 8 => any::<u8>().prop_map(E::Var)]
        .prop_recursive(6, 40, 3, |e| {
            prop_oneof![
                1 => e.clone().prop_map(|x| E::Not(Box::new(x))),
                5 => (0..6u8, e.clone(), e.clone()).prop_map(|(o, a, b)| E::Bin(o, Box::new(a), Box::new(b))),
                2 => (e.clone(), e.clone(), e).prop_map(|(s, a, b)| E::Ite(Box::new(s), Box::new(a), Box::new(b))),
            ]
        })
        .boxed()
}
fn value(e: &E, x: &[u64]) -> u64 {
    match e {
        E::Const(b) => if *b { !0 } else { 0 },
        E::Var(v) => x[*v as usize % x.len()],
        E::Not(a) => !value(a, x),
        E::Bin(o, a, b) => {
            let (a, b) = (value(a, x), value(b, x));
            match o {
                0 => a & b,
                1 => a | b,
                2 => a ^ b,
                3 => a & !b,
                4 => !a | b,
                _ => !(a ^ b),
            }
        }
        E::Ite(s, a, b) => {
            let s = value(s, x);
            s & value(a, x) | !s & value(b, x)
        }
    }
}
fn diagram(e: &E, vs: &BddVariableSet) -> Bdd {
    let v = vs.variables();
    match e {
        E::Const(b) => if *b { vs.mk_true() } else { vs.mk_false() },
        E::Var(i) => vs.mk_var(v[*i as usize % v.len()]),
        E::Not(a) => diagram(a, vs).not(),
        E::Bin(o, a, b) => {
            let (a, b) = (diagram(a, vs), diagram(b, vs));
            match o {
                0 => a.and(&b),
                1 => a.or(&b),
                2 => a.xor(&b),
                3 => a.and_not(&b),
                4 => a.imp(&b),
                _ => a.iff(&b),
            }
        }
        E::Ite(s, a, b) => Bdd::if_then_else(&diagram(s, vs), &diagram(a, vs), &diagram(b, vs)),
    }
}
fn size(e: &E) -> usize {
    match e {
        E::Const(_) | E::Var(_) => 1,
        E::Not(a) => 1 + size(a),
        E::Bin(_, a, b) => 1 + size(a) + size(b),
        E::Ite(s, a, b) => 1 + size(s) + size(a) + size(b),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dia {
    vars: usize,
    outs: Vec<E>,
    a: u64,
    map: Vec<u16>,
}
fn diagrams(c: &Dia, cov: &Cover) -> Res {
    let vs = BddVariableSet::new_anonymous(c.vars as u16);
    let bdds: Vec<Bdd> = c.outs.iter().map(|e| diagram(e, &vs)).collect();
    let circuit = match catch(|| MuxCircuit::from(bdds.as_slice())) {
        Ok(x) => x,
        Err(e) => return fail("from-diagrams", e),
    };
    let want = |x: &[u64]| c.outs.iter().map(|e| value(e, x)).collect::<Vec<_>>();
    pipeline(circuit, c.vars, c.a, &c.map, &want, cov)?;
    cov.nontrivial_if(bdds.iter().any(|b| b.size() > 4));
    cov.label_if(bdds.iter().any(|b| b.is_false() || b.is_true()), "constant output");
    cov.label_if(c.outs.iter().map(size).sum::<usize>() > 30, "large");
    Ok(())
}

// ---- arbitrary circuits

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Net {
    vars: usize,
    /// Constants present as nodes: bit 0 the zero, bit 1 the one, bits 2, 3 second copies.
    consts: u8,
    /// Each gate picks select, low, high among what exists; `dup` repeats an earlier gate's operands.
    gates: Vec<(u16, u16, u16, u8)>,
    outs: Vec<u16>,
    /// Shuffles the order in which nodes enter the graph; multiples of 4 also leave holes.
    order: Vec<u16>,
    a: u64,
    map: Vec<u16>,
}
#[derive(Clone, Copy)]
enum Src {
    Zero,
    One,
    Var(usize),
    Gate(usize, usize, usize),
}
fn net(c: &Net, cov: &Cover) -> Res {
    let mut src: Vec<Src> = vec![];
    for b in 0..4 {
        if c.consts >> b & 1 == 1 {
            src.push(if b % 2 == 0 { Src::Zero } else { Src::One });
        }
    }
    src.extend((0..c.vars).map(Src::Var));
    if src.is_empty() {
        src.push(Src::Zero);
    }
    let mut dups = 0;
    for (s, l, h, how) in &c.gates {
        let n = src.len();
        let earlier: Vec<(usize, usize, usize)> = src.iter().filter_map(|x| if let Src::Gate(a, b, c) = x { Some((*a, *b, *c)) } else { None }).collect();
        let p = |x: &u16| (*x as usize * n) >> 16;
        let g = match how % 8 {
            0 | 1 if !earlier.is_empty() => {
                dups += 1;
                earlier[*s as usize % earlier.len()]
            }
            2 => (p(s), p(l), p(l)),
            3 => (p(s), p(s), p(h)),
            4 => {
                // Recent nodes, for depth.
                let r = |x: &u16| n - 1 - *x as usize % n.min(4);
                (r(s), r(l), r(h))
            }
            _ => (p(s), p(l), p(h)),
        };
        src.push(Src::Gate(g.0, g.1, g.2));
    }
    let m = c.outs.len();
    let want = |x: &[u64]| {
        let mut v: Vec<u64> = vec![];
        for s in &src {
            v.push(match s {
                Src::Zero => 0,
                Src::One => !0,
                Src::Var(i) => x[*i],
                Src::Gate(s, l, h) => v[*s] & v[*h] | !v[*s] & v[*l],
            });
        }
        c.outs.iter().map(|o| v[(*o as usize * src.len()) >> 16]).collect::<Vec<_>>()
    };
    // Nodes: the sources, then the outputs, in shuffled order of insertion.
    let total = src.len() + m;
    let mut perm: Vec<usize> = (0..total).collect();
    if !c.order.is_empty() {
        for i in (1..total).rev() {
            perm.swap(i, c.order[i % c.order.len()] as usize % (i + 1));
        }
    }
    let mut g: StableGraph<MuxOp, MuxEdgeInfo> = StableGraph::new();
    let mut at = vec![NodeIndex::end(); total];
    let mut junk = vec![];
    for (k, i) in perm.iter().enumerate() {
        if !c.order.is_empty() && c.order[k % c.order.len()] % 4 == 0 {
            junk.push(g.add_node(MuxOp::Zero));
        }
        at[*i] = g.add_node(if *i >= src.len() {
            MuxOp::Output((*i - src.len()) as u32)
        } else {
            match src[*i] {
                Src::Zero => MuxOp::Zero,
                Src::One => MuxOp::One,
                Src::Var(v) => MuxOp::Variable(v as u32),
                Src::Gate(..) => MuxOp::Mux,
            }
        });
    }
    for i in perm {
        if i >= src.len() {
            g.add_edge(at[(c.outs[i - src.len()] as usize * src.len()) >> 16], at[i], MuxEdgeInfo::Output);
        } else if let Src::Gate(s, l, h) = src[i] {
            let mut e = [(s, MuxEdgeInfo::Select), (l, MuxEdgeInfo::Low), (h, MuxEdgeInfo::High)];
            e.rotate_left(i % 3);
            for (x, k) in e {
                g.add_edge(at[x], at[i], k);
            }
        }
    }
    let holes = !junk.is_empty();
    for j in junk {
        g.remove_node(j);
    }
    let mut inputs = vec![NodeIndex::end(); c.vars];
    for (i, s) in src.iter().enumerate() {
        if let Src::Var(v) = s {
            inputs[*v] = at[i];
        }
    }
    let circuit = MuxCircuit { graph: g, inputs };
    pipeline(circuit, c.vars, c.a, &c.map, &want, cov)?;
    cov.nontrivial_if(c.gates.len() > 2 && c.vars > 1);
    cov.label_if(dups > 0, "duplicate gates");
    cov.label_if(holes, "holes in the node indices");
    Ok(())
}

pub fn check() -> Check {
    let map = || prop::collection::vec(any::<u16>(), 3..12);
    Check {
        id: "X02",
        assumptions: vec!["circuits of up to 8 variables are compared on every assignment".into()],
        subs: vec![
            sub(
                "diagrams",
                15000,
                300000,
                "a diagram with at least three decision nodes",
                (1..=8usize, prop::collection::vec(expr(), 1..6), any::<u64>(), map()).prop_map(|(vars, outs, a, map)| Dia { vars, outs, a, map }),
                diagrams,
            ),
            sub(
                "circuits",
                30000,
                600000,
                "at least three gates and two variables",
                (0..=7usize, 0..16u8, prop::collection::vec(any::<(u16, u16, u16, u8)>(), 0..30), prop::collection::vec(any::<u16>(), 0..6), prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec(any::<u16>(), 1..20)], any::<u64>(), map())
                    .prop_map(|(vars, consts, gates, outs, order, a, map)| Net { vars, consts, gates, outs, order, a, map }),
                net,
            ),
        ],
    }
}
