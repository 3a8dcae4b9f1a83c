//! Wiring: references, scheduling, determinism, block size, live input.

use crate::lang::Nd::*;
use crate::lang::*;
use crate::model::Model;
use crate::rig::*;
use crate::util::*;
use glicol_synth::{AudioContextBuilder, Buffer, Input, Message, Node};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

/// Every name used resolves and nothing depends on itself.
pub fn sound(p: &Prog) -> bool {
    let mut m = Model::new(2);
    m.update(p);
    p.0.iter().flat_map(|(_, ch)| ch.iter().flat_map(|n| n.refs())).all(|r| r == "~input" || !m.names_for(r).is_empty()) && !m.has_cycle()
}

fn pool_c04(c: &Ctx) -> Vec<Prog> {
    let head = [
        Sig(0.5),
        Saw(P::N(3.0)),
        Get("~a"),
        Get("~b"),
        Mix(vec!["~a", "~b"]),
        Mix(vec!["~b", "~a", "~b"]),
        Mix(vec!["~a.."]),
        Balance("~a", "~b"),
        Balance("~b", "~a"),
        Arrange(vec![("~a", 0.03125), ("~b", 0.03125)]),
        Seq(vec![vec![Note::R("~b"), Note::R("~a")], vec![Note::R("~b")]]),
        Squ(P::R("~a")),
    ];
    let op = [
        Mul(P::N(0.5)),
        Add(P::R("~a")),
        Mul(P::R("~b")),
        Add(P::R("~ab")),
        Pan(P::R("~b")),
        Delayn(2),
        Mix(vec!["~a"]),
        Onepole(P::N(0.1)),
    ];
    let tails = words_upto(&op, 0, c.pick(2, 3));
    let a: Vec<Chain> = vec![
        vec![Sig(0.25)],
        vec![Saw(P::N(2.0)), Pan(P::N(0.5))],
        vec![Get("~b"), Add(P::N(1.0))],
        vec![Get("~b"), Mul(P::R("~ab"))],
        vec![Balance("~b", "~ab"), Mul(P::N(2.0))],
    ];
    let b: Vec<Chain> = vec![vec![Tri(P::N(1.0))], vec![Saw(P::N(1.0)), Pan(P::N(-0.5)), Add(P::N(0.5))], vec![Get("~ab"), Mul(P::N(-1.0))]];
    let ab: Vec<Option<Chain>> = vec![None, Some(vec![Sig(0.125), Pan(P::N(1.0))]), Some(vec![Squ(P::N(2.0))])];
    let p: Vec<Option<Chain>> = vec![None, Some(vec![Get("o"), Mul(P::N(0.5))]), Some(vec![Sig(2.0), Mul(P::R("~a"))])];
    let mut v = vec![];
    for h in &head {
        for t in &tails {
            let mut o = vec![h.clone()];
            o.extend(t.clone());
            for a in &a {
                for b in &b {
                    for x in &ab {
                        for q in &p {
                            // the product is only taken for what the chain mentions
                            let mut pr = vec![("o", o.clone()), ("~a", a.clone()), ("~b", b.clone())];
                            if let Some(x) = x {
                                pr.push(("~ab", x.clone()));
                            }
                            if let Some(q) = q {
                                pr.push(("p", q.clone()));
                            }
                            let pr = Prog(pr);
                            if sound(&pr) {
                                v.push(pr);
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

pub const MANY: [&str; 16] = ["~ra", "~rb", "~rc", "~rd", "~re", "~rf", "~rg", "~rh", "~ri", "~rj", "~rk", "~rl", "~rm", "~rn", "~ro", "~rp"];
/// The names a sequence accepts.
pub const LETTERS: [&str; 16] = ["~a", "~b", "~c", "~d", "~e", "~f", "~g", "~h", "~i", "~j", "~k", "~l", "~m", "~n", "~o", "~p"];
pub const LOUD: [&str; 16] = ["oa", "ob", "oc", "od", "oe", "of", "og", "oh", "oi", "oj", "ok", "ol", "om", "on", "oo", "op"];

/// A chain of `n` nodes that all leave their mark.
pub fn long_chain(n: usize) -> Chain {
    let mut ch = vec![Saw(P::N(3.0))];
    for k in 1..n {
        ch.push(match k % 4 {
            0 => Delayn(k),
            1 => Add(P::N(k as f32 * 0.25)),
            2 => Mul(P::N(1.0 - k as f32 * 0.125)),
            _ => Add(P::N(k as f32 * -0.125)),
        });
    }
    ch
}

/// Programs that are large in one respect: the length of a chain, the number
/// of chains, how many references a node has, how many refer to one chain,
/// how deep references go.
pub fn big_c04(max: usize) -> Vec<Prog> {
    let src = |k: usize| vec![Saw(P::N(1.0 + k as f32)), Pan(P::N(if k % 2 == 0 { 0.5 } else { -0.25 })), Add(P::N(0.125 * k as f32))];
    let mut v = vec![];
    for n in 1..=max {
        // a long chain, alone, with a reference at every place, referred to in every way
        let long = long_chain(n);
        v.push(Prog(vec![("o", long.clone())]));
        for at in 1..=n {
            for node in [Add(P::R("~ra")), Mul(P::R("~ra")), Pan(P::R("~ra"))] {
                let mut ch = long.clone();
                ch.insert(at, node);
                v.push(Prog(vec![("o", ch), ("~ra", vec![Tri(P::N(2.0))])]));
            }
        }
        for user in [
            vec![Get("~ra")],
            vec![Sig(1.0), Mul(P::R("~ra"))],
            vec![Sig(1.0), Add(P::R("~ra"))],
            vec![Mix(vec!["~rb", "~ra"])],
            vec![Mix(vec!["~ra.."])],
            vec![Balance("~rb", "~ra")],
            vec![Squ(P::R("~ra"))],
            vec![Arrange(vec![("~ra", 0.0625), ("~rb", 0.0625)])],
            vec![Sig(0.5), Pan(P::R("~ra"))],
        ] {
            let mut u = user.clone();
            u.extend(long_chain(4)[1..].to_vec());
            v.push(Prog(vec![("o", u), ("~ra", long.clone()), ("~rb", vec![Sig(0.5)])]));
            let mut u = user;
            u.extend(long[1..].to_vec());
            v.push(Prog(vec![("o", u), ("~ra", vec![Tri(P::N(2.0)), Add(P::N(1.0))]), ("~rb", long.clone())]));
        }
        // many chains feeding one node
        let all: Vec<&'static str> = MANY[..n].to_vec();
        let mut many: Vec<(&'static str, Chain)> = (0..n).map(|k| (MANY[k], src(k))).collect();
        for head in [
            Mix(all.clone()),
            Mix(vec!["~r.."]),
            Mix(all.iter().rev().copied().collect()),
            Arrange(all.iter().map(|r| (*r, 0.03125)).collect()),
        ] {
            many.insert(0, ("o", vec![head, Mul(P::N(0.5))]));
            v.push(Prog(many.clone()));
            many.remove(0);
        }
        // sequences start notes on fractions of the bar that may round
        if n.is_power_of_two() {
            for g in [LETTERS[..n].iter().map(|r| vec![Note::R(r)]).collect(), vec![LETTERS[..n].iter().map(|r| Note::R(r)).collect()]] {
                let mut p: Vec<(&'static str, Chain)> = (0..n).map(|k| (LETTERS[k], src(k))).collect();
                p.push(("oo", vec![Seq(g)]));
                v.push(Prog(p));
            }
        }
        let mut chain = vec![Sig(0.5)];
        chain.extend(all.iter().enumerate().map(|(k, r)| if k % 2 == 0 { Add(P::R(r)) } else { Mul(P::R(r)) }));
        many.push(("o", chain));
        v.push(Prog(many));
        // many loud chains, each on its own and all on one
        v.push(Prog((0..n).map(|k| (LOUD[k], src(k))).collect()));
        let mut fan: Vec<(&'static str, Chain)> = (0..n).map(|k| (LOUD[k], vec![Get("~ra"), Add(P::N(k as f32 * 0.25))])).collect();
        fan.push(("~ra", src(1)));
        v.push(Prog(fan));
        // references on references
        let mut deep: Vec<(&'static str, Chain)> = vec![(MANY[0], src(3))];
        deep.extend((1..n).map(|k| (MANY[k], vec![Get(MANY[k - 1]), Add(P::N(k as f32 * 0.125)), Mul(P::N(0.75))])));
        deep.push(("o", vec![Get(MANY[n - 1])]));
        v.push(Prog(deep.clone()));
        for k in 1..n {
            deep[k].1 = vec![Sig(0.5), if k % 2 == 0 { Mul(P::R(MANY[k - 1])) } else { Add(P::R(MANY[k - 1])) }];
        }
        v.push(Prog(deep.clone()));
        // everyone hears everyone before
        for k in 1..n {
            deep[k].1 = vec![Mix(MANY[..k].to_vec()), Mul(P::N(0.5))];
        }
        v.push(Prog(deep));
    }
    v
}

/// Programs with hundreds of nodes or chains.
fn huge_c04(n: usize) -> Vec<Prog> {
    let name = |p: &str, k: usize| -> &'static str {
        let l = |x: usize| (b'a' + (x % 26) as u8) as char;
        Box::leak(format!("{p}{}{}{}", l(k / 676), l(k / 26), l(k)).into_boxed_str())
    };
    let quiet: Vec<&'static str> = (0..n).map(|k| name("~n", k)).collect();
    let src = |k: usize| vec![Saw(P::N(1.0 + (k % 7) as f32)), Add(P::N(0.125 * (k % 5) as f32))];
    let line = |x: Chain| [vec![Saw(P::N(3.0))], (1..n).map(|k| if k % 9 == 8 { Delayn(k % 4) } else if k % 2 == 0 { Add(P::N((k % 5) as f32 - 2.0)) } else { Mul(P::N(1.0 - (k % 3) as f32)) }).collect(), x].concat();
    let named = |f: &dyn Fn(usize) -> Chain| -> Vec<(&'static str, Chain)> { (0..n).map(|k| (quiet[k], f(k))).collect() };
    let with = |mut v: Vec<(&'static str, Chain)>, o: Chain| {
        v.push(("o", o));
        Prog(v)
    };
    vec![
        Prog(vec![("o", line(vec![]))]),
        Prog(vec![("o", line(vec![Add(P::R("~ra"))])), ("~ra", line(vec![]))]),
        with(named(&src), vec![Mix(quiet.clone())]),
        with(named(&src), vec![Mix(vec!["~n.."])]),
        with(named(&src), [vec![Sig(0.5)], quiet.iter().map(|r| Add(P::R(r))).collect()].concat()),
        with(named(&src), vec![Arrange(quiet[..n.min(120)].iter().map(|r| (*r, 0.015625)).collect())]),
        Prog((0..n).map(|k| (name("o", k), src(k))).collect()),
        with(named(&|k| if k == 0 { src(1) } else { vec![Get(quiet[k - 1]), Add(P::N(0.125))] }), vec![Get(quiet[n - 1])]),
        with(named(&|k| if k == 0 { src(1) } else { vec![Sig(0.5), Add(P::R(quiet[k / 2]))] }), vec![Mix(quiet.clone())]),
        with(named(&|_| vec![Get("~ra"), Mul(P::N(0.5))]).into_iter().chain([("~ra", src(2))]).collect(), vec![Mix(quiet.clone())]),
    ]
}

pub fn c04(c: &'static Ctx) -> i32 {
    let huge: Vec<Prog> = [40, 100, 129, 257, 400, 1100].iter().flat_map(|n| huge_c04(*n)).collect();
    c.par_n(huge.len() * 3, |i| {
        let (p, o) = (&huge[i / 3], i % 3);
        let mut q = p.clone();
        match o {
            0 => {}
            1 => q.0.reverse(),
            _ => q.0.rotate_left(p.0.len() / 2),
        }
        let t = q.text().replace('\n', "; ");
        let t: String = t.chars().take(60).collect();
        c.case(&format!("huge {} of {} chains, {} nodes: {t}", i, q.0.len(), q.0.iter().map(|x| x.1.len()).sum::<usize>()), || {
            let mut pair = Pair::<8>::new(64, 1e-3);
            pair.update(&q)?;
            let mut f = Fp::new();
            for _ in 0..4 {
                pair.block(&mut f)?;
                c.steps(1);
                c.state(pair.m.state_fp());
            }
            Ok(f.get())
        });
    });
    let big = big_c04(c.pick(12, 16));
    c.note("large_programs", big.len());
    c.par_n(big.len(), |i| {
        let p = &big[i];
        let n = p.0.len();
        let mut orders: Vec<Vec<usize>> = (0..n).map(|r| (0..n).map(|k| (k + r) % n).collect()).collect();
        orders.extend((0..n).map(|r| (0..n).map(|k| n - 1 - (k + r) % n).collect()));
        orders.sort();
        orders.dedup();
        for o in orders {
            let q = Prog(o.iter().map(|k| p.0[*k].clone()).collect());
            c.case(&q.text().replace('\n', "; "), || {
                let mut pair = Pair::<8>::new(64, 1e-4);
                pair.update(&q)?;
                let mut f = Fp::new();
                for _ in 0..if q.0.iter().any(|x| matches!(x.1[0], Seq(_))) { 18 } else { 4 } {
                    pair.block(&mut f)?;
                    c.steps(1);
                    c.state(pair.m.state_fp());
                }
                Ok(f.get())
            });
        }
    });
    let pool = pool_c04(c);
    c.note("programs", pool.len());
    c.par_n(pool.len(), |i| {
        let p = &pool[i];
        let n = p.0.len();
        // quick: rotations of the declaration order; every permutation for small ones
        let orders: Vec<Vec<usize>> = if n <= 3 || c.thorough() && n <= 4 {
            permutations(n)
        } else {
            (0..n).map(|r| (0..n).map(|k| (k + r) % n).collect()).collect()
        };
        for o in orders {
            let q = Prog(o.iter().map(|k| p.0[*k].clone()).collect());
            let key = q.text().replace('\n', "; ");
            c.case(&key, || {
                let mut pair = Pair::<8>::new(64, 1e-4);
                pair.update(&q)?;
                let mut f = Fp::new();
                for _ in 0..3 {
                    pair.block(&mut f)?;
                    c.steps(1);
                    c.state(pair.m.state_fp());
                }
                Ok(f.get())
            });
        }
    });
    c.finish(
        "model_checking",
        "all programs of the pool in several declaration orders against the reference interpreter, three blocks each; states = distinct reference states",
        &["comparison within 1e-4"],
        true,
    )
}

// ---------------------------------------------------------------- C05

type Log = Arc<Mutex<Vec<(usize, Vec<(usize, f32)>)>>>;
struct Probe {
    id: usize,
    calls: f32,
    log: Log,
}
impl Node<2> for Probe {
    fn process(&mut self, inputs: &mut hashbrown::HashMap<usize, Input<2>>, output: &mut [Buffer<2>]) {
        let mut seen: Vec<(usize, f32)> = inputs.iter().map(|(k, v)| (*k, v.buffers()[0][1])).collect();
        seen.sort_by_key(|x| x.0);
        self.calls += 1.0;
        // value identifies node and block
        let v = (self.id as f32 + 1.0) * 100.0 + self.calls;
        for b in output.iter_mut() {
            b[0] = v;
            b[1] = v;
        }
        self.log.lock().unwrap().push((self.id, seen));
    }
    fn send_msg(&mut self, _: Message) {}
}

/// Probe nodes 0..n, `edges` in insertion order, `outs` connected to the destination.
fn c05_case(c: &Ctx, n: usize, edges: &[(usize, usize)], outs: &[usize]) {
    let key = format!("{n} nodes, edges {edges:?}, output from {outs:?}");
    c.case(&key, || {
        let log: Log = Default::default();
        let mut ctx = AudioContextBuilder::<2>::new().channels(1).max_nodes(8).max_edges(16).build();
        let ids: Vec<_> = (0..n).map(|id| ctx.add_mono_node(Probe { id, calls: 0.0, log: log.clone() })).collect();
        let back: BTreeMap<usize, usize> = ids.iter().enumerate().map(|(i, x)| (x.index(), i)).collect();
        for (a, b) in edges {
            ctx.connect(ids[*a], ids[*b]);
        }
        for o in outs {
            ctx.connect(ids[*o], ctx.destination);
        }
        // reach[a][b]: b depends on a
        let mut reach = vec![vec![false; n]; n];
        for (a, b) in edges {
            reach[*a][*b] = true;
        }
        for k in 0..n {
            for a in 0..n {
                for b in 0..n {
                    reach[a][b] |= reach[a][k] && reach[k][b];
                }
            }
        }
        let heard: BTreeSet<usize> = (0..n).filter(|a| outs.iter().any(|o| o == a || reach[*a][*o])).collect();
        let mut last = vec![0.0f32; n];
        let mut f = Fp::new();
        for block in 0..3 {
            log.lock().unwrap().clear();
            let out = ctx.next_block().to_vec();
            c.steps(1);
            let l = log.lock().unwrap().clone();
            let order: Vec<usize> = l.iter().map(|x| x.0).collect();
            let set: BTreeSet<usize> = order.iter().copied().collect();
            if set.len() != order.len() {
                return Err(format!("block {block}: a node was processed twice: {order:?}"));
            }
            if set != heard {
                return Err(format!("block {block}: processed {set:?}, but {heard:?} feed the output"));
            }
            let at = |x: usize| order.iter().position(|y| *y == x).unwrap();
            let mut cur = last.clone();
            for (id, seen) in &l {
                let want: BTreeSet<usize> = edges.iter().filter(|(a, b)| b == id && a != id).map(|e| e.0).collect();
                let got: BTreeSet<usize> = seen.iter().map(|(k, _)| *back.get(k).unwrap_or(&99)).collect();
                if want != got || seen.len() != want.len() {
                    return Err(format!("block {block}: node {id} saw inputs {got:?} instead of {want:?}"));
                }
                for (k, v) in seen {
                    let s = back[k];
                    if *v != cur[s] {
                        return Err(format!("block {block}: node {id} saw {v} from node {s} instead of {}", cur[s]));
                    }
                    if !reach[*id][s] && at(s) > at(*id) {
                        return Err(format!("block {block}: node {id} ran before its source {s}: {order:?}"));
                    }
                }
                cur[*id] = (*id as f32 + 1.0) * 100.0 + block as f32 + 1.0;
                f.u(*id as u64);
            }
            last = cur;
            let o: BTreeSet<usize> = outs.iter().copied().collect();
            let sum: f32 = o.iter().map(|x| last[*x]).sum();
            if out.len() != 1 || out[0][0] != sum || out[0][1] != sum {
                return Err(format!("block {block}: output {:?} instead of {sum}", out.first().map(|b| b[0])));
            }
            f.u(sum as u64);
            c.state(f.u(block).get());
        }
        Ok(f.get())
    });
}

pub fn c05(c: &'static Ctx) -> i32 {
    // large ones of every shape: more nodes and edges than were asked for
    let sizes: Vec<usize> = (5..=c.pick(24, 40)).chain([50, 64, 65, 100, 130]).collect();
    c.par(&sizes, |n| {
        let n = *n;
        let rev = |e: &Vec<(usize, usize)>| -> Vec<(usize, usize)> { e.iter().rev().copied().collect() };
        let flip = |e: &Vec<(usize, usize)>| -> Vec<(usize, usize)> { e.iter().map(|(a, b)| (n - 1 - a, n - 1 - b)).collect() };
        let line: Vec<(usize, usize)> = (1..n).map(|k| (k - 1, k)).collect();
        let star: Vec<(usize, usize)> = (0..n - 1).map(|k| (k, n - 1)).collect();
        let fan: Vec<(usize, usize)> = (1..n - 1).flat_map(|k| [(0, k), (k, n - 1)]).collect();
        let tree: Vec<(usize, usize)> = (0..n - 1).map(|k| (k, k + (n - k) / 2)).collect();
        let full: Vec<(usize, usize)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect();
        let steps: Vec<(usize, usize)> = (0..n).flat_map(|a| [a + 1, a + 2, a + 5].map(|b| (a, b))).filter(|e| e.1 < n).collect();
        let ring: Vec<(usize, usize)> = (0..n).map(|k| (k, (k + 1) % n)).collect();
        for e in [line, star, fan, tree, full, steps, ring] {
            for g in [e.clone(), rev(&e)] {
                c05_case(c, n, &g, &[n - 1]);
                c05_case(c, n, &g, &(0..n).collect::<Vec<_>>());
                c05_case(c, n, &flip(&g), &[0]);
                c05_case(c, n, &g, &[n / 2]);
            }
        }
    });
    // all digraphs on up to 4 nodes
    for n in 1..=4usize {
        let outs: Vec<Vec<usize>> = if c.thorough() || n < 4 {
            (1..1 << n).map(|m: usize| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
        } else {
            vec![vec![0], vec![3], vec![1, 2], vec![3, 0, 1, 2]]
        };
        c.par_n(1 << (n * n), |m| {
            let e: Vec<(usize, usize)> = (0..n * n).filter(|k| m >> k & 1 == 1).map(|k| (k / n, k % n)).collect();
            for o in &outs {
                c05_case(c, n, &e, o);
            }
            let r: Vec<_> = e.iter().rev().copied().collect();
            c05_case(c, n, &r, &outs[0]);
        });
    }
    // parallel edges: multiplicities 0..2 on three nodes
    c.par_n(3usize.pow(9), |m| {
        let mut e = vec![];
        let mut x = m;
        for k in 0..9 {
            for _ in 0..x % 3 {
                e.push((k / 3, k % 3));
            }
            x /= 3;
        }
        c05_case(c, 3, &e, &[2]);
        c05_case(c, 3, &e, &[0, 1, 1]);
    });
    // all acyclic graphs on five (six) nodes under a fixed numbering, every numbering reversed too
    let n = c.pick(5, 6);
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect();
    c.par_n(1 << pairs.len(), |m| {
        let e: Vec<(usize, usize)> = pairs.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|x| *x.1).collect();
        c05_case(c, n, &e, &[n - 1]);
        let r: Vec<(usize, usize)> = e.iter().map(|(a, b)| (n - 1 - a, n - 1 - b)).collect();
        c05_case(c, n, &r, &[0]);
    });
    c.finish(
        "model_checking",
        "every directed graph on at most 4 probe nodes (all multigraphs with at most 2 parallel edges on 3, all acyclic ones on 5 or 6), rendered for 3 blocks by the real processor; states = distinct prefixes of observed schedules",
        &[],
        true,
    )
}

// ---------------------------------------------------------------- C11

/// Programs covering every node kind, some with feedback.
pub fn everything() -> Vec<String> {
    [
        "o: sin 4 >> mul 0.3 >> add 0.1",
        "o: saw 3.3 >> lpf 9 1 >> hpf 2 0.7 >> onepole 0.1",
        "o: squ 2.2 >> apfmsgain 40 0.5 >> delayn 3 >> delayms 50",
        "o: tri 5.7 >> pan 0.3",
        "o: noise 3 >> mul 0.1",
        "o: seq 60 _ 67_72 >> envperc 0.05 0.1",
        "o: imp 7 >> sp \\s",
        "o: psampler \"\\s@0.0 \\t@0.5\"(1)",
        "o: choose 60 67 72 0",
        "o: speed 3 >> seq 60 60",
        "o: imp 3 >> adsr 0.1 0.1 0.5 0.1",
        "o: imp 3 >> bd 0.1",
        "o: imp 3 >> hh 0.1",
        "o: imp 3 >> sn 0.1",
        "o: imp 3 >> sawsynth 0.01 0.1",
        "o: imp 3 >> squsynth 0.01 0.1",
        "o: imp 3 >> trisynth 0.01 0.1",
        "o: noise 9 >> plate 0.3",
        "o: [0 => 0.1, 1/4 => 0.9]!",
        "o: psynth `0 60, 0.5 67` 1",
        "o: eval `phase + 0.1`",
        "~a: sig 0.1\n~b: sin 2.1\n~c: saw 1.3\no: mix ~a ~b ~c",
        "~a: sig 0.1\n~b: sin 2.1\n~c: saw 1.3\no: ~a >> add ~b >> add ~c",
        "o: sin 1.1\np: sin 2.3\nq: saw 3.7\nr: tri 1.9",
        "~ka: sin 1.1\n~kb: sin 2.3\n~kc: saw 3.7\n~kd: tri 1.9\no: mix ~k..",
        "~a: sig 10 >> add ~m\n~m: sin 0.7\no: sin ~a >> mul ~m",
        "~a: sig 0.3\n~b: sig 0.7\no: arrange ~a 0.5 ~b 1",
        "~a: sin 3\n~b: saw 2\no: balance ~a ~b",
        "~a: choose 60 62\n~b: choose 64 65 67\no: seq ~a ~b >> mul 0.1",
        // feedback
        "~a: ~b >> add 1\n~b: ~a >> mul 0.5\no: ~a",
        "~a: ~b >> add 1\n~b: ~a >> mul 0.5\no: ~a\np: ~b",
        "~a: sig 0.1 >> add ~b\n~b: ~c >> mul 0.5\n~c: ~a >> mul 0.9\no: mix ~a ~b ~c",
        "o: sig 1 >> add ~f\n~f: o >> delayn 2 >> mul 0.5",
        "~a: sig 0.1 >> add ~a\no: ~a",
        "~p: ~q >> add 0.25\n~q: ~p >> mul ~r\n~r: ~q >> add 0.5\no: ~r\nx: ~p",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}

fn with_samples<const N: usize>(sr: usize) -> glicol::Engine<N> {
    let mut e = engine::<N>(sr);
    e.add_sample("\\s", &[1.0, -0.5, 0.25, 0.75], 1, sr);
    e.add_sample("\\t", &[0.3, -0.3, 0.2, 0.1, 0.6, 0.4], 2, sr / 2);
    e
}

pub fn c11(c: &'static Ctx) -> i32 {
    let progs = everything();
    let twins = c.pick(4, 8);
    // same calls, separate engines
    let mut hist: Vec<Vec<String>> = progs.iter().map(|p| vec![p.clone()]).collect();
    for a in &progs {
        for b in &progs {
            hist.push(vec![a.clone(), b.clone()]);
        }
    }
    hist.extend(words(&progs, 3));
    if c.thorough() {
        // the programs with several chains stand last
        hist.extend(words(&progs[progs.len() - 18..], 4));
    }
    c.par(&hist, |h| {
        let key = h.join(" => ").replace('\n', "; ");
        c.case(&key, || {
            let run = || -> Result<Out, String> {
                let mut e = with_samples::<16>(64);
                let mut o: Out = (vec![], vec![]);
                for p in h {
                    upd(&mut e, p)?;
                    let r = render(&mut e, 3);
                    e.set_bpm(90.0);
                    e.send_msg("o,0,0,2.5;~a,0,0,3;~b,1,0,0.2");
                    let s = render(&mut e, 3);
                    e.set_seed(9);
                    let inp: Vec<f32> = (0..16).map(|i| (i % 5) as f32 * 0.25).collect();
                    let t = blk_in(&mut e, &inp, &inp);
                    c.steps(10);
                    o.0.extend(r.0.into_iter().chain(s.0).chain(t.0));
                    o.1.extend(r.1.into_iter().chain(s.1).chain(t.1));
                }
                Ok(o)
            };
            let first = run()?;
            for k in 1..twins {
                let r = run()?;
                same(&r, &first, &format!("twin {k}"))?;
            }
            let mut f = Fp::new();
            first.0.iter().chain(&first.1).for_each(|v| {
                f.f(*v);
            });
            c.state(f.get());
            Ok(f.get())
        });
    });
    // all declaration orders
    c.par(&progs, |p| {
        let lines: Vec<&str> = p.split('\n').collect();
        let mut first: Option<Out> = None;
        for o in permutations(lines.len()) {
            let q: String = o.iter().map(|i| lines[*i]).collect::<Vec<_>>().join("\n");
            let got = guard(|| -> Result<Out, String> {
                let mut e = with_samples::<16>(64);
                upd(&mut e, &q)?;
                c.steps(8);
                Ok(render(&mut e, 8))
            });
            let key = format!("order: {}", q.replace('\n', "; "));
            c.case(&key, || {
                let got = got.map_err(|e| format!("panic: {e}"))??;
                let r = match &first {
                    None => Ok(()),
                    Some(f) => near(&got, f, 2e-6, "another declaration order"),
                };
                let mut f = Fp::new();
                got.0.iter().chain(&got.1).for_each(|v| {
                    f.f(*v);
                });
                if first.is_none() {
                    first = Some(got);
                }
                r.map(|_| f.get())
            });
        }
    });
    // chains that add nothing: they move the others about in every table
    let mut more: Vec<(String, usize)> = progs.iter().flat_map(|p| (1..=c.pick(40, 120)).map(move |k| (p.clone(), k))).collect();
    // a loop heard at two places, under every pair of names
    for (a, b) in words(&["a", "b", "d", "h", "k", "o", "p", "q", "s", "t", "v", "z"], 2).into_iter().map(|w| (w[0], w[1])) {
        if a != b {
            for k in [1, 3, 6, 13, 27, 55] {
                more.push((format!("~m: ~n >> add 1\n~n: ~m >> mul 0.5\n{a}: ~m\n{b}: ~n"), k));
                more.push((format!("~{a}m: ~{b}m >> add 1\n~{b}m: ~{a}m >> mul 0.5\n~t{a}: ~{a}m\n~t{b}: ~{b}m\no: mix ~t.."), k));
            }
        }
    }
    c.par(&more, |(p, k)| {
        let key = format!("{k} more: {}", p.replace('\n', "; "));
        c.case(&key, || {
            let run = |q: &str| -> Result<Out, String> {
                let mut e = with_samples::<16>(64);
                upd(&mut e, q)?;
                c.steps(8);
                Ok(render(&mut e, 8))
            };
            let alone = run(p)?;
            let mut f = Fp::new();
            for (sign, place) in [("~y", 0), ("~y", 1), ("y", 0), ("y", 1)] {
                let extra: Vec<String> = (0..*k).map(|i| format!("{sign}{i}: sig 0")).collect();
                let q = if place == 0 { format!("{p}\n{}", extra.join("\n")) } else { format!("{}\n{p}", extra.join("\n")) };
                let got = run(&q)?;
                near(&got, &alone, 2e-6, &format!("with {k} silent chains {sign}0, ..."))?;
                got.0.iter().chain(&got.1).for_each(|v| {
                    f.f((v * 1000.0).round());
                });
            }
            Ok(f.get())
        });
    });
    c.finish(
        "model_checking",
        "every history of up to 3 programs of the pool (thorough: and of 4 of its second half), executed on several engines of one process, every declaration order of every program, and every program next to 1 to 40 (120) silent chains; states = distinct rendered streams",
        &["engines are compared bit for bit, declaration orders within 2e-6, because the order of float additions is not part of the property"],
        true,
    )
}

// ---------------------------------------------------------------- C12

pub fn c12(c: &'static Ctx) -> i32 {
    let mut progs: Vec<String> = everything().into_iter().take(29).filter(|p| !p.contains("choose") && !p.contains("plate")).collect();
    progs.push("o: speed 2 >> seq 60_ _60 67 >> delayn 5 >> envperc 0.03 0.2".into());
    progs.push("~t: speed 2 >> seq 60 _60 _\no: ~t >> sawsynth 0.0005 0.001".into());
    progs.push("~a: sin 3\no: saw 5 >> delayms ~b\n~b: ~a >> mul 20 >> add 30".into());
    progs.push("~a: sin 3 >> mul 20 >> add 30\no: saw 5 >> apfmsgain ~a 0.5".into());
    progs.push("o: saw 5 >> onepole ~a\n~a: sin 2 >> mul 0.05 >> add 0.1".into());
    progs.push("o: noise 5 >> lpf \"3@0.0 9@0.25 5@0.5\"(1) 1".into());
    progs.push("~a: sin 2\no: tri ~b\n~b: ~a >> mul 3 >> add 5\np: squ ~b >> pan ~a".into());
    progs.push("o: [0 => 0.0, 1/8 => 1.0, 1/4 - 20_ms => -0.5, 3/4 => 0.25]*2".into());
    progs.push("o: seq 60 ~a ~b_~a\n~a: saw 3 >> mul 12 >> add 60\n~b: sig 72".into());
    progs.push("o: msgsynth \\saw 0.05 0.2".into());
    progs.push("~a: imp 3\no: ~a >> adsr 0.05 0.03 0.5 0.25\np: seq 60 60 >> delayn 130".into());
    {
        let src = ["sin 3", "saw 2.5", "noise 4", "seq 60 _ 67_48", "imp 5", "tri 1.3 >> pan 0.4", "~input"];
        let fx = ["mul 0.5", "delayn 7", "delayms 70", "envperc 0.06 0.1", "lpf 8 1", "hpf 5 1", "onepole 0.1", "apfmsgain 45 0.4", "pan -0.5", "adsr 0.02 0.03 0.5 0.06", "sin 2", "eval `in*0.5 + 0.1`"];
        for s in src {
            for w in words_upto(&fx, 1, c.pick(2, 3)) {
                progs.push(format!("o: {s} >> {}", w.join(" >> ")));
            }
        }
    }
    // what is done after 256 frames, a whole number of blocks for half of the sizes
    const EVENTS: [&str; 5] = ["nothing", "a message", "a tempo", "an update", "a refused update"];
    fn stream<const N: usize>(p: &str, total: usize, event: usize) -> Result<Out, String> {
        let mut e = with_samples::<N>(64);
        upd(&mut e, p)?;
        if p.contains("msgsynth") {
            e.send_msg("o,0,3,0.125=>60;o,0,3,0.5=>67");
        }
        let mut o: Out = (vec![], vec![]);
        for k in 0..total.div_ceil(N) {
            if k * N == 256 {
                match event {
                    1 => e.send_msg("o,0,0,4;~a,0,0,2;o,1,0,0.25"),
                    2 => e.set_bpm(240.0),
                    3 => upd(&mut e, &format!("~zz: saw 3\n{p}\nzy: tri 2 >> delayn 9 >> add ~zz"))?,
                    4 => {
                        if e.update_with_code("o: saw 5 >> mul ~nope").is_ok() {
                            return Err("a missing reference was accepted".into());
                        }
                    }
                    _ => (),
                }
            }
            // live input that does not know about blocks
            let i: Vec<f32> = (k * N..k * N + N).map(|t| ((t * t + 3 * t) % 17) as f32 / 16.0 * ((t / 5) % 3) as f32).collect();
            let b = blk_in(&mut e, &i, &i);
            o.0.extend(b.0);
            o.1.extend(b.1);
        }
        o.0.truncate(total);
        o.1.truncate(total);
        Ok(o)
    }
    let sizes: Vec<(usize, fn(&str, usize, usize) -> Result<Out, String>)> = vec![
        (1, stream::<1>),
        (3, stream::<3>),
        (4, stream::<4>),
        (5, stream::<5>),
        (7, stream::<7>),
        (8, stream::<8>),
        (16, stream::<16>),
        (32, stream::<32>),
        (60, stream::<60>),
        (64, stream::<64>),
        (100, stream::<100>),
        (128, stream::<128>),
        (129, stream::<129>),
        (256, stream::<256>),
    ];
    let total = c.pick(640, 1600);
    c.note("programs", progs.len());
    c.par(&progs, |p| {
        let bases: Vec<_> = (0..EVENTS.len()).map(|ev| guard(|| stream::<2>(p, total, ev))).collect();
        for (n, f, ev) in sizes.iter().flat_map(|(n, f)| (0..EVENTS.len()).map(move |ev| (n, f, ev))) {
            if ev > 0 && 256 % n != 0 {
                continue;
            }
            let base = &bases[ev];
            // a speed signal is carried by the first two samples of a block
            if *n == 1 && (p.contains("speed") || p.contains("seq")) {
                continue;
            }
            let key = format!("block size {n}: {}, then {}", p.replace('\n', "; "), EVENTS[ev]);
            c.case(&key, || {
                let b = base.as_ref().map_err(|e| format!("panic: {e}"))?.as_ref().map_err(|e| e.clone())?;
                let g = f(p, total, ev)?;
                c.steps(total.div_ceil(*n) as u64);
                near(&g, b, 2e-5, &format!("block size {n} compared with 2"))?;
                let mut h = Fp::new();
                g.0.iter().chain(&g.1).for_each(|v| {
                    h.f(*v);
                });
                c.state(h.get());
                Ok(h.get())
            });
        }
    });
    c.finish(
        "model_checking",
        "every program of the pool, with live input, rendered at every block size of the list, undisturbed and (where 256 frames are whole blocks) with a message, tempo change, update or refused update after 256 frames; the streams must coincide with the one rendered in blocks of 2; states = distinct streams",
        &["comparison within 2e-5"],
        true,
    )
}

// ---------------------------------------------------------------- C32

#[derive(Clone, Copy)]
enum In {
    Prog(usize),
    Stereo(usize),
    Mono(usize),
    None,
}

pub fn c32(c: &'static Ctx) -> i32 {
    let progs: Vec<Prog> = vec![
        Prog::new(&[("o", &[Get("~input")])]),
        Prog::new(&[("o", &[Get("~input"), Mul(P::N(0.5))])]),
        Prog::new(&[("o", &[Sig(1.0), Mul(P::R("~input"))])]),
        Prog::new(&[("o", &[Mix(vec!["~input", "~a"])]), ("~a", &[Sig(2.0)])]),
        Prog::new(&[("o", &[Balance("~a", "~input")]), ("~a", &[Get("~input"), Add(P::N(1.0))])]),
        Prog::new(&[("o", &[Get("~input"), Delayn(3)]), ("p", &[Get("~input")])]),
        Prog::new(&[("o", &[Arrange(vec![("~input", 0.03125), ("~a", 0.03125)])]), ("~a", &[Sig(2.0)])]),
        Prog::new(&[("o", &[Mix(vec!["~in.."])])]),
        Prog::new(&[("o", &[Sig(4.0)])]),
        Prog::new(&[("o", &[Get("~input"), Add(P::R("~input"))])]),
        Prog::new(&[("~input", &[Sig(3.0)]), ("o", &[Get("~input")])]),
        Prog::new(&[("o", &[Saw(P::R("~input"))])]),
        Prog::new(&[("o", &[Get("~input"), EnvPerc(0.0625, 0.0625)])]),
    ];
    let shapes: [([f32; 4], [f32; 4]); 4] = [
        ([1.0, 0.5, 0.25, 0.125], [-1.0, -0.5, -0.25, -0.125]),
        ([0.0, 0.0, 2.0, 0.0], [1.0, 2.0, 3.0, 4.0]),
        ([-3.0, 3.0, -2.0, 2.0], [0.0, 0.0, 0.0, 8.0]),
        ([0.0; 4], [0.0; 4]),
    ];
    let mut al: Vec<In> = (0..progs.len()).map(In::Prog).collect();
    al.extend((0..shapes.len()).map(In::Stereo));
    al.push(In::Mono(1));
    al.push(In::Mono(2));
    al.push(In::None);
    let len = c.pick(4, 5);
    let ws: Vec<Vec<In>> = words_upto(&al, 1, len);
    c.par(&ws, |w| {
        if w.len() == 5 && !matches!(w[0], In::Prog(_)) {
            return;
        }
        let key = w
            .iter()
            .map(|o| match o {
                In::Prog(i) => format!("p{i}"),
                In::Stereo(i) => format!("s{i}"),
                In::Mono(i) => format!("m{i}"),
                In::None => "n".into(),
            })
            .collect::<Vec<_>>()
            .join(" ");
        c.case(&key, || {
            let mut p = Pair::<4>::new(64, 1e-5);
            let mut f = Fp::new();
            for (i, o) in w.iter().enumerate() {
                c.steps(1);
                match o {
                    In::Prog(k) => p.update(&progs[*k])?,
                    In::Stereo(k) => p.block_in(&shapes[*k].0, &shapes[*k].1, &mut f).map_err(|e| format!("call {i}: {e}"))?,
                    In::Mono(k) => {
                        let b = p.e.next_block(vec![&shapes[*k].0]);
                        let o = (b[0].to_vec(), b[1].to_vec());
                        for i in 0..4 {
                            p.m.input.b[0][i] = shapes[*k].0[i] as f64;
                        }
                        let r = p.m.block();
                        matches(&o, &r, 1e-5, &format!("call {i}"))?;
                    }
                    In::None => p.block(&mut f).map_err(|e| format!("call {i}: {e}"))?,
                }
                c.state(p.m.state_fp());
            }
            p.block_in(&shapes[0].0, &shapes[1].1, &mut f).map_err(|e| format!("last block: {e}"))?;
            Ok(f.get())
        });
    });
    c.finish(
        "model_checking",
        "every word of up to 4 (5) calls over 13 programs, 4 stereo blocks, 2 mono blocks and a block without input, against the reference interpreter; states = distinct reference states",
        &["a channel that is not handed in keeps its previous block"],
        true,
    )
}
