//! Live editing: what an update keeps, replaces and refuses.

use crate::lang::Nd::*;
use crate::lang::*;
use crate::model::{lcs, Model};
use super::route::{LOUD, MANY};
use crate::rig::*;
use crate::util::*;
use glicol::Engine;

fn wav() -> &'static [f32] {
    &[1.0, -0.5, 0.25, 0.75, -1.0, 0.5, 0.125, -0.25]
}

#[derive(Clone, Copy, PartialEq)]
enum Op {
    Good(usize),
    Bad(usize),
    Msg(usize),
    Blk,
}

const GOOD: &[&str] = &[
    "o: sig 1",
    "o: sin 4 >> mul 0.5",
    "o: saw 2 >> mul ~a\n~a: tri 3 >> add 1",
    "~a: imp 8\no: ~a >> delayn 3 >> mul 0.5",
    "o: imp 8 >> sp \\s >> mul 0.5",
    "o: seq 60 _ ~a >> envperc 0.1 0.2\n~a: sig 67",
    "o: sin 4 >> mul 0.5\np: noise 7 >> lpf 8 1",
    "o: mul 0.5",
    "~a: sig 2\n~ab: sig 3\no: mix ~a..",
    "~t: speed 2 >> seq 60\no: ~t >> adsr 0.1 0.1 0.5 0.2\n~z: sin 1",
    "o: psampler \"\\s@0.0 \\s@0.5\"(1)",
    "o: arrange ~a 1 ~b 0.5\n~a: saw 1\n~b: squ 2",
    "o: ~input >> add 0.5",
];
const BAD: &[&str] = &[
    "o: sin",
    "o: sin 4 >> mul 0.5\np: bogus 3",
    "o: sin 4 >> mul ~zz",
    "o: saw 2 >> mul ~a",
    "p: sig 9\no: saw 2 >> mul ~q1 >> delayn 2\n~a: tri 3",
    "o: imp 8 >> sp \\nosuch",
    "~a: sig 5\no: psampler \"\\s@0.0 \\nosuch@0.5\"(1)",
    "o: mix ~zz..",
    "o: seq 60 _ ~z >> envperc 0.1 0.2",
    "o: mul 0.5 >> sin 4 >> balance ~a ~zz\n~a: imp 8",
    "x: noise 3\no: arrange ~a 1 ~c 0.5\n~a: saw 1\n~b: squ 2",
    "o: adc 1",
    "o: sig 1 >> lpf \"400@0.0\" 1\n~a: sig 1",
    "o:",
    "~a: sig 67\no: seq 60 _ ~a >> envperc 0.1 0.2 >> sp \\nosuch",
];
const MSG: &[&str] = &["o,0,0,2", "o,1,0,0.25;~a,0,0,5"];

fn apply(e: &mut Engine<16>, o: Op, out: &mut Vec<Out>) -> Result<(), String> {
    match o {
        Op::Good(i) => upd(e, GOOD[i])?,
        Op::Bad(i) => match e.update_with_code(BAD[i]) {
            Ok(()) => return Err(format!("{:?} was accepted", BAD[i])),
            Err(_) => {}
        },
        Op::Msg(i) => e.send_msg(MSG[i]),
        Op::Blk => out.push(blk(e)),
    }
    Ok(())
}

pub fn c01(c: &'static Ctx) -> i32 {
    let mut al: Vec<Op> = (0..GOOD.len()).map(Op::Good).collect();
    al.extend((0..BAD.len()).map(Op::Bad));
    al.extend((0..MSG.len()).map(Op::Msg));
    al.push(Op::Blk);
    let show = |w: &[Op]| {
        w.iter()
            .map(|o| match o {
                Op::Good(i) => format!("g{i}"),
                Op::Bad(i) => format!("b{i}"),
                Op::Msg(i) => format!("m{i}"),
                Op::Blk => "blk".into(),
            })
            .collect::<Vec<_>>()
            .join(" ")
    };
    let len = c.pick(3, 4);
    let ws: Vec<Vec<Op>> = words_upto(&al, 1, len)
        .into_iter()
        .filter(|w| w.iter().any(|o| matches!(o, Op::Bad(_))))
        // the first refusal in an empty engine is covered by the short words
        .filter(|w| w.len() < 4 || matches!(w[0], Op::Good(_)))
        .collect();
    c.note("operations", al.len());
    c.note("max_history_length", len + 5);
    // long histories: one or all refused updates over and over
    let many: Vec<(usize, Option<usize>, usize)> =
        (0..GOOD.len()).flat_map(|g| (0..=BAD.len()).flat_map(move |b| [6usize, 40, 150].map(move |k| (g, (b < BAD.len()).then_some(b), k)))).collect();
    c.par(&many, |(g, b, k)| {
        let what = b.map_or("every bad".into(), |b| format!("b{b}"));
        c.case(&format!("g{g}, then {k} times {what}, then the others"), || {
            let run = |skip: bool| -> Result<Vec<Out>, String> {
                let mut e = engine::<16>(64);
                e.add_sample("\\s", wav(), 1, 64);
                let mut out = vec![];
                apply(&mut e, Op::Good(*g), &mut out)?;
                for i in 0..*k {
                    if !skip {
                        apply(&mut e, Op::Bad(b.unwrap_or(i % BAD.len())), &mut out)?;
                    }
                    if i % 4 == 3 {
                        apply(&mut e, Op::Blk, &mut out)?;
                    }
                }
                apply(&mut e, Op::Msg(0), &mut out)?;
                out.push(render(&mut e, 1));
                for t in 0..GOOD.len() {
                    apply(&mut e, Op::Good((g + t) % GOOD.len()), &mut out)?;
                    out.push(render(&mut e, 2));
                }
                c.steps(*k as u64 + 20);
                Ok(out)
            };
            let (a, b) = (run(false)?, run(true)?);
            if a.len() != b.len() {
                return Err("block counts differ".into());
            }
            let mut f = Fp::new();
            for (i, (x, y)) in a.iter().zip(&b).enumerate() {
                near(x, y, 1e-6, &format!("output {i} with and without the refused updates"))?;
                x.0.iter().chain(&x.1).for_each(|v| _ = f.f(*v));
            }
            c.state(f.get());
            Ok(f.get())
        });
    });
    c.par(&ws, |w| {
        // each history is prolonged by every good program, so that what a
        // refused update left behind can show in the next accepted one
        let tails: Vec<usize> = if w.len() >= 3 { vec![2, 5, 8] } else { (0..GOOD.len()).collect() };
        for t in tails {
            let key = format!("{} blk g{t}", show(w));
            c.case(&key, || {
                let run = |skip: bool| -> Result<Vec<Out>, String> {
                    let mut e = engine::<16>(64);
                    e.add_sample("\\s", wav(), 1, 64);
                    let mut out = vec![];
                    for o in w {
                        if skip && matches!(o, Op::Bad(_)) {
                            continue;
                        }
                        apply(&mut e, *o, &mut out)?;
                        c.steps(1);
                    }
                    out.push(render(&mut e, 2));
                    apply(&mut e, Op::Msg(0), &mut out)?;
                    out.push(render(&mut e, 1));
                    apply(&mut e, Op::Good(t), &mut out)?;
                    out.push(render(&mut e, 3));
                    c.steps(6);
                    Ok(out)
                };
                let a = run(false)?;
                let b = run(true)?;
                if a.len() != b.len() {
                    return Err("block counts differ".into());
                }
                let mut f = Fp::new();
                for (i, (x, y)) in a.iter().zip(&b).enumerate() {
                    near(x, y, 1e-6, &format!("output {i} with and without the refused updates"))?;
                    x.0.iter().chain(&x.1).for_each(|v| {
                        f.f(*v);
                    });
                }
                c.state(f.get());
                Ok(f.get())
            });
        }
    });
    c.finish(
        "model_checking",
        "every word over the operation alphabet up to the length bound that contains a refused update, run on two engines, one of which never sees the refused updates; states = distinct observed output streams",
        &["float sums compared within 1e-6 because the engine adds chains in hash order"],
        true,
    )
}

// ---------------------------------------------------------------- C02

/// All chains of the memoryless alphabet up to `n` nodes.
fn memoryless(n: usize) -> Vec<Chain> {
    let a = [
        Sig(1.0),
        Sig(0.5),
        Mul(P::N(2.0)),
        Add(P::N(1.0)),
        Mul(P::N(3.0)),
        Delayn(0),
    ];
    words_upto(&a, 1, n)
}
fn memoryless_refs() -> Vec<Prog> {
    let o: Vec<Chain> = vec![
        vec![Sig(1.0), Mul(P::R("~a"))],
        vec![Sig(1.0), Add(P::R("~b")), Mul(P::R("~a"))],
        vec![Sig(1.0), Mul(P::R("~a")), Add(P::R("~b"))],
        vec![Get("~a"), Mul(P::N(2.0))],
        vec![Mix(vec!["~a", "~b"])],
        vec![Mix(vec!["~a.."]), Add(P::R("~a"))],
        vec![Balance("~a", "~b"), Mul(P::R("~b"))],
        vec![Balance("~b", "~a")],
        vec![Sig(1.0), Mul(P::R("p"))],
    ];
    let a: Vec<Chain> = vec![
        vec![Sig(2.0)],
        vec![Sig(2.0), Mul(P::N(4.0))],
        vec![Sig(4.0), Add(P::R("~b"))],
        vec![Mul(P::N(4.0)), Sig(2.0)],
    ];
    let b: Vec<Option<Chain>> = vec![
        None,
        Some(vec![Sig(8.0)]),
        Some(vec![Sig(8.0), Add(P::N(16.0))]),
        Some(vec![Get("~ab")]),
    ];
    let extra: Vec<Vec<(&'static str, Chain)>> = vec![
        vec![],
        vec![("~ab", vec![Sig(32.0)])],
        vec![("p", vec![Sig(64.0)])],
    ];
    let mut v = vec![];
    for o in &o {
        for a in &a {
            for b in &b {
                for x in &extra {
                    let mut p = vec![("o", o.clone()), ("~a", a.clone())];
                    if let Some(b) = b {
                        p.push(("~b", b.clone()));
                    }
                    p.extend(x.clone());
                    let p = Prog(p);
                    let mut m = Model::new(4);
                    m.update(&p);
                    let ok = p.0.iter().flat_map(|(_, ch)| ch.iter().flat_map(|n| n.refs())).all(|r| !m.names_for(r).is_empty());
                    if ok && !m.has_cycle() {
                        v.push(p);
                    }
                }
            }
        }
    }
    v
}

fn c02_case(c: &Ctx, hist: &[&Prog], inter: usize) {
    let key = hist.iter().map(|p| p.text().replace('\n', "; ")).collect::<Vec<_>>().join(" => ");
    let key = format!("{key} /{inter}");
    c.case(&key, || {
        let mut f = Fp::new();
        let mut e = engine::<8>(64);
        let (last, before) = hist.split_last().unwrap();
        for p in before {
            upd(&mut e, &p.text())?;
            render(&mut e, inter);
            c.steps(1);
        }
        upd(&mut e, &last.text())?;
        let got = render(&mut e, 3);
        c.steps(1);
        let mut fresh = engine::<8>(64);
        upd(&mut fresh, &last.text())?;
        let want = render(&mut fresh, 3);
        same(&got, &want, "after the history, compared with a fresh engine")?;
        let mut m = Model::new(8);
        m.update(last);
        for k in 0..3 {
            let r = m.block();
            let part = (got.0[k * 8..k * 8 + 8].to_vec(), got.1[k * 8..k * 8 + 8].to_vec());
            matches(&part, &r, 1e-6, &format!("block {k} compared with the reference"))?;
        }
        got.0.iter().chain(&got.1).for_each(|v| {
            f.f(*v);
        });
        c.state(fp_str(&last.text()));
        Ok(f.get())
    });
}

/// A chain with one place changed, in every way: a node put in, taken out or
/// replaced, a stretch taken out, doubled or turned around, two nodes swapped.
fn one_change(base: &Chain, ins: &[Nd]) -> Vec<Chain> {
    let n = base.len();
    let mut v = vec![];
    for i in 1..=n {
        for x in ins {
            let mut ch = base.clone();
            ch.insert(i, x.clone());
            v.push(ch);
            if i < n {
                let mut ch = base.clone();
                ch[i] = x.clone();
                v.push(ch);
            }
        }
        for j in i + 1..=n {
            let mut ch = base.clone();
            ch.drain(i..j);
            v.push(ch);
            let mut ch = base.clone();
            ch[i..j].reverse();
            v.push(ch);
        }
        for j in i + 1..n {
            let mut ch = base.clone();
            ch.swap(i, j);
            v.push(ch);
            for x in &ins[..1] {
                let mut ch = base.clone();
                ch.insert(j, x.clone());
                ch.insert(i, ins[ins.len() - 1].clone());
                v.push(ch);
            }
        }
    }
    v
}

/// Long chains as the loud one, as one that is referred to, and among others.
fn in_places(ch: &Chain) -> Vec<Prog> {
    vec![
        Prog(vec![("o", ch.clone())]),
        Prog(vec![("o", vec![Sig(0.5), Mul(P::R("~ra"))]), ("~ra", ch.clone())]),
        Prog(vec![("~rb", vec![Sig(0.25)]), ("o", vec![Mix(vec!["~ra", "~rb"]), Add(P::N(0.5))]), ("~ra", ch.clone()), ("p", vec![Get("~ra"), Mul(P::N(2.0))])]),
    ]
}

/// Programs of `n` chains with one of them missing, changed or moved.
fn one_chain_changed(n: usize, src: &dyn Fn(usize) -> Chain, other: &Chain) -> (Prog, Vec<Prog>) {
    let names: Vec<&'static str> = (0..n).map(|k| if k % 2 == 0 { LOUD[k] } else { MANY[k] }).collect();
    let mut base: Vec<(&'static str, Chain)> = names.iter().enumerate().map(|(k, r)| (*r, src(k))).collect();
    base.push(("o", vec![Mix(names.clone()), Mul(P::N(0.5))]));
    let mut v = vec![];
    for k in 0..n {
        let mut q = base.clone();
        q[k].1 = other.clone();
        v.push(Prog(q));
        let mut q = base.clone();
        q.remove(k);
        let rest: Vec<&'static str> = names.iter().enumerate().filter(|x| x.0 != k).map(|x| *x.1).collect();
        if !rest.is_empty() {
            q.last_mut().unwrap().1[0] = Mix(rest);
            v.push(Prog(q));
        }
        let mut q = base.clone();
        let x = q.remove(k);
        q.push(x);
        v.push(Prog(q));
        let mut q = base.clone();
        q[k].1 = vec![Get(names[(k + 1) % n]), Mul(P::N(0.25))];
        if n > 1 {
            v.push(Prog(q));
        }
    }
    (Prog(base), v)
}

pub fn c02(c: &'static Ctx) -> i32 {
    // long chains and many chains, changed in one place, and back
    let ins = [Add(P::N(7.0)), Mul(P::N(-0.5)), Pan(P::N(0.5))];
    let mut jobs: Vec<(Prog, Prog)> = vec![];
    for n in 2..=c.pick(12, 16) {
        let base: Chain = (0..n).map(|k| if k == 0 { Sig(0.5) } else if k % 2 == 1 { Add(P::N(k as f32)) } else { Mul(P::N(1.0 - k as f32 * 0.125)) }).collect();
        let mut to = one_change(&base, &ins);
        to.push([vec![Sig(2.0)], base[1..].to_vec()].concat());
        to.push(base[1..].to_vec());
        to.push([vec![Sig(2.0)], base.clone()].concat());
        to.push([base.clone(), base.clone()].concat());
        for t in to {
            jobs.extend(in_places(&base).into_iter().zip(in_places(&t)));
        }
        let (p, qs) = one_chain_changed(n, &|k| vec![Sig(0.25 * k as f32 + 1.0), Mul(P::N(0.5))], &vec![Sig(3.0), Mul(P::N(0.5))]);
        jobs.extend(qs.into_iter().map(|q| (p.clone(), q)));
    }
    c.note("large_edits", jobs.len());
    c.par_n(jobs.len(), |i| {
        let (p, q) = &jobs[i];
        c02_case(c, &[p, q], 1);
        c02_case(c, &[q, p], 0);
        c02_case(c, &[p, q, p], 1);
    });
    let one = |ch: &Chain| Prog(vec![("o", ch.clone())]);
    let single: Vec<Prog> = memoryless(3).iter().map(one).collect();
    let n = single.len();
    c.note("single_chain_programs", n);
    c.par_n(n * n, |i| c02_case(c, &[&single[i / n], &single[i % n]], 1));
    // three in a row on shorter chains
    let small: Vec<Prog> = memoryless(2).iter().map(one).collect();
    let k = small.len();
    c.par_n(k * k * k, |i| c02_case(c, &[&small[i / (k * k)], &small[i / k % k], &small[i % k]], 1));
    let refs = memoryless_refs();
    let r = refs.len();
    c.note("programs_with_references", r);
    c.par_n(r * r, |i| c02_case(c, &[&refs[i / r], &refs[i % r]], 1));
    // coming from and going to one-chain programs, and without rendering in between
    c.par_n(r * k, |i| {
        let (a, b) = (&refs[i / k], &small[i % k]);
        c02_case(c, &[a, b, a], 1);
        c02_case(c, &[b, a, b], 0);
    });
    if c.thorough() {
        let l: Vec<Prog> = memoryless(4).iter().map(one).collect();
        let q = l.len();
        c.par_n(q * q, |i| c02_case(c, &[&l[i / q], &l[i % q]], 1));
        let step = 5;
        let some: Vec<&Prog> = refs.iter().step_by(step).collect();
        let s = some.len();
        c.par_n(s * s * s, |i| c02_case(c, &[some[i / (s * s)], some[i / s % s], some[i % s]], 1));
    }
    c.finish(
        "model_checking",
        "all pairs (and triples of the shorter ones) of memoryless programs as update histories; states = distinct final programs, the reference and a fresh engine must both agree with the edited engine",
        &[],
        true,
    )
}

// ---------------------------------------------------------------- C03

/// Number of different longest in-order matchings, to leave out edits where it
/// is a matter of taste which of several equal nodes was kept.
fn unambiguous(a: &[Nd], b: &[Nd]) -> bool {
    let best = lcs(a, b).len();
    let mut sets: Vec<Vec<(usize, usize)>> = vec![];
    fn go(a: &[Nd], b: &[Nd], i: usize, j: usize, cur: &mut Vec<(usize, usize)>, best: usize, out: &mut Vec<Vec<(usize, usize)>>) {
        if cur.len() == best {
            if !out.contains(cur) {
                out.push(cur.clone());
            }
            return;
        }
        for x in i..a.len() {
            for y in j..b.len() {
                if a[x] == b[y] {
                    cur.push((x, y));
                    go(a, b, x + 1, y + 1, cur, best, out);
                    cur.pop();
                }
            }
        }
    }
    go(a, b, 0, 0, &mut vec![], best, &mut sets);
    sets.len() == 1
}

fn c03_case(c: &Ctx, hist: &[&Prog], blocks: &[usize]) {
    for w in hist.windows(2) {
        for (n, ch) in &w[1].0 {
            if let Some((_, old)) = w[0].0.iter().find(|x| x.0 == *n) {
                if !unambiguous(old, ch) {
                    return;
                }
            }
        }
    }
    let key = hist.iter().map(|p| p.text().replace('\n', "; ")).collect::<Vec<_>>().join(" => ");
    let key = format!("{key} /{blocks:?}");
    c.case(&key, || {
        let mut p = Pair::<8>::new(64, 1e-4);
        p.sample("\\s", (wav(), 1, 64));
        let mut f = Fp::new();
        for (i, q) in hist.iter().enumerate() {
            p.update(q).map_err(|e| format!("step {i}: {e}"))?;
            c.steps(1);
            c.state(p.m.state_fp());
            p.blocks(blocks[i], &mut f).map_err(|e| format!("after program {i}: {e}"))?;
            c.steps(blocks[i] as u64);
            c.state(p.m.state_fp());
        }
        Ok(f.get())
    });
}

/// Playback speed taken from a rounded value: the last sample of the sound may
/// or may not be reached.
fn rounding(ch: &[Nd]) -> bool {
    if ch.iter().filter(|n| matches!(n, Sp(_))).count() > 1 {
        return true;
    }
    match ch.iter().rposition(|n| matches!(n, Sp(_))) {
        Some(p) => ch[..p].iter().any(|n| matches!(n, Lpf(..) | Onepole(_) | Noise(_) | EnvPerc(..))),
        None => false,
    }
}

pub fn c03(c: &'static Ctx) -> i32 {
    // long chains and many chains, changed in one place, and back
    let ins = [Delayn(7), Onepole(P::N(0.03)), Add(P::N(0.5))];
    let mut jobs: Vec<(Prog, Prog)> = vec![];
    for n in 2..=c.pick(11, 13) {
        let base: Chain = (0..n)
            .map(|k| match k % 4 {
                0 if k == 0 => Saw(P::N(3.0)),
                1 => Delayn(k),
                2 => Onepole(P::N(0.05 * k as f32)),
                3 => Add(P::N(k as f32 * 0.25)),
                _ => EnvPerc(0.125, 0.0625 * k as f32),
            })
            .collect();
        let mut to = one_change(&base, &ins);
        to.push([vec![Imp(8.0)], base[1..].to_vec()].concat());
        for t in to {
            jobs.extend(in_places(&base).into_iter().zip(in_places(&t)));
        }
        let (p, qs) = one_chain_changed(n, &|k| vec![Saw(P::N(1.0 + k as f32)), Delayn(k + 1), Add(P::N(0.25))], &vec![Tri(P::N(2.0)), Delayn(3)]);
        jobs.extend(qs.into_iter().map(|q| (p.clone(), q)));
    }
    c.note("large_edits", jobs.len());
    c.par_n(jobs.len(), |i| {
        let (p, q) = &jobs[i];
        c03_case(c, &[p, q], &[3, 4]);
        c03_case(c, &[q, p], &[2, 3]);
        c03_case(c, &[p, q, p], &[2, 1, 3]);
    });
    // one chain: source, then stateful processors, in every arrangement
    let src = [Saw(P::N(3.0)), Imp(8.0), Noise(5), Seq(vec![vec![Note::M(60), Note::Rest], vec![Note::M(72)]]), Sig(0.5)];
    let fx = [
        Delayn(5),
        Onepole(P::N(0.05)),
        EnvPerc(0.125, 0.25),
        Mul(P::N(0.5)),
        Lpf(P::N(8.0), 1.0),
        Sp("\\s"),
    ];
    let mut chains: Vec<Chain> = vec![];
    for s in &src {
        for w in words_upto(&fx, 0, 2) {
            let mut ch = vec![s.clone()];
            ch.extend(w);
            if !rounding(&ch) {
                chains.push(ch);
            }
        }
    }
    let progs: Vec<Prog> = chains.iter().map(|x| Prog(vec![("o", x.clone())])).collect();
    let n = progs.len();
    c.note("single_chain_programs", n);
    c.par_n(n * n, |i| c03_case(c, &[&progs[i / n], &progs[i % n]], &[3, 4]));

    // several chains edited independently: state survives in the others
    let oc: Vec<Chain> = vec![
        vec![Saw(P::N(3.0)), Mul(P::R("~a"))],
        vec![Saw(P::N(3.0)), Mul(P::R("~a")), Delayn(3)],
        vec![Squ(P::R("~b")), Delayn(3)],
        vec![Imp(4.0), Adsr(0.0625, 0.0625, 0.5, 0.25), Mul(P::R("~b"))],
        vec![Seq(vec![vec![Note::M(60)], vec![Note::R("~a")], vec![Note::R("~b")], vec![Note::R("~a")]])],
        vec![Speed(2.0), Seq(vec![vec![Note::R("~a")], vec![Note::Rest], vec![Note::M(60)], vec![Note::R("~b")]])],
        vec![Mix(vec!["~a", "~b"]), Onepole(P::N(0.05))],
        vec![Arrange(vec![("~a", 0.25), ("~b", 0.25)])],
    ];
    let ac: Vec<Chain> = vec![
        vec![Tri(P::N(2.0)), Add(P::N(2.0))],
        vec![Tri(P::N(2.0)), Delayn(2), Add(P::N(2.0))],
        vec![Noise(9)],
        vec![Sin(P::N(5.0)), Mul(P::R("~b"))],
    ];
    let bc: Vec<Chain> = vec![
        vec![Saw(P::N(1.0)), Add(P::N(3.0))],
        vec![Sig(4.0), Add(P::N(3.0))],
        vec![Imp(16.0), EnvPerc(0.0625, 0.125)],
    ];
    let mut multi = vec![];
    for o in &oc {
        for a in &ac {
            for b in &bc {
                multi.push(Prog(vec![("o", o.clone()), ("~a", a.clone()), ("~b", b.clone())]));
                multi.push(Prog(vec![("~b", b.clone()), ("~a", a.clone()), ("o", o.clone()), ("p", vec![Get("~a"), Delayn(1)])]));
            }
        }
    }
    let m = multi.len();
    c.note("programs_with_references", m);
    c.par_n(m * m, |i| c03_case(c, &[&multi[i / m], &multi[i % m]], &[2, 4]));
    // long histories: round and round between two or four programs
    let (rounds, step) = c.pick((40, 19), (200, 7));
    let some: Vec<&Prog> = multi.iter().step_by(step).chain(progs.iter().step_by(step)).collect();
    let ns = some.len();
    c.par_n(ns * ns * 2, |i| {
        let (a, b) = (i / 2 / ns, i / 2 % ns);
        let w: Vec<&Prog> = if i % 2 == 0 { vec![some[a], some[b]] } else { vec![some[a], some[b], some[(a + 1) % ns], some[(b + 2) % ns]] };
        let clear = (0..w.len()).all(|k| {
            let (p, q) = (w[k], w[(k + 1) % w.len()]);
            q.0.iter().all(|(n, ch)| p.0.iter().find(|x| x.0 == *n).map_or(true, |x| unambiguous(&x.1, ch)))
        });
        if !clear {
            return;
        }
        let key = w.iter().map(|p| p.text().replace('\n', "; ")).collect::<Vec<_>>().join(" => ");
        c.case(&format!("{rounds} times {key}"), || {
            let mut p = Pair::<8>::new(64, 1e-4);
            p.sample("\\s", (wav(), 1, 64));
            let mut f = Fp::new();
            for r in 0..rounds {
                for q in &w {
                    p.update(q).map_err(|e| format!("round {r}: {e}"))?;
                    p.blocks(1 + r % 2, &mut f).map_err(|e| format!("round {r}: {e}"))?;
                }
            }
            c.steps((rounds * w.len()) as u64);
            c.state(p.m.state_fp());
            Ok(f.get())
        });
    });
    // there and back again: what was removed starts fresh
    let step = c.pick(4, 1);
    let few: Vec<&Prog> = multi.iter().step_by(step).collect();
    let k = few.len();
    c.par_n(k * k, |i| c03_case(c, &[few[i / k], few[i % k], few[i / k]], &[2, 1, 4]));
    c.par_n(n * n, |i| c03_case(c, &[&progs[i / n], &progs[i % n], &progs[i / n]], &[2, 3, 3]));
    // every kind of node, and an update that does not concern it: the sound
    // goes on exactly as without the update
    let heads = ["imp 4", "speed 4", "saw 3 >> mul 2", "noise 5", "~r", "seq 60 _ 67_ 72"];
    let kinds = super::life::KEPT;
    let base = |k: &str, h: &str| format!("o: {h} >> {k}\n~r: sig 0.5\n~q: tri 2 >> add 2\n~u: sin 3 >> delayn 2");
    let edits: [fn(&str) -> String; 7] = [
        |b| format!("{b}\n~z: saw 3 >> mul ~r"),
        |b| b.replace("\n~u: sin 3 >> delayn 2", ""),
        |b| b.replace("~u: sin 3 >> delayn 2", "~u: sin 4 >> mul 3 >> delayn 2"),
        |b| format!("~b: imp 8 >> delayn 3\n{b}\n~z: mix ~r ~b"),
        |b| format!("  // {b}\n\n{b} ;").replacen('\n', " ", 3),
        |b| b.split('\n').rev().collect::<Vec<_>>().join("\n\n"),
        |b| format!("{b} >> mul ~q"),
    ];
    c.note("kinds_of_nodes_kept", kinds.len());
    let ats: &[usize] = c.pick(&[1, 5, 11], &[0, 1, 2, 3, 4, 5, 7, 11, 16, 17]);
    c.par_n(kinds.len() * heads.len() * edits.len(), |i| {
        let (k, h, ed) = (kinds[i / edits.len() / heads.len()], heads[i / edits.len() % heads.len()], i % edits.len());
        let (p, q) = (base(k, h), edits[ed](&base(k, h)));
        for at in ats {
            c.case(&format!("{p} => {q} after {at} blocks").replace('\n', "; "), || {
                let mut two = [engine::<8>(64), engine::<8>(64)];
                let mut f = Fp::new();
                for e in &mut two {
                    e.add_sample("\\s", wav(), 1, 64);
                    upd(e, &p)?;
                }
                let [a, b] = &mut two;
                for t in 0..at + 14 {
                    if t == *at || t == at + 3 {
                        upd(b, &q)?;
                    }
                    if t == at + 6 {
                        upd(b, &p)?;
                    }
                    let (x, y) = (blk(a), blk(b));
                    same(&y, &x, &format!("block {t}"))?;
                    x.0.iter().for_each(|v| _ = f.f(*v));
                }
                c.steps(*at as u64 + 18);
                Ok(f.get())
            });
        }
    });
    // a loop through one or two chains holds one block: an edit that leaves
    // both ends of the loop alone goes on from that block
    let mut loops: Vec<(String, f64, f64)> = vec![];
    for x in [1.0f64, 4.0] {
        for (ins, d, m) in [("", 0.0, 1.0), (">> add 3.0", 3.0, 1.0), (">> mul 2.0", 0.0, 2.0)] {
            for tail in ["", "\n~z: saw 3", "\np: sig 0.0 >> mul ~z\n~z: saw 3"] {
                loops.push((format!("~a: sig {x:?} {ins} >> add ~a >> mul 0.5\no: ~a{tail}"), (x + d) * m, 1.0));
                for mid in ["", ">> mul 1.0", ">> add 0.0 >> mul 1.0"] {
                    loops.push((format!("~a: sig {x:?} {ins} >> add ~b >> mul 0.5\no: ~a{tail}\n~b: ~a {mid} >> mul 0.25"), (x + d) * m, 0.25));
                }
            }
        }
    }
    let nl = loops.len();
    c.note("programs_with_a_loop", nl);
    c.par_n(nl * nl, |i| {
        let (p, q) = (&loops[i / nl], &loops[i % nl]);
        if p.2 != q.2 {
            return;
        }
        for at in 0..4usize {
            let key = format!("{} => {} after {at} blocks", p.0, q.0).replace('\n', "; ");
            c.case(&key, || {
                let mut e = engine::<4>(64);
                upd(&mut e, &p.0)?;
                let mut f = Fp::new();
                // the last two blocks
                let (mut y1, mut y2) = (0.0f64, 0.0f64);
                for t in 0..at + 5 {
                    if t == at {
                        upd(&mut e, &q.0)?;
                    }
                    if t == at + 3 {
                        upd(&mut e, &p.0)?;
                    }
                    let (_, k, g) = if t < at || t >= at + 3 { p } else { q };
                    let b = blk(&mut e);
                    let can = [0.5 * (k + g * y1), 0.5 * (k + g * y2)];
                    // the order in which the two chains run may have changed
                    let can = if t == at || t == at + 3 { &can[..] } else { &can[..1] };
                    let y = b.0[0] as f64;
                    if !can.iter().any(|w| (w - y).abs() < 1e-5) || b.0.iter().chain(&b.1).any(|s| *s as f64 != y) {
                        return Err(format!("block {t}: {b:?} instead of {can:?}"));
                    }
                    f.f(y as f32);
                    (y2, y1) = (y1, y);
                    c.state(Fp::new().u(y.to_bits()).s(if t < at { &p.0 } else { &q.0 }).get());
                }
                c.steps(at as u64 + 7);
                Ok(f.get())
            });
        }
    });
    if c.thorough() {
        let s = 7;
        let some: Vec<&Prog> = progs.iter().step_by(s).chain(multi.iter().step_by(s)).collect();
        let q = some.len();
        c.par_n(q * q * q * q, |i| {
            c03_case(c, &[some[i / (q * q * q)], some[i / (q * q) % q], some[i / q % q], some[i % q]], &[1, 2, 1, 3])
        });
        let long: Vec<Prog> = src[..2]
            .iter()
            .flat_map(|s| {
                words(&fx, 3).into_iter().map(move |w| {
                    let mut ch = vec![s.clone()];
                    ch.extend(w);
                    ch
                })
            })
            .filter(|ch| !rounding(ch))
            .map(|ch| Prog(vec![("o", ch)]))
            .collect();
        let l = long.len();
        c.par_n(l * l, |i| c03_case(c, &[&long[i / l], &long[i % l]], &[3, 4]));
    }
    c.finish(
        "model_checking",
        "all pairs (and back-and-forth triples) of programs with memory as update histories against the reference, which keeps the state of every node in the unique longest common subsequence; states = distinct reference states after each step",
        &["edits where more than one longest matching exists are left out", "float comparison within 1e-4"],
        true,
    )
}
