//! What single nodes compute: oscillators, operators, stereo, delays,
//! envelopes, samples, filters, sources.

use crate::lang::Nd::*;
use crate::lang::*;
use crate::model::Sample;
use crate::rig::*;
use crate::util::*;

fn prog1(v: Vec<Nd>) -> Prog {
    Prog(vec![("o", v)])
}
/// Programs fed by live input, run in blocks of 4 on every given signal.
fn fed(c: &'static Ctx, what: &str, sr: usize, tol: f64, progs: &[Prog], sigs: &[(Vec<f32>, Vec<f32>)], smp: &[(&'static str, Sample)]) {
    let ns = sigs.len();
    c.par_n(progs.len() * ns, |i| {
        let (p, (l, r)) = (&progs[i / ns], &sigs[i % ns]);
        let key = format!("{what} sr {sr}: {} | {l:?} {r:?}", p.text().replace('\n', "; "));
        c.case(&key, || {
            let mut q = Pair::<4>::new(sr, tol);
            for (n, s) in smp {
                q.sample(n, *s);
            }
            let mut f = Fp::new();
            q.update(p)?;
            let mut k = 0;
            while k < l.len() {
                let g = |s: &[f32]| -> Vec<f32> { (k..k + 4).map(|i| s.get(i).copied().unwrap_or(0.0)).collect() };
                q.block_in(&g(l), &g(r), &mut f)?;
                c.state(q.m.state_fp());
                k += 4;
            }
            c.steps(l.len().div_ceil(4) as u64 + 1);
            Ok(f.get())
        });
    });
}
/// Programs that need many samples before anything happens.
fn far(c: &'static Ctx, what: &str, sr: usize, tol: f64, progs: &[(Prog, usize)], smp: &[(&'static str, Sample)]) {
    c.par(progs, |(p, samples)| {
        c.case(&format!("{what} sr {sr}: {}", p.text().replace('\n', "; ")), || {
            let mut q = Pair::<256>::new(sr, tol);
            for (n, s) in smp {
                q.sample(n, *s);
            }
            let mut f = Fp::new();
            q.update(p)?;
            q.blocks(samples / 256 + 2, &mut f)?;
            c.steps((samples / 256) as u64);
            c.state(f.get());
            Ok(f.get())
        });
    });
}
/// Every word as left channel; the right channel carries its mirror image
/// shifted, so that the two never coincide by accident.
fn stereo(ws: Vec<Vec<f32>>, tail: usize) -> Vec<(Vec<f32>, Vec<f32>)> {
    ws.into_iter()
        .map(|w| {
            let mut l = w.clone();
            l.extend(std::iter::repeat(0.0).take(tail));
            let mut r: Vec<f32> = w.iter().rev().map(|x| 0.75 - x).collect();
            r.extend(std::iter::repeat(0.0).take(tail));
            (l, r)
        })
        .collect()
}

// ---------------------------------------------------------------- C15

pub fn c15(c: &'static Ctx) -> i32 {
    type Mk = fn(P) -> Nd;
    let kinds: [(&str, Mk); 4] = [("sin", Sin), ("saw", Saw), ("squ", Squ), ("tri", Tri)];
    // exact: increments that are dyadic fractions of the sample rate
    let dy: Vec<f32> = (0..256).map(|k| k as f32 / 4.0).chain((1..256).map(|k| -k as f32 / 4.0)).chain([64.0, 65.0, 100.25, 128.0, 200.5, 1000.0, -64.0, -65.0, -130.75, -1000.0]).collect();
    c.par_n(dy.len() * 4 * 4, |i| {
        let (f, k, shape) = (dy[i % dy.len()], i / dy.len() % 4, i / dy.len() / 4);
        let o = kinds[k].1(P::N(f));
        let p = match shape {
            0 => prog1(vec![o]),
            1 => prog1(vec![o, Mul(P::N(0.5)), Add(P::N(2.0))]),
            2 => Prog(vec![("o", vec![kinds[k].1(P::R("~f"))]), ("~f", vec![Sig(f)])]),
            _ => prog1(vec![Sig(f), kinds[k].1(P::N(3.0))]),
        };
        let key = format!("64 Hz clock: {}", p.text().replace('\n', "; "));
        c.case(&key, || {
            let mut q = Pair::<8>::new(64, 1e-4);
            let mut h = Fp::new();
            q.update(&p)?;
            for _ in 0..40 {
                q.block(&mut h)?;
                c.state(q.m.state_fp());
            }
            c.steps(41);
            Ok(h.get())
        });
    });
    // any frequency at real sample rates: compared on the circle
    let fr = [
        0.0f32, 0.1, 1.0, 20.0, 55.5, 110.0, 261.63, 440.0, 441.0, 999.9, 1000.0, 4410.0, 11025.0, 12345.6, 20000.0, 22050.0, 30000.0, 50000.0, 100000.0, 250000.0, -0.1, -1.0, -55.5, -440.0, -999.9,
        -11025.0, -22050.0, -30000.0, -100000.0,
    ];
    let srs = [8000usize, 22050, 32000, 44100, 48000, 96000];
    c.par_n(fr.len() * srs.len() * 4 * 2, |i| {
        let (f, sr, k, by_ref) = (fr[i % fr.len()], srs[i / fr.len() % 6], i / fr.len() / 6 % 4, i / fr.len() / 24 == 1);
        let name = kinds[k].0;
        let txt = if by_ref { format!("o: {name} ~f\n~f: sig {f}") } else { format!("o: {name} {f}") };
        let key = format!("sr {sr}: {}", txt.replace('\n', "; "));
        c.case(&key, || {
            let mut e = engine::<64>(sr);
            upd(&mut e, &txt)?;
            let o = render(&mut e, 40);
            c.steps(41);
            let mut h = Fp::new();
            for (n, y) in o.0.iter().enumerate() {
                h.f(*y);
                let p = (n as f64 * f as f64 / sr as f64).rem_euclid(1.0);
                // single-precision accumulation drifts a little
                let slack = 2e-7 * n as f64 * (1.0 + (f / sr as f32).abs() as f64) + 1e-6;
                let ok = match k {
                    0 => (*y as f64 - (2.0 * std::f64::consts::PI * p).sin()).abs() < 10.0 * slack + 1e-4,
                    1 => {
                        let d = ((*y as f64 + 1.0) / 2.0 - p).abs().fract();
                        y.abs() <= 1.0 + 1e-5 && d.min(1.0 - d) < 2.0 * slack
                    }
                    2 => {
                        let want = if p <= 0.5 { 1.0 } else { -1.0 };
                        let edge = [0.0, 0.5, 1.0].iter().any(|e| (p - e).abs() < slack);
                        *y == want || (edge && y.abs() == 1.0)
                    }
                    _ => (*y as f64 - 2.0 * ((2.0 * p - 1.0).abs() - 0.5)).abs() < 10.0 * slack + 1e-4,
                };
                if !ok {
                    return Err(format!("sample {n} is {y}, phase {p}"));
                }
                if o.1[n] != *y {
                    return Err(format!("sample {n}: right {} left {y}", o.1[n]));
                }
            }
            Ok(h.get())
        });
    });
    // sample by sample modulation: every frequency word
    let al = [0.0f32, 4.0, 16.0, -4.0, 32.0, -17.0, 100.0];
    let ws = words(&al, c.pick(5, 6));
    let sigs: Vec<_> = ws
        .into_iter()
        .map(|w| {
            let r: Vec<f32> = w.iter().map(|x| 63.0 - x).collect();
            (w, r)
        })
        .collect();
    let mut progs = vec![];
    for (_, k) in kinds {
        progs.push(prog1(vec![k(P::R("~input"))]));
        progs.push(Prog(vec![("o", vec![k(P::R("~m"))]), ("~m", vec![Get("~input"), Mul(P::N(0.5)), Add(P::N(2.0))])]));
        progs.push(Prog(vec![("o", vec![k(P::R("~input")), Mul(P::R("~x"))]), ("~x", vec![k(P::R("~input"))])]));
    }
    fed(c, "modulated", 64, 1e-4, &progs, &sigs, &[]);
    // several oscillators at once do not disturb each other
    let f3 = [0.0f32, 1.0, 2.5, 16.0, 63.0];
    c.par_n(4 * 4 * 25, |i| {
        let (a, b, f, g) = (i % 4, i / 4 % 4, f3[i / 16 % 5], f3[i / 80]);
        let p = Prog(vec![("o", vec![kinds[a].1(P::N(f))]), ("p", vec![kinds[b].1(P::N(g))])]);
        let key = format!("two: {}", p.text().replace('\n', "; "));
        c.case(&key, || {
            let mut q = Pair::<8>::new(64, 1e-4);
            let mut h = Fp::new();
            q.update(&p)?;
            q.blocks(20, &mut h)?;
            c.steps(21);
            Ok(h.get())
        });
    });
    c.finish(
        "model_checking",
        "every waveform at every frequency of the dyadic grid written in four ways, a grid of real sample rates, and every word of frequencies as modulation; states = distinct reference states",
        &["frequencies up to 30 times the sample rate, forwards and backwards", "at real sample rates the phase may drift by single-precision rounding"],
        true,
    )
}

// ---------------------------------------------------------------- C16

fn operands() -> Vec<(&'static str, Chain)> {
    vec![
        ("~n", vec![Sig(3.0)]),
        ("~s", vec![Saw(P::N(8.0))]),
        ("~t", vec![Tri(P::N(4.0)), Pan(P::N(0.5))]),
        ("~i", vec![Get("~input")]),
        ("~d", vec![Get("~input"), Delayn(1)]),
        ("~e", vec![Get("~input"), EnvPerc(0.03125, 0.0625)]),
        ("~x", vec![Mix(vec!["~n", "~t"])]),
    ]
}

pub fn c16(c: &'static Ctx) -> i32 {
    let heads: Vec<Chain> = operands().into_iter().map(|x| x.1).chain([vec![Get("~t")], vec![Imp(16.0)], vec![Seq(vec![vec![Note::M(60)], vec![Note::M(72)]])]]).collect();
    let mut ops = vec![];
    for v in [0.0f32, 1.0, -1.0, 0.5, -2.5, 1000.0, 0.001] {
        ops.push(Mul(P::N(v)));
        ops.push(Add(P::N(v)));
    }
    for (n, _) in operands() {
        ops.push(Mul(P::R(n)));
        ops.push(Add(P::R(n)));
    }
    ops.push(Mul(P::R("~input")));
    ops.push(Add(P::R("~input")));
    let mut progs = vec![];
    for h in &heads {
        for w in words_upto(&ops, 1, 2) {
            let mut v = h.clone();
            v.extend(w);
            let mut p = vec![("o", v)];
            p.extend(operands());
            progs.push(Prog(p));
        }
    }
    let mut sigs = vec![
        (vec![1.0f32, 2.0, 0.0, -0.5, 0.25, 4.0, -8.0, 1.0], vec![-1.0f32, 3.0, 5.0, 0.0, 0.5, 2.0, 1.5, -4.0]),
        (vec![0.0; 8], vec![1.0; 8]),
    ];
    if c.thorough() {
        sigs.extend(stereo(words(&[0.0f32, 1.0, -0.5], 4), 0));
    }
    c.note("programs", progs.len());
    fed(c, "ops", 64, 1e-5, &progs, &sigs, &[]);
    // three in a row
    let few: Vec<Nd> = vec![Mul(P::N(0.5)), Add(P::N(-1.0)), Mul(P::R("~i")), Add(P::R("~s")), Mul(P::R("~t")), Add(P::R("~input"))];
    let mut progs = vec![];
    for h in &heads {
        for w in words(&few, c.pick(3, 4)) {
            let mut v = h.clone();
            v.extend(w);
            let mut p = vec![("o", v)];
            p.extend(operands());
            progs.push(Prog(p));
        }
    }
    fed(c, "rows", 64, 1e-4, &progs, &sigs[..1], &[]);
    // every short stereo signal through the basic forms
    let basic: Vec<Prog> = [Mul(P::N(-0.5)), Add(P::N(2.0)), Mul(P::R("~s")), Mul(P::R("~input")), Add(P::R("~input")), Add(P::R("~s"))]
        .into_iter()
        .map(|o| Prog(vec![("o", vec![Get("~input"), o]), ("~s", vec![Saw(P::N(8.0))])]))
        .collect();
    fed(c, "signals", 64, 1e-5, &basic, &stereo(words(&[0.0f32, 1.0, -0.5, 3.0], c.pick(5, 7)), 0), &[]);
    c.finish(
        "model_checking",
        "every row of one or two operators over numbers and mono and stereo references after every kind of source, rows of three (four) over a smaller set, and every short signal through the basic forms; states = distinct reference states",
        &["comparison within 1e-5 (1e-4 for rows of three)"],
        true,
    )
}

// ---------------------------------------------------------------- C17

pub fn c17(c: &'static Ctx) -> i32 {
    let sig = stereo(words(&[0.0f32, 1.0, -0.5, 2.0], c.pick(4, 6)), 0);
    let mut progs: Vec<Prog> = (-4..=20).map(|k| prog1(vec![Get("~input"), Pan(P::N(k as f32 / 8.0 - 1.0))])).collect();
    // modulated pan: the input is the position and the signal
    progs.push(Prog(vec![("o", vec![Saw(P::N(8.0)), Pan(P::R("~p"))]), ("~p", vec![Get("~input"), Mul(P::N(0.5))])]));
    progs.push(Prog(vec![("o", vec![Saw(P::N(8.0)), Pan(P::R("~p"))]), ("~p", vec![Get("~input"), Mul(P::N(2.0)), Add(P::N(0.25))])]));
    progs.push(Prog(vec![("o", vec![Get("~input"), Pan(P::R("~p"))]), ("~p", vec![Tri(P::N(2.0)), Mul(P::N(3.0))])]));
    progs.push(Prog(vec![("o", vec![Get("~input"), Pan(P::R("~p"))]), ("~p", vec![Tri(P::N(2.0))])]));
    fed(c, "pan", 64, 1e-5, &progs, &sig, &[]);
    // balance: every ordered pair of mono and stereo sources
    let mut progs = vec![];
    let ops = operands();
    for a in &ops {
        for b in &ops {
            if a.0 != b.0 {
                for tail in [vec![], vec![Mul(P::N(0.5))], vec![Add(P::R("~i"))], vec![Pan(P::N(-0.5))]] {
                    let mut v = vec![Balance(a.0, b.0)];
                    v.extend(tail);
                    let mut p = vec![("o", v)];
                    p.extend(ops.clone());
                    progs.push(Prog(p));
                }
            }
        }
    }
    let two = stereo(words(&[1.0f32, -0.5, 2.0], 4), 4);
    fed(c, "balance", 64, 1e-5, &progs, &two, &[]);
    // mix: every list of up to 4 distinct or repeated sources
    let names: Vec<&'static str> = ops.iter().map(|x| x.0).collect();
    let mut progs = vec![];
    for w in words_upto(&names, 1, c.pick(3, 4)) {
        for tail in [vec![], vec![Mul(P::N(0.5)), Pan(P::N(0.5))]] {
            let mut v = vec![Mix(w.clone())];
            v.extend(tail);
            let mut p = vec![("o", v)];
            p.extend(ops.clone());
            progs.push(Prog(p));
        }
    }
    // prefix lists
    let pre: Vec<(&'static str, Chain)> = vec![
        ("~mx", vec![Sig(1.0)]),
        ("~my", vec![Saw(P::N(4.0)), Pan(P::N(0.5))]),
        ("~mxa", vec![Sig(16.0)]),
        ("~n", vec![Sig(256.0)]),
    ];
    for k in 0..16usize {
        let mut p = vec![];
        for (i, x) in pre.iter().enumerate() {
            if k >> i & 1 == 1 {
                p.push(x.clone());
            }
        }
        for l in [vec!["~m.."], vec!["~mx.."], vec!["~m..", "~n"], vec!["~n", "~mx.."], vec!["~mx..", "~my"]] {
            let have = |r: &str| match r.strip_suffix("..") {
                Some(q) => p.iter().any(|x| x.0.starts_with(q)),
                None => p.iter().any(|x| x.0 == r),
            };
            if l.iter().all(|r| have(r)) {
                let mut q = vec![("o", vec![Mix(l)])];
                q.extend(p.clone());
                progs.push(Prog(q));
            }
        }
    }
    c.note("mix_programs", progs.len());
    fed(c, "mix", 64, 1e-5, &progs, &two[..c.pick(9, 81)], &[]);
    c.finish(
        "model_checking",
        "25 pan positions, some beyond the sides, and modulated pan on every short stereo signal, balance of every ordered pair of sources, mix of every list of up to 3 (4) sources and of every prefix; states = distinct reference states",
        &["naming one chain twice in a mix is one connection"],
        true,
    )
}

// ---------------------------------------------------------------- C18

pub fn c18(c: &'static Ctx) -> i32 {
    let al = [0.0f32, 1.0, -0.5, 0.25];
    let sig = stereo(words(&al, 5), 12);
    let mut progs: Vec<Prog> = (0..=9).map(|n| prog1(vec![Get("~input"), Delayn(n)])).collect();
    progs.push(prog1(vec![Get("~input"), Delayn(2), Delayn(3)]));
    for ms in [0.0f32, 15.625, 31.25, 62.5, 125.0, 40.0, 100.0] {
        progs.push(prog1(vec![Get("~input"), Delayms(P::N(ms))]));
    }
    progs.push(prog1(vec![Get("~input"), Delayms(P::N(31.25)), Delayn(1)]));
    // the same after something with one channel only
    for n in 0..=9 {
        progs.push(prog1(vec![Get("~input"), Onepole(P::N(100.0)), Delayn(n)]));
        progs.push(prog1(vec![Get("~input"), Onepole(P::N(100.0)), Delayn(n), Pan(P::N(0.5)), Delayn(1)]));
    }
    for ms in [0.0f32, 15.625, 31.25, 62.5, 125.0, 40.0, 100.0] {
        progs.push(prog1(vec![Get("~input"), Onepole(P::N(100.0)), Delayms(P::N(ms))]));
    }
    fed(c, "delay", 64, 1e-5, &progs, &sig, &[]);
    // long delays: an input block travels through many blocks
    let long: Vec<Prog> = [16usize, 31, 32, 33, 64, 100].iter().map(|n| prog1(vec![Get("~input"), Delayn(*n)])).chain([250.0f32, 500.0, 1000.0, 1562.5].iter().map(|m| prog1(vec![Get("~input"), Delayms(P::N(*m))]))).collect();
    fed(c, "long", 64, 1e-5, &long, &stereo(words(&al, 4), 110), &[]);
    // very long ones
    let mut very: Vec<(Prog, usize)> = vec![];
    for n in [255usize, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 44100, 65535, 65536, 65537, 100000, 300000] {
        very.push((prog1(vec![Noise(3), Delayn(n)]), n * 2 + 2000));
        very.push((prog1(vec![Noise(3), Pan(P::N(0.25)), Delayn(n), Mul(P::N(0.5))]), n + 2000));
    }
    for ms in [10.0f32, 100.0, 740.0, 1000.0, 1500.0, 2000.0, 2500.0, 5000.0] {
        let n = (ms * 48.0) as usize;
        very.push((prog1(vec![Noise(3), Delayms(P::N(ms))]), n * 2 + 2000));
        very.push((prog1(vec![Noise(3), Pan(P::N(0.25)), Delayms(P::N(ms))]), n + 2000));
        if ms <= 2000.0 {
            very.push((Prog(vec![("o", vec![Noise(3), Delayms(P::R("~m"))]), ("~m", vec![Sig(ms)])]), n * 2 + 100_000));
        }
    }
    for sr in [44100usize, 48000] {
        far(c, "very long", sr, 1e-4, &very, &[]);
    }
    // controlled by a reference: every word of lengths
    let ms = [15.625f32, 62.5, 31.25, 125.0, 23.4375];
    let mut sigs = vec![];
    for w in words(&ms, c.pick(5, 6)) {
        // left: milliseconds; right: unused
        let mut l = w.clone();
        l.extend([62.5, 15.625, 125.0, 31.25, 62.5, 78.125, 93.75]);
        let r = vec![0.0; l.len()];
        sigs.push((l, r));
    }
    let progs = vec![
        Prog(vec![("o", vec![Saw(P::N(8.0)), Delayms(P::R("~input"))])]),
        Prog(vec![("o", vec![Tri(P::N(4.0)), Pan(P::N(0.5)), Delayms(P::R("~m"))]), ("~m", vec![Get("~input"), Mul(P::N(2.0))])]),
    ];
    fed(c, "controlled", 64, 1e-4, &progs, &sigs, &[]);
    // constant reference = constant number, on every short signal
    let mut progs = vec![];
    for ms in [15.625f32, 31.25, 62.5, 125.0] {
        progs.push(Prog(vec![("o", vec![Get("~input"), Delayms(P::R("~m"))]), ("~m", vec![Sig(ms)])]));
    }
    fed(c, "reference", 64, 1e-5, &progs, &sig, &[]);
    // at real sample rates
    for sr in [44100usize, 48000] {
        let progs: Vec<Prog> = [1.0f32, 0.5, 2.0, 0.1].iter().map(|m| prog1(vec![Get("~input"), Delayms(P::N(*m))])).collect();
        fed(c, "real rate", sr, 1e-5, &progs, &stereo(words(&al, 3), 110), &[]);
    }
    c.finish(
        "model_checking",
        "every delay of the grid on every short stereo signal, every word of lengths as controlling signal; states = distinct reference states",
        &["a controlled delay is at least one sample and at most two seconds", "comparison within 1e-4"],
        true,
    )
}

// ---------------------------------------------------------------- C19

pub fn c19(c: &'static Ctx) -> i32 {
    let times = [0.0f32, 0.015625, 0.03125, 0.0625];
    // envelope on every gate word
    let mut perc = vec![];
    for a in times {
        for d in times {
            perc.push(prog1(vec![Get("~input"), EnvPerc(a, d)]));
        }
    }
    let gates = stereo(words(&[0.0f32, 1.0, 0.5], c.pick(7, 9)), 10);
    fed(c, "perc", 64, 1e-4, &perc, &gates, &[]);
    let mut ad = vec![];
    for a in times {
        for d in [0.0f32, 0.03125, 0.0625] {
            for s in [0.5f32, 0.0, 1.0] {
                for r in [0.0f32, 0.03125, 0.0625] {
                    ad.push(prog1(vec![Get("~input"), Adsr(a, d, s, r)]));
                }
            }
        }
    }
    let gates = stereo(words(&[0.0f32, 1.0], c.pick(9, 12)), 7);
    fed(c, "adsr", 64, 1e-4, &ad, &gates, &[]);
    // held gates of every length, level of the gate does not matter
    let mut held = vec![];
    for on in 1..=14usize {
        for off in 1..=8usize {
            for lv in [1.0f32, 0.25, 3.0] {
                let mut l = vec![0.0; 2];
                for _ in 0..3 {
                    l.extend(std::iter::repeat(lv).take(on));
                    l.extend(std::iter::repeat(0.0).take(off));
                }
                let r = vec![0.0; l.len()];
                held.push((l, r));
            }
        }
    }
    fed(c, "held", 64, 1e-4, &ad, &held, &[]);
    fed(c, "held perc", 64, 1e-4, &perc, &held, &[]);
    // times of everyday length at everyday rates
    let mut long = vec![];
    let gate = |on, off| vec![Arrange(vec![("~on", on), ("~off", off)])];
    for g in [vec![Imp(0.25)], vec![Imp(2.0)], gate(0.5, 0.5), gate(0.25, 1.0), gate(1.0, 0.125), gate(0.125, 0.0625)] {
        for (a, d) in [(0.01f32, 0.1f32), (0.25, 0.5), (1.0, 1.5), (0.003, 3.0), (2.0, 0.01)] {
            for env in [EnvPerc(a, d), Adsr(a, d, 0.5, 0.3)] {
                let ch = [g.clone(), vec![env]].concat();
                let p = if matches!(g[0], Imp(_)) { prog1(ch) } else { Prog(vec![("o", ch), ("~on", vec![Sig(1.0)]), ("~off", vec![Sig(0.0)])]) };
                long.push((p, 250_000));
            }
        }
    }
    for sr in [44100usize, 48000] {
        far(c, "everyday", sr, 1e-3, &long, &[]);
    }
    // and of many seconds
    let mut slow = vec![];
    for g in [vec![Imp(0.05)], gate(4.0, 4.0), gate(2.0, 1.0)] {
        for (a, d) in [(8.0f32, 10.0f32), (0.01, 20.0), (20.0, 0.01), (3.0, 2.0)] {
            for env in [EnvPerc(a, d), Adsr(a, d, 0.5, 7.0)] {
                let ch = [g.clone(), vec![env]].concat();
                let p = if matches!(g[0], Imp(_)) { prog1(ch) } else { Prog(vec![("o", ch), ("~on", vec![Sig(1.0)]), ("~off", vec![Sig(0.0)])]) };
                slow.push((p, 1_100_000));
            }
        }
    }
    for sr in c.pick(vec![48000usize], vec![44100, 48000, 96000]) {
        far(c, "slow", sr, 2e-3, &slow, &[]);
    }
    // driven from inside the language, longer times
    let mut inner = vec![];
    for t in [vec![Imp(4.0)], vec![Imp(1.5)], vec![Speed(4.0), Seq(vec![vec![Note::M(60)], vec![Note::Rest], vec![Note::M(72)]])], vec![Squ(P::N(2.0)), Add(P::N(1.0))]] {
        for (a, d) in [(0.1f32, 0.2f32), (0.5, 0.5), (0.01, 1.0), (0.0, 0.3)] {
            let mut v = t.clone();
            v.push(EnvPerc(a, d));
            inner.push(prog1(v));
            let mut v = t.clone();
            v.push(Adsr(a, d, 0.5, 0.25));
            v.push(Mul(P::N(2.0)));
            inner.push(prog1(v));
        }
    }
    c.par_n(inner.len() * 3, |i| {
        let (p, sr) = (&inner[i / 3], [64usize, 100, 441][i % 3]);
        if sr != 64 && matches!(p.0[0].1[0], Squ(_)) {
            return; // where the edge falls depends on rounding
        }
        let key = format!("inside sr {sr}: {}", p.text());
        c.case(&key, || {
            let mut q = Pair::<16>::new(sr, 1e-4);
            let mut h = Fp::new();
            q.update(p)?;
            for _ in 0..60 {
                q.block(&mut h)?;
                c.state(q.m.state_fp());
            }
            c.steps(61);
            Ok(h.get())
        });
    });
    c.finish(
        "model_checking",
        "every gate word over {0, 1, 0.5} for all attack/decay pairs, every on/off word for all attack/decay/sustain/release combinations of the grid, held gates of every length; envelopes of up to 20 s over 1100000 samples; states = distinct reference states",
        &["the percussive envelope starts once when it is created", "comparison within 1e-4"],
        true,
    )
}

// ---------------------------------------------------------------- C20

const M8: Sample = (&[1.0, -0.5, 0.25, 0.75, -1.0, 0.5, 0.125, -0.25], 1, 64);
const M4: Sample = (&[0.5, 1.0, -1.0, 0.25], 1, 32);
const S4: Sample = (&[0.5, 1.0, -1.0, 0.25, 2.0, -2.0, 4.0, -4.0], 2, 64);
const S2: Sample = (&[1.0, 2.0, 3.0, 4.0], 2, 128);
const M1: Sample = (&[7.0], 1, 64);
const L64: Sample = {
    const D: [f32; 64] = {
        let mut d = [0.0; 64];
        let mut k = 0;
        while k < 64 {
            d[k] = ((k * 37) % 64) as f32 / 32.0 - 1.0;
            k += 1;
        }
        d
    };
    (&D, 1, 64)
};
const T2: Sample = (&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0], 3, 64);
const M2: Sample = (&[1.0, 2.0], 1, 16);

pub fn c20(c: &'static Ctx) -> i32 {
    let smp: Vec<(&'static str, Sample)> = vec![("\\a", M8), ("\\b", M4), ("\\c", S4), ("\\d", S2), ("\\e", M1), ("\\f", M2), ("\\g", T2), ("\\l", L64)];
    let progs: Vec<Prog> = smp
        .iter()
        .map(|(n, _)| prog1(vec![Get("~input"), Sp(n)]))
        .chain(smp.iter().take(7).map(|(n, _)| prog1(vec![Get("~input"), Sp(n), Mul(P::N(0.5))])))
        .chain([Prog(vec![("o", vec![Get("~input"), Sp("\\a")]), ("p", vec![Get("~input"), Sp("\\c")])])])
        .collect();
    // triggers of value 1, 2, 0.5 and nothing; negative values do not trigger
    let trig = stereo(words(&[0.0f32, 1.0, 2.0, 0.5], c.pick(5, 7)), 18);
    fed(c, "sp", 64, 1e-4, &progs, &trig, &smp);
    let trig = stereo(words(&[0.0f32, 1.0, -1.0, 0.25, 4.0], 4), 36);
    fed(c, "sp slow", 64, 1e-4, &progs, &trig, &smp);
    for sr in [32usize, 128] {
        fed(c, "sp rate", sr, 1e-4, &progs, &stereo(words(&[0.0f32, 1.0, 2.0], 5), 24), &smp);
    }
    // long samples, many samples
    let mono: &'static [f32] = Box::leak((0..70_001u32).map(|k| (std::f64::consts::PI * k as f64 / 7000.0).sin() as f32).collect::<Vec<_>>().into_boxed_slice());
    let long: Vec<(&'static str, Sample)> = vec![("\\m", (mono, 1, 44100)), ("\\s", (&mono[..70_000], 2, 44100)), ("\\h", (mono, 1, 22050)), ("\\d", (mono, 1, 88200))];
    let mut very = vec![];
    for (n, _) in &long {
        for t in [vec![Imp(0.2)], vec![Imp(1.0)], vec![Seq(vec![vec![Note::M(60)], vec![Note::M(48)], vec![Note::M(72)], vec![Note::Rest]])]] {
            very.push((prog1([t, vec![Sp(n)]].concat()), 300_000));
        }
        very.push((prog1(vec![PSampler(vec![(n, 0.0), ("\\s", 0.5)], Some(1.0))]), 300_000));
        very.push((prog1(vec![PSampler(vec![(n, 0.0), ("\\m", 0.25), (n, 0.5), (n, 0.75)], Some(2.0))]), 300_000));
    }
    far(c, "long", 44100, 1e-3, &very, &long);
    // many triggers before the sound is over
    let dense: Vec<(Vec<f32>, Vec<f32>)> = (1..=40usize).flat_map(|n| [1usize, 2, 3].map(|gap| (0..n * gap + 80).map(|k| if k < n * gap && k % gap == 0 { [1.0f32, 2.0, 0.5][k / gap % 3] } else { 0.0 }).collect::<Vec<f32>>())).map(|l| (l.clone(), l)).collect();
    fed(c, "dense", 64, 1e-4, &[prog1(vec![Get("~input"), Sp("\\l")]), prog1(vec![Get("~input"), Sp("\\c"), Mul(P::N(0.5))])], &dense, &smp);
    for count in [1usize, 2, 16, 64, 65, 200, 300] {
        c.case(&format!("{count} samples"), || {
            let mut e = engine::<4>(64);
            for k in 0..count {
                e.add_sample(&format!("\\s{k}"), &mono[k..k + 1], 1, 64);
            }
            let mut f = Fp::new();
            for k in 0..count {
                upd(&mut e, "o: sig 0")?;
                upd(&mut e, &format!("o: imp 1 >> sp \\s{k}"))?;
                let o = blk(&mut e);
                if o.0[0] != mono[k] {
                    return Err(format!("sample {k} plays {} instead of {}", o.0[0], mono[k]));
                }
                f.f(o.0[0]);
            }
            c.steps(count as u64);
            Ok(f.get())
        });
    }
    // patterns
    let names = ["\\a", "\\b", "\\c", "\\d", "\\g"];
    let times = [0.0f32, 0.125, 0.25, 0.5, 0.75];
    let mut pats: Vec<Vec<(&'static str, f32)>> = vec![];
    let ev: Vec<(&'static str, f32)> = names.iter().flat_map(|n| times.iter().map(move |t| (*n, *t))).collect();
    pats.extend(words_upto(&ev, 1, 2));
    if c.thorough() {
        pats.extend(words(&ev, 3));
    }
    let spans = [None, Some(1.0f32), Some(0.5), Some(0.25), Some(2.0)];
    // many events at once, so that many samples sound together
    for n in 3..=16usize {
        for stride in [1usize, 5, 16] {
            for names in [&["\\l"][..], &["\\l", "\\a", "\\c"], &["\\c", "\\l"]] {
                pats.push((0..n).map(|k| (names[k % names.len()], (k * stride % 16) as f32 / 16.0)).collect());
            }
        }
    }
    for n in [17usize, 18, 24, 31, 32, 33, 34, 63, 64] {
        for stride in [1usize, 5] {
            pats.push((0..n).map(|k| (["\\a", "\\c", "\\l", "\\b"][k % 4], (k * stride % 64) as f32 / 64.0)).collect());
        }
    }
    c.note("patterns", pats.len());
    c.par_n(pats.len() * spans.len() * 2, |i| {
        let (pat, span, bpm) = (&pats[i % pats.len()], spans[i / pats.len() % 5], [120.0f32, 240.0][i / pats.len() / 5]);
        let p = prog1(vec![PSampler(pat.clone(), span)]);
        let key = format!("bpm {bpm}: {}", p.text());
        c.case(&key, || {
            let mut q = Pair::<16>::new(64, 1e-4);
            q.bpm(bpm);
            for (n, s) in &smp {
                q.sample(n, *s);
            }
            let mut h = Fp::new();
            q.update(&p)?;
            for _ in 0..20 {
                q.block(&mut h)?;
                c.state(q.m.state_fp());
            }
            c.steps(21);
            Ok(h.get())
        });
    });
    c.finish(
        "model_checking",
        "every trigger word for six samples (mono, stereo, several lengths and rates), every pattern of up to 2 (3) events and every written span; states = distinct reference states",
        &["rates are powers of two so that the end of a sample does not depend on rounding", "comparison within 1e-4"],
        true,
    )
}

// ---------------------------------------------------------------- C21

pub fn c21(c: &'static Ctx) -> i32 {
    let al = [0.0f32, 1.0, -0.5];
    let sig = stereo(words(&al, c.pick(5, 7)), 15);
    let cut = [0.5f32, 1.0, 4.0, 8.0, 15.0, 20.0, 31.0];
    let mut progs = vec![];
    for k in cut {
        for q in [0.1f32, 0.5, 1.0, 4.0, 10.0] {
            progs.push(prog1(vec![Get("~input"), Lpf(P::N(k), q)]));
            progs.push(prog1(vec![Get("~input"), Hpf(P::N(k), q)]));
        }
    }
    for r in [0.0f32, 0.01, 0.1, 0.3, 0.7, 0.99] {
        progs.push(prog1(vec![Get("~input"), Onepole(P::N(r))]));
    }
    for ms in [15.625f32, 31.25, 62.5, 78.125, 125.0] {
        for g in [0.5f32, -0.5, 0.9, 0.0] {
            progs.push(prog1(vec![Get("~input"), Apf(P::N(ms), g)]));
        }
    }
    c.note("filters", progs.len());
    fed(c, "filter", 64, 2e-4, &progs, &sig, &[]);
    // parameter by reference: constant, and following the input
    let mut refs = vec![];
    for k in [4.0f32, 8.0, 15.0] {
        refs.push(Prog(vec![("o", vec![Get("~input"), Lpf(P::R("~k"), 1.0)]), ("~k", vec![Sig(k)])]));
        refs.push(Prog(vec![("o", vec![Get("~input"), Hpf(P::R("~k"), 1.0)]), ("~k", vec![Sig(k)])]));
    }
    for ms in [15.625f32, 31.25, 62.5] {
        refs.push(Prog(vec![("o", vec![Get("~input"), Apf(P::R("~k"), 0.5)]), ("~k", vec![Sig(ms)])]));
    }
    refs.push(Prog(vec![("o", vec![Get("~input"), Onepole(P::R("~k"))]), ("~k", vec![Sig(0.1)])]));
    refs.push(Prog(vec![("o", vec![Saw(P::N(8.0)), Onepole(P::R("~k"))]), ("~k", vec![Get("~input"), Mul(P::N(0.125)), Add(P::N(0.25))])]));
    // following the input sample by sample (all-pass) or block by block
    let follow = |m: f32, a: f32| ("~k", vec![Get("~input"), Mul(P::N(m)), Add(P::N(a))]);
    for src in [Saw(P::N(8.0)), Squ(P::N(3.0)), Get("~input")] {
        for q in [1.0f32, 4.0] {
            refs.push(Prog(vec![("o", vec![src.clone(), Lpf(P::R("~k"), q)]), follow(4.0, 8.0)]));
            refs.push(Prog(vec![("o", vec![src.clone(), Hpf(P::R("~k"), q)]), follow(4.0, 8.0)]));
        }
        for g in [0.5f32, -0.25] {
            refs.push(Prog(vec![("o", vec![src.clone(), Apf(P::R("~k"), g)]), follow(15.625, 46.875)]));
            refs.push(Prog(vec![("o", vec![src.clone(), Apf(P::R("~k"), g)]), follow(7.8125, 39.0625)]));
        }
    }
    fed(c, "reference", 64, 2e-4, &refs, &sig, &[]);
    // cutoff patterns
    let ev: Vec<(f32, f32)> = [4.0f32, 12.0].iter().flat_map(|v| [0.0f32, 0.125, 0.25, 0.5].iter().map(move |t| (*v, *t))).collect();
    let mut pats = vec![];
    for w in words_upto(&ev, 1, c.pick(2, 3)) {
        for span in [1.0f32, 0.5, 0.25] {
            for q in [1.0f32, 3.0] {
                pats.push(prog1(vec![Saw(P::N(4.0)), LpfPat(w.clone(), span, q)]));
            }
        }
    }
    // many events: each of them is the one that differs, and all at once
    for n in [3usize, 4, 5, 8, 9, 15, 16, 17, 18, 31, 32, 33, 64] {
        for at in 0..=n {
            let w = (0..n).map(|k| (if at == n { 3.0 + (k * 5 % 11) as f32 } else if k == at { 12.0 } else { 4.0 }, k as f32 / 64.0)).collect();
            pats.push(prog1(vec![Saw(P::N(4.0)), LpfPat(w, 1.0, 1.0)]));
        }
    }
    c.par(&pats, |p| {
        let key = format!("pattern: {}", p.text());
        c.case(&key, || {
            let mut q = Pair::<16>::new(64, 2e-4);
            let mut h = Fp::new();
            q.update(p)?;
            for _ in 0..20 {
                q.block(&mut h)?;
                c.state(q.m.state_fp());
            }
            c.steps(21);
            Ok(h.get())
        });
    });
    // real sample rates: impulse response
    let mut real = vec![];
    for k in [100.0f32, 300.0, 1000.0, 5000.0, 15000.0] {
        for q in [0.5f32, 1.0, 5.0] {
            real.push(prog1(vec![Get("~input"), Lpf(P::N(k), q)]));
            real.push(prog1(vec![Get("~input"), Hpf(P::N(k), q)]));
        }
    }
    for sr in [44100usize, 48000, 32000] {
        fed(c, "real rate", sr, 1e-3, &real, &stereo(words(&[1.0f32, -0.5], 3), 60), &[]);
    }
    c.finish(
        "model_checking",
        "every short signal through every filter of the cutoff/resonance grid against the difference equation in double precision; parameters by reference and by pattern; states = distinct reference states",
        &["cutoffs below half the sample rate", "a cutoff given by a reference is read once per block", "comparison within 2e-4 (1e-3 at real sample rates)"],
        true,
    )
}

// ---------------------------------------------------------------- C22

pub fn c22(c: &'static Ctx) -> i32 {
    let run = |p: &Prog, sr: usize, k: usize, seed: Option<usize>| {
        let key = format!("sr {sr} seed {seed:?}: {}", p.text().replace('\n', "; "));
        c.case(&key, || {
            let mut q = Pair::<16>::new(sr, 1e-5);
            if let Some(s) = seed {
                q.e.set_seed(s);
                q.m.seed = s as u64;
            }
            let mut h = Fp::new();
            q.update(p)?;
            for _ in 0..k {
                q.block(&mut h)?;
                c.state(q.m.state_fp());
            }
            c.steps(k as u64 + 1);
            Ok(h.get())
        });
    };
    let vals: Vec<f32> = [-1e6f32, -440.0, -1.0, -0.001, 0.0, 1e-7, 0.5, 1.0, 3.25, 440.0, 1e6, 16777216.0].to_vec();
    for v in &vals {
        for tail in [vec![], vec![Mul(P::N(0.5))], vec![Add(P::N(1.0)), Mul(P::N(2.0))]] {
            let mut ch = vec![Sig(*v)];
            ch.extend(tail);
            run(&prog1(ch), 64, 3, None);
        }
    }
    // impulses: every rate on the grid at several sample rates
    let rates: Vec<f32> = (1..=64).map(|k| k as f32 / 2.0).chain([0.1, 0.3, 64.0, 100.0, 441.0, 1000.0, 44100.0, 50000.0]).collect();
    let srs = [64usize, 100, 1000, 44100];
    c.par_n(rates.len() * srs.len(), |i| {
        let (r, sr) = (rates[i % rates.len()], srs[i / rates.len()]);
        // long enough for three periods
        let k = ((3.2 * sr as f32 / r) as usize / 16 + 2).min(9000);
        run(&prog1(vec![Imp(r)]), sr, k, None);
    });
    // noise: seeds
    let nseed = c.pick(3000usize, 60000);
    c.par_n(nseed, |s| run(&prog1(vec![Noise(s as u64)]), 64, 6, None));
    for s in [42u64, 1 << 20, (1 << 24) - 1] {
        run(&prog1(vec![Noise(s)]), 44100, 4000, None);
    }
    // noise under every seed of the engine
    for s in (0..100u64).chain([255, 256, 1000, 44100, 65535, 65536]) {
        for e in [0usize, 1, 7, 41, 43, 256, 1000, 44100] {
            run(&prog1(vec![Noise(s)]), 64, 3, Some(e));
            run(&Prog(vec![("o", vec![Noise(s), Mul(P::R("~a"))]), ("~a", vec![Noise(s + 1)])]), 64, 2, Some(e));
        }
    }
    // the seed of the engine reaches every new node: of a new program, of a new
    // chain, and of a chain that was there before
    {
        let list = || Choose((1..9).collect());
        let steps: Vec<Prog> = vec![
            Prog(vec![("o", vec![Sig(1.0)])]),
            Prog(vec![("o", vec![Sig(1.0), Mul(P::R("~a"))]), ("~a", vec![list()])]),
            Prog(vec![("o", vec![Sig(1.0), Mul(P::R("~a"))]), ("~a", vec![Sig(2.0)])]),
            Prog(vec![("o", vec![Sig(1.0), Mul(P::R("~a"))]), ("~a", vec![list(), Add(P::N(1.0))])]),
            Prog(vec![("o", vec![list(), Mul(P::R("~a"))]), ("~a", vec![list(), Add(P::N(1.0))])]),
            Prog(vec![("o", vec![Noise(3), Mul(P::N(0.5))]), ("~a", vec![list()])]),
            Prog(vec![("o", vec![Noise(5), Mul(P::N(0.5))]), ("~a", vec![list()]), ("p", vec![Noise(3), Mul(P::R("~a"))])]),
        ];
        let (seeds, n) = ([0usize, 1, 7, 43, 256, 4095], steps.len());
        c.par_n(seeds.len() * n * n * n, |i| {
            let (s, x) = (seeds[i % seeds.len()], i / seeds.len());
            let w = [x % n, x / n % n, x / n / n];
            c.case(&format!("seed {s} and {} after programs {w:?}", s + 5), || {
                let mut q = Pair::<16>::new(64, 1e-5);
                let mut h = Fp::new();
                for (k, j) in w.iter().enumerate() {
                    let s = s + 5 * (k / 2);
                    q.e.set_seed(s);
                    q.m.seed = s as u64;
                    q.update(&steps[*j])?;
                    q.block(&mut h)?;
                    c.state(q.m.state_fp());
                }
                c.steps(9);
                Ok(h.get())
            });
        });
    }
    // around the powers of two, where a narrower number would lose something
    let wide: Vec<u64> = (8..32u32).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 42]).filter(|s| *s < u32::MAX as u64 - 5000).collect();
    c.par_n(wide.len(), |i| {
        run(&prog1(vec![Noise(wide[i])]), 64, 6, None);
        for l in [vec![1, 2, 3, 4, 5, 6, 7, 8], (0..40).collect()] {
            run(&prog1(vec![Choose(l)]), 64, 40, Some(wide[i] as usize));
        }
        // the generator works with 31 bits
        if wide[i] >> 31 != 0 {
            return;
        }
        c.case(&format!("seeds 42 and {}", wide[i]), || {
            let two = |code: String, seed: usize| -> Result<Out, String> {
                let mut e = engine::<16>(64);
                e.set_seed(seed);
                upd(&mut e, &code)?;
                Ok(render(&mut e, 60))
            };
            c.steps(240);
            if two(format!("o: noise {}", wide[i]), 42)?.0 == two("o: noise 42".into(), 42)?.0 {
                return Err("two seeds give the same noise".into());
            }
            let l = "o: choose 1 2 3 4 5 6 7 8 9".to_string();
            let (a, b) = (two(l.clone(), 42)?, two(l, wide[i] as usize)?);
            if a.0 == b.0 {
                return Err("two seeds give the same choices".into());
            }
            Ok(fp_str(&format!("{:?}", b.0)))
        });
    });
    // long lists: everything is chosen at some time
    for n in 1..=64usize {
        c.case(&format!("choose among {n}"), || {
            let mut e = engine::<2>(64);
            let l: Vec<i32> = (0..n as i32).map(|k| k * 3 + 1).collect();
            upd(&mut e, &format!("o: {}", Choose(l.clone()).text()))?;
            let o = render(&mut e, 3000);
            c.steps(3001);
            let mut got: Vec<i32> = o.0.iter().map(|v| *v as i32).collect();
            got.sort();
            got.dedup();
            if got != l {
                return Err(format!("only {got:?}"));
            }
            Ok(n as u64)
        });
    }
    // range, and different seeds differ
    c.par_n(nseed, |s| {
        let key = format!("noise {s} range");
        c.case(&key, || {
            let mut e = engine::<64>(44100);
            upd(&mut e, &format!("o: noise {s}\n"))?;
            let a = render(&mut e, 4);
            let mut e2 = engine::<64>(48000);
            upd(&mut e2, &format!("o: noise {s}\n"))?;
            same(&render(&mut e2, 4), &a, "the same seed again")?;
            let mut e3 = engine::<64>(44100);
            upd(&mut e3, &format!("o: noise {}\n", s + 1000))?;
            if render(&mut e3, 4).0 == a.0 {
                return Err("two seeds give the same noise".into());
            }
            let mut h = Fp::new();
            for v in &a.0 {
                if !(-1.0..=1.0).contains(v) {
                    return Err(format!("{v} is outside -1..1"));
                }
                h.f(*v);
            }
            let m = a.0.iter().sum::<f32>() / 256.0;
            if m.abs() > 0.3 || a.0.iter().all(|v| *v == a.0[0]) {
                return Err(format!("mean {m} over 256 samples"));
            }
            c.steps(12);
            Ok(h.get())
        });
    });
    // choose: only listed values, one per block, reproducible, all reached
    let al = [60i32, 0, 72, 48, 1000];
    let lists: Vec<Vec<i32>> = words_upto(&al, 1, c.pick(4, 5));
    c.par_n(lists.len() * 4, |i| {
        let (l, seed) = (&lists[i / 4], [42usize, 0, 7, 123456][i % 4]);
        let txt = format!("o: {}", Choose(l.clone()).text());
        let key = format!("seed {seed}: {txt}");
        c.case(&key, || {
            let mk = || -> Result<Out, String> {
                let mut e = engine::<8>(64);
                e.set_seed(seed);
                upd(&mut e, &txt)?;
                Ok(render(&mut e, 120))
            };
            let (a, b) = (mk()?, mk()?);
            c.steps(242);
            same(&a, &b, "the same seed again")?;
            let mut h = Fp::new();
            let mut seen = std::collections::BTreeSet::new();
            for (k, v) in a.0.iter().enumerate() {
                if !l.iter().any(|x| *x as f32 == *v) {
                    return Err(format!("sample {k} is {v}, which is not in the list"));
                }
                if a.1[k] != *v {
                    return Err(format!("sample {k}: right {} left {v}", a.1[k]));
                }
                seen.insert(*v as i64);
                h.f(*v);
            }
            let want: std::collections::BTreeSet<i64> = l.iter().map(|x| *x as i64).collect();
            if seen != want {
                return Err(format!("120 draws only gave {seen:?}"));
            }
            Ok(h.get())
        });
    });
    c.finish(
        "model_checking",
        "grids of constants, every impulse rate of the grid at four sample rates over three periods, every noise seed up to the bound, every choice list; states = distinct reference states",
        &["the period of an impulse train is rounded down to whole samples"],
        true,
    )
}
