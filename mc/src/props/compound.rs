//! Ready-made instruments, the plate reverb and script nodes.

use crate::lang::Nd::*;
use crate::lang::*;
use crate::rig::*;
use crate::util::*;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

// ---------------------------------------------------------------- C25

pub fn c25(c: &'static Ctx) -> i32 {
    // node text, the patch it stands for, the node for the reference
    let mut insts: Vec<(String, String, Nd)> = vec![];
    for d in [0.001f32, 0.005, 0.02, 0.3] {
        insts.push((
            format!("bd {d}"),
            format!("o: sin ~p >> mul ~env\n~env: ~input >> envperc 0.003 {d}\n~p: ~input >> envperc 0.01 0.1 >> mul 50 >> add 60"),
            Bd(d),
        ));
        insts.push((
            format!("sn {d}"),
            format!("o: sin ~p >> add ~no >> mul ~env\n~env: ~input >> envperc 0.001 {d}\n~no: noise 42 >> mul 0.3\n~p: ~input >> envperc 0.001 0.1 >> mul 55 >> add 60"),
            Sn(d),
        ));
        insts.push((format!("hh {d}"), format!("o: noise 42 >> hpf 15000 1.0 >> mul ~env\n~env: ~input >> envperc 0.003 {d}"), Hh(d)));
        for a in [0.0f32, 0.0005, 0.004] {
            for (n, osc) in [("sawsynth", "saw"), ("squsynth", "squ"), ("trisynth", "tri")] {
                let nd = match n {
                    "sawsynth" => SawSynth(a, d),
                    "squsynth" => SquSynth(a, d),
                    _ => TriSynth(a, d),
                };
                insts.push((
                    format!("{n} {a} {d}"),
                    format!("o: {osc} ~p >> mul ~env\n~env: ~input >> envperc {a} {d}\n~p: ~input >> mul 261.63"),
                    nd,
                ));
            }
        }
    }
    let al = [0.0f32, 1.0, 0.5, 2.0];
    let ws = words(&al, c.pick(3, 4));
    let stretch = [1usize, 7, 40, 300];
    c.note("instruments", insts.len());
    let n = ws.len() * stretch.len();
    c.par_n(insts.len() * n * 2, |i| {
        let (inst, w, st, msg) = (&insts[i / 2 / n], &ws[i / 2 % ws.len()], stretch[i / 2 / ws.len() % 4], i % 2 == 1);
        let key = format!("{} | {w:?} every {st}{}", inst.0, if msg { ", decay by message" } else { "" });
        c.case(&key, || {
            const N: usize = 32;
            let total = (st * w.len() + 400) / N * N;
            let mut trig = vec![0.0f32; total];
            for (k, v) in w.iter().enumerate() {
                trig[k * st] = *v;
            }
            let mut a = engine::<N>(44100);
            let mut b = engine::<N>(44100);
            let mut m = crate::model::Model::new(N);
            upd(&mut a, &format!("o: ~input >> {}", inst.0))?;
            upd(&mut b, &inst.1)?;
            m.update(&Prog(vec![("o", vec![Get("~input"), inst.2.clone()])]));
            let mut f = Fp::new();
            // the reference and the engine may disagree by one sample about
            // where a square or saw jumps
            let jumpy = matches!(inst.2, SawSynth(..) | SquSynth(..));
            let (mut miss, mut k) = (0, 0);
            while k < total {
                if msg && k == 3 * N {
                    let env = if inst.0.contains("synth") { (1, 0.0025) } else { (0, 0.0025) };
                    a.send_msg(&format!("o,1,{},{}", env.0, env.1));
                    b.send_msg(&format!("~env,1,1,{}", env.1));
                    m.msg("o", 1, env.0, env.1);
                }
                let t = &trig[k..k + N];
                let x = blk_in(&mut a, t, t);
                let y = blk_in(&mut b, t, t);
                near(&x, &y, 2e-5, &format!("{} and its patch, from sample {k}", inst.0))?;
                for i in 0..N {
                    m.input.b[0][i] = t[i] as f64;
                    m.input.b[1][i] = t[i] as f64;
                }
                let r = m.block();
                for i in 0..N {
                    f.f(x.0[i]);
                    for (ch, v) in [x.0[i], x.1[i]].into_iter().enumerate() {
                        if (v as f64 - r[ch][i]).abs() > 5e-4 * (1.0 + r[ch][i].abs()) {
                            miss += 1;
                            if !jumpy || miss > 8 {
                                return Err(format!("sample {}: {v} instead of {}", k + i, r[ch][i]));
                            }
                        }
                    }
                }
                k += N;
            }
            c.steps((total / N) as u64);
            c.state(m.state_fp());
            Ok(f.get())
        });
    });
    // triggers with one channel only: a sequencer, impulses and filtered input
    let mono: Vec<(&str, Vec<Nd>)> = vec![
        ("speed 20 >> seq 60 _60 72 60__48", vec![]),
        ("imp 200", vec![Imp(200.0)]),
        ("imp 50 >> mul 0.5", vec![Imp(50.0), Mul(P::N(0.5))]),
        ("sig 1", vec![Sig(1.0)]),
        ("~input >> onepole 1000000", vec![]),
    ];
    c.par_n(insts.len() * mono.len(), |i| {
        let (inst, src) = (&insts[i % insts.len()], &mono[i / insts.len()]);
        let key = format!("{} after {}", inst.0, src.0);
        c.case(&key, || {
            const N: usize = 32;
            let mut a = engine::<N>(44100);
            let mut b = engine::<N>(44100);
            let mut m = crate::model::Model::new(N);
            upd(&mut a, &format!("o: {} >> {}", src.0, inst.0))?;
            upd(&mut b, &format!("{}\n~trig: {}", inst.1.replace("~input", "~trig"), src.0))?;
            let mut ch = src.1.clone();
            ch.push(inst.2.clone());
            m.update(&Prog(vec![("o", ch)]));
            let jumpy = matches!(inst.2, SawSynth(..) | SquSynth(..));
            let mut miss = 0;
            let mut f = Fp::new();
            for k in 0..70 {
                let l: Vec<f32> = (0..N).map(|i| if (k * N + i) % 250 == 3 { 1.0 } else { 0.0 }).collect();
                let r: Vec<f32> = (0..N).map(|i| if (k * N + i) % 330 == 9 { 0.5 } else { 0.0 }).collect();
                let x = blk_in(&mut a, &l, &r);
                let y = blk_in(&mut b, &l, &r);
                near(&x, &y, 2e-5, &format!("{} and its patch, block {k}", inst.0))?;
                let r = m.block();
                for i in 0..N {
                    f.f(x.0[i]);
                    for (ch, v) in [x.0[i], x.1[i]].into_iter().enumerate() {
                        if !src.1.is_empty() && (v as f64 - r[ch][i]).abs() > 5e-4 * (1.0 + r[ch][i].abs()) {
                            miss += 1;
                            if !jumpy || miss > 8 {
                                return Err(format!("sample {}: {v} instead of {}", k * N + i, r[ch][i]));
                            }
                        }
                    }
                }
            }
            c.steps(70);
            c.state(m.state_fp());
            Ok(f.get())
        });
    });
    c.finish(
        "model_checking",
        "every trigger word, at four spacings, into every drum and synth of the parameter grid, with and without a change of the decay by message; compared with the written-out patch on a second engine and with the reference interpreter; states = distinct reference states",
        &["sample rate 44100", "comparison with the patch within 2e-5, with the reference within 5e-4"],
        true,
    )
}

// ---------------------------------------------------------------- C26

pub fn c26(c: &'static Ctx) -> i32 {
    const SR: usize = 7040; // 440 Hz is a sixteenth of it
    let ev: Vec<(f32, f32)> = [0.0f32, 0.125, 0.25, 0.5, 0.75].iter().flat_map(|t| [57.0f32, 69.0, 81.0].iter().map(move |m| (*t, *m))).collect();
    let lists = words_upto(&ev, 1, c.pick(2, 3));
    let confs = [(1920.0f32, 1.0f32), (1920.0, 0.5), (960.0, 0.5), (1920.0, 2.0), (3840.0, 1.0)];
    // many notes, so that many sound together
    let mut lists = lists;
    for n in 3..=16usize {
        for stride in [1usize, 5, 16] {
            lists.push((0..n).map(|k| ((k * stride % 16) as f32 / 16.0, [57.0, 69.0, 81.0][k % 3])).collect());
        }
    }
    for n in [17usize, 18, 24, 31, 32, 33, 34, 63, 64] {
        for stride in [1usize, 5] {
            lists.push((0..n).map(|k| ((k * stride % 64) as f32 / 64.0, [57.0, 69.0, 81.0][k % 3])).collect());
        }
    }
    // the whole keyboard
    lists.extend((0..=117).map(|m| vec![(0.25, m as f32)]));
    c.note("patterns", lists.len());
    let nl = lists.len();
    c.par_n(nl * confs.len(), |i| {
        let (l, (bpm, span)) = (&lists[i % nl], confs[i / nl]);
        for change in [false, true] {
            let p = Prog(vec![("o", vec![PSynth(l.clone(), span)])]);
            let key = format!("bpm {bpm}: {}{}", p.text(), if change { ", then twice as fast" } else { "" });
            c.case(&key, || {
                let mut q = Pair::<64>::new(SR, 1e-4);
                q.bpm(bpm);
                q.update(&p)?;
                let mut f = Fp::new();
                for k in 0..40 {
                    if change && k == 9 {
                        q.bpm(bpm * 2.0);
                    }
                    q.block(&mut f)?;
                    c.state(q.m.state_fp());
                }
                c.steps(41);
                Ok(f.get())
            });
        }
    });
    // message synth: every list of notes, sent at every moment
    let times = [0.0f32, 0.0078125, 0.015625, 0.03125, 0.0625];
    let ev: Vec<(f32, f32)> = times.iter().flat_map(|t| [57.0f32, 69.0, 81.0].iter().map(move |m| (*t, *m))).collect();
    let mut lists = words_upto(&ev, 1, c.pick(3, 4));
    for n in (5..=20usize).chain([31, 32, 33, 34, 64, 65]) {
        lists.push((0..n).map(|k| (0.03125, [57.0, 69.0, 81.0][k % 3])).collect());
        lists.push((0..n).map(|k| (0.03125 + (k % 8) as f32 * 0.0078125, [57.0, 69.0, 81.0][k % 3])).collect());
        lists.push((0..n).rev().map(|k| (0.03125 + (k % 16) as f32 * 0.001953125, 69.0)).collect());
    }
    lists.extend((0..=117).map(|m| vec![(0.0625, m as f32)]));
    let envs = [(0.0078125f32, 0.015625f32), (0.0, 0.03125), (0.015625, 0.0)];
    let nl = lists.len();
    c.note("note_lists", nl);
    c.par_n(nl * envs.len() * 3, |i| {
        let (l, (a, d), at) = (&lists[i % nl], envs[i / nl % 3], i / nl / 3);
        if l.len() == 4 && (at > 0 || a == 0.0) {
            return;
        }
        let key = format!("msgsynth {a} {d} | {l:?} sent after {at} blocks");
        c.case(&key, || {
            let mut q = Pair::<64>::new(SR, 1e-4);
            q.update(&Prog(vec![("o", vec![MsgSynth(a, d)])]))?;
            let mut f = Fp::new();
            q.blocks(at, &mut f)?;
            let msg: Vec<String> = l.iter().map(|(t, m)| format!("o,0,3,{t}=>{m}")).collect();
            if at == 1 {
                q.e.send_msg(&msg.join(";"));
            } else {
                msg.iter().for_each(|m| q.e.send_msg(m));
            }
            for (t, m) in l {
                // a note for a moment that is over is not played
                if (t * SR as f32) as usize >= at * 64 {
                    q.m.chains[0].nodes[0].note_msg(*t, *m);
                }
            }
            for _ in 0..14 {
                q.block(&mut f)?;
                c.state(q.m.state_fp());
            }
            c.steps(15 + at as u64);
            Ok(f.get())
        });
    });
    // parameters of a message synth
    c.par_n(nl.min(240) * 4, |i| {
        let (l, par, at) = (&lists[i / 4], 1 + (i % 2) as u8, i / 2 % 2);
        let key = format!("msgsynth | {l:?} parameter {par} changed at block {at}");
        c.case(&key, || {
            let mut q = Pair::<64>::new(SR, 1e-4);
            q.update(&Prog(vec![("o", vec![MsgSynth(0.0078125, 0.015625), Mul(P::N(2.0))])]))?;
            let mut f = Fp::new();
            for (t, m) in l {
                q.e.send_msg(&format!("o, 0, 3, {t} => {m}"));
                q.m.chains[0].nodes[0].note_msg(*t, *m);
            }
            q.blocks(at * 3, &mut f)?;
            q.msg("o", 0, par, 0.03125);
            q.blocks(12, &mut f)?;
            c.steps(16);
            Ok(f.get())
        });
    });
    c.finish(
        "model_checking",
        "every pattern of up to 2 (3) notes at five tempo/span settings with and without a tempo change, every list of up to 3 (4) notes sent to a message synth at three moments; against the reference interpreter; states = distinct reference states",
        &["times and pitches are exact in single precision", "comparison within 1e-4"],
        true,
    )
}

// ---------------------------------------------------------------- C27

struct Ring(VecDeque<f64>);
impl Ring {
    fn new(n: usize) -> Self {
        Ring(VecDeque::from(vec![0.0; n]))
    }
    fn push(&mut self, x: f64) -> f64 {
        self.0.push_back(x);
        self.0.pop_front().unwrap()
    }
}
struct AllPass {
    x: Ring,
    y: Ring,
    g: f64,
}
impl AllPass {
    fn ms(ms: f32, g: f64) -> Self {
        let n = crate::model::frames_ms(ms, 44100.0).max(1);
        AllPass { x: Ring::new(n), y: Ring::new(n), g }
    }
    fn step(&mut self, x: f64) -> f64 {
        let y = -self.g * x + self.x.0[0] + self.g * self.y.0[0];
        self.x.push(x);
        self.y.push(y);
        y
    }
    fn step_mod(&mut self, x: f64, ms: f32) -> f64 {
        let rd = |r: &VecDeque<f64>| {
            // the position is single precision, like every control signal
            let p = (-ms / 1000.0 * 44100.0).rem_euclid(r.len() as f32);
            let (i, f) = (p.floor() as usize, (p - p.floor()) as f64);
            r[i % r.len()] * (1.0 - f) + r[(i + 1) % r.len()] * f
        };
        let y = -self.g * x + rd(&self.x.0) + self.g * rd(&self.y.0);
        self.x.push(x);
        self.y.push(y);
        y
    }
}

/// The network of the plate, sample by sample; the loop has an extra delay of
/// one block at `edge`.  Returns the wet signals.
fn plate_wet(input: &[f32], block: usize, edge: usize) -> (Vec<f64>, Vec<f64>) {
    let mut op = [0.0f64; 3];
    let pole = |s: &mut f64, x: f64, r: f64| {
        let b = (-2.0 * std::f64::consts::PI * r).exp();
        *s = x * (1.0 - b) + b * *s;
        *s
    };
    let mut pre = Ring::new(2205);
    let mut ap: Vec<AllPass> = [
        (4.771f32, 0.75),
        (3.595, 0.75),
        (12.72, 0.625),
        (9.307, 0.625),
        (100.0, 0.7),
        (7.596, 0.5),
        (35.78, 0.5),
        (100.0, 0.5),
        (30.0, 0.7),
        (6.2, 0.7),
        (34.92, 0.7),
        (20.4, 0.7),
    ]
    .iter()
    .map(|(m, g)| AllPass::ms(*m, *g))
    .collect();
    let mut dl: Vec<Ring> = [394, 2800, 1204, 2000, 179, 2679, 3500, 522, 2400, 2400, 1578, 2378, 2500].iter().map(|n| Ring::new(*n)).collect();
    let mut extra = Ring::new(block);
    let mut phase = 0.0f32;
    let (mut lo, mut ro) = (vec![], vec![]);
    for x in input {
        let mut e = 0;
        // passes a signal along one edge of the loop
        macro_rules! edge {
            ($v:expr) => {{
                let v = $v;
                e += 1;
                if e - 1 == edge {
                    extra.push(v)
                } else {
                    v
                }
            }};
        }
        let ms = (phase * 2.0 * std::f32::consts::PI).sin() * 5.5 + 29.5;
        phase += 0.1f32 / 44100.0;
        if phase > 1.0 {
            phase -= 1.0;
        }
        let mut s = pre.push(pole(&mut op[0], *x as f64, 0.7));
        for k in 0..4 {
            s = ap[k].step(s);
        }
        // the last delay of the loop is read before it is fed
        let fb1 = dl[12].0[0];
        let fb2 = edge!(fb1) * 0.3;
        s = edge!(s + edge!(fb2));
        s = edge!(ap[4].step_mod(s, ms));
        let aa = dl[0].push(s);
        let ab = dl[1].push(edge!(aa));
        let ac = dl[2].push(edge!(ab));
        let mut s = edge!(dl[3].push(edge!(ac)));
        s = edge!(pole(&mut op[1], s, 0.1));
        let ba2 = ap[5].step(s);
        let bb = ap[6].step(edge!(ba2));
        let bc = ap[7].step_mod(edge!(bb), ms);
        let ca = dl[4].push(edge!(bc));
        let cb = dl[5].push(edge!(ca));
        let cc2 = edge!(dl[6].push(edge!(cb))) * 0.3;
        let da1 = ap[8].step(edge!(cc2));
        let da2 = dl[7].push(edge!(da1));
        let db = dl[8].push(edge!(da2));
        let dc = dl[9].push(edge!(db));
        let ea1 = pole(&mut op[2], edge!(dc), 0.1);
        let ea2 = ap[9].step(edge!(ea1));
        let eb = ap[10].step(edge!(ea2));
        let fa1 = ap[11].step(edge!(eb));
        let fa2 = dl[10].push(edge!(fa1));
        let fb0 = dl[11].push(edge!(fa2));
        dl[12].push(edge!(fb0));
        lo.push(aa + ab + cb - (bb + db + ea2 + fa2));
        ro.push(da2 + db + fb0 - (eb + ab + ba2 + ca));
        if e > EDGES {
            unreachable!("{e} edges");
        }
    }
    (lo, ro)
}
const EDGES: usize = 26;

pub fn c27(c: &'static Ctx) -> i32 {
    const N: usize = 128;
    fn run(txt: &str, x: &[f32]) -> Result<Out, String> {
        let mut e = engine::<N>(44100);
        upd(&mut e, txt)?;
        Ok(render_in(&mut e, x, x))
    }
    let len = c.pick(60000usize, 150000) / N * N;
    // sparse inputs: words of impulses at spaced positions
    let sig = |w: &[f32], gap: usize, len: usize| -> Vec<f32> {
        let mut v = vec![0.0; len];
        for (i, x) in w.iter().enumerate() {
            if i * gap < len {
                v[i * gap] = *x;
            }
        }
        v
    };
    let al = [1.0f32, -0.5, 0.0];
    let mut ins: Vec<(String, Vec<f32>)> = vec![];
    for w in words(&al, 2) {
        for gap in [1usize, 100, 5000] {
            ins.push((format!("{w:?} every {gap}"), sig(&w, gap, len)));
        }
    }
    ins.push(("step".into(), vec![0.25; len]));
    ins.push(("sine".into(), (0..len).map(|i| (i as f32 * 0.01).sin()).collect()));
    // against the network
    let hint = AtomicUsize::new(0);
    c.par_n(ins.len(), |i| {
        let (name, x) = &ins[i];
        let key = format!("network: {name}");
        c.case(&key, || {
            let got = run("o: ~input >> plate 1.0", x)?;
            c.steps((len / N) as u64);
            let mut err = String::new();
            let first = hint.load(Relaxed);
            for k in 0..EDGES {
                let edge = (first + k) % EDGES;
                let (l, r) = plate_wet(x, N, edge);
                let bad = (0..len).find(|i| (got.0[*i] as f64 - l[*i]).abs() > 3e-4 * (1.0 + l[*i].abs()) || (got.1[*i] as f64 - r[*i]).abs() > 3e-4 * (1.0 + r[*i].abs()));
                match bad {
                    None => {
                        hint.store(edge, Relaxed);
                        c.note("loop_edge_with_block_delay", edge);
                        let mut f = Fp::new();
                        for i in (0..len).step_by(7) {
                            f.f(got.0[i]).f(got.1[i]);
                        }
                        c.state(f.get());
                        return Ok(f.get());
                    }
                    Some(i) => {
                        if k == 0 {
                            err = format!("sample {i}: {} {} instead of {} {}", got.0[i], got.1[i], l[i], r[i]);
                        }
                    }
                }
            }
            Err(err)
        });
    });
    // superposition over all pairs of impulse positions and gains
    let short = 12000 / N * N;
    let pos = [0usize, 1, 127, 128, 500, 3000];
    let gains = [1.0f32, -0.5, 2.0];
    let one = |p: usize, g: f32| {
        let mut v = vec![0.0f32; short];
        v[p] = g;
        v
    };
    let base: Vec<Result<Out, String>> = pos.iter().map(|p| guard(|| run("o: ~input >> plate 1.0", &one(*p, 1.0))).unwrap_or_else(Err)).collect();
    c.par_n(pos.len() * pos.len() * 9, |i| {
        let (a, b, g, h) = (i % 6, i / 6 % 6, gains[i / 36 % 3], gains[i / 108]);
        let key = format!("superposition: {g} at {} plus {h} at {}", pos[a], pos[b]);
        c.case(&key, || {
            let mut x = one(pos[a], g);
            x[pos[b]] += h;
            let got = run("o: ~input >> plate 1.0", &x)?;
            c.steps((short / N) as u64);
            let (p, q) = (base[a].as_ref().map_err(|e| e.clone())?, base[b].as_ref().map_err(|e| e.clone())?);
            let mut f = Fp::new();
            for i in 0..short {
                let wl = g * p.0[i] + h * q.0[i];
                let wr = g * p.1[i] + h * q.1[i];
                if (got.0[i] - wl).abs() > 1e-4 || (got.1[i] - wr).abs() > 1e-4 {
                    return Err(format!("sample {i}: {} {} instead of {wl} {wr}", got.0[i], got.1[i]));
                }
                f.f(wl);
            }
            Ok(f.get())
        });
    });
    // the mix interpolates between dry and wet, written or set by message
    let mixes: Vec<f32> = (0..=8).map(|k| k as f32 / 8.0).collect();
    let x = sig(&[1.0, -0.5, 0.25, 2.0, 0.5, -1.0, 0.75, 1.5, -0.25, 1.0, 0.5, -2.0, 1.0, 0.25, -0.5, 1.0], 700, short);
    let wet = guard(|| run("o: ~input >> plate 1.0", &x)).unwrap_or_else(Err);
    c.par_n(mixes.len() * (mixes.len() + 1), |i| {
        let (m, by) = (mixes[i % mixes.len()], i / mixes.len());
        let key = if by == 0 { format!("mix {m}") } else { format!("mix {} set to {m}", mixes[by - 1]) };
        c.case(&key, || {
            let w = wet.as_ref().map_err(|e| e.clone())?;
            let mut e = engine::<N>(44100);
            let first = if by == 0 { m } else { mixes[by - 1] };
            upd(&mut e, &format!("o: ~input >> plate {first}"))?;
            let mut f = Fp::new();
            let mut k = 0;
            while k < short {
                if by > 0 && k == 20 * N {
                    e.send_msg(&format!("o,1,0,{m}"));
                }
                let cur = if k < 20 * N { first } else { m };
                let o = blk_in(&mut e, &x[k..k + N], &x[k..k + N]);
                for i in 0..N {
                    for (ch, v) in [o.0[i], o.1[i]].into_iter().enumerate() {
                        let wv = if ch == 0 { w.0[k + i] } else { w.1[k + i] };
                        let want = cur * wv + (1.0 - cur) * x[k + i];
                        if (v - want).abs() > 1e-5 {
                            return Err(format!("channel {ch} sample {}: {v} instead of {want}", k + i));
                        }
                        f.f(v);
                    }
                }
                k += N;
            }
            c.steps((short / N) as u64);
            c.state(f.get());
            Ok(f.get())
        });
    });
    // a source with one channel, and a node after the plate
    let every = vec![1.0f32; 17];
    let x = sig(&every, 735, short);
    let wet1 = guard(|| run("o: ~input >> plate 1.0", &x)).unwrap_or_else(Err);
    c.par_n(mixes.len() * 2, |i| {
        let (m, after) = (mixes[i / 2], i % 2 == 1);
        let txt = format!("o: imp 60 >> plate {m}{}", if after { " >> mul -0.5" } else { "" });
        c.case(&txt, || {
            let w = wet1.as_ref().map_err(|e| e.clone())?;
            let o = run(&txt, &vec![0.0; short])?;
            let mut f = Fp::new();
            for k in 0..short {
                for (ch, v) in [o.0[k], o.1[k]].into_iter().enumerate() {
                    let wv = if ch == 0 { w.0[k] } else { w.1[k] };
                    let want = (m * wv + (1.0 - m) * x[k]) * if after { -0.5 } else { 1.0 };
                    if (v - want).abs() > 1e-5 {
                        return Err(format!("channel {ch} sample {k}: {v} instead of {want}"));
                    }
                    f.f(v);
                }
            }
            c.steps((short / N) as u64);
            c.state(f.get());
            Ok(f.get())
        });
    });
    // dies away: after the input stops, every later window is quieter than the
    // loudest of two rounds before
    let tail = c.pick(400_000usize, 2_000_000) / N * N;
    let stops: Vec<(String, usize, f32)> = [(1usize, 1.0f32), (1, -1.0), (5000, 1.0), (20000, 0.5)].iter().map(|(n, g)| (format!("{n} samples of {g}"), *n, *g)).collect();
    c.par(&stops, |(name, n, g)| {
        let key = format!("dies away: {name}");
        c.case(&key, || {
            let mut e = engine::<N>(44100);
            upd(&mut e, "o: ~input >> plate 1.0")?;
            let mut f = Fp::new();
            let mut peak = vec![];
            let mut k = 0;
            while k < tail {
                let x: Vec<f32> = (k..k + N).map(|i| if i < *n { *g } else { 0.0 }).collect();
                let o = blk_in(&mut e, &x, &x);
                let p = o.0.iter().chain(&o.1).fold(0.0f32, |a, b| a.max(b.abs()));
                if !p.is_finite() || p > 50.0 {
                    return Err(format!("level {p} at sample {k}"));
                }
                peak.push(p);
                k += N;
            }
            c.steps((tail / N) as u64);
            let loud = peak.iter().cloned().fold(0.0, f32::max);
            let last = peak[peak.len() - 300..].iter().cloned().fold(0.0, f32::max);
            if loud < 0.01 || last > 0.01 * loud {
                return Err(format!("loudest {loud}, still {last} after {tail} samples"));
            }
            f.f(loud);
            Ok(f.get())
        });
    });
    c.finish(
        "model_checking",
        "every impulse word of the grid against the network simulated in double precision, superposition of every pair of impulses, every mix value written and set by message, decay; states = distinct responses",
        &["sample rate 44100, block size 128", "the loop carries one extra block of delay at one of its edges; which one is not prescribed"],
        true,
    )
}

// ---------------------------------------------------------------- C28

#[derive(Clone, Debug)]
enum Ex {
    N(f64),
    V(&'static str),
    B(char, Box<Ex>, Box<Ex>),
    F(&'static str, Vec<Ex>),
}
impl Ex {
    fn text(&self) -> String {
        match self {
            Ex::N(v) => format!("{v:?}"),
            Ex::V(v) => v.to_string(),
            Ex::B(o, a, b) => format!("({} {o} {})", a.text(), b.text()),
            Ex::F(n, v) => format!("{n}({})", v.iter().map(|x| x.text()).collect::<Vec<_>>().join(", ")),
        }
    }
    fn eval(&self, get: &dyn Fn(&str) -> Option<f64>) -> Option<f64> {
        Some(match self {
            Ex::N(v) => *v,
            Ex::V(v) => get(v)?,
            Ex::B(o, a, b) => {
                let (a, b) = (a.eval(get)?, b.eval(get)?);
                match o {
                    '+' => a + b,
                    '-' => a - b,
                    '*' => a * b,
                    '/' => a / b,
                    '%' => a % b,
                    '<' => (a < b) as u8 as f64,
                    '>' => (a > b) as u8 as f64,
                    '^' => a.powf(b),
                    _ => unreachable!(),
                }
            }
            Ex::F(n, v) => {
                let x: Option<Vec<f64>> = v.iter().map(|e| e.eval(get)).collect();
                let x = x?;
                match *n {
                    "sin" => x[0].sin(),
                    "abs" => x[0].abs(),
                    "floor" => x[0].floor(),
                    _ => unreachable!(),
                }
            }
        })
    }
}

fn exprs(atoms: &[Ex], ops: &[char]) -> Vec<Ex> {
    let mut v = vec![];
    for a in atoms {
        for b in atoms {
            for o in ops {
                v.push(Ex::B(*o, Box::new(a.clone()), Box::new(b.clone())));
            }
        }
    }
    v
}

/// One expression node program: assignments, then the value.
fn check_eval(c: &'static Ctx, key: &str, sts: &[(&'static str, Ex)], last: &Ex, headless: bool) {
    c.case(key, || {
        const N: usize = 4;
        let code = format!("{}{}", sts.iter().map(|(v, e)| format!("{v}:={};", e.text())).collect::<String>(), last.text());
        let mut e = engine::<N>(64);
        let txt = if headless { format!("o: eval `{code}`") } else { format!("o: ~input >> eval `{code}`") };
        upd(&mut e, &txt)?;
        let input = [1.0f32, -0.5, 0.25, 0.0, 2.0, 0.0, -1.0, 3.0];
        let other = [5.0f32; 8];
        let o = render_in(&mut e, &input, &other);
        c.steps(3);
        let mut map: std::collections::BTreeMap<String, f64> = [("x", 0.0), ("y", 0.0), ("z", 0.0), ("sr", 64.0)].iter().map(|(a, b)| (a.to_string(), *b)).collect();
        let mut f = Fp::new();
        for (i, x) in input.iter().enumerate() {
            if !headless {
                map.insert("in".into(), *x as f64);
            }
            map.insert("phase".into(), i as f64);
            for (v, e) in sts {
                let r = e.eval(&|n| map.get(n).copied()).unwrap_or(0.0);
                map.insert(v.to_string(), r);
            }
            let r = last.eval(&|n| map.get(n).copied()).unwrap_or(0.0) as f32;
            for (ch, got) in [o.0[i], o.1[i]].into_iter().enumerate() {
                let ok = (got.is_nan() && r.is_nan()) || got == r || (got - r).abs() <= 1e-5 * (1.0 + r.abs());
                if !ok {
                    return Err(format!("channel {ch} sample {i}: {got} instead of {r} for {code}"));
                }
            }
            f.f(r);
        }
        c.state(f.get());
        Ok(f.get())
    });
}

pub fn c28(c: &'static Ctx) -> i32 {
    use Ex::*;
    let bx = Box::new;
    let atoms: Vec<Ex> = vec![V("in"), V("phase"), V("sr"), V("x"), N(2.0), N(0.5), V("a")];
    let ops = ['+', '-', '*', '/', '%', '<', '>', '^'];
    let mut lvl1: Vec<Ex> = atoms.clone();
    let e2 = exprs(&atoms, &ops);
    lvl1.extend(e2.iter().cloned());
    for a in &atoms {
        for n in ["sin", "abs", "floor"] {
            lvl1.push(F(n, vec![a.clone()]));
        }
    }
    c.note("expressions", lvl1.len());
    // one expression, with and without an input
    c.par_n(lvl1.len() * 2, |i| {
        let e = &lvl1[i / 2];
        // undefined variable a, or in without input: the value is zero
        check_eval(c, &format!("eval {} {}", e.text(), if i % 2 == 1 { "without input" } else { "" }), &[], e, i % 2 == 1);
    });
    // one assignment, then an expression
    let vars = ["x", "a", "y"];
    let lasts: Vec<Ex> = vec![V("x"), V("a"), V("y"), B('+', bx(V("x")), bx(V("in"))), B('*', bx(V("a")), bx(N(2.0)))];
    c.par_n(lvl1.len() * vars.len() * lasts.len(), |i| {
        let (e, v, l) = (&lvl1[i / 15], vars[i % 3], &lasts[i / 3 % 5]);
        check_eval(c, &format!("eval {v}:={}; {}", e.text(), l.text()), &[(v, e.clone())], l, false);
    });
    // two and three assignments
    let small: Vec<Ex> = vec![
        B('+', bx(V("x")), bx(V("in"))),
        B('+', bx(V("x")), bx(N(1.0))),
        B('*', bx(V("a")), bx(N(0.5))),
        B('-', bx(V("y")), bx(V("x"))),
        V("in"),
        V("phase"),
        N(3.0),
        V("y"),
    ];
    let st: Vec<(&'static str, Ex)> = vars.iter().flat_map(|v| small.iter().map(move |e| (*v, e.clone()))).collect();
    let ns = st.len();
    c.par_n(ns * ns * lasts.len(), |i| {
        let (p, q, l) = (&st[i % ns], &st[i / ns % ns], &lasts[i / ns / ns]);
        check_eval(c, &format!("eval {}:={}; {}:={}; {}", p.0, p.1.text(), q.0, q.1.text(), l.text()), &[p.clone(), q.clone()], l, false);
    });
    if c.thorough() {
        c.par_n(ns * ns * ns, |i| {
            let (p, q, r) = (&st[i % ns], &st[i / ns % ns], &st[i / ns / ns]);
            let l = &lasts[3];
            let key = format!("eval {}:={}; {}:={}; {}:={}; {}", p.0, p.1.text(), q.0, q.1.text(), r.0, r.1.text(), l.text());
            check_eval(c, &key, &[p.clone(), q.clone(), r.clone()], l, false);
        });
        // depth three
        c.par_n(e2.len() * e2.len(), |i| {
            let e = B('+', bx(e2[i / e2.len()].clone()), bx(e2[i % e2.len()].clone()));
            check_eval(c, &format!("eval {}", e.text()), &[], &e, false);
        });
    }
    // long lists of assignments, each looking at the one before
    let names: Vec<&'static str> = ["b", "d", "f", "g", "h", "k", "l", "m", "n", "o", "p", "q"]
        .into_iter()
        .chain((0..60).map(|k| &*Box::leak(format!("v{}{}", (b'a' + k / 10) as char, (b'a' + k % 10) as char).into_boxed_str())))
        .collect();
    for n in (3..=12).chain([13, 16, 17, 18, 24, 31, 32, 33, 34, 48, 64, 65, 66]) {
        for at in (0..n).filter(|at| n <= 12 || [0, 1, n / 2, n - 2, n - 1].contains(at)) {
            for e in &small {
                let mut sts: Vec<(&'static str, Ex)> = (0..n).map(|k| (names[k], if k == 0 { V("in") } else { B('+', bx(V(names[k - 1])), bx(N(1.0))) })).collect();
                sts[at].1 = e.clone();
                let l = B('*', bx(V(names[n - 1])), bx(N(2.0)));
                let text: Vec<String> = sts.iter().map(|s| format!("{}:={}", s.0, s.1.text())).collect();
                check_eval(c, &format!("eval {}; {}", text.join("; "), l.text()), &sts, &l, false);
                // the same variable over and over
                let sts: Vec<(&'static str, Ex)> = (0..n).map(|k| ("x", if k == at { e.clone() } else { B('+', bx(V("x")), bx(N(k as f64 + 1.0))) })).collect();
                let text: Vec<String> = sts.iter().map(|s| format!("{}:={}", s.0, s.1.text())).collect();
                check_eval(c, &format!("eval {}; {}", text.join("; "), lasts[3].text()), &sts, &lasts[3], false);
            }
        }
    }
    // a new expression by message
    let simple: Vec<Ex> = vec![V("in"), B('+', bx(N(1.0)), bx(N(1.0))), B('*', bx(V("in")), bx(N(2.0))), V("phase"), B('+', bx(V("x")), bx(N(1.0)))];
    for a in &simple {
        for b in &simple {
            for at in 0..3 {
                let key = format!("eval {} then by message {} after {at}", a.text(), b.text());
                c.case(&key, || {
                    let mut e = engine::<4>(64);
                    upd(&mut e, &format!("o: ~input >> eval `{}`", a.text()))?;
                    let inp = [1.0f32, -0.5, 0.25, 0.0];
                    let mut f = Fp::new();
                    for k in 0..5 {
                        if k == at {
                            e.send_msg(&format!("o,1,0,{}", b.text()));
                        }
                        let o = blk_in(&mut e, &inp, &inp);
                        let x = if k < at { a } else { b };
                        for i in 0..4 {
                            let w = x
                                .eval(&|n| match n {
                                    "in" => Some(inp[i] as f64),
                                    "phase" => Some((k * 4 + i) as f64),
                                    "x" => Some(0.0),
                                    _ => None,
                                })
                                .unwrap_or(0.0) as f32;
                            if (o.0[i] - w).abs() > 1e-5 {
                                return Err(format!("block {k} sample {i}: {} instead of {w}", o.0[i]));
                            }
                            f.f(w);
                        }
                    }
                    c.steps(7);
                    Ok(f.get())
                });
            }
        }
    }
    // scripts per block: a loop that fills the block and keeps variables
    let at = [V("x"), V("phase"), V("sr"), N(2.0), N(0.5), F("in", vec![])];
    let body: Vec<Ex> = exprs(&at, &['+', '-', '*']).into_iter().chain(at.iter().cloned()).collect();
    fn rh(e: &Ex) -> String {
        match e {
            N(v) => format!("{v:?}"),
            V(v) => v.to_string(),
            B(o, a, b) => format!("({} {o} {})", rh(a), rh(b)),
            F("in", _) => "input[i]".into(),
            F(n, v) => format!("{n}({})", v.iter().map(rh).collect::<Vec<_>>().join(", ")),
        }
    }
    let stv: [&'static str; 3] = ["x", "phase", "y0"];
    let nb = body.len();
    c.note("script_bodies", nb);
    c.par_n(nb * nb, |i| {
        let (val, upd_e) = (&body[i % nb], &body[i / nb]);
        let var = stv[i % 3];
        let code = format!("output.pad(4, 0.0); for i in 0..4 {{ output[i] = {}; {var} = {}; }}; output", rh(val), rh(upd_e));
        c.case(&format!("meta {code}"), || {
            let mut e = engine::<4>(64);
            upd(&mut e, &format!("o: ~input >> meta `{code}`"))?;
            let input = [1.0f32, -0.5, 0.25, 0.0, 2.0, 0.0, -1.0, 3.0, 0.125, 1.0, -4.0, 0.5];
            let o = render_in(&mut e, &input, &[7.0; 12]);
            c.steps(4);
            let mut map: std::collections::BTreeMap<&str, f64> = [("x", 0.0), ("phase", 0.0), ("y0", 0.0), ("sr", 64.0)].into_iter().collect();
            let mut f = Fp::new();
            fn ev(e: &Ex, m: &std::collections::BTreeMap<&str, f64>, x: f64) -> f64 {
                match e {
                    N(v) => *v,
                    V(v) => m[v],
                    F(..) => x,
                    B(o, a, b) => {
                        let (a, b) = (ev(a, m, x), ev(b, m, x));
                        match o {
                            '+' => a + b,
                            '-' => a - b,
                            _ => a * b,
                        }
                    }
                }
            }
            for (i, x) in input.iter().enumerate() {
                let w = ev(val, &map, *x as f64);
                let g = o.0[i] as f64;
                if !((g - w).abs() <= 1e-4 * (1.0 + w.abs()) || (w.abs() > 1e30 && g.abs() > 1e30) || g.is_nan()) {
                    return Err(format!("sample {i}: {g} instead of {w}"));
                }
                let n = ev(upd_e, &map, *x as f64);
                map.insert(var, n);
                f.f(w as f32);
            }
            c.state(f.get());
            Ok(f.get())
        });
    });
    // results that are not a full block of floats
    let odd: [(&str, [f32; 8]); 12] = [
        ("[1.0, 2.0]", [1.0, 2.0, 0.0, 0.0, 1.0, 2.0, 0.0, 0.0]),
        ("[]", [0.0; 8]),
        ("[1.0, 2.0, 3.0, 4.0, 5.0, 6.0]", [1.0, 2.0, 3.0, 4.0, 1.0, 2.0, 3.0, 4.0]),
        ("[1, 2, 3.0, 4.0]", [0.0, 0.0, 3.0, 4.0, 0.0, 0.0, 3.0, 4.0]),
        ("1.0", [0.0; 8]),
        ("\"abc\"", [0.0; 8]),
        ("", [0.0; 8]),
        ("throw 1", [0.0; 8]),
        ("nothere", [0.0; 8]),
        ("[sr, sr, sr, sr]", [64.0; 8]),
        ("x += 1.0; [x, x + 0.5, x * 2.0, freq2]", [1.0, 1.5, 2.0, 0.0, 2.0, 2.5, 4.0, 0.0]),
        ("let q = 3.0; [q, q, q, z3 + q]", [3.0; 8]),
    ];
    for (code, want) in &odd {
        c.case(&format!("meta {code}"), || {
            let mut e = engine::<4>(64);
            upd(&mut e, &format!("o: meta `{code}`"))?;
            let o = render(&mut e, 2);
            c.steps(3);
            if o.0 != want.to_vec() || o.1 != o.0 {
                return Err(format!("{:?} instead of {want:?}", o.0));
            }
            Ok(fp_str(&format!("{want:?}")))
        });
    }
    // every variable a script finds is zero at first and is kept; there is no other
    let vars: Vec<String> = ["x", "y", "z"].iter().flat_map(|v| (0..4).map(move |k| format!("{v}{k}"))).chain(('a'..='z').map(|v| v.to_string())).chain(["phase", "freq", "freq2"].map(String::from)).collect();
    let all = format!("[{}]", vars.join(", "));
    for (k, v) in vars.iter().enumerate() {
        c.case(&format!("script variable {v}"), || {
            let mut e = engine::<64>(64);
            upd(&mut e, &format!("o: meta `{v} += 1.5; {all}`"))?;
            for b in 1..4 {
                let o = blk(&mut e);
                for (j, n) in vars.iter().enumerate() {
                    let w = if j == k { b as f32 * 1.5 } else { 0.0 };
                    if o.0[j] != w {
                        return Err(format!("{n} is {} in block {b}, not {w}", o.0[j]));
                    }
                }
            }
            c.steps(4);
            Ok(k as u64)
        });
    }
    for v in ["x", "y", "z"] {
        for first in ["0", "in", "x+y+z"] {
            c.case(&format!("expression variable {v} and {first}"), || {
                let mut e = engine::<4>(64);
                upd(&mut e, &format!("o: sig 2 >> eval `b:={first}; {v}:={v}+1; x*100+y*10+z+b*1000`"))?;
                let o = render(&mut e, 2);
                let (mut m, f) = ([0.0f32; 3], |m: &[f32; 3]| match first {
                    "0" => 0.0,
                    "in" => 2.0,
                    _ => m.iter().sum::<f32>(),
                });
                for (i, g) in o.0.iter().enumerate() {
                    let b = f(&m);
                    m["xyz".find(v).unwrap()] += 1.0;
                    let w = m[0] * 100.0 + m[1] * 10.0 + m[2] + b * 1000.0;
                    if *g != w {
                        return Err(format!("sample {i} is {g}, not {w}"));
                    }
                }
                c.steps(3);
                Ok(1)
            });
        }
    }
    // a script whose answer changes from block to block: what it does not give is
    // silent, whatever it gave before
    let gives: [(&str, [f32; 4]); 9] = [
        ("[1.0, 2.0, 3.0, 4.0]", [1.0, 2.0, 3.0, 4.0]),
        ("[5.0, 6.0, 7.0, 8.0, 9.0]", [5.0, 6.0, 7.0, 8.0]),
        ("[0.5]", [0.5, 0.0, 0.0, 0.0]),
        ("[]", [0.0; 4]),
        ("[1, 2.5, true, 3.5]", [0.0, 2.5, 0.0, 3.5]),
        ("throw 1", [0.0; 4]),
        ("nothere", [0.0; 4]),
        ("7.0", [0.0; 4]),
        ("output", [0.0; 4]),
    ];
    let ng = gives.len();
    c.par_n(ng * ng * ng, |i| {
        let w = [&gives[i % ng], &gives[i / ng % ng], &gives[i / ng / ng]];
        let code = format!("x += 1.0; if x == 1.0 {{ {} }} else if x == 2.0 {{ {} }} else {{ {} }}", w[0].0, w[1].0, w[2].0);
        c.case(&format!("meta {code}"), || {
            let mut e = engine::<4>(64);
            upd(&mut e, &format!("o: meta `{code}`"))?;
            let mut f = Fp::new();
            for g in w {
                let o = blk(&mut e);
                if o.0 != g.1 || o.1 != g.1 {
                    return Err(format!("{:?} instead of {:?} for {}", o.0, g.1, g.0));
                }
                o.0.iter().for_each(|v| {
                    f.f(*v);
                });
            }
            c.steps(4);
            c.state(f.get());
            Ok(f.get())
        });
        // and by a message that names one of its own
        c.case(&format!("meta {}, then {}, then {} by message", w[0].0, w[1].0, w[2].0), || {
            let mut e = engine::<4>(64);
            upd(&mut e, &format!("o: meta `{}`", w[0].0))?;
            let mut f = Fp::new();
            for (k, g) in w.iter().enumerate() {
                if k > 0 {
                    let id = e.index_info["o"][0];
                    e.context.graph[id].node.send_msg(glicol_synth::Message::SetToSymbol(0, g.0.to_string()));
                }
                for _ in 0..2 {
                    let o = blk(&mut e);
                    if o.0 != g.1 {
                        return Err(format!("{:?} instead of {:?} for {}", o.0, g.1, g.0));
                    }
                    o.0.iter().for_each(|v| {
                        f.f(*v);
                    });
                }
            }
            c.steps(9);
            Ok(f.get())
        });
    });
    // a script that does not compile leaves the running one and what it remembers
    let comes: [(&str, Option<f32>); 7] = [("x += 1.0; [x]", Some(1.0)), ("x += 10.0; [x]", Some(10.0)), ("x *= 2.0; [x]", None), ("[1.0", None), ("if {", None), ("x += ", None), ("x y z", None)];
    let nc = comes.len();
    c.par_n(nc.pow(4), |i| {
        let w: Vec<usize> = (0..4).map(|k| i / nc.pow(k) % nc).collect();
        c.case(&format!("scripts {} by message", w.iter().map(|k| comes[*k].0).collect::<Vec<_>>().join(" | ")), || {
            let mut e = engine::<4>(64);
            upd(&mut e, &format!("o: meta `{}`", comes[w[0]].0))?;
            let (mut x, mut now) = (0.0f32, None);
            let mut f = Fp::new();
            for (k, n) in w.iter().enumerate() {
                if k > 0 {
                    let id = e.index_info["o"][0];
                    e.context.graph[id].node.send_msg(glicol_synth::Message::SetToSymbol(0, comes[*n].0.to_string()));
                }
                if *n < 3 {
                    now = Some(*n);
                }
                for _ in 0..2 {
                    match now {
                        Some(2) => x *= 2.0,
                        Some(n) => x += comes[n].1.unwrap(),
                        None => {}
                    }
                    let (o, want) = (blk(&mut e), if now.is_some() { x } else { 0.0 });
                    if o.0[0] != want {
                        return Err(format!("{} instead of {want} after {}", o.0[0], comes[*n].0));
                    }
                    f.f(want);
                }
            }
            c.steps(9);
            c.state(f.get());
            Ok(f.get())
        });
    });
    // the same for the lines of an expression node: one broken line and all is silent
    let lines: [(&str, bool); 9] = [("x:=x+1", true), ("y:=in*2", true), ("x", true), ("y+0.5", true), ("in", true), ("1+", false), ("x:=*", false), ("(in", false), ("nothere", true)];
    let nl = lines.len();
    let run = |mem: &mut std::collections::BTreeMap<&'static str, f64>, l: &[(&'static str, bool)], x: f64| -> f64 {
        let mut last = 0.0;
        if l.iter().any(|l| !l.1) {
            return 0.0;
        }
        for (t, _) in l {
            let (var, v) = match *t {
                "x:=x+1" => (Some("x"), mem["x"] + 1.0),
                "y:=in*2" => (Some("y"), x * 2.0),
                "x" => (None, mem["x"]),
                "y+0.5" => (None, mem["y"] + 0.5),
                "in" => (None, x),
                _ => (None, 0.0),
            };
            last = v;
            // the last line is the output, not an assignment
            if let (Some(n), false) = (var, std::ptr::eq(t, &l[l.len() - 1].0)) {
                mem.insert(n, v);
            }
        }
        last
    };
    let codes: Vec<Vec<(&'static str, bool)>> = (0..nl).map(|i| vec![lines[i]]).chain((0..nl * nl).map(|i| vec![lines[i % nl], lines[i / nl]])).chain((0..nl * nl * nl).map(|i| vec![lines[i % nl], lines[i / nl % nl], lines[i / nl / nl]])).collect();
    let firsts: Vec<usize> = (0..nl + nl * nl).collect();
    c.par_n(codes.len() * c.pick(nl, firsts.len()), |i| {
        let (a, b) = (&codes[i % codes.len()], &codes[i / codes.len()]);
        let text = |l: &[(&str, bool)]| l.iter().map(|l| l.0).collect::<Vec<_>>().join("; ");
        c.case(&format!("eval lines {} | {} by message", text(a), text(b)), || {
            let mut e = engine::<4>(64);
            // what the grammar does not take can still come by message
            let ends = a[a.len() - 1].0.contains(":=");
            let taken = e.update_with_code(&format!("o: ~input >> eval `{}`", text(a))).is_ok();
            if !taken {
                if !ends && a.iter().all(|l| l.1) && a[..a.len() - 1].iter().all(|l| l.0.contains(":=")) {
                    return Err("refused".into());
                }
                upd(&mut e, "o: ~input >> eval `in`")?;
            }
            let mut mem: std::collections::BTreeMap<&'static str, f64> = [("x", 0.0), ("y", 0.0)].into_iter().collect();
            let inp = [1.0f32, -0.5, 0.25, 0.0];
            let mut f = Fp::new();
            for (k, l) in [a, a, b, a].into_iter().enumerate() {
                if k > 1 || !taken {
                    let id = e.index_info["o"][1];
                    e.context.graph[id].node.send_msg(glicol_synth::Message::SetToSymbol(0, text(l)));
                }
                let o = blk_in(&mut e, &inp, &inp);
                for j in 0..4 {
                    let w = run(&mut mem, l, inp[j] as f64) as f32;
                    if (o.0[j] - w).abs() > 1e-4 || o.0[j] != o.1[j] {
                        return Err(format!("block {k} sample {j}: {} instead of {w}", o.0[j]));
                    }
                    f.f(w);
                }
            }
            c.steps(7);
            c.state(f.get());
            Ok(f.get())
        });
    });
    // broken code is silent or refused, never fatal: every short token word
    let toks = ["in", "1", "+", "*", "(", ")", ":=", ";", "x", "sin", ",", "==", "a", "."];
    let bad = words_upto(&toks, 1, c.pick(4, 5));
    c.note("token_words", bad.len());
    c.par(&bad, |w| {
        let code = w.join(" ");
        c.case(&format!("any eval {code}"), || {
            let mut e = engine::<4>(64);
            let mut f = Fp::new();
            match e.update_with_code(&format!("o: ~input >> eval `{code}`")) {
                Err(_) => {
                    f.u(1);
                }
                Ok(()) => {
                    let i = [1.0f32, -0.5, 0.25, 0.0];
                    let o = render_in(&mut e, &i, &i);
                    // an expression of these tokens has a value; otherwise silence
                    o.0.iter().for_each(|v| {
                        f.f(*v);
                    });
                }
            }
            // the engine is still alive
            upd(&mut e, "o: sig 0.5")?;
            if blk(&mut e).0 != vec![0.5; 4] {
                return Err("does not play the next program".into());
            }
            c.steps(4);
            Ok(f.get())
        });
    });
    let toks = ["x", "1.0", "+", "[", "]", "(", ")", "=", ";", "let", "output", "{", "}", "if", "fn"];
    let bad = words_upto(&toks, 1, c.pick(3, 4));
    c.par(&bad, |w| {
        let code = w.join(" ");
        c.case(&format!("any meta {code}"), || {
            let mut e = engine::<4>(64);
            let mut f = Fp::new();
            match e.update_with_code(&format!("o: meta `{code}`")) {
                Err(_) => {
                    f.u(1);
                }
                Ok(()) => {
                    let o = render(&mut e, 2);
                    o.0.iter().for_each(|v| {
                        f.f(*v);
                    });
                }
            }
            upd(&mut e, "o: sig 0.5")?;
            if blk(&mut e).0 != vec![0.5; 4] {
                return Err("does not play the next program".into());
            }
            c.steps(4);
            Ok(f.get())
        });
    });
    c.finish(
        "model_checking",
        "every history of three answers of a script over nine kinds, by itself and by message; every expression of up to three lines over nine kinds, broken ones among them, changed by message to another and back; every expression of the bounded grammar, every list of up to 2 (3) assignments, every block script of a family with two free expressions, and every token word up to 4 (5) as code; against an independent evaluator; states = distinct value streams",
        &["scripts that do not end are outside the property"],
        true,
    )
}
