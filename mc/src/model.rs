//! Reference interpreter: what a program should sound like, written from the
//! language description, in f64, with none of the engine's code.

use crate::lang::*;
use std::collections::{BTreeMap, VecDeque};

pub type Sample = (&'static [f32], usize, usize);

#[derive(Clone, Debug, Default)]
pub struct Sig {
    pub ch: usize,
    pub b: [Vec<f64>; 2],
}
impl Sig {
    pub fn zero(ch: usize, n: usize) -> Self {
        Sig { ch, b: [vec![0.0; n], vec![0.0; n]] }
    }
    pub fn l(&self, i: usize) -> f64 {
        self.b[0][i]
    }
    pub fn r(&self, i: usize) -> f64 {
        if self.ch == 2 {
            self.b[1][i]
        } else {
            self.b[0][i]
        }
    }
}

#[derive(Clone, Debug)]
pub struct MNode {
    pub nd: Nd,
    phase: f64,
    inc: f64,
    step: u64,
    speed: f64,
    pos: u64,
    scale: f64,
    lastx: f64,
    lasty: f64,
    start_y: f64,
    stage: u8,
    x: [f64; 2],
    y: [f64; 2],
    val: f64,
    ring: [VecDeque<f64>; 2],
    ringy: VecDeque<f64>,
    notes: Vec<(u64, f64, f64)>,
    events: Vec<(f64, f64)>,
    sp: Vec<(u64, &'static str, f64)>,
    seed: u64,
    inner: Option<Box<Vec<MNode>>>,
    sr: f64,
    bpm: f64,
    started: bool,
    pub out: Sig,
}

fn noise_1(seed: u64) -> f64 {
    let x = (seed << 13) ^ seed;
    let v = x
        .wrapping_mul(x.wrapping_mul(x).wrapping_mul(15_731).wrapping_add(789_221))
        .wrapping_add(1_376_312_589)
        & 0x7fff_ffff;
    1.0 - v as f64 / 1_073_741_824.0
}

pub const FULL_SR: f64 = 44100.0;

/// frames for `ms`, in the arithmetic of the original (f32, truncated)
pub fn frames_ms(ms: f32, sr: f64) -> usize {
    (ms / 1000. * sr as f32) as usize
}
pub fn frames_s(s: f32, sr: f64) -> u64 {
    (s * sr as f32) as u64
}

pub fn channels(nd: &Nd) -> usize {
    use Nd::*;
    match nd {
        Mul(_) | Add(_) | Pan(_) | Delayn(_) | Delayms(_) | Adsr(..) | Mix(_) | Get(_) | Balance(..) | Arrange(_)
        | Sp(_) | PSampler(..) | Bd(_) | Hh(_) | Sn(_) | SawSynth(..) | SquSynth(..) | TriSynth(..) | Plate(_) => 2,
        _ => 1,
    }
}

impl MNode {
    pub fn new(nd: Nd, sr: f64, bpm: f64, seed: u64, n: usize) -> Self {
        let mut m = MNode {
            phase: 0.0,
            inc: 0.0,
            step: 0,
            speed: 1.0,
            pos: 0,
            scale: 1.0,
            lastx: 0.0,
            lasty: 0.0,
            start_y: 0.0,
            stage: 0,
            x: [0.0; 2],
            y: [0.0; 2],
            val: 0.0,
            ring: [VecDeque::new(), VecDeque::new()],
            ringy: VecDeque::new(),
            notes: vec![],
            events: vec![],
            sp: vec![],
            seed,
            inner: None,
            sr,
            bpm,
            started: false,
            out: Sig::zero(channels(&nd), n),
            nd,
        };
        match &m.nd {
            Nd::Noise(s) => m.seed = *s,
            Nd::Delayn(k) => m.set_ring(*k),
            Nd::Delayms(P::N(ms)) => {
                let k = frames_ms(*ms, sr).max(1);
                m.set_ring(k)
            }
            Nd::Delayms(P::R(_)) => {
                let k = frames_ms(2000.0, sr);
                m.set_ring(k)
            }
            Nd::Apf(p, _) => {
                let k = match p {
                    P::N(v) if *v != 0.0 => frames_ms(*v, sr),
                    _ => (3.0 * sr) as usize,
                };
                m.set_ring(k.max(1))
            }
            Nd::LpfPat(..) => m.val = 20.0,
            _ => {}
        }
        m
    }
    fn set_ring(&mut self, k: usize) {
        self.ring = [VecDeque::from(vec![0.0; k]), VecDeque::from(vec![0.0; k])];
        self.ringy = VecDeque::from(vec![0.0; k]);
    }
    pub fn state_fp(&self, f: &mut crate::util::Fp) {
        let q = |x: f64| (x * 4096.0).round() as i64 as u64;
        f.s(&self.nd.text()).u(self.step).u(q(self.phase)).u(self.pos).u(self.stage as u64).u(q(self.lasty)).u(q(self.y[0])).u(q(self.val)).u(self.notes.len() as u64);
        for r in self.ring[0].iter().rev().take(4) {
            f.u(q(*r));
        }
        for i in 0..self.out.b[0].len().min(4) {
            f.u(q(self.out.l(i))).u(q(self.out.r(i)));
        }
    }

    fn biquad(&mut self, x0: f64, cutoff: f64, q: f64, high: bool, sr: f64) -> f64 {
        let th = 2.0 * std::f64::consts::PI * cutoff / sr;
        let d = 1.0 / q;
        let beta = 0.5 * (1.0 - d * th.sin() / 2.0) / (1.0 + d * th.sin() / 2.0);
        let gama = (0.5 + beta) * th.cos();
        let (a0, a1) = if high {
            ((0.5 + beta + gama) / 2.0, -(0.5 + beta + gama))
        } else {
            ((0.5 + beta - gama) / 2.0, 0.5 + beta - gama)
        };
        let y = a0 * x0 + a1 * self.x[0] + a0 * self.x[1] + 2.0 * gama * self.y[0] - 2.0 * beta * self.y[1];
        self.x = [x0, self.x[0]];
        self.y = [y, self.y[0]];
        y
    }

    fn env(&mut self, x: f64, a: f32, d: f32, sr: f64) -> f64 {
        let (al, dl) = (frames_s(a, sr), frames_s(d, sr));
        if x > 0.0 {
            self.pos = 0;
            self.scale = x;
        }
        let p = self.pos;
        self.pos += 1;
        let v = if p <= al {
            if al == 0 {
                0.0
            } else {
                p as f64 / al as f64
            }
        } else if p <= al + dl {
            (al + dl - p) as f64 / dl as f64
        } else {
            0.0
        };
        v * self.scale
    }

    fn osc_step(&mut self, kind: u8, f: f64) -> f64 {
        let p = self.phase;
        let v = match kind {
            0 => (2.0 * std::f64::consts::PI * p).sin(),
            1 => 2.0 * p - 1.0,
            2 => {
                if p <= 0.5 {
                    1.0
                } else {
                    -1.0
                }
            }
            _ => 2.0 * ((2.0 * p - 1.0).abs() - 0.5),
        };
        self.phase += f / self.sr;
        if self.phase > 1.0 {
            self.phase -= self.phase.ceil() - 1.0;
        } else if self.phase < 0.0 {
            self.phase -= self.phase.floor();
        }
        v
    }

    fn delay_read(ring: &VecDeque<f64>, ms: f64, sr: f64) -> f64 {
        let len = ring.len() as f64;
        let mut pos = -ms / 1000.0 * sr;
        while pos < 0.0 {
            pos += len;
        }
        let i = pos.floor() as usize;
        let f = pos - pos.floor();
        let g = |k: usize| ring[k % ring.len()];
        g(i) * (1.0 - f) + g(i + 1) * f
    }

    /// One block.  `prev` is the node to the left, `refs` the referenced chains.
    pub fn run(&mut self, prev: Option<&super::model::Sig>, refs: &[Sig], n: usize, samples: &BTreeMap<&'static str, Sample>) {
        use Nd::*;
        let nd = self.nd.clone();
        let mut out = std::mem::take(&mut self.out);
        let sr = self.sr;
        let bar = 240.0 / self.bpm * sr;
        match &nd {
            Sin(p) | Saw(p) | Squ(p) | Tri(p) => {
                let kind = match &nd {
                    Sin(_) => 0,
                    Saw(_) => 1,
                    Squ(_) => 2,
                    _ => 3,
                };
                let m: Option<&super::model::Sig> = refs.first().or(prev);
                if prev.is_some() as usize + refs.len() > 1 {
                    self.out = out;
                    return;
                }
                for i in 0..n {
                    let f = match (m, p) {
                        (Some(s), _) => {
                            if kind == 0 {
                                s.l(i)
                            } else {
                                if s.l(i) != 0.0 {
                                    self.inc = s.l(i);
                                }
                                self.inc
                            }
                        }
                        (None, P::N(v)) => *v as f64,
                        _ => 0.0,
                    };
                    out.b[0][i] = self.osc_step(kind, f);
                }
            }
            Sig(v) => out.b[0].iter_mut().for_each(|o| *o = *v as f64),
            Imp(f) => {
                let period = ((sr as f32 / *f) as u64).max(1);
                for i in 0..n {
                    out.b[0][i] = (self.step % period == 0) as u8 as f64;
                    self.step += 1;
                }
            }
            Noise(_) => {
                for i in 0..n {
                    out.b[0][i] = noise_1(self.seed);
                    self.seed += 1;
                }
            }
            Speed(v) => {
                out.b[0].iter_mut().for_each(|o| *o = 0.0);
                out.b[0][0] = *v as f64;
            }
            Mul(p) | Add(p) => {
                let op = |a: f64, b: f64| if matches!(nd, Mul(_)) { a * b } else { a + b };
                match (prev, refs.first(), p) {
                    (Some(m), None, P::N(v)) => {
                        for i in 0..n {
                            out.b[0][i] = op(m.l(i), *v as f64);
                            out.b[1][i] = op(m.r(i), *v as f64);
                        }
                    }
                    (Some(m), Some(r), _) => {
                        for i in 0..n {
                            out.b[0][i] = op(m.l(i), r.l(i));
                            out.b[1][i] = op(m.r(i), r.r(i));
                        }
                    }
                    _ => {}
                }
            }
            Pan(p) => {
                if let Some(m) = prev {
                    for i in 0..n {
                        let pos = match (refs.first(), p) {
                            (Some(r), _) => r.l(i),
                            (_, P::N(v)) => *v as f64,
                            _ => 0.0,
                        };
                        let k = ((pos + 1.0) / 2.0).clamp(0.0, 1.0);
                        out.b[0][i] = (1.0 - k).sqrt() * m.l(i);
                        out.b[1][i] = k.sqrt() * m.l(i);
                    }
                }
            }
            Delayn(k) => {
                if let Some(m) = prev {
                    for i in 0..n {
                        if *k == 0 {
                            out.b[0][i] = m.l(i);
                            out.b[1][i] = m.r(i);
                        } else {
                            for (c, x) in [m.l(i), m.r(i)].into_iter().enumerate() {
                                out.b[c][i] = self.ring[c].pop_front().unwrap();
                                self.ring[c].push_back(x);
                            }
                        }
                    }
                }
            }
            Delayms(p) => {
                if let Some(m) = prev {
                    for i in 0..n {
                        for (c, x) in [m.l(i), m.r(i)].into_iter().enumerate() {
                            if self.ring[c].is_empty() {
                                out.b[c][i] = x;
                                continue;
                            }
                            match p {
                                P::N(_) => {
                                    out.b[c][i] = self.ring[c].pop_front().unwrap();
                                }
                                P::R(_) => {
                                    out.b[c][i] = Self::delay_read(&self.ring[c], refs[0].l(i), sr);
                                    self.ring[c].pop_front();
                                }
                            }
                            self.ring[c].push_back(x);
                        }
                    }
                }
            }
            EnvPerc(a, d) => {
                if let Some(m) = prev {
                    for i in 0..n {
                        out.b[0][i] = self.env(m.l(i), *a, *d, sr);
                    }
                }
            }
            Adsr(a, d, s, r) => {
                if let Some(m) = prev {
                    let (al, dl, rl) = (frames_s(*a, sr), frames_s(*d, sr), frames_s(*r, sr));
                    let s = *s as f64;
                    for i in 0..n {
                        let x = m.l(i);
                        if x > 0.0 && self.lastx == 0.0 {
                            self.stage = 1;
                            self.pos = 0;
                            self.start_y = self.lasty;
                        } else if x == 0.0 && self.lastx > 0.0 {
                            self.stage = 2;
                            self.pos = 0;
                            self.start_y = self.lasty;
                        }
                        let p = self.pos;
                        let v = match self.stage {
                            1 if p <= al => {
                                if al == 0 {
                                    0.0
                                } else {
                                    self.start_y + p as f64 / al as f64 * (1.0 - self.start_y)
                                }
                            }
                            1 if p <= al + dl => s + (al + dl - p) as f64 / dl as f64 * (1.0 - s),
                            1 => s,
                            2 if p < rl => (rl - p) as f64 / rl as f64 * self.start_y,
                            _ => 0.0,
                        };
                        self.pos += 1;
                        self.lastx = x;
                        self.lasty = v;
                        out.b[0][i] = v;
                        out.b[1][i] = v;
                    }
                }
            }
            Lpf(p, q) | Hpf(p, q) => {
                if let Some(m) = prev {
                    let high = matches!(nd, Hpf(..));
                    let c = match (p, refs.first()) {
                        (_, Some(r)) => r.l(0),
                        (P::N(v), _) => *v as f64,
                        _ => 0.0,
                    };
                    for i in 0..n {
                        out.b[0][i] = self.biquad(m.l(i), c, *q as f64, high, sr);
                    }
                }
            }
            LpfPat(pat, span, q) => {
                if let Some(m) = prev {
                    let cyc = 60.0 / self.bpm as f32 * 4.0;
                    let period = (cyc * *span * sr as f32) as u64;
                    for i in 0..n {
                        for (v, t) in pat {
                            if period > 0 && self.step % period == (*t * cyc * sr as f32) as u64 {
                                self.val = *v as f64;
                            }
                        }
                        self.step += 1;
                        let c = self.val;
                        out.b[0][i] = self.biquad(m.l(i), c, *q as f64, false, sr);
                    }
                }
            }
            Onepole(p) => {
                if let Some(m) = prev {
                    for i in 0..n {
                        let rate = match (p, refs.first()) {
                            (_, Some(r)) => r.l(i),
                            (P::N(v), _) => *v as f64,
                            _ => 0.0,
                        };
                        let b = (-2.0 * std::f64::consts::PI * rate).exp();
                        let y = m.l(i) * (1.0 - b) + b * self.y[0];
                        self.y[0] = y;
                        out.b[0][i] = y;
                    }
                }
            }
            Apf(p, g) => {
                if let Some(m) = prev {
                    let g = *g as f64;
                    for i in 0..n {
                        let x = m.l(i);
                        let (xd, yd) = match p {
                            P::N(_) => (self.ring[0][0], self.ringy[0]),
                            P::R(_) => (
                                Self::delay_read(&self.ring[0], refs[0].l(i), sr),
                                Self::delay_read(&self.ringy, refs[0].l(i), sr),
                            ),
                        };
                        let y = -g * x + xd + g * yd;
                        self.ring[0].pop_front();
                        self.ring[0].push_back(x);
                        self.ringy.pop_front();
                        self.ringy.push_back(y);
                        out.b[0][i] = y;
                    }
                }
            }
            Seq(groups) => {
                match prev {
                    Some(s) if n > 1 && s.l(0) > 0.0 && s.l(1) == 0.0 => self.speed = s.l(0),
                    Some(_) => {}
                    None => self.speed = 1.0,
                }
                let barlen = bar / self.speed;
                let order = nd.refs();
                let ng = groups.len();
                let mut ev: Vec<(u64, &Note)> = vec![];
                for (i, g) in groups.iter().enumerate() {
                    for (j, note) in g.iter().enumerate() {
                        // note times are kept in single precision by the language
                        let t = (i as f32 + j as f32 / g.len() as f32) / ng as f32;
                        ev.push(((t as f64 * barlen) as u64, note));
                    }
                }
                let period = (barlen as u64).max(1);
                for i in 0..n {
                    let at = self.step % period;
                    let mut v = 0.0;
                    for (t, note) in &ev {
                        if *t != at {
                            continue;
                        }
                        let midi = match note {
                            Note::Rest => continue,
                            Note::M(m) => *m as f64,
                            Note::R(r) => refs[order.iter().position(|x| x == r).unwrap()].l(i),
                        };
                        v = if midi == 0.0 { 0.0 } else { 2f64.powf((midi - 60.0) / 12.0) };
                    }
                    out.b[0][i] = v;
                    self.step += 1;
                }
            }
            Choose(v) => {
                let x = noise_1(self.seed);
                self.seed += 1;
                let mut id = ((x * 0.5 + 0.5) * v.len() as f64) as usize;
                if id == v.len() {
                    id = 0;
                }
                out.b[0].iter_mut().for_each(|o| *o = v[id] as f64);
            }
            Mix(_) => {
                let mut seen: Vec<usize> = vec![];
                for c in 0..2 {
                    out.b[c].iter_mut().for_each(|o| *o = 0.0);
                }
                let _ = &mut seen;
                for r in refs.iter().chain(prev) {
                    for i in 0..n {
                        out.b[0][i] += r.l(i);
                        out.b[1][i] += r.r(i);
                    }
                }
            }
            Get(_) => {
                if let Some(r) = refs.first() {
                    for i in 0..n {
                        out.b[0][i] = r.l(i);
                        out.b[1][i] = r.r(i);
                    }
                }
            }
            Balance(..) => {
                for i in 0..n {
                    out.b[0][i] = refs[0].l(i);
                    out.b[1][i] = refs[1].l(i);
                }
            }
            Arrange(list) => {
                let total: f64 = list.iter().map(|x| x.1 as f64).sum();
                for i in 0..n {
                    if self.step as f64 / bar >= total {
                        self.step = 0;
                    }
                    let pos = self.step as f64 / bar;
                    let mut c = 0.0;
                    for (k, (_, b)) in list.iter().enumerate() {
                        c += *b as f64;
                        if pos < c {
                            out.b[0][i] = refs[k].l(i);
                            out.b[1][i] = refs[k].r(i);
                            break;
                        }
                    }
                    self.step += 1;
                }
            }
            Points(pts, span, lp) => {
                let sp = span.unwrap_or(1) as f32;
                let bar_dur = 60.0 / self.bpm as f32 * 4.0 * sp * sr as f32;
                let mut l: Vec<(f64, f64)> = pts
                    .iter()
                    .map(|(b, ms, v)| (((*b * bar_dur + *ms / 1000.0 * sr as f32) as u64) as f64, *v as f64))
                    .collect();
                if l.is_empty() || l[0].0 != 0.0 {
                    l.insert(0, (0.0, 0.0));
                }
                let period = (bar_dur as u64).max(1);
                for i in 0..n {
                    let pos = if *lp { self.step % period } else { self.step } as f64;
                    self.step += 1;
                    out.b[0][i] = match l.iter().rposition(|p| p.0 <= pos) {
                        None => l[0].1,
                        Some(k) if k + 1 < l.len() => {
                            let (a, b) = (l[k], l[k + 1]);
                            a.1 + (pos - a.0) / (b.0 - a.0) * (b.1 - a.1)
                        }
                        Some(k) if *lp => {
                            // towards the first point of the next round
                            let (a, b) = (l[k], (period as f64 + l[0].0, l[0].1));
                            if b.0 > a.0 {
                                a.1 + (pos - a.0) / (b.0 - a.0) * (b.1 - a.1)
                            } else {
                                a.1
                            }
                        }
                        Some(k) => l[k].1,
                    };
                }
            }
            Sp(name) => {
                let s = samples[name];
                for c in 0..2 {
                    out.b[c].iter_mut().for_each(|o| *o = 0.0);
                }
                if let Some(m) = prev {
                    for i in 0..n {
                        if m.l(i) > 0.0 {
                            self.sp.push((self.step, name, m.l(i)));
                        }
                        self.play(&mut out, i, samples);
                        self.step += 1;
                    }
                }
                let _ = s;
            }
            PSampler(pat, span) => {
                for c in 0..2 {
                    out.b[c].iter_mut().for_each(|o| *o = 0.0);
                }
                let cyc = 60.0 / self.bpm as f32 * 4.0;
                let period = (cyc * span.unwrap_or(1.0) * sr as f32) as u64;
                for i in 0..n {
                    for (name, t) in pat {
                        if period > 0 && self.step % period == (*t * cyc * sr as f32) as u64 {
                            self.sp.push((self.step, name, 1.0));
                        }
                    }
                    self.play(&mut out, i, samples);
                    self.step += 1;
                }
            }
            Bd(_) | Hh(_) | Sn(_) | SawSynth(..) | SquSynth(..) | TriSynth(..) => {
                if let Some(m) = prev {
                    self.compound(&nd, m, &mut out, n);
                }
            }
            MsgSynth(a, d) => {
                for i in 0..n {
                    let t = self.step;
                    let due: Vec<f64> = self.events.iter().filter(|e| e.0 as u64 == t).map(|e| e.1).collect();
                    for m in due {
                        self.notes.push((t, 440.0 * 2f64.powf((m - 69.0) / 12.0), 0.0));
                    }
                    out.b[0][i] = self.voices(*a, *d, sr);
                    self.step += 1;
                }
            }
            PSynth(ev, span) => {
                if prev.is_none() {
                    let cyc = 240.0 / self.bpm as f32;
                    let period = ((cyc * *span * sr as f32) as u64).max(1);
                    for i in 0..n {
                        for (t, m) in ev {
                            if self.step % period == (*t * cyc * sr as f32) as u64 {
                                self.notes.push((self.step, 440.0 * 2f64.powf((*m as f64 - 69.0) / 12.0), 0.0));
                            }
                        }
                        out.b[0][i] = self.voices(0.001, 0.1, sr);
                        self.step += 1;
                    }
                }
            }
            Plate(_) | Meta(_) | Eval(_) => unimplemented!("not interpreted by the reference"),
        }
        self.started = true;
        self.out = out;
    }

    fn voices(&mut self, a: f32, d: f32, sr: f64) -> f64 {
        let an = frames_s(a, sr);
        let dn = frames_s(d, sr);
        let dur = ((a + d) * sr as f32) as u64;
        let step = self.step;
        let mut out = 0.0;
        for v in self.notes.iter_mut() {
            let pos = step - v.0;
            if pos > dur {
                continue;
            }
            let amp = if pos <= an {
                if an == 0 {
                    0.0
                } else {
                    pos as f64 / (a as f64 * sr)
                }
            } else if dn == 0 {
                0.0
            } else {
                (dur - pos) as f64 / (d as f64 * sr)
            };
            out += amp * (2.0 * v.2 - 1.0) * 0.1;
            v.2 += v.1 / sr;
            if v.2 > 1.0 {
                v.2 -= 1.0;
            }
        }
        self.notes.retain(|v| step - v.0 <= dur);
        out
    }

    fn play(&mut self, out: &mut Sig, i: usize, samples: &BTreeMap<&'static str, Sample>) {
        let (step, sr) = (self.step, self.sr);
        for (t0, name, pitch) in &self.sp {
            let (data, ch, ssr) = samples[name];
            if ch > 2 {
                continue; // only mono and stereo are played
            }
            let len = data.len() / ch;
            let dur = len as f64 / pitch / (ssr as f64 / sr);
            let pos = (step - t0) as f64 / dur;
            if pos > 1.0 {
                continue;
            }
            let x = pos * (len - 1) as f64;
            let (l, f) = (x.floor() as usize, x - x.floor());
            let at = |c: usize, k: usize| data[c * len + k.min(len - 1)] as f64;
            for c in 0..2 {
                let cc = if ch == 2 { c } else { 0 };
                out.b[c][i] += at(cc, l) * (1.0 - f) + at(cc, l + 1) * f;
            }
        }
        self.sp.retain(|(t0, name, pitch)| {
            let (data, ch, ssr) = samples[name];
            (step - t0) as f64 / ((data.len() / ch) as f64 / pitch / (ssr as f64 / sr)) <= 1.0
        });
    }

    fn compound(&mut self, nd: &Nd, m: &Sig, out: &mut Sig, n: usize) {
        use Nd::*;
        let sr = FULL_SR;
        if self.inner.is_none() {
            let mk = |nd: Nd| MNode::new(nd, sr, 120.0, 42, n);
            let osc = match nd {
                Bd(_) | Sn(_) => Sin(P::N(0.0)),
                SawSynth(..) => Saw(P::N(0.0)),
                SquSynth(..) => Squ(P::N(0.0)),
                _ => Tri(P::N(0.0)),
            };
            // amplitude envelope, pitch envelope, oscillator, noise, filter
            self.inner = Some(Box::new(vec![
                mk(EnvPerc(0.0, 0.0)),
                mk(EnvPerc(0.0, 0.0)),
                mk(osc),
                mk(Noise(42)),
                mk(Hpf(P::N(15000.0), 1.0)),
            ]));
        }
        let v = self.inner.as_mut().unwrap();
        for i in 0..n {
            let x = m.l(i);
            let y = match nd {
                Bd(d) => {
                    let a = v[0].env(x, 0.003, *d, sr);
                    let f = v[1].env(x, 0.01, 0.1, sr) * 50.0 + 60.0;
                    v[2].osc_step(0, f) * a
                }
                Hh(d) => {
                    let a = v[0].env(x, 0.003, *d, sr);
                    let w = noise_1(v[3].seed);
                    v[3].seed += 1;
                    v[4].biquad(w, 15000.0, 1.0, true, sr) * a
                }
                Sn(d) => {
                    let a = v[0].env(x, 0.001, *d, sr);
                    let f = v[1].env(x, 0.001, 0.1, sr) * 55.0 + 60.0;
                    let w = noise_1(v[3].seed);
                    v[3].seed += 1;
                    (v[2].osc_step(0, f) + 0.3 * w) * a
                }
                SawSynth(at, d) | SquSynth(at, d) | TriSynth(at, d) => {
                    let a = v[0].env(x, *at, *d, sr);
                    let f = x * 261.63;
                    if f != 0.0 {
                        v[2].inc = f;
                    }
                    let kind = match nd {
                        SawSynth(..) => 1,
                        SquSynth(..) => 2,
                        _ => 3,
                    };
                    let f = v[2].inc;
                    v[2].osc_step(kind, f) * a
                }
                _ => unreachable!(),
            };
            out.b[0][i] = y;
            out.b[1][i] = y;
        }
    }

    /// Control message: parameter `p` becomes `v`.
    pub fn msg(&mut self, p: u8, v: f32) {
        use Nd::*;
        let sr = self.sr;
        match (&mut self.nd, p) {
            (Sin(q), 0) | (Saw(q), 0) | (Squ(q), 0) | (Tri(q), 0) | (Mul(q), 0) | (Add(q), 0) => {
                if matches!(q, P::N(_)) {
                    *q = P::N(v)
                }
            }
            (Pan(q), 0) => *q = P::N(v.clamp(-1.0, 1.0)),
            (Onepole(q), 0) => *q = P::N(v),
            (Sig(q), 0) | (Imp(q), 0) | (Speed(q), 0) | (Bd(q), 0) | (Hh(q), 0) | (Sn(q), 0) => *q = v,
            (Noise(_), 0) => self.seed = v as u64,
            (Delayn(k), 0) => {
                *k = v as usize;
                let k = *k;
                self.set_ring(k)
            }
            (Delayms(P::N(_)), 0) => self.set_ring(frames_ms(v, sr)),
            (EnvPerc(a, _), 0) => *a = v,
            (EnvPerc(_, d), 1) => *d = v,
            (SawSynth(a, _), 0) | (SquSynth(a, _), 0) | (TriSynth(a, _), 0) => *a = v,
            (SawSynth(_, d), 1) | (SquSynth(_, d), 1) | (TriSynth(_, d), 1) => *d = v,
            (MsgSynth(a, _), 1) => *a = v,
            (MsgSynth(_, d), 2) => *d = v,
            (Adsr(a, ..), 0) => *a = v,
            (Adsr(_, d, ..), 1) => *d = v,
            (Adsr(_, _, s, _), 2) => *s = v,
            (Adsr(_, _, _, r), 3) => *r = v,
            (Lpf(c, _), 0) | (Hpf(c, _), 0) => *c = P::N(v),
            (Lpf(_, q), 1) | (Hpf(_, q), 1) => *q = v,
            (LpfPat(..), 0) => self.val = v as f64,
            (LpfPat(_, _, q), 1) => *q = v,
            (Apf(P::N(_), _), 0) => self.set_ring(frames_ms(v, sr).max(1)),
            (Apf(_, g), 1) => *g = v,
            (Arrange(l), p) if p % 2 == 1 && (p as usize) < 2 * l.len() => {
                l[p as usize / 2].1 = v;
                self.step = 0;
            }
            _ => {}
        }
    }
    pub fn note_msg(&mut self, t: f32, midi: f32) {
        self.events.push((((t * self.sr as f32) as u64) as f64, midi as f64));
    }
}

#[derive(Clone)]
pub struct MChain {
    pub name: &'static str,
    /// as written; survives parameter changes made by messages
    pub text: Vec<Nd>,
    pub nodes: Vec<MNode>,
}

#[derive(Clone)]
pub struct Model {
    pub n: usize,
    pub sr: f64,
    pub bpm: f64,
    pub seed: u64,
    pub samples: BTreeMap<&'static str, Sample>,
    pub chains: Vec<MChain>,
    pub input: Sig,
}

/// Longest in-order matching of equal nodes.
pub fn lcs(a: &[Nd], b: &[Nd]) -> Vec<(usize, usize)> {
    let (n, m) = (a.len(), b.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            t[i][j] = if a[i] == b[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let (mut i, mut j, mut out) = (0, 0, vec![]);
    while i < n && j < m {
        if a[i] == b[j] && t[i][j] == t[i + 1][j + 1] + 1 {
            out.push((i, j));
            i += 1;
            j += 1;
        } else if t[i + 1][j] >= t[i][j + 1] {
            i += 1;
        } else {
            j += 1;
        }
    }
    out
}

impl Model {
    pub fn new(n: usize) -> Self {
        Model {
            n,
            sr: 44100.0,
            bpm: 120.0,
            seed: 42,
            samples: BTreeMap::new(),
            chains: vec![],
            input: Sig::zero(2, n),
        }
    }
    pub fn names_for(&self, r: &str) -> Vec<usize> {
        self.chains
            .iter()
            .enumerate()
            .filter(|(_, c)| match r.strip_suffix("..") {
                Some(p) => c.name.starts_with(p),
                None => c.name == r,
            })
            .map(|(i, _)| i)
            .collect()
    }
    pub fn update(&mut self, p: &Prog) {
        let (n, sr, bpm, seed) = (self.n, self.sr, self.bpm, self.seed);
        let mut old = std::mem::take(&mut self.chains);
        if old.iter().any(|c| c.name == "~input") && !p.0.iter().any(|c| c.0 == "~input") {
            self.input = Sig::zero(2, n);
        }
        for (name, text) in &p.0 {
            let mk = |nd: &Nd| MNode::new(nd.clone(), sr, bpm, seed, n);
            let nodes = match old.iter().position(|c| c.name == *name) {
                Some(i) => {
                    let oc = old.swap_remove(i);
                    let m = lcs(&oc.text, text);
                    let mut on: Vec<Option<MNode>> = oc.nodes.into_iter().map(Some).collect();
                    text.iter()
                        .enumerate()
                        .map(|(j, nd)| match m.iter().find(|x| x.1 == j) {
                            Some((i, _)) => {
                                let mut k = on[*i].take().unwrap();
                                // nothing feeds a chain head: it does not keep
                                // repeating what an earlier predecessor sent
                                if j == 0 && *i != 0 {
                                    k.out = Sig::zero(k.out.ch, n);
                                }
                                k
                            }
                            None => mk(nd),
                        })
                        .collect()
                }
                None => text.iter().map(mk).collect(),
            };
            self.chains.retain(|c| c.name != *name);
            self.chains.push(MChain { name, text: text.clone(), nodes });
        }
    }
    pub fn set_bpm(&mut self, bpm: f64) {
        self.bpm = bpm;
        for c in self.chains.iter_mut() {
            for x in c.nodes.iter_mut() {
                x.bpm = bpm;
            }
        }
    }
    pub fn msg(&mut self, chain: &str, pos: usize, par: u8, v: f32) {
        if let Some(c) = self.chains.iter_mut().find(|c| c.name == chain) {
            if let Some(x) = c.nodes.get_mut(pos) {
                x.msg(par, v);
            }
        }
    }
    /// Which chains does a chain listen to (directly)?
    fn deps(&self, c: usize) -> Vec<usize> {
        let mut v = vec![];
        for nd in &self.chains[c].text {
            for r in nd.refs() {
                v.extend(self.names_for(r));
            }
        }
        v
    }
    pub fn has_cycle(&self) -> bool {
        fn go(m: &Model, c: usize, on: &mut Vec<usize>) -> bool {
            if on.contains(&c) {
                return true;
            }
            on.push(c);
            let r = m.deps(c).into_iter().any(|d| go(m, d, on));
            on.pop();
            r
        }
        (0..self.chains.len()).any(|c| go(self, c, &mut vec![]))
    }
    pub fn block(&mut self) -> [Vec<f64>; 2] {
        let mut done = vec![false; self.chains.len()];
        let mut out = [vec![0.0; self.n], vec![0.0; self.n]];
        for c in 0..self.chains.len() {
            if !self.chains[c].name.contains('~') {
                self.eval(c, &mut done);
                if let Some(last) = self.chains[c].nodes.last() {
                    for i in 0..self.n {
                        out[0][i] += last.out.l(i);
                        out[1][i] += last.out.r(i);
                    }
                }
            }
        }
        out
    }
    fn eval(&mut self, c: usize, done: &mut Vec<bool>) {
        if done[c] {
            return;
        }
        done[c] = true;
        for k in 0..self.chains[c].nodes.len() {
            let refs = self.chains[c].text[k].refs();
            // several references to one chain inside a mix are one connection
            let is_mix = matches!(self.chains[c].text[k], Nd::Mix(_));
            let mut used = vec![];
            let mut sigs = vec![];
            for r in refs {
                let live = match r.strip_suffix("..") {
                    Some(p) => "~input".starts_with(p),
                    None => r == "~input",
                };
                if live && !self.chains.iter().any(|c| c.name == "~input") {
                    sigs.push(self.input.clone());
                }
                for d in self.names_for(r) {
                    if is_mix && used.contains(&d) {
                        continue;
                    }
                    used.push(d);
                    if d == c {
                        continue;
                    }
                    self.eval(d, done);
                    sigs.push(self.chains[d].nodes.last().unwrap().out.clone());
                }
            }
            let prev = if k > 0 { Some(self.chains[c].nodes[k - 1].out.clone()) } else { None };
            let n = self.n;
            let mut node = std::mem::replace(&mut self.chains[c].nodes[k], MNode::new(Nd::Sig(0.0), 1.0, 120.0, 0, 1));
            node.run(prev.as_ref(), &sigs, n, &self.samples);
            self.chains[c].nodes[k] = node;
        }
    }
    pub fn state_fp(&self) -> u64 {
        let mut f = crate::util::Fp::new();
        for c in &self.chains {
            f.s(c.name);
            for x in &c.nodes {
                x.state_fp(&mut f);
            }
        }
        f.get()
    }
}
