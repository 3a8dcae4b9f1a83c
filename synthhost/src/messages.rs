//! C38: a message that carries what an option carries does what the option
//! does, from the block it is sent in.

use crate::util::*;
use glicol_parser::nodes::{Duration, TimeList, UsizeOrRef};
use glicol_synth::dynamic::{Eval, Meta};
use glicol_synth::filter::ResonantLowPassFilter;
use glicol_synth::oscillator::SawOsc;
use glicol_synth::sampling::{PSampler, Sampler};
use glicol_synth::sequencer::{Choose, Sequencer};
use glicol_synth::signal::{ConstSig, Impulse, Points};
use glicol_synth::synth::PatternSynth;
use glicol_synth::{AudioContextBuilder, GlicolNodeData, GlicolPara, Message, Node};

const N: usize = 16;
const SR: usize = 64;
/// a bar is four blocks
const BPM: f32 = 240.0;
const LEN: usize = 16;
type Data = GlicolNodeData<N>;
type Out = (Vec<f32>, Vec<f32>);
type Smp = (&'static [f32], usize, usize);
const M: Smp = (&[1.0, -0.5, 0.25, 0.75, -1.0, 0.5, 0.125, -0.25], 1, 64);
const S: Smp = (&[0.5, 1.0, -1.0, 0.25, 2.0, -2.0, 4.0, -4.0], 2, 32);
const T: Smp = (&[0.5, 0.75, -1.0, 0.25], 1, 64);

/// Renders with messages to the last node of the chain before given blocks.
fn run(chain: Vec<Data>, refs: Vec<Data>, msgs: &[(usize, Vec<Message>)], blocks: usize) -> Out {
    let mut x = AudioContextBuilder::<N>::new().channels(2).build();
    let (ids, _) = x.chain_boxed(chain);
    let last = *ids.last().unwrap();
    x.connect(last, x.destination);
    for r in refs {
        let (e, _) = x.chain_boxed(vec![r]);
        x.connect(e[0], last);
    }
    let mut o = (vec![], vec![]);
    for k in 0..blocks {
        for (_, l) in msgs.iter().filter(|m| m.0 == k) {
            for m in l {
                x.send_msg(last, m.clone());
            }
        }
        let b = x.next_block();
        o.0.extend_from_slice(&b[0]);
        o.1.extend_from_slice(&b[1]);
    }
    o
}
fn cmp(got: &Out, want: &Out) -> Result<u64, String> {
    let mut f = Fp::new();
    for (c, (g, w)) in [(&got.0, &want.0), (&got.1, &want.1)].into_iter().enumerate() {
        for i in 0..w.len() {
            if g[i] != w[i] {
                return Err(format!("channel {c} sample {i}: {} instead of {}", g[i], w[i]));
            }
            f.f(g[i]);
        }
    }
    Ok(f.get())
}

/// A node kind: every setting that can be built or sent.
struct Kind {
    name: &'static str,
    settings: usize,
    /// the chain with the node built with a setting
    make: fn(usize) -> (Vec<Data>, Vec<Data>),
    tell: fn(usize) -> Vec<Message>,
}

fn mono(n: impl Node<N> + Send + 'static) -> Data {
    n.to_boxed_nodedata(1)
}
fn note(n: usize) -> UsizeOrRef<String> {
    UsizeOrRef::Usize(n)
}
fn aref(s: &str) -> UsizeOrRef<String> {
    UsizeOrRef::Ref(s.to_string())
}
fn seq(i: usize) -> (Vec<(f32, UsizeOrRef<String>)>, Vec<&'static str>) {
    match i {
        0 => (vec![(0.0, note(60)), (0.5, note(67))], vec![]),
        1 => (vec![(0.25, note(72))], vec![]),
        2 => (vec![(0.0, note(48)), (0.125, aref("~a")), (0.75, note(0))], vec!["~a", "~b"]),
        3 => (vec![(0.0, aref("~b")), (0.5, aref("~a"))], vec!["~a", "~b"]),
        4 => (vec![(0.0, aref("~b")), (0.5, aref("~a"))], vec!["~b", "~a"]),
        _ => (vec![], vec![]),
    }
}
fn order(l: &[&'static str]) -> hashbrown::HashMap<String, usize> {
    l.iter().enumerate().map(|(i, s)| (s.to_string(), i)).collect()
}
fn smp(i: usize) -> Smp {
    [M, S, T][i]
}
fn spat(i: usize) -> (Vec<(String, f32)>, f32) {
    let m = || "\\m".to_string();
    let s = || "\\s".to_string();
    match i {
        0 => (vec![(m(), 0.0), (s(), 0.5)], 1.0),
        1 => (vec![(s(), 0.0), (m(), 0.25)], 1.0),
        2 => (vec![(s(), 0.25)], 0.5),
        3 => (vec![(m(), 0.0)], 2.0),
        _ => (vec![], 1.0),
    }
}
fn dict() -> hashbrown::HashMap<String, Smp> {
    [("\\m".to_string(), M), ("\\s".to_string(), S)].into_iter().collect()
}
fn notes(i: usize) -> &'static str {
    ["0.0 60, 0.5 67", "`0.25 72`", "0.0 48,0.25  50 , 0.75 52", "0.0 60, x 61, 0.5"][i]
}
const CODES: [&str; 6] = ["in * 0.5", "sr / 64", "phase / 100", "x := in + 1; y := x * x; y - 1", "a := phase * 2; a + in", "-in"];
const SCRIPTS: [&str; 3] = ["output.pad(16, 0.5); output", "[1.0, 0.5, 0.25, 0.125, 1.0, 0.5, 0.25, 0.125, 1.0, 0.5, 0.25, 0.125, 0.0, 0.0, 0.0, -1.0]", "input"];
const LISTS: [&[f32]; 3] = [&[60.0, 0.0, 72.0], &[1.0, 2.0, 3.0, 4.0, 5.0], &[7.0]];

/// Kinds whose time goes on: after the message the stream is the one of the
/// node built with the setting, at the same moment.
const GOES_ON: &[Kind] = &[
    Kind {
        name: "sequencer",
        settings: 6,
        make: |i| {
            let (e, o) = seq(i);
            (vec![mono(Sequencer::new(e).sr(SR).bpm(BPM).ref_order(order(&o)))], vec![mono(ConstSig::new(60.0)), mono(SawOsc::new().sr(SR).freq(2.0))])
        },
        tell: |i| {
            let (e, o) = seq(i);
            vec![Message::SetToSeq(0, e), Message::SetRefOrder(order(&o))]
        },
    },
    Kind {
        name: "choose",
        settings: 3,
        make: |i| (vec![mono(Choose::new(LISTS[i].to_vec(), 42))], vec![]),
        tell: |i| vec![Message::SetToNumberList(0, LISTS[i].to_vec())],
    },
    Kind {
        name: "sampler",
        settings: 3,
        make: |i| (vec![mono(Impulse::new().sr(SR).freq(4.0)), Sampler::new(smp(i), SR).to_boxed_nodedata(2)], vec![]),
        tell: |i| vec![Message::SetToSamples(0, smp(i))],
    },
    Kind {
        name: "psampler",
        settings: 5,
        make: |i| {
            let (p, s) = spat(i);
            (vec![PSampler::new(dict(), SR, BPM, vec![], p, s).to_boxed_nodedata(2)], vec![])
        },
        tell: |i| {
            let (p, s) = spat(i);
            vec![Message::SetSamplePattern(p, s, dict())]
        },
    },
    Kind {
        name: "psynth",
        settings: 4,
        make: |i| {
            let e: Vec<(f32, f32)> = notes(i)
                .replace('`', "")
                .split(',')
                .filter_map(|e| {
                    let v: Vec<f32> = e.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                    (v.len() == 2).then(|| (v[0], v[1]))
                })
                .collect();
            (vec![mono(PatternSynth::new(e).sr(SR).cycle_dur(240.0 / BPM).period_in_cycle(1.0))], vec![])
        },
        tell: |i| vec![Message::SetToSymbol(0, notes(i).to_string())],
    },
    Kind {
        name: "eval",
        settings: 6,
        make: |i| (vec![mono(SawOsc::new().sr(SR).freq(3.0)), mono(Eval::<N>::new().sr(SR).code(CODES[i]))], vec![]),
        tell: |i| vec![Message::SetToSymbol(0, CODES[i].to_string())],
    },
    Kind {
        name: "meta",
        settings: 3,
        make: |i| (vec![mono(SawOsc::new().sr(SR).freq(3.0)), mono(Meta::<N>::new().sr(SR).code(SCRIPTS[i]))], vec![]),
        tell: |i| vec![Message::SetToSymbol(0, SCRIPTS[i].to_string())],
    },
];

fn curve(i: usize) -> Vec<(TimeList, f32)> {
    let p = |bar: f32, time, v| (TimeList { bar, time }, v);
    match i {
        0 => vec![p(0.25, None, 1.0), p(0.5, Some(Duration::Milliseconds(62.5)), -1.0)],
        1 => vec![p(0.0, None, 2.0), p(0.25, Some(Duration::Bar(0.25)), -2.0), p(1.0, None, 4.0)],
        2 => vec![p(0.5, Some(Duration::Seconds(0.25)), 8.0)],
        _ => vec![],
    }
}

/// Where a value pattern has its steps, in samples.
fn steps_of(p: &[(f32, f32)], bpm: f32) -> Vec<(usize, f32)> {
    p.iter().map(|(v, t)| ((t * 60.0 / bpm * 4.0 * SR as f32) as usize, *v)).collect()
}

pub fn c38(c: &'static Ctx) -> i32 {
    // every word of settings, a message every few blocks
    for k in GOES_ON {
        let fresh: Vec<Out> = (0..k.settings)
            .map(|i| {
                let (a, b) = (k.make)(i);
                run(a, b, &[], LEN)
            })
            .collect();
        let len = c.pick(3, 4);
        let total = k.settings.pow(len as u32);
        c.par_n(total * 25, |m| {
            let mut x = m % total;
            let word: Vec<usize> = (0..len)
                .map(|_| {
                    let s = x % k.settings;
                    x /= k.settings;
                    s
                })
                .collect();
            // the message times
            let (t1, t2) = (m / total % 5, m / total / 5);
            let at: Vec<usize> = (1..len).map(|i| t1 + (i - 1) * (t2 + 1)).collect();
            c.case(&format!("{} settings {word:?} sent before blocks {at:?}", k.name), || {
                let msgs: Vec<(usize, Vec<Message>)> = at.iter().zip(&word[1..]).map(|(b, s)| (*b, (k.tell)(*s))).collect();
                let (a, b) = (k.make)(word[0]);
                let got = run(a, b, &msgs, LEN);
                let mut want = (vec![], vec![]);
                for t in 0..LEN {
                    let s = at.iter().rposition(|b| *b <= t).map_or(word[0], |i| word[i + 1]);
                    want.0.extend_from_slice(&fresh[s].0[t * N..(t + 1) * N]);
                    want.1.extend_from_slice(&fresh[s].1[t * N..(t + 1) * N]);
                }
                c.steps(LEN as u64);
                c.state(fp_str(&format!("{} {word:?}", k.name)));
                cmp(&got, &want)
            });
        });
    }
    // a curve starts again with every message
    #[derive(Clone, Copy, Debug)]
    enum P {
        Curve(usize),
        Span(f32),
        Loop(bool),
    }
    let msgs = [P::Curve(0), P::Curve(1), P::Curve(2), P::Curve(3), P::Span(2.0), P::Span(0.5), P::Span(1.0), P::Loop(true), P::Loop(false)];
    let words = words_upto(&msgs, 1, c.pick(2, 3));
    c.par_n(words.len() * 6 * 12, |m| {
        let w = &words[m % words.len()];
        let r = m / words.len();
        let (first, t1, t2) = (r % 6, r / 6 % 4, 1 + r / 24);
        let (mut cur, mut lp) = (first % 3, first >= 3);
        c.case(&format!("curve {cur} looping {lp}, from block {t1} every {t2} blocks {w:?}"), || {
            let mut span = 1.0f32;
            let mk = |cur: usize, span: f32, lp: bool| vec![mono(Points::new().sr(SR).bpm(BPM).span(span).points(curve(cur)).is_looping(lp))];
            let sent: Vec<(usize, Vec<Message>)> = w
                .iter()
                .enumerate()
                .map(|(i, p)| {
                    let m = match p {
                        P::Curve(i) => Message::SetParam(0, GlicolPara::Points(curve(*i))),
                        P::Span(s) => Message::SetToNumber(1, *s),
                        P::Loop(b) => Message::SetToBool(2, *b),
                    };
                    (t1 + i * t2, vec![m])
                })
                .collect();
            let got = run(mk(cur, span, lp), vec![], &sent, LEN);
            let mut want = run(mk(cur, span, lp), vec![], &[], t1);
            for (i, p) in w.iter().enumerate() {
                match p {
                    P::Curve(i) => cur = *i,
                    P::Span(s) => span = *s,
                    P::Loop(b) => lp = *b,
                }
                let n = if i + 1 < w.len() { t2 } else { LEN - t1 - i * t2 };
                let o = run(mk(cur, span, lp), vec![], &[], n);
                want.0.extend(o.0);
                want.1.extend(o.1);
            }
            c.steps(2 * LEN as u64);
            c.state(fp_str(&format!("{cur} {span} {lp}")));
            cmp(&got, &want)
        });
    });
    // a value pattern: the value of the last step passed, at any tempo
    let pats: [&[(f32, f32)]; 5] = [&[], &[(1.0, 0.0)], &[(2.0, 0.25), (3.0, 0.5)], &[(4.0, 0.0), (5.0, 0.125), (6.0, 0.75)], &[(7.0, 0.375)]];
    let (np, spans, bpms) = (pats.len(), [1.0f32, 0.5, 2.0], [240.0f32, 120.0, 480.0]);
    c.par_n(np * 3 * np * 3 * 3 * 6 * 2, |m| {
        let (a, sa, b, sb) = (m % np, spans[m / np % 3], m / np / 3 % np, spans[m / np / 3 / np % 3]);
        let r = m / np / np / 9;
        let (bpm, at, events) = (bpms[r % 3], r / 3 % 6, r / 18 == 1);
        let what = if events { "events" } else { "pattern" };
        c.case(&format!("value {what} {:?} over {sa}, before block {at} pattern {:?} over {sb} and tempo {bpm}", pats[a], pats[b]), || {
            let n = ConstSig::new(-1.0).sr(SR).bpm(BPM).span(sa);
            let n = if events { n.events(pats[a].to_vec()) } else { n.pattern(pats[a].to_vec()) };
            let got = run(vec![mono(n)], vec![], &[(at, vec![Message::SetPattern(pats[b].to_vec(), sb), Message::SetBPM(bpm)])], LEN);
            let mut want = vec![];
            let mut v = -1.0f32;
            for t in 0..LEN * N {
                let later = t >= at * N;
                let (tempo, span) = if later { (bpm, sb) } else { (BPM, sa) };
                let bar = (60.0 / tempo * 4.0 * span * SR as f32) as usize;
                let mut all = vec![];
                if events || !later {
                    all.extend(steps_of(pats[a], tempo));
                }
                if later {
                    all.extend(steps_of(pats[b], tempo));
                }
                for (s, x) in all {
                    if t % bar == s {
                        v = x;
                    }
                }
                want.push(v);
            }
            c.steps(LEN as u64);
            c.state(fp_str(&format!("{a} {sa} {b} {sb} {bpm}")));
            cmp(&got, &(want.clone(), want))
        });
    });
    // a cutoff pattern sent first is a cutoff pattern built in
    c.par_n(np * np * 9, |m| {
        let (a, b, sa, sb) = (m % np, m / np % np, spans[m / np / np % 3], spans[m / np / np / 3]);
        c.case(&format!("cutoffs {:?} over {sa}, then {:?} over {sb}", pats[a], pats[b]), || {
            let mk = |p: &[(f32, f32)], s: f32| {
                vec![mono(SawOsc::new().sr(SR).freq(5.0)), mono(ResonantLowPassFilter::new().sr(SR).bpm(BPM).q(1.0).cutoff(9.0).pattern(p.to_vec()).span(s))]
            };
            let got = run(mk(pats[a], sa), vec![], &[(0, vec![Message::SetPattern(pats[b].to_vec(), sb)])], LEN);
            c.steps(2 * LEN as u64);
            c.state(fp_str(&format!("lpf {b} {sb}")));
            cmp(&got, &run(mk(pats[b], sb), vec![], &[], LEN))
        });
    });
    c.finish(
        "model_checking",
        "every word of settings sent to each node that takes more than a number, at every block of a window, against nodes built with the setting; value patterns against a reference; states = distinct settings reached",
        &["no note or sample is sounding when its pattern is replaced", "a script sent later reads no variable of the script before it"],
        true,
    )
}
