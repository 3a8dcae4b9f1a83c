//! C37: a node built by hand does what the node written in a program does,
//! in whatever order its options are given.

use crate::util::*;
use glicol::Engine;
use glicol_parser::nodes::{Duration, NumberOrRef, TimeList, UsizeOrRef};
use glicol_synth::compound::{Bd, Hh, SawSynth, Sn, SquSynth, TriSynth};
use glicol_synth::delay::{DelayMs, DelayN};
use glicol_synth::dynamic::{Eval, Meta};
use glicol_synth::effect::{Balance, Pan, Plate};
use glicol_synth::envelope::{Adsr, EnvPerc};
use glicol_synth::filter::{AllPassFilterGain, OnePole, ResonantHighPassFilter, ResonantLowPassFilter};
use glicol_synth::operator::{Add, Mul};
use glicol_synth::oscillator::{SawOsc, SinOsc, SquOsc, TriOsc};
use glicol_synth::sampling::{PSampler, Sampler};
use glicol_synth::sequencer::{Arrange, Choose, Sequencer, Speed};
use glicol_synth::signal::{ConstSig, Impulse, Noise, Points};
use glicol_synth::synth::{MsgSynth, PatternSynth};
use glicol_synth::{AudioContextBuilder, GlicolNodeData, Message, Node, Pass, Sum2};

const N: usize = 16;
type Data = GlicolNodeData<N>;
type Out = (Vec<f32>, Vec<f32>);
type Smp = (&'static [f32], usize, usize);
const M: Smp = (&[1.0, -0.5, 0.25, 0.75, -1.0, 0.5, 0.125, -0.25], 1, 64);
const S: Smp = (&[0.5, 1.0, -1.0, 0.25, 2.0, -2.0, 4.0, -4.0], 2, 32);

/// A message to a node of the chain: when, which node, which parameter, value.
type Note = (usize, usize, u8, f32);

fn by_hand(chain: Vec<Data>, extra: Vec<(usize, Data)>, msgs: &[Note], bpm: Option<(usize, f32)>, blocks: usize) -> Out {
    let mut x = AudioContextBuilder::<N>::new().channels(2).build();
    let (ids, _) = x.chain_boxed(chain);
    x.connect(*ids.last().unwrap(), x.destination);
    // further sources, each connected to a node of the chain
    for (to, d) in extra {
        let (e, _) = x.chain_boxed(vec![d]);
        x.connect(e[0], ids[to]);
    }
    let mut o = (vec![], vec![]);
    for k in 0..blocks {
        for (_, pos, par, v) in msgs.iter().filter(|m| m.0 == k) {
            x.send_msg(ids[*pos], Message::SetToNumber(*par, *v));
        }
        if let Some((_, v)) = bpm.filter(|b| b.0 == k) {
            x.send_msg_to_all(Message::SetBPM(v));
        }
        let b = x.next_block();
        o.0.extend_from_slice(&b[0]);
        o.1.extend_from_slice(&b[1]);
    }
    o
}
fn written(text: &str, sr: usize, bpm0: f32, msgs: &[Note], bpm: Option<(usize, f32)>, blocks: usize) -> Result<Out, String> {
    let mut e = Engine::<N>::new();
    e.set_sr(sr);
    e.set_bpm(bpm0);
    e.add_sample("\\m", M.0, M.1, M.2);
    e.add_sample("\\s", S.0, S.1, S.2);
    e.update_with_code(text).map_err(|x| format!("refused: {x:?}"))?;
    let mut o = (vec![], vec![]);
    for k in 0..blocks {
        for (_, pos, par, v) in msgs.iter().filter(|m| m.0 == k) {
            e.send_msg(&format!("o, {pos}, {par}, {v}"));
        }
        if let Some((_, v)) = bpm.filter(|b| b.0 == k) {
            e.set_bpm(v);
        }
        let b = e.next_block(vec![]);
        o.0.extend_from_slice(&b[0]);
        o.1.extend_from_slice(&b[1]);
    }
    Ok(o)
}
fn same(a: &Out, b: &Out) -> Result<(), String> {
    for (c, (x, y)) in [(&a.0, &b.0), (&a.1, &b.1)].into_iter().enumerate() {
        for i in 0..y.len() {
            if x[i] != y[i] && !(x[i].is_nan() && y[i].is_nan()) {
                return Err(format!("channel {c} sample {i}: {} instead of {}", x[i], y[i]));
            }
        }
    }
    Ok(())
}

type Opt<T> = (&'static str, Box<dyn Fn(T) -> T>);
/// The node with its options given in every order.
fn orders<T: Node<N> + Send + 'static>(new: impl Fn() -> T, opts: Vec<Opt<T>>, ch: usize) -> Vec<(String, Data)> {
    permutations(opts.len())
        .into_iter()
        .map(|p| {
            let mut n = new();
            for i in &p {
                n = opts[*i].1(n);
            }
            (p.iter().map(|i| opts[*i].0).collect::<Vec<_>>().join("."), n.to_boxed_nodedata(ch))
        })
        .collect()
}
macro_rules! opts {
    ($t:ty; $($name:ident($($v:expr),*)),*) => {{
        let v: Vec<Opt<$t>> = vec![$((stringify!($name), opts!(@call $t, $name, $($v),*))),*];
        v
    }};
    (@call $t:ty, $name:ident, $($v:expr),*) => { Box::new(move |n: $t| n.$name($($v.clone()),*)) };
}

struct Item {
    key: String,
    text: String,
    sr: usize,
    bpm: f32,
    chain: Box<dyn Fn() -> Vec<Data> + Sync>,
    extra: Box<dyn Fn() -> Vec<(usize, Data)> + Sync>,
    /// parameters of the last node that can be set by number
    params: Vec<(u8, f32)>,
    tempo: bool,
    /// place of the node under test in the chain
    pos: usize,
}

/// What feeds an effect: text, and the same by hand.
fn source(k: usize, sr: usize) -> (&'static str, Vec<Data>) {
    match k {
        0 => ("", vec![]),
        1 => ("imp 8 >> ", vec![Impulse::new().sr(sr).freq(8.0).to_boxed_nodedata(1)]),
        2 => ("saw 5 >> ", vec![SawOsc::new().sr(sr).freq(5.0).to_boxed_nodedata(1)]),
        3 => (
            "saw 5 >> pan 0.3 >> ",
            vec![SawOsc::new().sr(sr).freq(5.0).to_boxed_nodedata(1), Pan::new(0.3).to_boxed_nodedata(2)],
        ),
        _ => (
            "squ 2 >> add 1 >> ",
            vec![SquOsc::new().sr(sr).freq(2.0).to_boxed_nodedata(1), Add::new(1.0).to_boxed_nodedata(2)],
        ),
    }
}

pub fn c37(c: &'static Ctx) -> i32 {
    let mut items: Vec<Item> = vec![];
    let rates: &[usize] = if c.thorough() { &[64, 100, 8000, 22050, 44100, 48000] } else { &[64, 8000, 44100, 48000] };
    let bpms = [120.0f32, 90.0, 240.0];
    for &sr in rates {
        for &bpm in &bpms {
            // node text, options in every order, channels, what it is fed, parameters, reacts to the tempo
            macro_rules! node {
                ($text:expr, $ch:expr, $src:expr, $t:ty => $new:expr, [$($o:tt)*], $par:expr, $tempo:expr) => {{
                    let n = orders(move || $new, opts!($t; $($o)*), $ch).len();
                    for k in 0..n {
                        for s in $src {
                            let (st, sd) = source(s, sr);
                            let name = orders(move || $new, opts!($t; $($o)*), $ch)[k].0.clone();
                            items.push(Item {
                                key: format!("sr {sr} bpm {bpm} o: {st}{} built as {name}", $text),
                                text: format!("o: {st}{}", $text),
                                sr,
                                bpm,
                                chain: Box::new(move || {
                                    let mut v = source(s, sr).1;
                                    v.push(orders(move || $new, opts!($t; $($o)*), $ch).swap_remove(k).1);
                                    v
                                }),
                                extra: Box::new(|| vec![]),
                                params: $par.to_vec(),
                                tempo: $tempo,
                                pos: sd.len(),
                            });
                        }
                    }
                }};
            }
            let none: [(u8, f32); 0] = [];
            for f in [1.0f32, 2.5, 7.0, 30.0] {
                let p = [(0u8, 4.0f32), (0, 0.5)];
                node!(format!("sin {f}"), 1, [0, 2], SinOsc => SinOsc::new(), [freq(f), sr(sr)], p, false);
                node!(format!("saw {f}"), 1, [0, 2], SawOsc => SawOsc::new(), [freq(f), sr(sr)], p, false);
                node!(format!("squ {f}"), 1, [0, 2], SquOsc => SquOsc::new(), [freq(f), sr(sr)], p, false);
                node!(format!("tri {f}"), 1, [0, 2], TriOsc => TriOsc::new(), [freq(f), sr(sr)], p, false);
                node!(format!("imp {f}"), 1, [0], Impulse => Impulse::new(), [freq(f), sr(sr)], p, false);
            }
            for v in [0.0f32, 1.0, -0.25] {
                node!(format!("sig {v}"), 1, [0], ConstSig => ConstSig::new(v), [sr(sr), bpm(bpm), span(2.0f32)], [(0u8, 3.0f32)], false);
                node!(format!("mul {v}"), 2, [2, 3], Mul => Mul::new(v), [], [(0u8, 3.0f32)], false);
                node!(format!("add {v}"), 2, [2, 3], Add => Add::new(v), [], [(0u8, 3.0f32)], false);
                node!(format!("add {v}"), 2, [2, 3], Add => Add::from(v), [], [(0u8, 3.0f32)], false);
                node!(format!("pan {v}"), 2, [2], Pan => Pan::new(v), [], [(0u8, 0.5f32)], false);
            }
            for v in [0.1f32, 0.5] {
                node!(format!("onepole {v}"), 1, [2], OnePole => OnePole::new(v), [], [(0u8, 0.3f32)], false);
                node!(format!("onepole {v}"), 1, [2], OnePole => OnePole::from(v), [], [(0u8, 0.3f32)], false);
                node!(format!("bd {v}"), 2, [1], Bd<N> => Bd::<N>::new(v), [], [(0u8, 0.3f32)], false);
                node!(format!("bd {v}"), 2, [1], Bd<N> => Bd::<N>::from(v), [], [(0u8, 0.3f32)], false);
                node!(format!("sn {v}"), 2, [1], Sn<N> => Sn::<N>::new(v), [], [(0u8, 0.3f32)], false);
                node!(format!("sn {v}"), 2, [1], Sn<N> => Sn::<N>::from(v), [], [(0u8, 0.3f32)], false);
                node!(format!("hh {v}"), 2, [1], Hh<N> => Hh::<N>::new(v), [], [(0u8, 0.3f32)], false);
                node!(format!("hh {v}"), 2, [1], Hh<N> => Hh::<N>::from(v), [], [(0u8, 0.3f32)], false);
                node!(format!("plate {v}"), 2, [3], Plate<N> => Plate::<N>::new(v), [], [(0u8, 0.3f32)], false);
                for w in [0.05f32, 0.3] {
                    let p = [(0u8, 0.3f32), (1, 0.02)];
                    node!(format!("sawsynth {v} {w}"), 2, [1], SawSynth<N> => SawSynth::<N>::new(v, w), [], p, false);
                    node!(format!("squsynth {v} {w}"), 2, [1], SquSynth<N> => SquSynth::<N>::new(v, w), [], p, false);
                    node!(format!("trisynth {v} {w}"), 2, [1], TriSynth<N> => TriSynth::<N>::new(v, w), [], p, false);
                    node!(format!("envperc {v} {w}"), 1, [1, 4], EnvPerc => EnvPerc::new(), [attack(v), decay(w), sr(sr)], p, false);
                    let p = [(0u8, 0.3f32), (1, 0.02), (2, 0.9), (3, 0.5)];
                    node!(
                        format!("adsr {v} {w} 0.5 0.25"),
                        2,
                        [1, 4],
                        Adsr => Adsr::new(),
                        [attack(v), decay(w), sustain(0.5f32), release(0.25f32), sr(sr)],
                        p,
                        false
                    );
                    node!(format!("msgsynth \\a {v} {w}"), 1, [0], MsgSynth => MsgSynth::new(), [attack(v), decay(w), sr(sr)], [(1u8, 0.3f32)], false);
                }
            }
            for k in [1usize, 3, 16, 20] {
                node!(format!("delayn {k}"), 2, [2, 3], DelayN => DelayN::new(k), [], [(0u8, 5.0f32)], false);
            }
            for ms in [0.5f32, 15.625, 40.0, 250.0] {
                node!(format!("delayms {ms}"), 2, [2, 3], DelayMs => DelayMs::new(), [delay(ms, 2u8), sr(sr)], [(0u8, 20.0f32)], false);
                node!(
                    format!("apfmsgain {ms} 0.4"),
                    1,
                    [2],
                    AllPassFilterGain => AllPassFilterGain::new(),
                    [delay(ms), gain(0.4f32), sr(sr)],
                    [(0u8, 20.0f32), (1, 0.7)],
                    false
                );
            }
            for k in [4.0f32, 15.0] {
                for q in [0.5f32, 2.0] {
                    let p = [(0u8, 7.0f32), (1, 1.5)];
                    node!(format!("lpf {k} {q}"), 1, [2], ResonantLowPassFilter => ResonantLowPassFilter::new(), [cutoff(k), q(q), sr(sr)], p, false);
                    node!(format!("hpf {k} {q}"), 1, [2], ResonantHighPassFilter => ResonantHighPassFilter::new(), [cutoff(k), q(q), sr(sr)], p, false);
                }
                let pat: &'static Vec<(f32, f32)> = Box::leak(Box::new(vec![(k, 0.0f32), (9.0, 0.25)]));
                node!(
                    format!("lpf \"{k}@0.0 9@0.25\"(0.5) 1"),
                    1,
                    [2],
                    ResonantLowPassFilter => ResonantLowPassFilter::new(),
                    [pattern(pat), span(0.5f32), bpm(bpm), q(1.0f32), sr(sr)],
                    none,
                    true
                );
            }
            for seed in [0usize, 7, 42] {
                node!(format!("noise {seed}"), 1, [0], Noise => Noise::new(seed), [], [(0u8, 9.0f32)], false);
            }
            node!("choose 60 0 67 1 72", 1, [0, 4], Choose => Choose::new(vec![60.0, 0.0, 67.0, 1.0, 72.0], 42), [], none, false);
            // sequences
            node!(
                "seq 60 67",
                1,
                [0],
                Sequencer => Sequencer::new(vec![(0.0, UsizeOrRef::Usize(60)), (0.5, UsizeOrRef::Usize(67))]),
                [sr(sr), bpm(bpm)],
                none,
                true
            );
            for sp in [0.5f32, 2.0] {
                items.push(Item {
                    key: format!("sr {sr} bpm {bpm} o: speed {sp} >> seq 60 _ 67"),
                    text: format!("o: speed {sp} >> seq 60 _ 67 _"),
                    sr,
                    bpm,
                    chain: Box::new(move || {
                        vec![
                            Speed::from(sp).to_boxed_nodedata(1),
                            Sequencer::new(vec![(0.0, UsizeOrRef::Usize(60)), (0.5, UsizeOrRef::Usize(67))]).bpm(bpm).sr(sr).to_boxed_nodedata(1),
                        ]
                    }),
                    extra: Box::new(|| vec![]),
                    params: vec![(0, 4.0)],
                    tempo: true,
                    pos: 0,
                });
            }
            for (sp, text) in [(1.0f32, "1"), (0.5, "0.5")] {
                node!(
                    format!("psynth `0.0 440.0, 0.25 220.0` {text}"),
                    1,
                    [0],
                    PatternSynth => PatternSynth::new(vec![(0.0, 440.0), (0.25, 220.0)]),
                    [sr(sr), cycle_dur(240.0f32 / bpm), period_in_cycle(sp)],
                    none,
                    true
                );
                let pat: Vec<(String, f32)> = vec![("\\m".into(), 0.0), ("\\s".into(), 0.25)];
                let dict: hashbrown::HashMap<String, Smp> = [("\\m".to_string(), M), ("\\s".to_string(), S)].into_iter().collect();
                items.push(Item {
                    key: format!("sr {sr} bpm {bpm} o: psampler over {sp}"),
                    text: format!("o: psampler \"\\m@0.0 \\s@0.25\"({text})"),
                    sr,
                    bpm,
                    chain: Box::new(move || vec![PSampler::new(dict.clone(), sr, bpm, vec![], pat.clone(), sp).to_boxed_nodedata(2)]),
                    extra: Box::new(|| vec![]),
                    params: vec![],
                    tempo: true,
                    pos: 0,
                });
            }
            node!("sp \\m", 2, [1], Sampler => Sampler::new(M, sr), [], none, false);
            node!("sp \\s", 2, [1], Sampler => Sampler::new(S, sr), [], none, false);
            node!("eval `x := x + 1; x / sr`", 1, [0, 2], Eval<N> => Eval::<N>::new(), [code("x := x + 1; x / sr"), sr(sr)], none, false);
            node!("eval `in * 0.5`", 1, [2], Eval<N> => Eval::<N>::new(), [code("in * 0.5"), sr(sr), bpm(bpm)], none, false);
            node!("meta `output.pad(16, 0.5); output`", 1, [0], Meta<N> => Meta::<N>::new(), [code("output.pad(16, 0.5); output"), sr(sr)], none, false);
            // curves: a span, a tempo and a rate in every order
            for looping in [false, true] {
                for sp in [1.0f32, 0.5] {
                    let pts: &'static Vec<(TimeList, f32)> = Box::leak(Box::new(vec![
                        (TimeList { bar: 0.25, time: None }, 1.0f32),
                        (TimeList { bar: 0.5, time: Some(Duration::Milliseconds(20.0)) }, -1.0),
                    ]));
                    let text = format!("[1/4 => 1.0 1/2+20_ms => -1.0] *{sp}{}", if looping { " !" } else { "" });
                    node!(text, 1, [0], Points => Points::new(), [points(pts), bpm(bpm), sr(sr), span(sp), is_looping(looping)], none, false);
                }
            }
            // nodes with several inputs
            items.push(Item {
                key: format!("sr {sr} bpm {bpm} balance"),
                text: "o: balance ~a ~b\n~a: saw 5\n~b: squ 3".into(),
                sr,
                bpm,
                chain: Box::new(move || vec![SawOsc::new().freq(5.0).sr(sr).to_boxed_nodedata(1), Balance::new().to_boxed_nodedata(2)]),
                extra: Box::new(move || vec![(1, SquOsc::new().freq(3.0).sr(sr).to_boxed_nodedata(1))]),
                params: vec![],
                tempo: false,
                pos: 1,
            });
            items.push(Item {
                key: format!("sr {sr} bpm {bpm} mix"),
                text: "o: mix ~a ~b\n~a: saw 5\n~b: squ 3".into(),
                sr,
                bpm,
                chain: Box::new(move || vec![SawOsc::new().freq(5.0).sr(sr).to_boxed_nodedata(1), Sum2.to_boxed_nodedata(2)]),
                extra: Box::new(move || vec![(1, SquOsc::new().freq(3.0).sr(sr).to_boxed_nodedata(1))]),
                params: vec![],
                tempo: false,
                pos: 1,
            });
            items.push(Item {
                key: format!("sr {sr} bpm {bpm} pass"),
                text: "o: ~a\n~a: saw 5 >> pan 0.5".into(),
                sr,
                bpm,
                chain: Box::new(move || {
                    vec![SawOsc::new().freq(5.0).sr(sr).to_boxed_nodedata(1), Pan::new(0.5).to_boxed_nodedata(2), Pass.to_boxed_nodedata(2)]
                }),
                extra: Box::new(|| vec![]),
                params: vec![],
                tempo: false,
                pos: 2,
            });
            for (name, mk) in [
                ("mul ~m", (|_| Mul::new(0.0).to_boxed_nodedata(2)) as fn(usize) -> Data),
                ("add ~m", |_| Add::new(0.0).to_boxed_nodedata(2)),
                ("pan ~m", |_| Pan::new(0.0).to_boxed_nodedata(2)),
                ("onepole ~m", |_| OnePole::new(0.0).to_boxed_nodedata(1)),
                ("lpf ~m 1", |sr| ResonantLowPassFilter::new().q(1.0).sr(sr).to_boxed_nodedata(1)),
                ("hpf ~m 1", |sr| ResonantHighPassFilter::new().q(1.0).sr(sr).cutoff(100.0).to_boxed_nodedata(1)),
                ("delayn ~m", |_| DelayN::new(0).to_boxed_nodedata(2)),
                ("delayms ~m", |sr| DelayMs::new().sr(sr).delay(2000.0, 2).to_boxed_nodedata(2)),
                ("apfmsgain ~m 0.5", |sr| AllPassFilterGain::new().sr(sr).delay(0.0).gain(0.5).to_boxed_nodedata(1)),
            ] {
                items.push(Item {
                    key: format!("sr {sr} bpm {bpm} o: saw 5 >> {name}"),
                    text: format!("o: saw 5 >> {name}\n~m: sig 0.75"),
                    sr,
                    bpm,
                    chain: Box::new(move || vec![SawOsc::new().freq(5.0).sr(sr).to_boxed_nodedata(1), mk(sr)]),
                    extra: Box::new(|| vec![(1, ConstSig::new(0.75).to_boxed_nodedata(1))]),
                    params: vec![],
                    tempo: false,
                    pos: 1,
                });
            }
            items.push(Item {
                key: format!("sr {sr} bpm {bpm} arrange"),
                text: "o: arrange ~a 0.5 ~b 0.25\n~a: saw 5\n~b: squ 3".into(),
                sr,
                bpm,
                chain: Box::new(move || {
                    let ev = vec![
                        NumberOrRef::Ref("~a".to_string()),
                        NumberOrRef::Number(0.5),
                        NumberOrRef::Ref("~b".to_string()),
                        NumberOrRef::Number(0.25),
                    ];
                    vec![SawOsc::new().freq(5.0).sr(sr).to_boxed_nodedata(1), Arrange::new(ev).bpm(bpm).sr(sr).to_boxed_nodedata(2)]
                }),
                extra: Box::new(move || vec![(1, SquOsc::new().freq(3.0).sr(sr).to_boxed_nodedata(1))]),
                params: vec![],
                tempo: true,
                pos: 1,
            });
        }
    }
    c.note("builders", items.len());
    c.par(&items, |it| {
        // long enough for one and a half bars of the slow rates
        let blocks = if it.sr == 64 { 20 } else { c.pick(40, 400) };
        let mut plays: Vec<(String, Vec<Note>, Option<(usize, f32)>)> = vec![("".into(), vec![], None)];
        for (p, v) in &it.params {
            for when in [0usize, 3] {
                plays.push((format!(", parameter {p} set to {v} after {when} blocks"), vec![(when, it.pos, *p, *v)], None));
            }
        }
        if it.tempo {
            plays.push((", tempo set to 150 after 2 blocks".into(), vec![], Some((2, 150.0))));
        }
        for (what, msgs, bpm) in plays {
            c.case(&format!("{}{what}", it.key), || {
                let a = by_hand((it.chain)(), (it.extra)(), &msgs, bpm, blocks);
                let b = written(&it.text, it.sr, it.bpm, &msgs, bpm, blocks)?;
                c.steps(2 * blocks as u64);
                same(&a, &b)?;
                let mut f = Fp::new();
                for x in b.0.iter().chain(&b.1) {
                    f.f(*x);
                }
                c.state(f.get());
                Ok(f.get())
            });
        }
    });
    // a phase is a head start
    let osc: [(&str, fn(f32, f32, usize) -> Data); 4] = [
        ("sin", |f, p, sr| SinOsc::new().phase(p).sr(sr).freq(f).to_boxed_nodedata(1)),
        ("saw", |f, p, sr| SawOsc::new().phase(p).sr(sr).freq(f).to_boxed_nodedata(1)),
        ("squ", |f, p, sr| SquOsc::new().phase(p).sr(sr).freq(f).to_boxed_nodedata(1)),
        ("tri", |f, p, sr| TriOsc::new().phase(p).sr(sr).freq(f).to_boxed_nodedata(1)),
    ];
    c.par_n(4 * 8 * 64, |i| {
        let (k, f, s) = (i % 4, [0.25f32, 0.5, 1.0, 2.0, 3.0, 4.0, 5.0, 8.0][i / 4 % 8], i / 32);
        let head = s as f32 * f / 64.0;
        if head >= 1.0 {
            return;
        }
        c.case(&format!("{} {f} at 64 Hz with phase {head}", osc[k].0), || {
            let a = by_hand(vec![(osc[k].1)(f, head, 64)], vec![], &[], None, 16);
            let b = by_hand(vec![(osc[k].1)(f, 0.0, 64)], vec![], &[], None, 24);
            c.steps(40);
            for j in 0..256 {
                if a.0[j] != b.0[j + s] {
                    return Err(format!("sample {j} is {} instead of {}", a.0[j], b.0[j + s]));
                }
            }
            Ok(fp_str(&format!("{:?}", &a.0[..32])))
        });
    });
    c.finish(
        "model_checking",
        "every node builder with its options in every order, crossed with sample rates, tempi, what feeds the node and a parameter or tempo change, against the engine playing the same program; states = distinct streams",
        &["bit for bit: both sides run the same arithmetic"],
        true,
    )
}
