//! Life of an engine: reset, bounded resources, survival of anything.

use crate::rig::*;
use crate::util::*;
use glicol::Engine;

static W1: [f32; 6] = [1.0, -0.5, 0.25, 0.75, -1.0, 0.5];
static W2: [f32; 8] = [0.5, -0.5, 0.25, -0.25, 1.0, -1.0, 0.0, 0.125];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Up(&'static str),
    Msg(&'static str),
    Blk(usize),
    Inp,
    Bpm(f32),
    Seed(usize),
    Sr(usize),
    Sample(&'static str, usize),
    Amp(f32),
    Reset,
}

/// What a caller can see of one operation.
fn run(e: &mut Engine<16>, o: Op, log: &mut Vec<(Out, String)>) {
    match o {
        Op::Up(t) => {
            let a = match e.update_with_code(t) {
                Ok(()) => "ok".to_string(),
                Err(x) => short(&x),
            };
            log.push(((vec![], vec![]), a));
        }
        Op::Msg(t) => e.send_msg(t),
        Op::Blk(k) => {
            for _ in 0..k {
                log.push((blk(e), String::new()));
            }
        }
        Op::Inp => {
            let l: Vec<f32> = (0..16).map(|i| (i % 5) as f32 * 0.25 - 0.5).collect();
            let r: Vec<f32> = (0..16).map(|i| (i % 3) as f32 * 0.5).collect();
            log.push((blk_in(e, &l, &r), String::new()));
        }
        Op::Bpm(v) => e.set_bpm(v),
        Op::Seed(v) => e.set_seed(v),
        Op::Sr(v) => e.set_sr(v),
        Op::Sample(n, ch) => e.add_sample(n, if ch == 1 { &W1 } else { &W2 }, ch, 64),
        Op::Amp(v) => e.set_track_amp(v),
        Op::Reset => e.reset(),
    }
}
fn chains(e: &Engine<16>) -> Vec<(String, usize)> {
    let mut v: Vec<(String, usize)> = e.index_info.iter().map(|(k, c)| (k.clone(), c.len())).collect();
    v.sort();
    v
}
fn show(w: &[Op]) -> String {
    w.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join(" ")
}
fn log_fp(l: &[(Out, String)]) -> u64 {
    let mut f = Fp::new();
    for ((a, b), s) in l {
        f.s(s);
        for x in a.iter().chain(b) {
            f.f(*x);
        }
    }
    f.get()
}
fn same_log(a: &[(Out, String)], b: &[(Out, String)], what: &str) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{what}: {} and {} answers", a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x.1 != y.1 {
            return Err(format!("{what}: answer {i} is `{}`, a new engine says `{}`", x.1, y.1));
        }
        same(&x.0, &y.0, &format!("{what}, observation {i}"))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C29

const ALPHA: &[Op] = &[
    Op::Up("o: sin 4 >> mul 0.5"),
    Op::Up("o: saw 2 >> mul ~a\n~a: tri 3 >> add 1"),
    Op::Up("o: seq 60 _ ~a >> sp \\s\n~a: sig 67"),
    Op::Up("o: ~input >> mul 2"),
    Op::Up("~input: sig 0.5\no: ~input >> mul ~a\n~a: choose 1 2 3"),
    Op::Up("o: noise 7 >> lpf 8 1\np: speed 4 >> seq 60 _ 72"),
    Op::Up("o: choose 10 20 30"),
    Op::Up("o: mix ~a..\n~ab: sig 1\n~ac: imp 4 >> delayn 5"),
    Op::Up("o: arrange ~a 1 ~b 0.5\n~a: saw 1\n~b: squ 2 >> delayms 40"),
    Op::Up("o: psampler \"\\s@0 \\t@0.5\"(1)"),
    Op::Up("o: sin 4 >> mul ~zz"),
    Op::Up("o: sin >> 3"),
    Op::Up("o: sp \\nosuch"),
    Op::Up("o: msgsynth \\a 0.1 0.2 >> plate 0.5"),
    Op::Up(""),
    Op::Msg("o,0,0,2"),
    Op::Msg("o,1,0,0.25;~a,0,0,5"),
    Op::Blk(1),
    Op::Blk(3),
    Op::Inp,
    Op::Bpm(240.0),
    Op::Seed(7),
    Op::Sample("\\s", 1),
    Op::Sample("\\t", 2),
    Op::Sr(32),
    Op::Amp(0.5),
    Op::Reset,
];
/// Looked at in the end, so that anything left over shows.
const PROBES: &[&[Op]] = &[
    &[Op::Blk(1), Op::Inp, Op::Up("o: ~input >> add ~a\n~a: choose 1 2 3 4"), Op::Inp, Op::Blk(2)],
    &[Op::Up("o: seq 60 _ 61 62 >> mul 2\nq: mix ~a.."), Op::Up("o: seq 60 _ 61 62 >> mul 2"), Op::Blk(4)],
    &[Op::Up("o: sp \\s"), Op::Up("o: sp \\t"), Op::Up("o: mul ~a"), Op::Up("o: sin 4 >> mul 0.5"), Op::Msg("o,0,0,3"), Op::Blk(2)],
    &[Op::Sample("\\s", 2), Op::Up("o: imp 8 >> sp \\s"), Op::Blk(2), Op::Up("o: psampler \"\\s@0 \\s@0.5\"(1) >> lpf \"8@0\"(1) 1"), Op::Blk(3)],
];

pub fn c29(c: &'static Ctx) -> i32 {
    // calls before the reset, calls after it
    let shapes: &[(usize, usize)] = c.pick(&[(1, 2), (2, 1), (3, 0)], &[(2, 2), (3, 1), (4, 0)]);
    let pre: Vec<(Vec<Op>, usize)> = shapes
        .iter()
        .flat_map(|(p, s)| words_upto(ALPHA, if *s == shapes[0].1 { 1 } else { *p }, *p).into_iter().map(|w| (w, *s)))
        .collect();
    let suf: Vec<Vec<Vec<Op>>> = (0..3).map(|k| words_upto(ALPHA, 0, k)).collect();
    c.note("operations", ALPHA.len());
    c.note("histories_before_reset", pre.len());
    let test = |a: &[Op], b: &[Op]| {
        for (k, probe) in PROBES.iter().enumerate() {
            let key = format!("{} | reset | {} | probe {k}", show(a), show(b));
            c.case(&key, || {
                let mut e = engine::<16>(64);
                let mut dump = vec![];
                for o in a {
                    run(&mut e, *o, &mut dump);
                }
                e.reset();
                let sr = a.iter().rev().find_map(|o| if let Op::Sr(v) = o { Some(*v) } else { None }).unwrap_or(64);
                let mut f = engine::<16>(sr);
                c.state(log_fp(&dump));
                let (mut x, mut y) = (vec![], vec![]);
                for o in b.iter().chain(*probe) {
                    run(&mut e, *o, &mut x);
                    run(&mut f, *o, &mut y);
                    let (p, q) = (chains(&e), chains(&f));
                    if p != q {
                        return Err(format!("after {o:?} the chains are {p:?}, in a new engine {q:?}"));
                    }
                }
                c.steps((a.len() + b.len() + probe.len()) as u64);
                same_log(&x, &y, "after the reset")?;
                Ok(log_fp(&x))
            });
        }
    };
    let pairs: Vec<(usize, usize)> = (0..pre.len()).flat_map(|i| (0..suf[pre[i].1].len()).map(move |j| (i, j))).collect();
    c.par(&pairs, |(i, j)| test(&pre[*i].0, &suf[pre[*i].1][*j]));
    // a new engine, and one after a reset, is the one set to 44100, 120 and 42
    for b in words_upto(ALPHA, 0, c.pick(1, 2)) {
        for set in 0..8 {
            for (k, probe) in PROBES.iter().enumerate() {
                for first in [false, true] {
                    c.case(&format!("defaults, set {set}, reset {first} | {} | probe {k}", show(&b)), || {
                        let (mut e, mut f) = (Engine::<16>::new(), Engine::<16>::new());
                        if first {
                            e.reset();
                        }
                        if set & 1 != 0 {
                            f.set_sr(44100);
                        }
                        if set & 2 != 0 {
                            f.set_bpm(120.0);
                        }
                        if set & 4 != 0 {
                            f.set_seed(42);
                        }
                        let (mut x, mut y) = (vec![], vec![]);
                        for o in b.iter().chain(*probe) {
                            run(&mut e, *o, &mut x);
                            run(&mut f, *o, &mut y);
                        }
                        c.steps((b.len() + probe.len()) as u64);
                        same_log(&x, &y, "with nothing set")?;
                        Ok(log_fp(&x))
                    });
                }
            }
        }
    }
    c.finish(
        "model_checking",
        "an engine with nothing set against every set of defaults, after every history of up to 1 (thorough 2) calls; every history over 27 operations with up to 1, 2 or 3 calls (thorough 2, 3 or 4) before the reset and up to 2, 1 or 0 after it, each followed by 4 probes; compared bit for bit with a new engine; states are the distinct pasts as seen by a caller",
        &["the sample rate set before the reset stays; samples, tempo and seed go back to their defaults"],
        true,
    )
}

// ---------------------------------------------------------------- C30

const POOL: &[&str] = &[
    "o: sin 4 >> mul 0.5",
    "o: saw 2 >> mul ~a\n~a: tri 3 >> add 1",
    "o: saw 2 >> mul ~a >> delayn 3\n~a: tri 3 >> add ~b\n~b: sig 1",
    "o: seq 60 _ ~a >> sp \\s\n~a: sig 67",
    "o: ~input >> mul 2",
    "~input: sig 0.5\no: ~input >> mul ~a\n~a: choose 1 2 3",
    "o: noise 7 >> lpf 8 1\np: speed 4 >> seq 60 _ 72",
    "o: mix ~a..\n~ab: sig 1\n~ac: imp 4 >> delayms 50",
    "o: arrange ~a 1 ~b 0.5\n~a: saw 1\n~b: squ 2",
    "o: psampler \"\\s@0 \\s@0.5\"(1) >> pan -0.5",
    "o: msgsynth \\a 0.1 0.2",
    "o: psynth `60@0 67@0.5` 1 >> envperc 0.1 0.1",
    "o: balance ~a ~b\n~a: onepole 0.5\n~b: [0=>1 1/2=>0]*2!",
    "o: eval `a := x; a`\n~m: meta `output := input; output`",
    "",
];
const REFUSED: &[&str] = &[
    "o: sin",
    "o: sin 4 >> mul ~zz\n~q: saw 3 >> mul 2",
    "~a: sig 5\no: psampler \"\\s@0.0 \\nosuch@0.5\"(1)",
    "o: mix ~zz..\nextra: sig 1 >> add 2\nextrb: sig 2",
];
const CHAT: &[&str] = &["o,0,0,0.25;~a,0,0,5", "o,0,3,0.1=>60;o,0,0,60@0.0 62@0.25", "zz,9,9,9;;,,,", "o,1,0,9;o,0,1,0.05"];

pub const KEPT: &[&str] = &[
    "mul 0.5", "mul ~q", "add 0.5", "add ~q", "lpf 8 1", "lpf ~q 1", "hpf 8 1", "hpf ~q 1", "apfmsgain 20 0.5", "apfmsgain ~q 0.5", "onepole 0.5", "onepole ~q",
    "delayn 3", "delayms 40", "delayms ~q", "envperc 0.1 0.1", "adsr 0.1 0.1 0.5 0.1", "sin 4", "saw 4", "squ 4", "tri 4", "sin ~q", "saw ~q", "squ ~q", "tri ~q", "imp 3", "sig 1", "noise 3", "speed 4",
    "seq 60 _ 67", "seq 60 ~q", "seq ~q _ 60_72 ~r", "choose 60 67", "sp \\s", "psampler \"\\s@0.0 \\s@0.5\"(1)", "pan 0.5", "pan ~q", "balance ~r ~q", "mix ~q ~r", "arrange ~q 1 ~r 1",
    "bd 0.1", "sn 0.1", "hh 0.1", "sawsynth 0.1 0.1", "squsynth 0.1 0.1", "trisynth 0.1 0.1", "msgsynth \\a 0.1 0.2", "psynth `60@0 67@0.5` 1", "plate 0.2",
    "get ~q", "eval `a := in; a`", "meta `output = input; output`", "[0=>1, 1/2=>0]", "~q",
];

fn counts(e: &Engine<16>) -> (usize, usize) {
    (e.context.graph.node_count(), e.context.graph.edge_count())
}

pub fn c30(c: &'static Ctx) -> i32 {
    let idx: Vec<usize> = (0..POOL.len()).collect();
    let mut cycles = words_upto(&idx, 1, 2);
    let l3 = words(&idx, 3);
    cycles.extend(l3.into_iter().filter(|w| c.thorough() || (w[0] < w[1] && w[0] < w[2])));
    let (warm, total) = c.pick((20, 80), (40, 400));
    c.note("cycles", cycles.len());
    c.note("repeats_of_each_cycle", total);
    // what happens between two updates
    let flavours = ["blocks", "refused updates", "messages", "tempo and samples"];
    c.par_n(cycles.len() * flavours.len(), |x| {
        let (w, fl) = (&cycles[x / flavours.len()], x % flavours.len());
        let key = format!("cycle {w:?}, {}", flavours[fl]);
        c.case(&key, || {
            let before = crate::live_bytes();
            let mut e = engine::<16>(64);
            e.add_sample("\\s", &W1, 1, 64);
            // the size of the graph for each program of the cycle, in a new engine
            let mut want = vec![];
            for k in w {
                let mut f = engine::<16>(64);
                f.add_sample("\\s", &W1, 1, 64);
                upd(&mut f, POOL[*k])?;
                want.push(counts(&f));
            }
            let mut peak = 0i64;
            for r in 0..total {
                for (j, k) in w.iter().enumerate() {
                    upd(&mut e, POOL[*k])?;
                    let got = counts(&e);
                    if got != want[j] {
                        return Err(format!("after {r} rounds the graph of `{}` has {got:?} nodes and connections, a new engine needs {:?}", POOL[*k].replace('\n', "; "), want[j]));
                    }
                    match fl {
                        1 => {
                            let bad = REFUSED[(r + j) % REFUSED.len()];
                            if e.update_with_code(bad).is_ok() {
                                return Err(format!("`{bad}` was accepted"));
                            }
                            if counts(&e) != want[j] {
                                return Err(format!("after {r} rounds a refused update leaves {:?} nodes and connections instead of {:?}", counts(&e), want[j]));
                            }
                        }
                        2 => e.send_msg(CHAT[(r + j) % CHAT.len()]),
                        3 => {
                            e.set_bpm(120.0 + (r % 3) as f32);
                            e.add_sample("\\s", if r % 2 == 0 { &W1 } else { &W2 }, 1, 64);
                            e.set_seed(r % 5);
                        }
                        _ => (),
                    }
                    blk(&mut e);
                    c.steps(1);
                }
                let now = crate::live_bytes() - before;
                if r < warm {
                    peak = peak.max(now);
                } else if now > peak {
                    return Err(format!("the engine held at most {peak} bytes in the first {warm} rounds and {now} after {r}"));
                }
            }
            let (n, m) = counts(&e);
            drop(e);
            drop(want);
            let left = crate::live_bytes() - before;
            if left > 0 {
                return Err(format!("{left} bytes stay allocated after the engine is gone"));
            }
            c.state(Fp::new().u(n as u64).u(m as u64).u(peak as u64).get());
            Ok(Fp::new().u(peak as u64).u(w.len() as u64).get())
        });
    });
    // every kind of node kept by updates that change, add or drop what is around it
    let sides = [("imp 4", ""), ("imp 4", "mul 2"), ("sig 1 >> add 0.5", ""), ("imp 8", "delayn 1 >> add 0"), ("~r", "add ~r")];
    let pairs: Vec<(usize, usize)> = (0..sides.len()).flat_map(|i| (i..sides.len()).map(move |j| (i, j))).collect();
    let rounds = c.pick(80usize, 800);
    c.note("kept_nodes", KEPT.len());
    c.par_n(KEPT.len() * pairs.len(), |x| {
        let (k, (i, j)) = (KEPT[x / pairs.len()], pairs[x % pairs.len()]);
        c.case(&format!("{k} kept between {:?} and {:?}", sides[i], sides[j]), || {
            let text = |s: (&str, &str)| format!("o: {} >> {k}{}{}\n~r: sig 0.5\n~q: sig 0.25", s.0, if s.1.is_empty() { "" } else { " >> " }, s.1);
            let progs = [text(sides[i]), text(sides[j])];
            let mut e = engine::<16>(64);
            e.add_sample("\\s", &W1, 1, 64);
            let before = crate::live_bytes();
            let mut peak = 0;
            for r in 0..rounds {
                for p in &progs {
                    upd(&mut e, p)?;
                    blk(&mut e);
                }
                let now = crate::live_bytes() - before;
                if r < 20 {
                    peak = peak.max(now);
                } else if now > peak {
                    return Err(format!("the engine held at most {peak} bytes in the first 20 rounds and {now} after {r}"));
                }
            }
            c.steps(2 * rounds as u64);
            Ok(Fp::new().s(k).u(peak as u64).get())
        });
    });
    // rendering and messages alone: every program for a long time
    let long = c.pick(4000usize, 40000);
    c.note("blocks_of_a_long_run", long);
    let solo: Vec<&str> = POOL
        .iter()
        .copied()
        .chain([
            "o: speed 16 >> seq 60 61 62 63 >> sp \\s",
            "o: imp 32 >> sp \\s",
            "o: imp 32 >> sawsynth 0.01 0.1 >> plate 0.2",
            "o: imp 32 >> bd 0.1 >> add ~h\n~h: imp 16 >> hh 0.1 >> add ~s\n~s: imp 8 >> sn 0.1",
            "o: psynth `60@0 61@0.1 62@0.2 63@0.3`  0.25",
            "o: psampler \"\\s@0 \\s@0.1 \\s@0.2 \\s@0.3\"(0.25)",
            "o: sin 1 >> delayms ~d >> apfmsgain ~d 0.5\n~d: sin 3 >> mul 20 >> add 40",
            "o: seq 60 ~a ~b >> adsr 0.1 0.1 0.5 0.1 >> hpf ~a 1 >> lpf ~b 1\n~a: choose 1 2 3\n~b: noise 3 >> mul 5 >> add 8",
        ])
        .collect();
    c.par_n(solo.len() * 3, |x| {
        let (p, fl) = (solo[x / 3], x % 3);
        c.case(&format!("long run of {p}, {}", ["alone", "with messages", "with live input"][fl]), || {
            let mut e = engine::<16>(64);
            e.add_sample("\\s", &W1, 1, 64);
            let before = crate::live_bytes();
            upd(&mut e, p)?;
            let inp: Vec<f32> = (0..16).map(|i| (i % 4) as f32 * 0.25).collect();
            let mut peak = 0;
            for k in 0..long {
                if fl == 1 && k % 3 == 0 {
                    e.send_msg(CHAT[k / 3 % CHAT.len()]);
                }
                if fl == 2 {
                    blk_in(&mut e, &inp, &inp);
                } else {
                    blk(&mut e);
                }
                let now = crate::live_bytes() - before;
                if k < long / 8 {
                    peak = peak.max(now);
                } else if now > peak {
                    return Err(format!("the engine held at most {peak} bytes in the first {} blocks and {now} after {k}", long / 8));
                }
            }
            c.steps(long as u64);
            Ok(Fp::new().s(p).u(peak as u64).get())
        });
    });
    c.finish(
        "model_checking",
        "every cycle of up to 2 programs of the pool and every cycle of 3 (quick: up to rotation and repetition) played 80 (thorough 400) times with blocks, refused updates, messages or tempo and sample changes in between, every kind of node kept by pairs of updates that change what is around it, and long runs of single programs; live heap bytes and the size of the graph are compared with a warm-up and with a new engine; states are the distinct sizes",
        &["heap bytes are counted by the allocator of the checking thread"],
        true,
    )
}

// ---------------------------------------------------------------- C31

/// Every node kind with `{}` where a parameter goes; the flag says that a
/// number there is a length of time, which costs memory.
const KINDS: &[(&str, &[bool])] = &[
    ("sin {}", &[false]),
    ("saw {}", &[false]),
    ("squ {}", &[false]),
    ("tri {}", &[false]),
    ("sig {}", &[false]),
    ("imp {}", &[false]),
    ("noise 3", &[]),
    ("speed {}", &[false]),
    ("mul {}", &[false]),
    ("add {}", &[false]),
    ("pan {}", &[false]),
    ("delayn 5", &[]),
    ("delayn 0", &[]),
    ("delayms {}", &[true]),
    ("envperc {} {}", &[false, false]),
    ("adsr {} {} {} 0.1", &[false, false, false]),
    ("adsr 0.1 0.1 0.5 {}", &[false]),
    ("lpf {} {}", &[false, false]),
    ("hpf {} {}", &[false, false]),
    ("onepole {}", &[false]),
    ("apfmsgain {} {}", &[true, false]),
    ("apfgain {} 0.5", &[true]),
    ("lpf \"{}@{}\"({}) 1", &[false, false, false]),
    ("lpf \"8@0 {}@{}\"(1) {}", &[false, false, false]),
    ("lpf \"8@0\" 1", &[]),
    ("seq 60 _ 0 _127 _300_", &[]),
    ("seq ~a _~a ~b", &[]),
    ("seq _", &[]),
    ("choose 0 0", &[]),
    ("choose 60 -70 999999999", &[]),
    ("mix ~a ~b", &[]),
    ("mix ~a..", &[]),
    ("mix ~a ~a ~a", &[]),
    ("~a", &[]),
    ("~o..", &[]),
    ("o", &[]),
    ("balance ~a ~b", &[]),
    ("balance ~a ~a", &[]),
    ("arrange ~a {} ~b {}", &[false, false]),
    ("arrange ~a {}", &[false]),
    ("[]", &[]),
    ("[]*2!", &[]),
    ("[{}=>{}]", &[false, false]),
    ("[0=>1 {}=>{}]*{}", &[false, false, false]),
    ("[1/2=>1 1/4=>{}]/{}!", &[false, false]),
    ("[1/0=>1 0/0=>{}]!", &[false]),
    ("[0=>1 1/4+{}_ms=>0 1/4-{}_s=>1]", &[false, false]),
    ("sp \\s", &[]),
    ("sp \\d", &[]),
    ("sp \\q", &[]),
    ("psampler \"\\s@{} \\d@{}\"({})", &[false, false, false]),
    ("psampler \"\\q@0\"()", &[]),
    ("psampler \"\\s@0\"", &[]),
    ("psampler \"60@0\"(1)", &[]),
    ("bd {}", &[false]),
    ("sn {}", &[false]),
    ("hh {}", &[false]),
    ("sawsynth {} {}", &[false, false]),
    ("squsynth {} {}", &[false, false]),
    ("trisynth {} {}", &[false, false]),
    ("msgsynth \\a {} {}", &[false, false]),
    ("psynth `60@0 0@0.5` {}", &[false]),
    ("psynth `x@y @ 60 @@ 61@ é@0.5` {}", &[false]),
    ("psynth ``", &[]),
    ("plate {}", &[false]),
    ("reverb {} 1 1 1 {}", &[false, false]),
    ("expr `x`", &[]),
    ("adc 0", &[]),
    ("adc 99", &[]),
    ("sendpass ~a", &[]),
    ("meta `output`", &[]),
    ("meta `let x = 1/0; x`", &[]),
    ("meta `output = input; output`", &[]),
    ("meta `[1, 2, 3]`", &[]),
    ("meta `this is not ( code`", &[]),
    ("meta ``", &[]),
    ("meta `\"text\"`", &[]),
    ("meta `output[9999] = 1.0; output`", &[]),
    ("script `phase += 1.0; output.pad(128, phase); output`", &[]),
    ("eval `x`", &[]),
    ("eval ``", &[]),
    ("eval `in := 1/0; in`", &[]),
    ("eval `sin(x) * (`", &[]),
    ("eval `a := b; b := a; a + b`", &[]),
    ("eval `-`", &[]),
];
const EXTREMES: &[&str] = &["0", "1", "-1", "0.5", "440", "1.0e-30", "1.0e9", "-1.0e9", "1.0e38", "-0", "1.0e39", "60"];
/// Lengths of time: nothing that needs more memory than a player has.
const LENGTHS: &[&str] = &["0", "1", "-1", "0.5", "1000", "1.0e-30", "-1.0e9", "0.01", "33.3", "7", "-0.5", "2"];
fn with_params(kind: &(&str, &[bool]), pick: &dyn Fn(usize) -> usize) -> String {
    let mut o = String::new();
    for (i, part) in kind.0.split("{}").enumerate() {
        if i > 0 {
            o.push_str(if kind.1[i - 1] { LENGTHS[pick(i - 1)] } else { EXTREMES[pick(i - 1)] });
        }
        o.push_str(part);
    }
    o
}
const SURROUND: &[(&str, &str)] = &[
    ("o: {}", "\n~a: sig 1\n~b: imp 8"),
    ("o: imp 16 >> {}", "\n~a: imp 3 >> pan 0.5\n~b: noise 1"),
    ("o: {} >> mul 0.5", "\n~a: sin 3 >> mul 1.0e9\n~b: sig -1"),
    ("o: ~input >> {} >> pan 0.5", "\n~a: sig 0\n~b: ~a >> pan ~a"),
    ("~a: {}\n~b: ~a >> delayn 2\no: sin ~a >> mul ~b", ""),
    ("o: mul ~a\n~a: {} >> add ~b\n~b: sig 1 >> delayms ~o..", ""),
    ("o: seq 60 _ >> {} >> lpf ~a 1 >> {}", "\n~a: sig -1\n~b: sig 1.0e30"),
    ("o: pan 0 >> {} >> apfmsgain ~a 0.5", "\n~a: sig 0.1\n~b: sig 0.1"),
];
fn fresh<const N: usize>(sr: usize) -> Engine<N> {
    let mut e = engine::<N>(sr);
    e.add_sample("\\s", &W1, 1, 64);
    e.add_sample("\\d", &W2, 2, 7);
    e.add_sample("\\q", &W2, 4, 64);
    e
}
/// Renders, with and without live input, and looks at the shape only.
fn shape<const N: usize>(e: &mut Engine<N>, blocks: usize) -> Result<u64, String> {
    let mut f = Fp::new();
    let x: Vec<f32> = (0..N).map(|i| (i % 3) as f32 - 1.0).collect();
    for k in 0..blocks {
        let b = match k % 3 {
            0 => e.next_block(vec![]),
            1 => e.next_block(vec![&x, &x]),
            _ => e.next_block(vec![&x]),
        };
        if b.len() != 2 || b.iter().any(|c| c.len() != N) {
            return Err(format!("a block of {} channels", b.len()));
        }
        for c in b {
            f.f(c[N - 1]);
        }
    }
    Ok(f.get())
}

pub fn c31(c: &'static Ctx) -> i32 {
    // 1: every node kind, every surrounding, extreme parameters, tempos, rates
    let mut programs: Vec<String> = vec![];
    for k in KINDS {
        let p = k.1.len();
        let choices = c.pick([1usize, 12, 12, 5], [1usize, 12, 12, 12])[p];
        for code in 0..choices.pow(p as u32) {
            let body = with_params(k, &|i| code / choices.pow(i as u32) % choices);
            for s in SURROUND {
                programs.push(format!("{}{}", s.0.replace("{}", &body), s.1));
            }
        }
    }
    c.note("programs", programs.len());
    let tempos: &[f32] = &[120.0, 0.0, -60.0, 1.0e12, 1.0e-6, f32::NAN, f32::INFINITY];
    let rates: &[usize] = &[64, 1, 44100];
    let nt = c.pick(3, tempos.len());
    c.par_n(programs.len() * nt, |x| {
        let (p, t) = (&programs[x / nt], tempos[if c.thorough() { x % nt } else { [0, x / nt % tempos.len(), (x / nt / 7 + 1) % tempos.len()][x % nt] }]);
        let sr = rates[(x / nt + x % nt) % rates.len()];
        let key = format!("{p} at {t} bpm, {sr} Hz");
        c.case(&key, || {
            let mut e = fresh::<16>(sr);
            e.set_bpm(t);
            let a = match e.update_with_code(p) {
                Ok(()) => 1,
                Err(_) => 2,
            };
            let f = shape(&mut e, 4)?;
            e.set_bpm(-t);
            let g = shape(&mut e, 2)?;
            c.state(Fp::new().u(a).u(f).get());
            c.steps(7);
            Ok(Fp::new().u(f).u(g).get())
        });
    });
    // pairs of kinds in one chain, and the other block sizes
    let plain: Vec<String> = KINDS.iter().map(|k| with_params(k, &|i| (i + 1) % 3)).collect();
    let n = plain.len();
    c.par_n(n * n, |x| {
        let p = format!("o: {} >> {}\n~a: {}\n~b: sig 1", plain[x / n], plain[x % n], plain[(x / n + x % n) % n]);
        c.case(&format!("pair {p}"), || {
            let mut e = fresh::<128>(44100);
            let a = e.update_with_code(&p).is_ok() as u64;
            let f = shape(&mut e, 2)?;
            let mut g = fresh::<2>(64);
            if g.update_with_code(&p).is_ok() as u64 != a {
                return Err("accepted with one block size and refused with another".into());
            }
            shape(&mut g, 5)?;
            c.state(Fp::new().u(a).u(f).get());
            c.steps(9);
            Ok(f)
        });
    });
    // 2: messages.  Every kind, every parameter, extreme values and nonsense
    let chain = ["o", "~a", "~zz", ""];
    let pos = ["0", "1", "2", "99", "-1", "x", ""];
    let par = ["0", "1", "2", "3", "4", "255", "256", "x"];
    let val = ["0", "1", "-1", "0.5", "1e9", "-1e9", "NaN", "inf", "abc", "", "\\s", "`x`", "0.0=>60", "=>", "@", "60@0", "é=>é", "x:=1;x"];
    let small = ["0", "1", "-1", "0.5", "1e3", "-1e9", "1e-9", "-0", "abc", "", "\\s", "`x`", "0.0=>60", "=>", "@", "60@0", "é=>é", "x:=1;x"];
    c.par_n(KINDS.len() * val.len(), |x| {
        let kind = &KINDS[x / val.len()];
        let body = with_params(kind, &|i| (i + 1) % 3);
        let delay = kind.1.contains(&true) || body.starts_with("delay");
        let v = if delay { small[x % val.len()] } else { val[x % val.len()] };
        let p = format!("o: ~a >> {body} >> mul 1\n~a: {body}\n~b: sig 1");
        if fresh::<16>(64).update_with_code(&p).is_err() {
            return;
        }
        for ch in &chain[..c.pick(3, 4)] {
            for po in pos {
                for pa in par {
                    let m = format!("{ch},{po},{pa},{v}");
                    c.case(&format!("{body} gets `{m}`"), || {
                        let mut e = fresh::<16>(64);
                        upd(&mut e, &p)?;
                        shape(&mut e, 1)?;
                        e.send_msg(&m);
                        let f = shape(&mut e, 2)?;
                        e.send_msg(&format!("{m};{m}"));
                        e.set_bpm(3.0e4);
                        let g = shape(&mut e, 1)?;
                        c.state(Fp::new().s(&body).u(f).get());
                        c.steps(8);
                        Ok(Fp::new().u(f).u(g).get())
                    });
                }
            }
        }
    });
    // every short message over an alphabet of pieces
    let pieces = ["o", "~a", ",", "0", "1", "-", ";", " ", "x", "=>", "1e9", "é"];
    let l = c.pick(5, 6);
    c.par_n(pieces.len().pow(l as u32), |x| {
        let mut m = String::new();
        let mut r = x;
        for _ in 0..l {
            m.push_str(pieces[r % pieces.len()]);
            r /= pieces.len();
        }
        for p in ["o: sin 4 >> mul ~a\n~a: sig 1", "o: msgsynth \\a 0.1 0.1\n~a: psynth `60@0` 1 >> eval `x`"] {
            c.case(&format!("message {m:?} to {p}"), || {
                let mut e = engine::<4>(64);
                upd(&mut e, p)?;
                e.send_msg(&m);
                e.send_msg(&format!("o,0,{m}"));
                let f = shape(&mut e, 2)?;
                c.steps(5);
                Ok(f)
            });
        }
    });
    // 3: histories of calls, also the unusual ones
    let ops: &[Op] = &[
        Op::Up("o: sin 4 >> mul ~a\n~a: sig 1"),
        Op::Up("o: ~a >> mul ~a\n~a: o >> delayn 3"),
        Op::Up("o: seq 60 ~a _ >> sp \\s\n~a: choose 1 2 0"),
        Op::Up("~input: ~input >> mul 2\no: ~input"),
        Op::Up("~input: saw 3 >> add ~input\no: mix ~i.."),
        Op::Up("o: o"),
        Op::Up("o: psampler \"\\s@0\"(1) >> plate 0.5\np: mul 0.5"),
        Op::Up("o: sp \\t >> add ~o.."),
        Op::Up("o: ~z.. >> sin 1\n~z: balance ~z ~o"),
        Op::Up("a: imp 8\na: msgsynth \\a 0.1 0.1\n_b: a"),
        Op::Up("o: ("),
        Op::Up(""),
        Op::Up("// nothing"),
        Op::Msg("o,0,0,5;o,0,3,0.0=>60;~a,1,1,1;~input,0,0,2;~input,1,0,2"),
        Op::Msg("o,0,0,abc;a,0,3,x=>y"),
        Op::Blk(1),
        Op::Blk(5),
        Op::Inp,
        Op::Bpm(0.0),
        Op::Bpm(f32::NAN),
        Op::Bpm(1.0e9),
        Op::Seed(usize::MAX),
        Op::Seed(0),
        Op::Sr(1),
        Op::Sr(192000),
        Op::Sample("\\s", 1),
        Op::Sample("\\s", 2),
        Op::Sample("\\s", 0),
        Op::Sample("\\t", 3),
        Op::Sample("\\t", 9),
        Op::Amp(f32::NAN),
        Op::Reset,
    ];
    c.note("operations", ops.len());
    let len = c.pick(3usize, 4);
    c.par_n(ops.len().pow(len as u32), |x| {
        let mut r = x;
        let w: Vec<Op> = (0..len)
            .map(|_| {
                let o = ops[r % ops.len()];
                r /= ops.len();
                o
            })
            .collect();
        c.case(&format!("calls {}", show(&w)), || {
            let mut e = engine::<16>(64);
            let mut log = vec![];
            for o in &w {
                match o {
                    Op::Sample(n, ch) => e.add_sample(n, if *ch == 9 { &[] } else { &W2 }, *ch, if *ch == 2 { 0 } else { 64 }),
                    o => run(&mut e, *o, &mut log),
                }
            }
            let f = shape(&mut e, 3)?;
            c.state(Fp::new().u(log_fp(&log)).u(f).get());
            c.steps(len as u64 + 3);
            Ok(f)
        });
    });
    // 4: every short program of the grammar that is accepted, played
    super::syntax::words_for_engine(c, &|text| {
        c.case(&format!("text {text}"), || {
            let mut e = fresh::<4>(64);
            let a = e.update_with_code(text).is_ok() as u64;
            let f = shape(&mut e, 3)?;
            c.steps(4);
            Ok(Fp::new().u(a).u(f).get())
        });
    });
    c.finish(
        "model_checking",
        "every node kind with every combination of extreme parameters in 8 surroundings at several tempos and sample rates, every pair of kinds in one chain, every kind with every message of the grid, every message of 5 (thorough 6) pieces, every history of 3 (thorough 4) calls over 32 operations, and every accepted text of the bounded token words; states are the distinct answers and last samples",
        &["scripts that loop forever and delays longer than memory allows are outside", "live input has whole blocks"],
        true,
    )
}

// ---------------------------------------------------------------- C44

/// Programs whose output repeats every so many bars.
const REPEATS: &[(&str, usize)] = &[
    ("o: seq 60 _ 67_ _72", 1),
    ("o: seq 48 60", 1),
    ("o: seq ~a 60 ~b\n~a: sig 65\n~b: saw 4 >> add 60", 1),
    ("o: seq _~a~b 72_\n~a: choose 65\n~b: sig 48", 1),
    ("o: speed 4 >> seq 60 67", 1),
    ("o: speed 2 >> seq 60 ~a _72 _\n~a: sig 55", 1),
    ("o: speed 0.5 >> seq 60 ~a\n~a: sig 55", 2),
    ("o: seq 60 _72 >> sp \\s", 1),
    ("o: speed 2 >> seq 60 48 >> sp \\t >> mul 0.5", 1),
    ("o: psampler \"\\s@0 \\t@0.25 \\s@0.5\"()", 1),
    ("o: psampler \"\\s@0 \\t@0.25 \\s@0.625\"(0.5)", 1),
    ("o: psampler \"\\s@0 \\t@0.5\"(2)", 2),
    ("o: arrange ~a 1 ~b 0.5 ~c 0.5\n~a: saw 1\n~b: sig 2\n~c: squ 2", 2),
    ("o: arrange ~a 0.25 ~b 0.75 >> mul 0.5\n~a: tri 1\n~b: seq 60 72", 1),
    ("o: [0 => 1, 1/4 => -1, 1/2 => 0.5]!", 1),
    ("o: [0 => 1, 1/2+250_ms => 2, 1 => 1]*2!", 2),
    ("o: saw 4 >> mul ~a\n~a: [1/4 => 1, 3/4 => 0.25]!", 1),
    ("o: saw 8 >> lpf \"40@0 80@0.5\"(1) 1", 1),
    ("o: squ 4 >> lpf \"40@0 80@0.25 20@0.75\"(0.5) 1", 1),
    ("o: psynth `0 33, 0.25 45, 0.5 40` 1", 1),
    ("o: psynth `0 33, 0.25 45` 0.5 >> mul 0.5", 1),
    ("o: imp 4", 1),
    ("o: imp 128", 1),
    ("o: imp 0.5", 1),
    ("o: sin 4", 1),
    ("o: saw 16", 1),
    ("o: squ 32", 1),
    ("o: tri 1", 1),
    ("o: sin ~a\n~a: sig 8", 1),
    ("o: saw ~a\n~a: squ 1 >> mul 4 >> add 8", 1),
    ("o: squ ~a >> mul 0.5\n~a: speed 2 >> seq 60 _ 60 _ >> mul 128 >> add 1.5", 1),
    ("o: tri ~a\n~a: sig 4", 1),
    ("o: imp 4 >> envperc 0.03125 0.0625", 1),
    ("o: squ 2 >> adsr 0.03125 0.0625 0.5 0.0625", 1),
    ("o: seq 60 _ 72 >> envperc 0.0625 0.125 >> mul ~b\n~b: saw 4", 1),
    ("o: saw 4 >> delayn 100", 1),
    ("o: imp 2 >> delayms 125", 1),
    ("o: saw 2 >> delayms ~m\n~m: tri 1 >> mul 8 >> add 16", 1),
    ("o: squ 4 >> lpf 60 1", 1),
    ("o: saw 4 >> hpf 60 1", 1),
    ("o: saw 4 >> onepole 0.1", 1),
    ("o: saw 2 >> apfmsgain 31.25 0.5", 1),
    ("o: saw 2 >> pan ~p\n~p: tri 1", 1),
    ("o: mix ~a ~b\n~a: saw 2\n~b: seq 60 67", 1),
    ("o: balance ~a ~b\n~a: saw 2\n~b: squ 4", 1),
    ("o: saw 2 >> eval `in * 2 + (phase % 512) / 512`", 1),
    ("o: sig 1 >> eval `phase % 1024 < 100`", 1),
    ("o: constsig 3 >> mul 0.5", 1),
    ("o: ~input >> add 0.5", 1),
    ("o: saw 2 >> mul ~b\n~b: ~c >> add 0.5\n~c: speed 4 >> seq 60 _ 72 _", 1),
];

pub fn c44(c: &'static Ctx) -> i32 {
    const N: usize = 256;
    const SR: usize = 512; // a bar is 1024 samples
    let far: usize = 1 << c.pick(24, 27);
    const S: &[f32] = &[1.0, -0.5, 0.25, 0.75, -1.0, 0.5, 0.125, -0.25];
    c.note("programs", REPEATS.len());
    c.par_n(REPEATS.len(), |i| {
        let (code, bars) = REPEATS[i];
        c.case(&code.replace('\n', "; "), || {
            let mut e = engine::<N>(SR);
            e.add_sample("\\s", S, 1, SR);
            e.add_sample("\\t", S, 2, SR / 2);
            upd(&mut e, code)?;
            let per = bars * 1024 / N;
            // what has to settle settles
            render(&mut e, per * 4);
            let want = render(&mut e, per);
            let mut f = Fp::new();
            want.0.iter().chain(&want.1).for_each(|v| _ = f.f(*v));
            let mut at = per * 5 * N;
            while at < far + 8 * per * N {
                if at >= far && at < far + per * N {
                    // still there after an update next to it
                    upd(&mut e, &format!("{code}\n~zz: sin 3 >> delayn 5"))?;
                }
                for (k, x) in (0..per).map(|k| (k, blk(&mut e))) {
                    let r = k * N..k * N + N;
                    let w = (want.0[r.clone()].to_vec(), want.1[r].to_vec());
                    near(&x, &w, 1e-5, &format!("after {at} samples, block {k}"))?;
                }
                at += per * N;
            }
            c.steps((at / N) as u64);
            c.state(f.get());
            Ok(f.get())
        });
    });
    // what is drawn by chance goes on being drawn
    for code in ["o: noise 42", "o: choose 1 2 3 4 5", "o: noise 4294967295"] {
        c.case(&format!("{code} goes on"), || {
            let mut e = engine::<N>(SR);
            upd(&mut e, code)?;
            let mut last: Vec<f32> = vec![];
            let mut same = 0;
            for k in 0..far / N + 100 {
                let b = blk(&mut e).0;
                if b.iter().any(|v| !v.is_finite() || v.abs() > 5.0) {
                    return Err(format!("block {k} has {b:?}"));
                }
                same = if b == last { same + 1 } else { 0 };
                if same > 40 {
                    return Err(format!("nothing new up to block {k}"));
                }
                last = b;
            }
            c.steps((far / N) as u64);
            Ok(fp_str(code))
        });
    }
    c.finish(
        "model_checking",
        "every program of the list, whose output repeats after one or two bars, run for more than 2^24 (2^27) samples; every period is compared with the fifth; states = distinct periods",
        &["bars are whole numbers of samples", "comparison within 1e-5"],
        true,
    )
}
