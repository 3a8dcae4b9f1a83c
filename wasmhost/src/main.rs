//! The exported functions of the browser crate against the engine.
#[path = "../../mc/src/util.rs"]
#[allow(dead_code)]
mod util;

use glicol::{Engine, EngineError};
use util::*;
use wasmhost_guest as web;

static W1: [f32; 6] = [1.0, -0.5, 0.25, 0.75, -1.0, 0.5];
static W2: [f32; 8] = [0.5, -0.5, 0.25, -0.25, 1.0, -1.0, 0.0, 0.125];

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Up(&'static str),
    Process(usize),
    Sample(&'static str, usize),
    Msg(&'static str),
    Bpm(f32),
    Amp(f32),
    Sr(f32),
    Seed(f32),
    Live(bool),
    Reset,
    /// asks for more than a block has; the call may panic, the next must work
    Oversize,
}

/// The answer an update has to give.
fn answer(r: Result<(), EngineError>) -> Vec<u8> {
    let mut v = vec![0u8; 256];
    let Err(e) = r else { return v };
    let (code, text) = match e {
        EngineError::ParsingError(e) => {
            let p = match e.location {
                pest::error::InputLocation::Pos(p) => p,
                pest::error::InputLocation::Span((p, _)) => p,
            };
            let lc = match e.line_col {
                pest::error::LineColLocation::Pos(p) => p,
                pest::error::LineColLocation::Span(p, _) => p,
            };
            let (pos, neg) = glicol::get_error_info(*e);
            (1, format!("pos[{p}], line[{}], col[{}], positives{pos:?}, negatives{neg:?}", lc.0, lc.1))
        }
        EngineError::NonExistSample(s) => (2, format!("There is no sample named {s}")),
        EngineError::NonExistReference(s) => (3, format!("There is no reference named {s}")),
    };
    v[0] = code;
    for (a, b) in v[2..].iter_mut().zip(text.bytes()) {
        *a = b;
    }
    v
}

fn update(twin: &mut Engine<128>, text: &str, f: &mut Fp) -> Result<(), String> {
    let want = answer(twin.update_with_code(text));
    let got = unsafe { web::update(text.as_bytes()) };
    f.bytes(&got);
    if got != want {
        let show = |v: &[u8]| format!("{} bytes, code {:?}, text {:?}", v.len(), v.first(), String::from_utf8_lossy(v.get(2..).unwrap_or(&[])).trim_end_matches('\0'));
        return Err(format!("the answer to {text:?} is {}, expected {}", show(&got), show(&want)));
    }
    Ok(())
}

fn step(twin: &mut Engine<128>, o: &Op, f: &mut Fp) -> Result<(), String> {
    match o {
        Op::Up(t) => update(twin, t, f)?,
        Op::Process(n) => {
            let got = web::process(*n);
            let b = twin.next_block(vec![]);
            let want: Vec<f32> = b[0][..n / 2].iter().chain(&b[1][..n / 2]).copied().collect();
            if got.len() != *n {
                return Err(format!("process({n}) returned {} samples", got.len()));
            }
            for i in 0..*n {
                f.f(got[i]);
                if got[i].to_bits() != want[i].to_bits() {
                    return Err(format!("process({n}): sample {i} is {}, the engine gives {}", got[i], want[i]));
                }
            }
        }
        Op::Sample(name, ch) => {
            let s: &'static [f32] = if *ch == 1 { &W1 } else { &W2 };
            web::add_sample(name.to_string(), s.to_vec().into_boxed_slice(), *ch, 44100);
            twin.add_sample(name, s, *ch, 44100);
        }
        Op::Msg(m) => {
            web::send_msg(m.to_string());
            twin.send_msg(m);
        }
        Op::Bpm(v) => {
            web::set_bpm(*v);
            twin.set_bpm(*v);
        }
        Op::Amp(v) => {
            web::set_track_amp(*v);
            twin.set_track_amp(*v);
        }
        Op::Sr(v) => {
            web::set_sr(*v);
            twin.set_sr(*v as usize);
        }
        Op::Seed(v) => {
            web::set_seed(*v);
            twin.set_seed(*v as usize);
        }
        Op::Live(v) => {
            web::live_coding_mode(*v);
            twin.livecoding = *v;
        }
        Op::Reset => {
            web::reset();
            twin.reset();
        }
        Op::Oversize => {
            let _ = guard(|| web::process(4096));
            twin.next_block(vec![]);
        }
    }
    Ok(())
}
/// The shared engine in its first state, and a new twin.
fn fresh(sr: f32) -> Engine<128> {
    web::reset();
    web::set_sr(sr);
    let mut t = Engine::<128>::new();
    t.set_sr(sr as usize);
    t
}

fn c33(c: &'static Ctx) -> i32 {
    let ops = vec![
        Op::Up("o: sin 440 >> mul 0.5"),
        Op::Up("o: saw ~a >> pan -0.5\n~a: seq 60 _ 67 >> mul 100"),
        Op::Up("o: imp 100 >> sp \\s"),
        Op::Up("o: choose 1 2 3 4 >> mul 0.25\n~a: noise 3"),
        Op::Up("o: speed 16.0 >> seq 60 61 >> sawsynth 0.001 0.01"),
        Op::Up("o: sin 440 >> mul ~missing"),
        Op::Up("o: sp \\nosuch"),
        Op::Up("o: sin 440 >>\n>> é"),
        Op::Up("é"),
        Op::Up(""),
        Op::Process(256),
        Op::Process(64),
        Op::Process(2),
        Op::Sample("\\s", 1),
        Op::Sample("\\s", 2),
        Op::Msg("o,0,0,220"),
        Op::Msg("o,1,0,0.25;~a,0,0,5"),
        Op::Bpm(600.0),
        Op::Seed(7.0),
        Op::Sr(48000.0),
        Op::Amp(0.5),
        Op::Live(false),
        Op::Reset,
        Op::Oversize,
    ];
    c.note("operations", ops.len());
    let len = c.pick(3, 4);
    for l in 1..=len {
        let total = ops.len().pow(l as u32);
        for x in 0..total {
            let mut r = x;
            let w: Vec<&Op> = (0..l)
                .map(|_| {
                    let o = &ops[r % ops.len()];
                    r /= ops.len();
                    o
                })
                .collect();
            c.case(&format!("{w:?}"), || {
                let mut twin = fresh(44100.0);
                let mut f = Fp::new();
                for o in &w {
                    step(&mut twin, o, &mut f)?;
                }
                c.state(f.get());
                // and look at what is left
                for o in [Op::Process(256), Op::Up("o: imp 200 >> sp \\s"), Op::Process(256), Op::Up("o: choose 1 2 3 >> mul ~b\n~b: saw 300"), Op::Process(256)] {
                    step(&mut twin, &o, &mut f)?;
                }
                c.steps(l as u64 + 5);
                Ok(f.get())
            });
            if c.stop() {
                break;
            }
        }
    }
    // answers of every length around the size of the buffer
    for n in 1..c.pick(320usize, 600) {
        let name = format!("~{}", "abcdefghij".chars().cycle().take(n).collect::<String>());
        let mut texts = vec![
            format!("o: mul {name}"),
            format!("o: sp \\{}", &name[1..]),
            format!("o: sp '{}'", &name[1..]),
            format!("o: psampler \"\\{}@0\"(1)", &name[1..]),
            format!("o: mix {name}.."),
            format!("{}o: ?", "\n".repeat(n)),
            format!("{}o: sin 1 é", " ".repeat(n)),
            format!("o: sin 1{} ?", " >> mul 2".repeat(n)),
            format!("o: [0=>1 {}", "1=>0 ".repeat(n)),
            format!("o: noise {}", "9".repeat(n + 19)),
            format!("o: seq {}-1", "60 ".repeat(n)),
        ];
        texts.push(format!("{name}: sig 1\no: {name} >> mul 2"));
        for t in texts {
            c.case(&format!("answer to {t}"), || {
                let mut twin = fresh(44100.0);
                let mut f = Fp::new();
                update(&mut twin, &t, &mut f)?;
                step(&mut twin, &Op::Process(256), &mut f)?;
                c.state(f.get());
                c.steps(2);
                Ok(f.get())
            });
        }
    }
    // sizes of a block
    for n in 0..=128 {
        c.case(&format!("process({})", 2 * n), || {
            let mut twin = fresh(44100.0);
            let mut f = Fp::new();
            for o in [Op::Up("o: saw 1000 >> pan 0.5"), Op::Process(2 * n), Op::Process(256), Op::Process(2 * n)] {
                step(&mut twin, &o, &mut f)?;
            }
            c.steps(4);
            Ok(f.get())
        });
    }
    // every value a page may set, each followed by nodes that depend on it
    let mut values: Vec<(String, Op)> = vec![];
    for v in [1.0f32, 100.0, 8000.0, 11025.0, 16000.0, 22050.0, 32000.0, 44100.0, 48000.0, 65535.0, 65536.0, 66150.0, 88200.0, 96000.0, 131072.0, 176400.0, 192000.0, 384000.0] {
        values.push((format!("sr {v}"), Op::Sr(v)));
    }
    for v in [0.5f32, 1.0, 30.0, 59.9, 60.0, 119.5, 120.0, 127.0, 128.0, 240.5, 255.0, 256.0, 300.0, 999.9, 4096.0, 65536.0, 1000000.0] {
        values.push((format!("bpm {v}"), Op::Bpm(v)));
    }
    for v in (0..64).map(|k| k as f32).chain((6..24).flat_map(|k| [(1 << k) as f32, (1 << k) as f32 + 1.0, (1 << k) as f32 - 1.0])).chain([0.5, 41.9, 1e9]) {
        if !values.iter().any(|(n, _)| *n == format!("seed {v}")) {
            values.push((format!("seed {v}"), Op::Seed(v)));
        }
    }
    for (name, o) in &values {
        for before in [true, false] {
            c.case(&format!("{name}, {} the text", if before { "before" } else { "after" }), || {
                let mut twin = fresh(44100.0);
                let mut f = Fp::new();
                let text = Op::Up("a: saw 3000 >> delayms 1 >> lpf 2000 1\nb: imp 2000 >> mul ~c >> envperc 0.0005 0.001\n~c: choose 1 2 3 4 5 6 7 8\nd: speed 64 >> seq 60 61 _ 62\ne: noise 42 >> mul 0.001");
                let more = Op::Up("a: saw 3000 >> delayms 1 >> lpf 2000 1 >> mul ~c\n~c: choose 1 2 3 4 5 6 7 8\nd: speed 64 >> seq 60 61 _ 62 >> mul ~g\n~g: choose 1 2 3 4 5 6");
                let order: [&Op; 3] = if before { [o, &text, &Op::Process(256)] } else { [&text, &Op::Process(256), o] };
                for o in order.into_iter().chain([&Op::Process(256), &Op::Process(256), &more, &Op::Process(256), &Op::Process(256)]) {
                    step(&mut twin, o, &mut f)?;
                }
                c.state(f.get());
                c.steps(8);
                Ok(f.get())
            });
        }
    }
    // samples of every length, with their channels and their rate
    for n in (1..200usize).chain([255, 256, 257, 1000, 4096, 65535, 65536, 65537, 200000]) {
        for (ch, sr) in [(1usize, 44100usize), (1, 22050), (2, 48000), (2, 96000), (1, 192000)] {
            c.case(&format!("a sample of {n} in {ch} channels at {sr}"), || {
                let mut twin = fresh(44100.0);
                let mut f = Fp::new();
                let s: Vec<f32> = (0..n * ch).map(|k| ((k * 7919) % 1009) as f32 / 1009.0 + 0.001).collect();
                web::add_sample("\\x".into(), s.clone().into_boxed_slice(), ch, sr);
                twin.add_sample("\\x", Box::leak(s.into_boxed_slice()), ch, sr);
                for o in [Op::Up("o: imp 300 >> sp \\x"), Op::Process(256), Op::Process(256), Op::Process(256)] {
                    step(&mut twin, &o, &mut f)?;
                }
                c.steps(5);
                Ok(f.get())
            });
        }
    }
    // messages and texts of every length
    for n in 1..c.pick(200usize, 600) {
        c.case(&format!("{n} messages at once"), || {
            let mut twin = fresh(44100.0);
            let mut f = Fp::new();
            let m: String = (0..n).map(|k| format!("o,{},0,{};", k % 2, (k + 1) as f32 / 8.0)).collect();
            step(&mut twin, &Op::Up("o: sig 1 >> mul 2"), &mut f)?;
            web::send_msg(m.clone());
            twin.send_msg(&m);
            step(&mut twin, &Op::Process(256), &mut f)?;
            let t: String = (0..n).map(|k| format!("o{k}: sig {}\n", k + 1)).collect();
            update(&mut twin, &t, &mut f)?;
            step(&mut twin, &Op::Process(256), &mut f)?;
            c.steps(5);
            Ok(f.get())
        });
    }
    c.finish(
        "model_checking",
        "every value of a grid of sample rates, tempi and seeds before and after a text that depends on it; samples of every length up to 199 and up to 200000 in five formats; up to 199 (thorough 599) messages and chains at once; every history of up to 3 (thorough 4) calls over 24 operations of the exported functions, each followed by updates and blocks, in lockstep with an engine; answers to refused updates with names and positions of every length up to 319 (thorough 599); every even block size up to 256; states are the distinct observations of a history",
        &["the browser crate is compiled for the host with the binding attribute removed", "blocks are asked for with an even size of at most 256"],
        true,
    )
}

/// Writes the answer to each text read, as the page would get it.
fn pack() {
    let mut all = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut all).expect("texts");
    for t in all.split('\u{1e}') {
        let v = std::panic::catch_unwind(|| {
            web::reset();
            unsafe { web::update(t.as_bytes()) }
        })
        .unwrap_or_else(|_| vec![0; 256]);
        println!("{}", v.iter().map(|b| format!("{b:02x}")).collect::<String>());
    }
}

/// What one history brings back.
fn history(h: &str) -> Vec<u8> {
    web::reset();
    web::set_sr(44100.0);
    web::set_seed(42.0);
    web::set_track_amp(1.0);
    web::live_coding_mode(false);
    let mut got: Vec<u8> = vec![];
    for l in h.split('\u{1f}') {
        let (op, arg) = l.split_at(1);
        let num = || arg.parse::<f32>().unwrap();
        match op {
            "U" => got.extend(unsafe { web::update(arg.as_bytes()) }),
            "B" => {
                for _ in 0..num() as usize {
                    got.extend(web::process(256).iter().flat_map(|x| x.to_le_bytes()));
                }
            }
            "S" => {
                let v: Vec<&str> = arg.split(' ').collect();
                let s: Vec<f32> = v[3..].iter().map(|x| x.parse().unwrap()).collect();
                web::add_sample(v[0].to_string(), s.into(), v[1].parse().unwrap(), v[2].parse().unwrap());
            }
            "M" => web::send_msg(arg.to_string()),
            "T" => web::set_bpm(num()),
            "A" => web::set_track_amp(num()),
            "R" => web::set_sr(num()),
            "E" => web::set_seed(num()),
            "L" => web::live_coding_mode(arg == "1"),
            "X" => web::reset(),
            _ => panic!("what is {l}"),
        }
    }
    got
}

/// Plays the histories read, one call a line, and writes what comes back:
/// after each history the number of bytes and the bytes.
fn play() {
    use std::io::Write;
    let mut all = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut all).expect("histories");
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for h in all.split('\u{1e}') {
        let got = std::panic::catch_unwind(|| history(h)).unwrap_or_else(|_| b"panic".to_vec());
        out.write_all(&(got.len() as u32).to_le_bytes()).unwrap();
        out.write_all(&got).unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("play") {
        return play();
    }
    if a.get(1).map(|s| s.as_str()) == Some("pack") {
        return pack();
    }
    let (mut id, mut tier, mut replay, mut root) = (String::new(), Tier::Quick, None, "/verif".to_string());
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--tier" => {
                i += 1;
                tier = if a[i] == "thorough" { Tier::Thorough } else { Tier::Quick };
            }
            "--replay" => {
                i += 1;
                let t = std::fs::read_to_string(&a[i]).expect("replay file");
                replay = t.lines().find_map(|l| l.strip_prefix("case: ")).map(|s| s.to_string());
                assert!(replay.is_some(), "no case in replay file");
            }
            "--root" => {
                i += 1;
                root = a[i].clone();
            }
            x => id = x.to_string(),
        }
        i += 1;
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    install_panic_hook();
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(&id, tier, seed, replay, &root)));
    ctx.watchdog(if tier == Tier::Quick { 20 } else { 60 });
    std::process::exit(match id.as_str() {
        "C33" => c33(ctx),
        _ => 2,
    })
}
