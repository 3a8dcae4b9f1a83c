//! The parser: syntax trees, layout, the accepted language, error reports.

use crate::util::*;
use glicol_parser::nodes::*;
use glicol_parser::{get_ast, Rule};
use pest::error::{Error, ErrorVariant, InputLocation, LineColLocation};

// ------------------------------------------------ a tree in neutral notation

fn n(v: f32) -> String {
    format!("{v:?}")
}
fn nr(p: &NumberOrRef<&str>) -> String {
    match p {
        NumberOrRef::Number(v) => n(*v),
        NumberOrRef::Ref(r) => format!("@{r}"),
    }
}
fn ur(p: &UsizeOrRef<&str>) -> String {
    match p {
        UsizeOrRef::Usize(v) => format!("#{v}"),
        UsizeOrRef::Ref(r) => format!("@{r}"),
    }
}
fn ev(e: &EventInner) -> String {
    e.val_times
        .iter()
        .map(|(v, t)| match v {
            EventValue::Symbol(s) => format!("{s}@{}", n(*t)),
            EventValue::Number(v) => format!("{}@{}", n(*v), n(*t)),
        })
        .collect::<Vec<_>>()
        .join(" ")
}
fn comp(c: &Component) -> String {
    use Component as K;
    match c {
        K::Points(p) => format!(
            "points([{}], {}, {})",
            p.points
                .iter()
                .map(|(t, v)| format!(
                    "{}{}={}",
                    n(t.bar),
                    match &t.time {
                        None => String::new(),
                        Some(Duration::Bar(b)) => format!("+{}b", n(*b)),
                        Some(Duration::Seconds(b)) => format!("+{}s", n(*b)),
                        Some(Duration::Milliseconds(b)) => format!("+{}ms", n(*b)),
                    },
                    n(*v)
                ))
                .collect::<Vec<_>>()
                .join(" "),
            n(p.span),
            p.is_looping
        ),
        K::Delayn(x) => format!("delayn({})", ur(&x.param)),
        K::Delayms(x) => format!("delayms({})", nr(&x.param)),
        K::Imp(x) => format!("imp({})", nr(&x.param)),
        K::Tri(x) => format!("tri({})", nr(&x.param)),
        K::Squ(x) => format!("squ({})", nr(&x.param)),
        K::Saw(x) => format!("saw({})", nr(&x.param)),
        K::Onepole(x) => format!("onepole({})", nr(&x.param)),
        K::Sin(x) => format!("sin({})", nr(&x.param)),
        K::Mul(x) => format!("mul({})", nr(&x.param)),
        K::Add(x) => format!("add({})", nr(&x.param)),
        K::Pan(x) => format!("pan({})", nr(&x.param)),
        K::Seq(x) => format!(
            "seq({})",
            x.events.iter().map(|(t, e)| format!("{}:{}", n(*t), ur(e))).collect::<Vec<_>>().join(" ")
        ),
        K::Choose(x) => format!("choose({})", x.choices.iter().map(|v| n(*v)).collect::<Vec<_>>().join(",")),
        K::Arrange(x) => format!("arrange({})", x.events.iter().map(nr).collect::<Vec<_>>().join(",")),
        K::Mix(x) => format!("mix({})", x.nodes.join(",")),
        K::Sp(x) => format!("sp({})", x.sample_sym),
        K::Speed(x) => format!("speed({})", n(x.speed)),
        K::ConstSig(x) => format!("sig({})", n(x.value)),
        K::Adc(x) => format!("adc({})", x.port),
        K::Bd(x) => format!("bd({})", nr(&x.param)),
        K::Sn(x) => format!("sn({})", nr(&x.param)),
        K::Hh(x) => format!("hh({})", nr(&x.param)),
        K::SawSynth(x) => format!("sawsynth({},{})", n(x.attack), n(x.decay)),
        K::SquSynth(x) => format!("squsynth({},{})", n(x.attack), n(x.decay)),
        K::TriSynth(x) => format!("trisynth({},{})", n(x.attack), n(x.decay)),
        K::MsgSynth(x) => format!("msgsynth({},{},{})", x.symbol, n(x.attack), n(x.decay)),
        K::PatternSynth(x) => format!("psynth({},{})", x.symbol.trim_matches('`'), n(x.span)),
        K::Lpf(x) => format!(
            "lpf({},{})",
            match &x.signal {
                Signal::Number(v) => n(*v),
                Signal::Reference(r) => format!("@{r}"),
                Signal::Event(e) => format!("event {}", ev(e)),
                Signal::Pattern(p) => format!("pattern {} / {}", ev(&p.event), n(p.span)),
            },
            n(x.qvalue)
        ),
        K::PSampler(x) => match x {
            PSampler::Event(e) => format!("psampler(event {})", ev(e)),
            PSampler::Pattern(p) => format!("psampler(pattern {} / {})", ev(&p.event), n(p.span)),
        },
        K::Balance(x) => format!("balance({},{})", x.left, x.right),
        K::Rhpf(x) => format!("hpf({},{})", nr(&x.cutoff), n(x.qvalue)),
        K::ApfmsGain(x) => format!("apf({},{})", nr(&x.delay), n(x.gain)),
        K::Reverb(x) => format!(
            "reverb({},{},{},{},{})",
            n(x.dampening),
            n(x.room_size),
            n(x.width),
            n(x.wet),
            n(x.dry)
        ),
        K::Plate(x) => format!("plate({})", n(x.mix)),
        K::EnvPerc(x) => format!("envperc({},{})", n(x.attack), n(x.decay)),
        K::Adsr(x) => format!("adsr({},{},{},{})", n(x.attack), n(x.decay), n(x.sustain), n(x.release)),
        K::Get(x) => format!("get({})", x.reference),
        K::Noise(x) => format!("noise({})", x.seed),
        K::Meta(x) => format!("meta({})", x.code.code),
        K::Expr(x) => format!("expr({})", x.code.code),
        K::Eval(x) => format!("eval({})", x.code.code),
    }
}
fn tree(a: &Ast) -> String {
    let mut l: Vec<String> = a
        .nodes
        .iter()
        .map(|(k, v)| format!("{k}: {}", v.iter().map(comp).collect::<Vec<_>>().join(" >> ")))
        .collect();
    l.sort();
    l.join("\n")
}
fn parsed(t: &str) -> Result<String, String> {
    match get_ast(t) {
        Ok(a) => Ok(tree(&a)),
        Err(e) => Err(format!("{:?} at {:?}", e.variant, e.location)),
    }
}

// ---------------------------------------------------------------- C07

/// A node as written and the tree it means.
#[derive(Clone)]
struct S {
    t: String,
    w: String,
}
fn s(t: impl Into<String>, w: impl Into<String>) -> S {
    S { t: t.into(), w: w.into() }
}

/// Number spellings and their values; the second list adds corner cases.
fn nums(all: bool) -> Vec<(&'static str, f32)> {
    let mut v: Vec<(&'static str, f32)> = vec![
        ("0", 0.0),
        ("1", 1.0),
        ("440", 440.0),
        ("-2", -2.0),
        ("+3", 3.0),
        ("0.5", 0.5),
        ("-0.25", -0.25),
        ("3.", 3.0),
        ("1.5e2", 150.0),
        ("2.5E-1", 0.25),
        ("0.1", 0.1),
    ];
    if all {
        v.extend([
            ("007", 7.0),
            ("-0", -0.0),
            ("+0.125", 0.125),
            ("10.75", 10.75),
            ("2.0e+3", 2000.0),
            ("-1.0e1", -10.0),
            ("123456", 123456.0),
            ("99.99", 99.99),
            ("0.003", 0.003),
            ("16777216", 16777216.0),
            ("44100", 44100.0),
            ("1.0e-4", 0.0001),
            ("00.50", 0.5),
        ]);
    }
    v
}
const REFS: [&str; 12] =
    ["~a", "~ab", "~a1", "~a_b", "~a_1b", "~sin", "bass", "_a", "~z..", "foo_2", "~_dummy", "~input"];
fn refs() -> Vec<&'static str> {
    // `~_dummy` is not a name: a name starts with a letter after the mark
    REFS.iter().filter(|r| **r != "~_dummy").copied().collect()
}

fn seq_nodes(max_groups: usize, max_notes: usize) -> Vec<S> {
    let al = ["60", "_", "~a", "~b", "+7", "0"];
    // inside a group two numbers need something between them unless the second
    // carries a sign
    let groups: Vec<Vec<&str>> = words_upto(&al, 1, max_notes)
        .into_iter()
        .filter(|g| {
            g.windows(2).all(|w| !(w[0].ends_with(|c: char| c.is_ascii_digit()) && w[1].starts_with(|c: char| c.is_ascii_digit())))
        })
        .collect();
    let mut out = vec![];
    for k in 1..=max_groups {
        // longer lists take their groups from a shorter pool
        let pool: Vec<Vec<&str>> = match k {
            1 | 2 => groups.clone(),
            3 => groups.iter().filter(|g| g.len() <= 2).cloned().collect(),
            _ => groups.iter().filter(|g| g.len() <= 1).cloned().collect(),
        };
        for w in words(&pool, k) {
            let t = w.iter().map(|g| g.concat()).collect::<Vec<_>>().join(" ");
            let mut e = vec![];
            for (i, g) in w.iter().enumerate() {
                for (j, note) in g.iter().enumerate() {
                    let time = (j as f32 / g.len() as f32 + i as f32) / k as f32;
                    match *note {
                        "_" => (),
                        r if r.starts_with('~') => e.push(format!("{}:@{r}", n(time))),
                        v => e.push(format!("{}:#{}", n(time), v.trim_start_matches('+').parse::<usize>().unwrap())),
                    }
                }
            }
            out.push(s(format!("seq {t}"), format!("seq({})", e.join(" "))));
        }
    }
    out
}

fn event_lists(max: usize) -> Vec<(String, String)> {
    let vals = [("\\a", "\\a"), ("'b-1'", "'b-1'"), ("\\kick_2", "\\kick_2"), ("60", "60.0"), ("-0.5", "-0.5")];
    let times = [("0", "0.0"), ("1/", ""), ("0.25", "0.25"), ("1.5", "1.5")];
    let items: Vec<(String, String)> = vals
        .iter()
        .flat_map(|v| times.iter().filter(|t| !t.1.is_empty()).map(move |t| (format!("{}@{}", v.0, t.0), format!("{}@{}", v.1, t.1))))
        .collect();
    words_upto(&items, 1, max)
        .into_iter()
        .map(|w| {
            (
                w.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" "),
                w.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(" "),
            )
        })
        .collect()
}

fn points_nodes(max: usize) -> Vec<S> {
    let times = [
        ("0", "0.0"),
        ("1/4", "0.25"),
        ("3/8", "0.375"),
        ("0.5", "0.5"),
        ("1/2+100_ms", "0.5+100.0ms"),
        ("1/2 - 0.5_s", "0.5+-0.5s"),
        ("1", "1.0"),
        ("0.25 + 2_s", "0.25+2.0s"),
        ("1/4-10.5_ms", "0.25+-10.5ms"),
    ];
    let vals = [("0", "0.0"), ("1.5", "1.5"), ("-2", "-2.0")];
    let pts: Vec<(String, String)> = times
        .iter()
        .flat_map(|t| vals.iter().map(move |v| (format!("{}=>{}", t.0, v.0), format!("{}={}", t.1, v.1))))
        .collect();
    // span: (text, value); a span is 1 divided or multiplied by a number
    let spans = [
        ("", "-1.0", "false"),
        ("!", "1.0", "true"),
        (" /2", "0.5", "false"),
        ("*4", "4.0", "false"),
        ("*4!", "4.0", "true"),
        ("* 0.5 !", "0.5", "true"),
        ("*(1/4)", "0.25", "false"),
        ("/(1/4) !", "4.0", "true"),
    ];
    let mut out = vec![];
    for w in words_upto(&pts, 0, max) {
        for (k, sp) in spans.iter().enumerate() {
            // all spans for short lists, one each in turn for long ones
            if w.len() > 1 && (k + w[0].0.len() + w[1].0.len()) % spans.len() != 0 {
                continue;
            }
            out.push(s(
                format!("[{}]{}", w.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" "), sp.0),
                format!("points([{}], {}, {})", w.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(" "), sp.1, sp.2),
            ));
        }
    }
    out
}

/// Every node kind, alias and parameter form.
fn node_forms(deep: bool) -> Vec<S> {
    let mut out = vec![];
    let one = nums(true);
    let few = nums(false);
    for name in ["sin", "saw", "squ", "tri", "mul", "add", "pan", "onepole", "delayms"] {
        for (t, v) in &one {
            out.push(s(format!("{name} {t}"), format!("{name}({})", n(*v))));
        }
        for r in refs() {
            out.push(s(format!("{name} {r}"), format!("{name}(@{r})")));
        }
    }
    for (name, w) in [("imp", "imp"), ("bd", "bd"), ("sn", "sn"), ("hh", "hh"), ("speed", "speed"), ("sig", "sig"), ("constsig", "sig"), ("plate", "plate")] {
        for (t, v) in &one {
            out.push(s(format!("{name} {t}"), format!("{w}({})", n(*v))));
        }
    }
    for (t, v) in [("0", 0u64), ("1", 1), ("42", 42), ("+5", 5), ("100000", 100000), ("007", 7)] {
        out.push(s(format!("noise {t}"), format!("noise({v})")));
        out.push(s(format!("noiz {t}"), format!("noise({v})")));
        out.push(s(format!("delayn {t}"), format!("delayn(#{v})")));
        out.push(s(format!("adc {t}"), format!("adc({v})")));
    }
    for r in refs() {
        out.push(s(format!("delayn {r}"), format!("delayn(@{r})")));
        out.push(s(format!("get {r}"), format!("get({r})")));
        out.push(s(r.to_string(), format!("get({r})")));
    }
    for (a, x) in &one {
        for (b, y) in &one {
            for name in ["envperc", "sawsynth", "squsynth", "trisynth"] {
                out.push(s(format!("{name} {a} {b}"), format!("{name}({},{})", n(*x), n(*y))));
            }
            for (name, w) in [("lpf", "lpf"), ("hpf", "hpf"), ("rhpf", "hpf"), ("apfgain", "apf"), ("apfmsgain", "apf")] {
                out.push(s(format!("{name} {a} {b}"), format!("{w}({},{})", n(*x), n(*y))));
            }
            for sym in ["\\a", "'s_1'", "\\x-9"] {
                for name in ["msgsynth", "msg_synth"] {
                    out.push(s(format!("{name} {sym} {a} {b}"), format!("msgsynth({sym},{},{})", n(*x), n(*y))));
                }
            }
        }
        for r in refs() {
            for (name, w) in [("lpf", "lpf"), ("hpf", "hpf"), ("rhpf", "hpf"), ("apfgain", "apf"), ("apfmsgain", "apf")] {
                out.push(s(format!("{name} {r} {a}"), format!("{w}(@{r},{})", n(*x))));
            }
        }
    }
    // four and five numbers: every spelling at every place, all words over a few
    for w in words(&few[..if deep { 11 } else { 7 }], 4) {
        out.push(s(
            format!("adsr {}", w.iter().map(|x| x.0).collect::<Vec<_>>().join(" ")),
            format!("adsr({})", w.iter().map(|x| n(x.1)).collect::<Vec<_>>().join(",")),
        ));
    }
    for w in words(&few[..if deep { 8 } else { 6 }], 5) {
        out.push(s(
            format!("reverb {}", w.iter().map(|x| x.0).collect::<Vec<_>>().join(" ")),
            format!("reverb({})", w.iter().map(|x| n(x.1)).collect::<Vec<_>>().join(",")),
        ));
    }
    out.extend(seq_nodes(if deep { 4 } else { 3 }, 3));
    let ints = [("0", 0.0f32), ("60", 60.0), ("-12", -12.0), ("+7", 7.0), ("007", 7.0)];
    for w in words_upto(&ints, 1, if deep { 6 } else { 5 }) {
        out.push(s(
            format!("choose {}", w.iter().map(|x| x.0).collect::<Vec<_>>().join(" ")),
            format!("choose({})", w.iter().map(|x| n(x.1)).collect::<Vec<_>>().join(",")),
        ));
    }
    let rs = refs();
    for w in words_upto(&rs, 1, if deep { 4 } else { 3 }) {
        out.push(s(format!("mix {}", w.join(" ")), format!("mix({})", w.join(","))));
    }
    for w in words(&rs, 2) {
        out.push(s(format!("balance {} {}", w[0], w[1]), format!("balance({},{})", w[0], w[1])));
    }
    let secs: Vec<(&str, (&str, f32))> = ["~a", "bass", "~z.."].iter().flat_map(|r| few.iter().take(7).map(move |v| (*r, *v))).collect();
    for w in words_upto(&secs, 1, if deep { 3 } else { 2 }) {
        out.push(s(
            format!("arrange {}", w.iter().map(|x| format!("{} {}", x.0, x.1 .0)).collect::<Vec<_>>().join(" ")),
            format!("arrange({})", w.iter().map(|x| format!("@{},{}", x.0, n(x.1 .1))).collect::<Vec<_>>().join(",")),
        ));
    }
    for sym in ["\\a", "\\kick_2", "\\8-08", "'a'", "'x_y-9'", "\\BD", "'Cb4'"] {
        out.push(s(format!("sp {sym}"), format!("sp({sym})")));
        out.push(s(format!("sampler {sym}"), format!("sp({sym})")));
    }
    for (t, w) in event_lists(if deep { 4 } else { 3 }) {
        out.push(s(format!("psampler \"{t}\""), format!("psampler(event {w})")));
        out.push(s(format!("lpf \"{t}\" 0.5"), format!("lpf(event {w},0.5)")));
        for (a, b) in [("", "1.0"), ("2", "2.0"), ("0.5", "0.5")] {
            out.push(s(format!("psampler \"{t}\"({a})"), format!("psampler(pattern {w} / {b})")));
            out.push(s(format!("lpf \"{t}\"({a}) 2"), format!("lpf(pattern {w} / {b},2.0)")));
        }
    }
    out.extend(points_nodes(if deep { 3 } else { 2 }));
    // long lists of everything
    for k in 6..=40usize {
        let join = |f: &dyn Fn(usize) -> String, sep: &str| (0..k).map(f).collect::<Vec<_>>().join(sep);
        out.push(s(format!("choose {}", join(&|i| format!("{}", i * 7), " ")), format!("choose({})", join(&|i| n(i as f32 * 7.0), ","))));
        out.push(s(format!("mix {}", join(&|i| format!("~r{i}"), " ")), format!("mix({})", join(&|i| format!("~r{i}"), ","))));
        out.push(s(format!("arrange {}", join(&|i| format!("~r{i} {}", i + 1), " ")), format!("arrange({})", join(&|i| format!("@~r{i},{}", n(i as f32 + 1.0)), ","))));
        out.push(s(format!("seq {}", join(&|i| format!("{}", i + 40), " ")), format!("seq({})", join(&|i| format!("{}:#{}", n(i as f32 / k as f32), i + 40), " "))));
        out.push(s(format!("seq {}60", "_".repeat(k)), format!("seq({}:#60)", n(k as f32 / (k + 1) as f32))));
        out.push(s(format!("psampler \"{}\"(2)", join(&|i| format!("\\s{i}@{}", n(i as f32 * 0.125)), " ")), format!("psampler(pattern {} / 2.0)", join(&|i| format!("\\s{i}@{}", n(i as f32 * 0.125)), " "))));
        out.push(s(format!("lpf \"{}\"(2) 1", join(&|i| format!("{}@{}", i * 100, n(i as f32 * 0.125)), " ")), format!("lpf(pattern {} / 2.0,1.0)", join(&|i| format!("{}@{}", n(i as f32 * 100.0), n(i as f32 * 0.125)), " "))));
        out.push(s(format!("[{}]", join(&|i| format!("{}=>{}", n(i as f32 * 0.125), i), " ")), format!("points([{}], -1.0, false)", join(&|i| format!("{}={}", n(i as f32 * 0.125), n(i as f32)), " "))));
        let code = join(&|i| format!("v{i}:=in*{i};"), " ");
        out.push(s(format!("eval `{code} v1`"), format!("eval({code} v1)")));
        out.push(s(format!("meta `{code}\n{code}`"), format!("meta({code}\n{code})")));
        out.push(s(format!("sp \\{}", "b".repeat(k)), format!("sp(\\{})", "b".repeat(k))));
    }
    for code in ["", "x", "output := input;\noutput", "a\\nb", "q\\\"q", "# 1 + (2) ~ok\n[3]", "\\u00e9", "é", " two words ", ";", "// not a comment"] {
        for (name, w) in [("meta", "meta"), ("script", "meta"), ("expr", "expr")] {
            out.push(s(format!("{name} `{code}`"), format!("{w}({code})")));
        }
        for name in ["psynth", "p_synth", "pattern_synth"] {
            out.push(s(format!("{name} `{code}`"), format!("psynth({code},1.0)")));
            for (t, v) in few.iter() {
                out.push(s(format!("{name} `{code}` {t}"), format!("psynth({code},{})", n(*v))));
            }
        }
    }
    for code in ["x", "", "sin(x)", "a:=1;a", "a := in * 2 ; b:= a; a+b", "in >= 0.5", "(1 + 2) / 3", "x % 2 == 0", "a1_b:= 3.5;\n\na1_b", "1", "-x"] {
        out.push(s(format!("eval `{code}`"), format!("eval({code})")));
    }
    out
}

pub fn c07(c: &'static Ctx) -> i32 {
    let forms = node_forms(c.thorough());
    c.note("node_forms", forms.len());
    let heads = ["o", "out", "~a", "_b", "a_b2", "~a1", "~x_"];
    // every form on its own, under every chain name, and next to a second line
    c.par_n(forms.len() * heads.len(), |i| {
        let (f, h) = (&forms[i / heads.len()], heads[i % heads.len()]);
        let text = format!("{h}: {}", f.t);
        c.state(fp_str(&f.w));
        c.steps(1);
        c.case(&text, || {
            let got = parsed(&text).map_err(|e| format!("refused: {e}"))?;
            let want = format!("{h}: {}", f.w);
            if got != want {
                return Err(format!("tree is `{got}`, the text says `{want}`"));
            }
            Ok(fp_str(&got))
        });
    });
    // chains over a pool with every node kind and alias: the first form of each,
    // and the one with the most parameters
    let mut pool: Vec<&S> = vec![];
    {
        let mut by: std::collections::BTreeMap<(String, usize), &S> = Default::default();
        for f in &forms {
            let name = f.t.split(' ').next().unwrap().to_string();
            let name = if name.starts_with('[') { "[".to_string() } else { name };
            let ref_first = f.t.split(' ').nth(1).is_some_and(|p| p.starts_with('~'));
            let k = (name.clone(), ref_first as usize);
            by.entry(k).or_insert(f);
            let e = by.entry((name, 2)).or_insert(f);
            if f.t.len() > e.t.len() && f.t.len() < 40 {
                *by.get_mut(&(f.t.split(' ').next().map(|s| if s.starts_with('[') { "[" } else { s }).unwrap().to_string(), 2)).unwrap() = f;
            }
        }
        for f in by.values() {
            if !pool.iter().any(|p| p.t == f.t) {
                pool.push(f);
            }
        }
    }
    c.note("chain_pool", pool.len());
    let small: Vec<&S> = pool.iter().step_by(c.pick(3, 1)).copied().collect();
    let m = small.len();
    let chain = |v: &[&S]| {
        let text = format!("o: {}", v.iter().map(|x| x.t.as_str()).collect::<Vec<_>>().join(" >> "));
        let want = format!("o: {}", v.iter().map(|x| x.w.as_str()).collect::<Vec<_>>().join(" >> "));
        c.steps(v.len() as u64);
        c.case(&text, || {
            let got = parsed(&text).map_err(|e| format!("refused: {e}"))?;
            if got != want {
                return Err(format!("tree is `{got}`, the text says `{want}`"));
            }
            Ok(fp_str(&got))
        });
    };
    // long chains, long lists of lines, long names, long lists and numbers
    for k in 1..=c.pick(60usize, 200) {
        for from in [0, 7, 31] {
            chain(&(0..k).map(|i| pool[(from + i * (from % 3 + 1)) % pool.len()]).collect::<Vec<_>>());
        }
        let lines: Vec<(String, &S)> = (0..k).map(|i| (format!("{}n{i}", if i % 2 == 0 { "~" } else { "" }), pool[i % pool.len()])).collect();
        let mut big: Vec<(String, String)> = vec![(lines.iter().map(|(n, s)| format!("{n}: {}", s.t)).collect::<Vec<_>>().join("\n"), {
            let mut w: Vec<String> = lines.iter().map(|(n, s)| format!("{n}: {}", s.w)).collect();
            w.sort();
            w.join("\n")
        })];
        let find = |p: &str| forms.iter().find(|f| f.t == p).unwrap_or_else(|| panic!("no form {p}")).w.clone();
        for n in ["a", "~a", "_", "~q1_"] {
            let name = format!("{n}{}", "x".repeat(k));
            big.push((format!("{name}: sin 440"), format!("{name}: {}", find("sin 440"))));
        }
        for (text, want) in big {
            c.steps(1);
            c.case(&text, || {
                let got = parsed(&text).map_err(|e| format!("refused: {e}"))?;
                if got != want {
                    return Err(format!("tree is `{got}`, the text says `{want}`"));
                }
                Ok(fp_str(&got))
            });
        }
    }
    c.par_n(pool.len() * pool.len(), |i| chain(&[pool[i / pool.len()], pool[i % pool.len()]]));
    c.par_n(m * m * m, |i| chain(&[small[i / m / m], small[i / m % m], small[i % m]]));
    // two lines: every pair of forms of the pool, distinct and equal names
    c.par_n(pool.len() * pool.len() * 2, |i| {
        let (a, b, same) = (pool[i / 2 / pool.len()], pool[i / 2 % pool.len()], i % 2 == 1);
        let name = if same { "o" } else { "~b" };
        let text = format!("o: {}\n{name}: {}", a.t, b.t);
        c.steps(2);
        c.case(&text, || {
            let got = parsed(&text).map_err(|e| format!("refused: {e}"))?;
            // of two chains with one name the later one counts
            let mut w = vec![format!("{name}: {}", b.w)];
            if !same {
                w.push(format!("o: {}", a.w));
            }
            // like the tree, sorted by chain
            w.sort();
            let want = w.join("\n");
            if got != want {
                return Err(format!("tree is `{got}`, the text says `{want}`"));
            }
            Ok(fp_str(&got))
        });
    });
    c.finish(
        "model_checking",
        "every node kind and alias with every parameter form of the grid, under every chain name; every pair of a pool of forms of all kinds, joined and on two lines, and every triple of the (quick: thinned) pool; states are the distinct expected trees, steps the parsed nodes",
        &["numbers are compared as 32-bit floats", "the backticks around the code of a pattern synth may or may not be part of the tree"],
        true,
    )
}

// ---------------------------------------------------------------- C08

/// Programs with their separators marked: `{b}` blank inside a node, `{c}` and
/// `{d}` before and after `>>`, `{k}` and `{j}` before and after the colon,
/// `{l}` between chains, `{s}` and `{e}` start and end, `{p}` start of a
/// pattern, `{w}` optional blank inside a point list, `{q}` between points.
const LAYOUTS: [&str; 24] = [
    "{s}o{k}:{j}sin{b}440{e}",
    "{s}o{k}:{j}sin{b}440{c}>>{d}mul{b}0.5{e}",
    "{s}o{k}:{j}sin{b}440{c}>>{d}mul{b}~a{c}>>{d}add{b}1.0{e}",
    "{s}o{k}:{j}saw{b}~a{l}~a{k}:{j}sig{b}2{e}",
    "{s}o{k}:{j}~a{c}>>{d}mul{b}0.1{l}~a{k}:{j}imp{b}1{l}~b{k}:{j}sig{b}3{e}",
    "{s}o{k}:{j}seq{b}60_60{b}_~a{b}72{c}>>{d}sp{b}\\x{e}",
    "{s}o{k}:{j}speed{b}2.0{c}>>{d}seq{b}60{b}_61{c}>>{d}sawsynth{b}0.01{b}0.1{e}",
    "{s}o{k}:{j}choose{b}60{b}0{b}72{l}~t{k}:{j}noise{b}42{e}",
    "{s}o{k}:{j}mix{b}~a{b}~b{b}~c..{l}~a{k}:{j}bd{b}0.3{e}",
    "{s}o{k}:{j}balance{b}~a{b}~b{l}~b{k}:{j}get{b}~a{l}~a{k}:{j}hh{b}0.1{e}",
    "{s}o{k}:{j}arrange{b}~a{b}2{b}~b{b}1.5{l}~a{k}:{j}squ{b}3{l}~b{k}:{j}tri{b}4{e}",
    "{s}o{k}:{j}psampler{b}\"{p}\\a@0{b}'b'@0.5{b}\\c@0.75\"(2){c}>>{d}lpf{b}100.0{b}0.8{e}",
    "{s}o{k}:{j}noise{b}1{c}>>{d}lpf{b}\"{p}100@0{b}200@0.5\"(1){b}0.5{e}",
    "{s}o{k}:{j}[{w}0=>1{q}1/4{w}=>{w}0.5{q}1/2{w}+{w}10_ms{w}=>{w}0{w}]{w}*2{w}!{e}",
    "{s}o{k}:{j}[{w}1{w}/{w}8=>-1{w}]{w}/4{c}>>{d}mul{b}0.5{e}",
    "{s}o{k}:{j}adsr{b}0.1{b}0.2{b}0.5{b}0.3{c}>>{d}hpf{b}~a{b}1{e}",
    "{s}o{k}:{j}reverb{b}0.1{b}0.2{b}0.3{b}0.4{b}0.5{e}",
    "{s}o{k}:{j}meta{b}`output := input; output`{c}>>{d}mul{b}1{e}",
    "{s}o{k}:{j}eval{w2}`a := 1;b`{c}>>{d}pan{b}-0.5{e}",
    "{s}o{k}:{j}psynth{b}`60@0 // no`{b}2{l}~a{k}:{j}script{b}`x`{e}",
    "{s}o{k}:{j}msgsynth{b}\\a{b}0.1{b}0.2{c}>>{d}plate{b}0.1{e}",
    "{s}o{k}:{j}envperc{b}0.01{b}0.1{c}>>{d}delayms{b}100{c}>>{d}delayn{b}~a{c}>>{d}apfmsgain{b}~a{b}0.5{e}",
    "{s}~a{k}:{j}sn{b}0.1{l}~b{k}:{j}onepole{b}~c{l}~c{k}:{j}constsig{b}3{l}o{k}:{j}mix{b}~a..{e}",
    "{s}// head\no{k}:{j}trisynth{b}0.1{b}1{c}>>{d}~b{l}// middle\n~b{k}:{j}squsynth{b}1{b}2{e}",
];
fn alts(k: &str) -> &'static [&'static str] {
    match k {
        "b" => &[" ", "  ", "\t", ",", "|", ", ", " |\t"],
        "c" => &[" ", "", "\n", " \n", "\n ", "\t\n\t", " // x\n", "//x >> mul 9\n", "\n// c\n", " // a\n// b\n", "|"],
        "d" => &[" ", "", "\t", "  ", ",", "|"],
        "k" => &["", " ", "\t", ","],
        "j" => &[" ", "", "  ", "\t", "|"],
        "l" => &["\n", ";", ";\n", "\n\n", " ; ", "\n \n", "\n// c\n", " // c\n", ";\n\n// c;\n\n", "; // c: sin 1\n", "\n\t", ";\n,"],
        "s" => &["", "\n", " ", "\n\n\t", "// c\n", "\n// o: sin 3\n\n", "//\n"],
        "e" => &["", "\n", ";", " ", "\n\n", "// end", " // end\n", ";\n// end", "\n\t\n", "//"],
        "p" => &["", " ", "\t", ", "],
        "w" => &["", " ", "\n", "\t", " \n ", ","],
        "w2" => &[" ", "  ", "\n", "\t", " \n ", ","],
        "q" => &[" ", "\n", ",", "\t \n"],
        _ => unreachable!(),
    }
}
/// Text pieces and the kinds of the separators between them.
fn split_layout(t: &str) -> (Vec<&str>, Vec<&str>) {
    let (mut texts, mut kinds) = (vec![], vec![]);
    let mut rest = t;
    while let Some(i) = rest.find('{') {
        let e = i + rest[i..].find('}').unwrap();
        texts.push(&rest[..i]);
        kinds.push(&rest[i + 1..e]);
        rest = &rest[e + 1..];
    }
    texts.push(rest);
    (texts, kinds)
}
fn fill(texts: &[&str], kinds: &[&str], choice: &dyn Fn(usize) -> usize) -> String {
    let mut o = String::from(texts[0]);
    for i in 0..kinds.len() {
        o.push_str(alts(kinds[i])[choice(i)]);
        o.push_str(texts[i + 1]);
    }
    o
}

pub fn c08(c: &'static Ctx) -> i32 {
    let same = |base: &str, want: &str, text: &str| {
        c.steps(1);
        c.case(text, || {
            let got = parsed(text).map_err(|e| format!("refused although it is `{}` laid out differently: {e}", base.replace('\n', "\\n")))?;
            if got != want {
                return Err(format!("tree is `{got}`, with plain layout it is `{want}`"));
            }
            Ok(fp_str(text))
        });
    };
    for l in LAYOUTS {
        let (texts, kinds) = split_layout(l);
        let base = fill(&texts, &kinds, &|_| 0);
        let want = match parsed(&base) {
            Ok(w) => w,
            Err(e) => {
                c.fail(&base, format!("refused: {e}"));
                continue;
            }
        };
        c.state(fp_str(&want));
        // every choice of up to `m` separators that differ from the plain one
        let m = if c.thorough() || kinds.len() <= 13 { 3 } else { 2 };
        let mut sets: Vec<Vec<usize>> = vec![vec![]];
        for i in 0..kinds.len() {
            let more: Vec<Vec<usize>> = sets.iter().filter(|s| s.len() < m).map(|s| [s.clone(), vec![i]].concat()).collect();
            sets.extend(more);
        }
        c.par(&sets, |set| {
            let total: usize = set.iter().map(|i| alts(kinds[*i]).len() - 1).product();
            for code in 0..total {
                let mut pick = [0usize; 3];
                let mut r = code;
                for (j, i) in set.iter().enumerate() {
                    let k = alts(kinds[*i]).len() - 1;
                    pick[j] = 1 + r % k;
                    r /= k;
                }
                let text = fill(&texts, &kinds, &|i| set.iter().position(|s| *s == i).map_or(0, |j| pick[j]));
                same(&base, &want, &text);
            }
        });
        // the same alternative everywhere
        for a in 0..12 {
            let text = fill(&texts, &kinds, &|i| a % alts(kinds[i]).len());
            same(&base, &want, &text);
        }
        if c.stop() {
            break;
        }
    }
    // the order of the chains
    let lines = ["o: sin 440 >> mul ~a", "~a: sig 0.5", "~b: mix ~a ~c.. >> add ~a", "~c1: seq 60 _61\n>> mul 2", "~c2: get ~a // note", "out: [0=>1 1/2=>0]*2!"];
    for k in 1..=c.pick(4, 6) {
        for set in 0..1usize << lines.len() {
            if set.count_ones() as usize != k {
                continue;
            }
            let ls: Vec<&str> = (0..lines.len()).filter(|i| set >> i & 1 == 1).map(|i| lines[i]).collect();
            let base = ls.join("\n");
            let Ok(want) = parsed(&base) else {
                c.fail(&base, "refused".into());
                continue;
            };
            c.state(fp_str(&want));
            let perms = permutations(k);
            c.par(&perms, |p| {
                for sep in ["\n", "\n\n", "\n;\n"] {
                    if sep == "\n;\n" {
                        // a semicolon belongs to the end of a line
                        let text = p.iter().map(|i| format!("{} ;", ls[*i].replace(" // note", ""))).collect::<Vec<_>>().join("\n");
                        let w = parsed(&base.replace(" // note", "")).unwrap_or_default();
                        same(&base, &w, &text);
                    } else {
                        let text = p.iter().map(|i| ls[*i]).collect::<Vec<_>>().join(sep);
                        same(&base, &want, &text);
                    }
                }
            });
        }
    }
    c.finish(
        "model_checking",
        "24 programs covering every node family; every way to change up to 3 (quick: 2 for the longest) of their separators to any other spelling the language allows there, and every order of up to 4 (thorough 6) chains; states are the distinct trees, steps the parsed texts",
        &["line breaks are single line feeds"],
        true,
    )
}

// ---------------------------------------------------------------- C09

/// An independent recogniser of the language.  Every method takes a byte
/// position and returns the position behind what it found there.
struct Rec<'a> {
    b: &'a [u8],
    /// a node was well formed but says something that cannot be meant
    /// (a fractional seed, a negative note, a reserved node)
    bad: std::cell::Cell<bool>,
}
type R = Option<usize>;
const NODE_WORDS: &str = "reverb arrange adsr sig psampler synth msgsynth msg_synth psynth p_synth pattern_synth bd sn hh squsynth trisynth seq speed choose mul add linrange apfdecay delayn delaymod expr eval sin squ imp envperc sampler noiz lpf plate onepole hpf pha buf state freeverb pan delay apfgain comb mix monosum const_sig constsig sp spd tri noise amplfo balance rlpf rhpf kick ks shape sawsynth saw script closure r apfmsgain sendpass sum meta adc";

impl Rec<'_> {
    fn accepts(t: &str) -> bool {
        let r = Rec { b: t.as_bytes(), bad: false.into() };
        r.program() && !r.bad.get()
    }
    fn at(&self, i: usize) -> u8 {
        self.b.get(i).copied().unwrap_or(0)
    }
    fn lit(&self, i: usize, s: &str) -> R {
        self.b[i..].starts_with(s.as_bytes()).then_some(i + s.len())
    }
    fn run(&self, mut i: usize, f: impl Fn(u8) -> bool) -> usize {
        while i < self.b.len() && f(self.b[i]) {
            i += 1;
        }
        i
    }
    fn run1(&self, i: usize, f: impl Fn(u8) -> bool) -> R {
        let j = self.run(i, f);
        (j > i).then_some(j)
    }
    fn blank(&self, i: usize) -> usize {
        self.run(i, |c| b" ,|\t".contains(&c))
    }
    fn blank1(&self, i: usize) -> R {
        self.run1(i, |c| b" ,|\t".contains(&c))
    }
    fn space(&self, i: usize) -> usize {
        self.run(i, |c| b" ,|\t\n".contains(&c))
    }
    fn program(&self) -> bool {
        let mut i = self.space(0);
        while let Some(j) = self.line(i).or_else(|| self.comment(i)) {
            i = self.blank(j);
            i = self.lit(i, ";").unwrap_or(i);
            i = self.blank(i);
            if self.at(i) == b'\n' {
                i = self.space(i);
            }
        }
        i == self.b.len()
    }
    fn comment(&self, i: usize) -> R {
        let i = self.lit(i, "//")?;
        let i = self.run(i, |c| c != b'\n' && c != b'\r');
        Some(self.run(i, |c| c == b'\n' || c == b'\r'))
    }
    fn line(&self, i: usize) -> R {
        let i = self.blank(self.name(i)?);
        let i = self.blank(self.lit(i, ":")?);
        self.chain(i)
    }
    fn chain(&self, i: usize) -> R {
        let mut i = self.node(i)?;
        loop {
            let j = self.blank(i);
            let j = self.blank(self.lit(j, "\n").unwrap_or(j));
            let more = self.lit(j, ">>").and_then(|j| self.node(self.blank(j)));
            match more.or_else(|| self.comment(j)) {
                Some(j) => i = j,
                None => return Some(i),
            }
        }
    }
    fn name(&self, i: usize) -> R {
        let i = if matches!(self.at(i), b'~' | b'_') { i + 1 } else { i };
        let i = self.run1(i, |c| c.is_ascii_lowercase())?;
        let i = self.run(i, |c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == b'_');
        Some(self.lit(i, "..").unwrap_or(i))
    }
    /// A reference where a node could also stand must not look like one.
    fn free_name(&self, i: usize) -> R {
        if NODE_WORDS.split(' ').any(|w| self.lit(i, w).is_some()) {
            return None;
        }
        self.name(i)
    }
    fn integer(&self, i: usize) -> R {
        let i = if matches!(self.at(i), b'+' | b'-') { i + 1 } else { i };
        let j = self.run1(i, |c| c.is_ascii_digit())?;
        (self.at(j) != b'.').then_some(j)
    }
    fn number(&self, i: usize) -> R {
        let k = if matches!(self.at(i), b'+' | b'-') { i + 1 } else { i };
        let j = self.run1(k, |c| c.is_ascii_digit())?;
        if self.at(j) != b'.' {
            return Some(j);
        }
        let j = self.run(j + 1, |c| c.is_ascii_digit());
        if matches!(self.at(j), b'e' | b'E') {
            return Some(self.integer(j + 1).unwrap_or(j));
        }
        Some(j)
    }
    fn symbol(&self, i: usize) -> R {
        let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'-';
        match self.at(i) {
            b'\'' => self.lit(self.run1(i + 1, w)?, "'"),
            b'\\' => self.run1(i + 1, w),
            _ => None,
        }
    }
    fn num_or_name(&self, i: usize) -> R {
        self.number(i).or_else(|| self.free_name(i))
    }
    /// `k` times: blanks and a number
    fn numbers(&self, mut i: usize, k: usize) -> R {
        for _ in 0..k {
            i = self.number(self.blank1(i)?)?;
        }
        Some(i)
    }
    fn list(&self, i: usize, f: impl Fn(usize) -> R) -> R {
        let mut i = f(self.blank1(i)?)?;
        while let Some(j) = self.blank1(i).and_then(&f) {
            i = j;
        }
        Some(i)
    }
    fn unsigned(&self, i: usize) -> R {
        let j = self.number(i)?;
        let t = std::str::from_utf8(&self.b[i..j]).unwrap();
        if t.contains('.') || t.starts_with('-') {
            self.bad.set(true);
        }
        Some(j)
    }
    fn code(&self, i: usize) -> R {
        let mut i = self.lit(i, "`")?;
        loop {
            match self.at(i) {
                b'`' => return Some(i + 1),
                b'\\' => {
                    let c = self.at(i + 1);
                    if b"\"\\/bfnrt".contains(&c) {
                        i += 2;
                    } else if c == b'u' && (2..6).all(|k| self.at(i + k).is_ascii_hexdigit()) {
                        i += 6;
                    } else {
                        return None;
                    }
                }
                _ if i >= self.b.len() => return None,
                _ => i += 1,
            }
        }
    }
    fn formula(&self, mut i: usize) -> usize {
        loop {
            let c = self.at(i);
            i = match c {
                b'a'..=b'z' => self.run(i, |c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == b'_'),
                b'>' | b'<' => self.lit(i + 1, "=").unwrap_or(i + 1),
                b'=' | b'!' if self.at(i + 1) == b'=' => i + 2,
                b'0'..=b'9' => i + 1,
                c if c != 0 && b" \n%+-*/^()[]&.".contains(&c) => i + 1,
                _ => return i,
            };
        }
    }
    fn eval_code(&self, i: usize) -> R {
        let mut i = self.lit(i, "`")?;
        let assign = |i: usize| -> R {
            let i = self.space(i);
            let i = self.run1(i, |c| c.is_ascii_lowercase())?;
            let i = self.run(i, |c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == b'_');
            let i = self.space(self.lit(self.space(i), ":=")?);
            let i = self.space(self.formula(i));
            Some(self.space(self.lit(i, ";")?))
        };
        while let Some(j) = assign(i) {
            i = j;
        }
        self.lit(self.formula(i), "`")
    }
    fn event(&self, i: usize) -> R {
        let one = |i: usize| self.number(self.lit(self.number(i).or_else(|| self.symbol(i))?, "@")?);
        let i = self.blank(self.lit(i, "\"")?);
        let mut i = one(i)?;
        while let Some(j) = self.blank1(i).and_then(one) {
            i = j;
        }
        self.lit(i, "\"")
    }
    fn pattern(&self, i: usize) -> R {
        let i = self.event(i)?;
        let close = || {
            let j = self.lit(i, "(")?;
            self.lit(self.number(j).unwrap_or(j), ")")
        };
        Some(close().unwrap_or(i))
    }
    fn fraction(&self, i: usize) -> R {
        let i = self.space(self.integer(i)?);
        self.integer(self.space(self.lit(i, "/")?))
    }
    fn points(&self, i: usize) -> R {
        let point = |i: usize| -> R {
            let mut i = self.fraction(i).or_else(|| self.number(i))?;
            let shift = |i: usize| -> R {
                let j = self.space(i);
                if !matches!(self.at(j), b'+' | b'-') {
                    return None;
                }
                let j = self.number(self.space(j + 1))?;
                self.lit(j, "_ms").or_else(|| self.lit(j, "_s"))
            };
            if let Some(j) = shift(i) {
                i = j;
            }
            let i = self.space(self.lit(self.space(i), "=>")?);
            Some(self.space(self.number(i)?))
        };
        let mut i = self.space(self.lit(i, "[")?);
        while let Some(j) = point(i) {
            i = j;
        }
        let i = self.space(self.lit(self.space(i), "]")?);
        let span = || -> R {
            if !matches!(self.at(i), b'/' | b'*') {
                return None;
            }
            let j = self.space(i + 1);
            self.number(j).or_else(|| self.lit(self.fraction(self.lit(j, "(")?)?, ")"))
        };
        let i = self.space(span().unwrap_or(i));
        Some(self.lit(i, "!").unwrap_or(i))
    }
    fn seq_note(&self, i: usize) -> R {
        if let Some(j) = self.integer(i) {
            if self.at(i) == b'-' {
                self.bad.set(true);
            }
            return Some(j);
        }
        if self.at(i) == b'_' {
            return Some(i + 1);
        }
        (self.at(i) == b'~' && self.at(i + 1).is_ascii_lowercase()).then_some(i + 2)
    }
    fn node(&self, i: usize) -> R {
        if self.at(i) == b'[' {
            return self.points(i);
        }
        let w = self.run(i, |c| c.is_ascii_lowercase() || c == b'_');
        let word = std::str::from_utf8(&self.b[i..w]).unwrap();
        let p = |f: &dyn Fn(usize) -> R| self.blank1(w).and_then(f);
        match word {
            "sin" | "saw" | "squ" | "tri" | "mul" | "add" | "pan" | "onepole" | "delayms" => p(&|j| self.num_or_name(j)),
            "delayn" => p(&|j| if self.number(j).is_some() { self.unsigned(j) } else { self.free_name(j) }),
            "imp" | "bd" | "sn" | "hh" | "speed" | "sig" | "constsig" | "plate" => self.numbers(w, 1),
            "noise" | "noiz" | "adc" => p(&|j| self.unsigned(j)),
            "envperc" | "sawsynth" | "squsynth" | "trisynth" => self.numbers(w, 2),
            "adsr" => self.numbers(w, 4),
            "reverb" => self.numbers(w, 5),
            "hpf" | "rhpf" | "apfgain" | "apfmsgain" => p(&|j| self.numbers(self.num_or_name(j)?, 1)),
            "lpf" => p(&|j| self.numbers(self.num_or_name(j).or_else(|| self.pattern(j))?, 1)),
            "psampler" => p(&|j| self.pattern(j)),
            "sp" | "sampler" => p(&|j| self.symbol(j)),
            "msgsynth" | "msg_synth" => p(&|j| self.numbers(self.symbol(j)?, 2)),
            "psynth" | "p_synth" | "pattern_synth" => p(&|j| {
                let k = self.code(j)?;
                Some(self.numbers(k, 1).unwrap_or(k))
            }),
            "meta" | "script" => p(&|j| self.code(j)),
            "expr" => self.run1(w, |c| b" ,|\t\n".contains(&c)).and_then(|j| self.code(j)),
            "eval" => self.run1(w, |c| b" ,|\t\n".contains(&c)).and_then(|j| self.eval_code(j)),
            "choose" => self.list(w, |j| self.integer(j)),
            "mix" => self.list(w, |j| self.name(j)),
            "sendpass" => {
                self.bad.set(true);
                self.list(w, |j| self.name(j))
            }
            "balance" => p(&|j| self.name(self.blank1(self.name(j)?)?)),
            "arrange" => self.list(w, |j| self.numbers(self.name(j)?, 1)),
            "seq" => self.list(w, |j| {
                let mut j = self.seq_note(j)?;
                while let Some(k) = self.seq_note(j) {
                    j = k;
                }
                Some(j)
            }),
            // alone it is a name like any other
            "get" => self.free_name(self.blank1(w).unwrap_or(i)),
            _ => self.free_name(i),
        }
    }
}

fn agree(c: &Ctx, text: &str) {
    c.steps(text.len() as u64);
    c.case(text, || {
        let want = Rec::accepts(text);
        match get_ast(text) {
            Ok(a) => {
                if !want {
                    return Err(format!("accepted as `{}` but it is not a program", tree(&a)));
                }
                let t = fp_str(&tree(&a));
                c.state(t);
                Ok(t)
            }
            Err(e) => {
                if want {
                    return Err(format!("refused ({:?} at {:?}) although it is a program", e.variant, e.location));
                }
                Ok(Fp::new().s(&format!("{:?}", e.variant)).get())
            }
        }
    });
}
/// `head` followed by every word over `al` of length 0..=max, and `tail`.
fn all_words(c: &'static Ctx, head: &str, al: &[&str], max: usize, tail: &str) {
    for len in 0..=max {
        let total = al.len().pow(len as u32);
        c.par_n(total, |i| {
            let mut t = String::from(head);
            let mut r = i;
            for _ in 0..len {
                t.push_str(al[r % al.len()]);
                r /= al.len();
            }
            t.push_str(tail);
            agree(c, &t);
        });
        if c.stop() {
            return;
        }
    }
}

/// Hands every accepted text of a set of token words to `f`.
pub fn words_for_engine(c: &'static Ctx, f: &(dyn Fn(&str) + Sync)) {
    let d = c.pick(0, 1);
    let sets: &[(&str, &[&str], usize, &str)] = &[
        ("", &["o: ", "~a: ", ">>", "sin 1", " ", "\n", ";", "~a", "o", "mul ~a", "// c\n", "~b.."], 6, ""),
        ("o: ", &["~", "a", "_", "1", "..", " ", ">>", "o", "get "], 6, "\n~a: sig 1"),
        ("o: sin ", &["1", "0", ".", "e", "+", "-", "~a", "9"], 6, "\n~a: sig 1"),
        ("o: seq ", &["6", "_", "~a", " ", "|", "0", "+"], 6, "\n~a: sig 1"),
        ("o: [", &["1", "/", "=>", "+", "_ms", "_s", " ", "0.5", "-"], 7, "]"),
        ("o: [1/4=>1 ", &["1", "/", "=>", "0", "]", "!", "*", "(", ")", " "], 6, ""),
        ("o: psampler \"", &["\\s", "'b'", "1", "@", "0.5", " ", "-"], 6, "\"(1)"),
        ("o: eval `", &["x", ":=", ";", "1", "+", " ", "(", ")", ">", "/", "sin"], 5, "`"),
        ("o: psynth `", &["6", "@", " ", "0.5", "x", "-", "é"], 6, "` 1"),
        ("o: meta `", &["x", "=", ";", "1", "output", " ", "(", ")", "[", "]", "."], 4, "`"),
        ("o: arrange ", &["~a ", "o ", "1 ", "0.5 ", "-1 ", "0 "], 6, "\n~a: sig 1"),
        ("o: ", &["sin 1", "pan 0.5", "~a", "mul ~a", "delayms ~a", "seq 60", "speed 2", "mix ~a o", " >> "], 5, "\n~a: imp 4"),
    ];
    for (head, al, max, tail) in sets {
        for len in 0..=max + d {
            c.par_n(al.len().pow(len as u32), |i| {
                let mut t = String::from(*head);
                let mut r = i;
                for _ in 0..len {
                    t.push_str(al[r % al.len()]);
                    r /= al.len();
                }
                t.push_str(tail);
                if matches!(guard(|| get_ast(&t).is_ok()), Ok(false)) {
                    return;
                }
                f(&t);
            });
        }
    }
}

/// Token lists of valid programs, for single-token edits.
fn token_programs() -> Vec<Vec<&'static str>> {
    let mut out = vec![];
    for l in LAYOUTS {
        let (texts, kinds) = split_layout(l);
        let mut v: Vec<&'static str> = vec![texts[0]];
        for i in 0..kinds.len() {
            v.push(alts(kinds[i])[0]);
            v.push(texts[i + 1]);
        }
        v.retain(|t| !t.is_empty());
        out.push(v);
    }
    out
}

pub fn c09(c: &'static Ctx) -> i32 {
    let d = c.pick(0, 1);
    // the frame of a program
    all_words(c, "", &["o", "~a", ":", " ", "\n", ";", ">>", "sin", "1", "//"], 6 + d, "");
    all_words(c, "o: sin 1", &["\n", " ", ">>", "mul 2", "// c", ";", "~b", ":", ",", "x"], 6 + d, "");
    all_words(c, "o:", &["_", "~", "a", "1", "..", ".", " ", "get", "sin", "A"], 6 + d, "");
    // numbers and names as parameters
    all_words(c, "o: sin ", &["1", "0", ".", "e", "E", "+", "-", "~", "a", "_", " "], 5 + d, "");
    all_words(c, "o: envperc ", &["1", "0.5", ".", "e2", "-", " ", "~a", ",", "\\s"], 6 + d, "");
    all_words(c, "o: seq ", &["6", "_", "~a", "~", "b", " ", ".", "-", "|", "60"], 6 + d, "");
    all_words(c, "o: choose", &["6", " ", "0.5", "-1", "+2", "~a", ",", "_"], 6 + d, "");
    all_words(c, "o: [", &["1", "/", "=>", "+", "_ms", "_s", " ", "]", "!", "*", "0.5", "(", ")"], 5 + d, "");
    all_words(c, "o: [1/4=>1", &["1", "/", "=>", "2", " ", "]", "!", "*", "0.5", "(1/2)", "\n"], 5 + d, "");
    all_words(c, "o: psampler \"", &["\\a", "'b'", "1", "@", "0.5", " ", "\"", "(", ")"], 6 + d, "");
    all_words(c, "o: lpf ", &["\"1@0\"", "(2)", "1", "0.5", " ", "~a", "\\a", "sin"], 6 + d, "");
    all_words(c, "o: meta `", &["`", "\\", "n", "u0041", "\"", "x", " ", "\n", ";", "é"], 5 + d, "");
    all_words(c, "o: eval `", &["`", "a", ":=", ";", "1", "+", " ", "=", ">", "\n", "_", ","], 5 + d, "");
    all_words(c, "o: psynth `x`", &["`", " ", "1", "0.5", ">>", "sin", "~a", "\n"], 6 + d, "");
    all_words(c, "o: sp ", &["\\", "'", "a", "1", "_", "-", " ", "~", "B", "."], 5 + d, "");
    all_words(c, "o: mix ", &["~a", "b", "..", " ", "1", "_", "sin", ":", "\n"], 6 + d, "");
    all_words(c, "o: arrange ", &["~a", "b", "1", "0.5", " ", "-", "..", ">>"], 6 + d, "");
    // every node word with every short list of parameters
    let words_all: Vec<&str> = NODE_WORDS.split(' ').chain(["get", "delayms", "foo", "~a", "o", "points", "rhythm", "sine"]).collect();
    let args = [" 1", " 0.5", " -2", " ~a", " \\s", " b", " \"1@0\"", " \"1@0\"(1)", " `x`", " [", " >> sin 1", "1", "_"];
    c.note("node_words", words_all.len());
    for w in &words_all {
        all_words(c, &format!("o: {w}"), &args, 4 + d, "");
    }
    // a second line after each kind of node
    for w in &words_all {
        all_words(c, &format!("o: {w}"), &[" 1", " ~a", "\n", ";", " ~b: sin 1", "b: x"], 5, "");
    }
    // single-token edits of valid programs
    let spare = ["", "?", "1", "0.5", "~q", "sin", "mul", ">>", ":", ";", "\n", " ", "\"", "`", "'", "\\", "[", "]", "=>", "!", "..", "_", "-", ".", "//", "(", ")", "@", "e", "A", "é"];
    let progs = token_programs();
    c.par_n(progs.len(), |k| {
        let p = &progs[k];
        agree(c, &p.concat());
        for i in 0..=p.len() {
            for a in spare {
                let ins: String = [&p[..i], &[a], &p[i..]].concat().concat();
                agree(c, &ins);
                if i < p.len() {
                    let sub: String = [&p[..i], &[a], &p[i + 1..]].concat().concat();
                    agree(c, &sub);
                }
            }
            // two edits at once: swap neighbours
            if i + 1 < p.len() {
                let mut q = p.clone();
                q.swap(i, i + 1);
                agree(c, &q.concat());
            }
            for j in i + 1..=p.len() {
                agree(c, &[&p[..i], &p[j..]].concat().concat());
            }
        }
    });
    if c.thorough() {
        // every pair of single-token substitutions
        c.par_n(progs.len(), |k| {
            let p = &progs[k];
            for i in 0..p.len() {
                for j in i + 1..p.len() {
                    for a in spare {
                        for b in spare {
                            let mut q = p.clone();
                            q[i] = a;
                            q[j] = b;
                            agree(c, &q.concat());
                        }
                    }
                }
            }
        });
    }
    c.finish(
        "model_checking",
        "every token word up to length 5 or 6 (thorough one more) over 17 alphabets behind a fixed head, every node word with every parameter list up to 4 (thorough 5), and every single-token insertion, substitution, swap and cut (thorough: every pair of substitutions) in 24 programs; states are the distinct trees of accepted texts, steps the characters read",
        &["the recogniser was written from the language description, not generated from the grammar file", "a bare reference that begins like a node name is not part of the language"],
        true,
    )
}

// ---------------------------------------------------------------- C10

/// Where an error points: first and last byte position.
fn place(e: &Error<Rule>) -> (usize, usize) {
    match e.location {
        InputLocation::Pos(p) => (p, p),
        InputLocation::Span((a, b)) => (a, b),
    }
}
/// The error is consistent in itself: it points into the text, line and column
/// belong to that place, it says what was expected, and the two ways to ask for
/// the expectation agree.
fn sane(text: &str, e: &Error<Rule>) -> Result<(), String> {
    let (a, b) = place(e);
    if b > text.len() || a > b || !text.is_char_boundary(a) {
        return Err(format!("the error points at {a}..{b} of a text of {} bytes", text.len()));
    }
    let lc = match e.line_col {
        LineColLocation::Pos(p) => p,
        LineColLocation::Span(p, _) => p,
    };
    let before = &text[..a];
    let line = before.matches('\n').count() + 1;
    let col = before.rsplit('\n').next().unwrap().chars().count() + 1;
    if lc != (line, col) {
        return Err(format!("the error says line and column {lc:?}, byte {a} is at {:?}", (line, col)));
    }
    let ErrorVariant::ParsingError { positives, negatives } = &e.variant else {
        return Err("the error does not say what was expected".into());
    };
    if positives.is_empty() && negatives.is_empty() {
        return Err("the error expects nothing".into());
    }
    let info = glicol::get_error_info(e.clone());
    if info != (positives.clone(), negatives.clone()) {
        return Err(format!("get_error_info gives {info:?}, the error says {:?}", e.variant));
    }
    let shown = format!("{}", glicol::EngineError::ParsingError(Box::new(e.clone())));
    if !shown.contains(&format!("{line}:{col}")) {
        return Err(format!("the message does not give line {line} and column {col}: {shown}"));
    }
    Ok(())
}

pub fn c10(c: &'static Ctx) -> i32 {
    // 1: a token that can never be right at every place of every program
    let progs: Vec<(Vec<&str>, Vec<&str>)> = LAYOUTS.iter().map(|l| split_layout(l)).collect();
    let wrong = ["?", "#", "%", "é", "$1", "}", "~~", "==", "&"];
    let variants = c.pick(4usize, 12);
    c.par_n(progs.len() * wrong.len() * variants, |x| {
        let (texts, kinds) = &progs[x / wrong.len() / variants];
        let w = wrong[x / variants % wrong.len()];
        let lay = x % variants;
        // separator `at` (or the piece after it) is followed by the wrong token
        for at in 0..kinds.len() {
            for behind in [false, true] {
                for instead in [false, true] {
                    let mut t = String::from(texts[0]);
                    let (mut start, mut chain, mut cur) = (0, 0, 0);
                    for i in 0..kinds.len() {
                        let mut sep = alts(kinds[i])[lay % alts(kinds[i]).len()];
                        // a comment swallows what follows it
                        if sep.contains("//") && (i == at || i + 1 == at) {
                            sep = alts(kinds[i])[0];
                        }
                        t.push_str(sep);
                        if kinds[i] == "l" || kinds[i] == "s" {
                            cur = t.len();
                        }
                        let here = i == at && !behind;
                        if here {
                            (start, chain) = (t.len(), cur);
                            t.push_str(w);
                        }
                        if !(here && instead) {
                            t.push_str(texts[i + 1]);
                        }
                        if i == at && behind && !instead {
                            (start, chain) = (t.len(), cur);
                            t.push_str(w);
                        }
                    }
                    if behind && instead {
                        continue;
                    }
                    c.steps(1);
                    c.case(&format!("wrong {w} at {start} in {t}"), || {
                        let Err(e) = get_ast(&t) else {
                            return Err("accepted".into());
                        };
                        sane(&t, &e)?;
                        let (a, _) = place(&e);
                        if a > start {
                            return Err(format!("the error points at {a}, the first wrong token is at {start}"));
                        }
                        // `~~` and `==` begin like something that could be right
                        if a < chain {
                            return Err(format!("the error points at {a}, before the chain (at {chain}) with the wrong token"));
                        }
                        c.state(fp_str(&format!("{:?}", e.variant)));
                        Ok(Fp::new().s(&format!("{:?}", e.variant)).u((start - a) as u64).get())
                    });
                }
            }
        }
    });
    // every token exchanged, removed or doubled: the error points into the text
    // and not before the chain that was damaged
    let spare = ["", "1", "0.5", "~q", "sin", "mul", ">>", ":", ";", "\n", " ", "\"", "`", "'", "\\", "[", "]", "=>", "!", "..", "_", "-", ".", "//", "(", ")", "@", "e", "A", "é", "\u{1F3B5}"];
    c.par_n(progs.len() * spare.len() * variants, |x| {
        let (texts, kinds) = &progs[x / spare.len() / variants];
        let w = spare[x / variants % spare.len()];
        let lay = x % variants;
        let mut pieces: Vec<(&str, bool)> = vec![(texts[0], false)];
        for i in 0..kinds.len() {
            pieces.push((alts(kinds[i])[lay % alts(kinds[i]).len()], kinds[i] == "l" || kinds[i] == "s"));
            pieces.push((texts[i + 1], false));
        }
        for at in 0..pieces.len() {
            for keep in [false, true] {
                let (mut t, mut cur, mut chain) = (String::new(), 0, 0);
                for (i, (p, split)) in pieces.iter().enumerate() {
                    if i == at {
                        chain = cur;
                        t.push_str(w);
                    }
                    if i != at || keep {
                        t.push_str(p);
                        if *split {
                            cur = t.len();
                        }
                    }
                }
                c.steps(1);
                c.case(&format!("{w:?} at {at}{} in {t}", if keep { "" } else { " instead" }), || match get_ast(&t) {
                    Ok(a) => Ok(fp_str(&tree(&a))),
                    Err(e) => {
                        sane(&t, &e)?;
                        if place(&e).0 < chain {
                            return Err(format!("the error points at {:?}, before the chain (at {chain}) with the wrong token", place(&e)));
                        }
                        c.state(fp_str(&format!("{:?}", e.variant)));
                        Ok(Fp::new().s(&format!("{:?}", e.variant)).u((place(&e).0 - chain) as u64).get())
                    }
                });
            }
        }
    });
    // 2: well-formed nodes that cannot be meant, at every place of a chain
    let ill = ["noise 1.5", "noise -1", "noiz 0.1", "delayn 2.5", "delayn -3", "seq 60 -5", "seq -60", "seq 60 _-1_ 61", "sendpass ~a", "sendpass ~a ~b", "adc -1", "adc 1.5", "noise 99999999999999999999", "[0=>1]*", "[0=>1"];
    let fine = ["sin 440", "mul 0.5", "~a", "seq 60 _", "[0=>1 1/2=>0]"];
    let heads = ["o: ", "~a: sig 1\no: ", "\n\no: ", "// é\no: "];
    c.par_n(ill.len() * (fine.len() + 1) * (fine.len() + 1) * heads.len(), |x| {
        let bad = ill[x % ill.len()];
        let (p, q) = (x / ill.len() % (fine.len() + 1), x / ill.len() / (fine.len() + 1) % (fine.len() + 1));
        let head = heads[x / ill.len() / (fine.len() + 1) / (fine.len() + 1)];
        let mut t = String::from(head);
        if p < fine.len() {
            t.push_str(fine[p]);
            t.push_str(" >> ");
        }
        let start = t.len();
        t.push_str(bad);
        let end = t.len();
        if q < fine.len() {
            t.push_str("\n>> ");
            t.push_str(fine[q]);
        }
        t.push_str("\n~a: sig 1");
        c.steps(1);
        c.case(&t, || {
            let Err(e) = get_ast(&t) else {
                return Err(format!("accepted although `{bad}` cannot be meant"));
            };
            sane(&t, &e)?;
            let (a, b) = place(&e);
            // an open bracket or a dangling sign may go on in the next line
            let open = bad.starts_with('[');
            if a < start || (b > end && !open) {
                return Err(format!("the error points at {a}..{b}, the wrong node is at {start}..{end}"));
            }
            // the engine gives the same answer
            let mut eng = crate::rig::engine::<4>(64);
            match eng.update_with_code(&t) {
                Err(glicol::EngineError::ParsingError(f)) if f == e => (),
                r => return Err(format!("the engine answers {r:?}, the parser {e:?}")),
            }
            c.state(fp_str(&format!("{:?}", e.variant)));
            Ok(Fp::new().s(&format!("{:?}", e.variant)).u((a - start) as u64).get())
        });
    });
    // 3: missing names.  Every node that takes references, every choice of
    // existing and missing names, in the first, second and third chain
    let names = ["~a", "~b", "~x", "~y", "~q..", "~a.."];
    let single = ["sin", "saw", "squ", "tri", "mul", "add", "pan", "onepole", "delayms", "delayn", "get", ""];
    let mut forms: Vec<(String, Vec<&str>, Vec<&str>)> = vec![];
    for r in names {
        for s in single {
            forms.push((format!("{s} {r}").trim().to_string(), vec![r], vec![]));
        }
        for f in ["lpf", "hpf", "apfmsgain"] {
            forms.push((format!("{f} {r} 1"), vec![r], vec![]));
        }
        if r.len() == 2 {
            forms.push((format!("seq 60 {r} _{r}"), vec![r], vec![]));
        }
        for s in names {
            forms.push((format!("mix {r} {s}"), vec![r, s], vec![]));
            forms.push((format!("balance {r} {s}"), vec![r, s], vec![]));
            forms.push((format!("arrange {r} 1 {s} 2"), vec![r, s], vec![]));
        }
    }
    let samples = ["\\s", "'s'", "\\m", "'n-1'", "\\_k"];
    for s in samples {
        forms.push((format!("sp {s}"), vec![], vec![s]));
        forms.push((format!("sampler {s}"), vec![], vec![s]));
        for t in samples {
            forms.push((format!("psampler \"{s}@0 {t}@0.5\"(1)"), vec![], vec![s, t]));
        }
    }
    forms.push(("sig 1".into(), vec![], vec![]));
    c.note("forms_with_names", forms.len());
    let exists = |r: &str| matches!(r, "~a" | "~b" | "~a..");
    let known = |s: &str| s == "\\s";
    let second: Vec<usize> = if c.thorough() { (0..forms.len()).collect() } else { (0..forms.len()).step_by(5).chain([forms.len() - 1]).collect() };
    // what the engine played before must not matter for the answer
    let befores = ["", "o: sin 1", "o: mix ~x ~y ~q1\n~x: sig 1\n~y: sig 2\n~q1: sig 3"];
    c.par_n(forms.len() * second.len() * befores.len(), |x| {
        let (f, g) = (&forms[x / befores.len() / second.len()], &forms[second[x / befores.len() % second.len()]]);
        let before = befores[x % befores.len()];
        for place in 0..3 {
            let t = match place {
                0 => format!("o: {}\n~a: {}\n~b: sig 2", f.0, g.0),
                1 => format!("o: sig 1 >> {}\n~b: sig 2\n~a: sig 3 >> {} >> mul 2", f.0, g.0),
                _ => format!("~a: sig 1\n~b: {}\n~c: {}\no: mix ~c ~b", f.0, g.0),
            };
            c.steps(1);
            c.case(&format!("{t} after {before}"), || {
                let mut e = crate::rig::engine::<4>(64);
                static ONE: [f32; 2] = [1.0, 0.5];
                e.add_sample("\\s", &ONE, 1, 64);
                if !before.is_empty() {
                    e.update_with_code(before).map_err(|e| format!("first program: {e:?}"))?;
                }
                let mref: Vec<&str> = f.1.iter().chain(&g.1).filter(|r| !exists(r)).copied().collect();
                let msmp: Vec<&str> = f.2.iter().chain(&g.2).filter(|r| !known(r)).copied().collect();
                let ans = e.update_with_code(&t);
                let h = match &ans {
                    Ok(()) => {
                        if !mref.is_empty() || !msmp.is_empty() {
                            return Err(format!("accepted although {mref:?} and the samples {msmp:?} do not exist"));
                        }
                        1
                    }
                    Err(err) => {
                        let shown = format!("{err}");
                        let (name, ok) = match err {
                            glicol::EngineError::NonExistReference(n) => (n, mref.contains(&n.as_str())),
                            glicol::EngineError::NonExistSample(n) => (n, msmp.contains(&n.as_str())),
                            _ => return Err(format!("answers {err:?}; missing are {mref:?} and the samples {msmp:?}")),
                        };
                        if !ok {
                            return Err(format!("answers {err:?}; missing are {mref:?} and the samples {msmp:?}"));
                        }
                        if shown.trim_end().rsplit(' ').next() != Some(name) {
                            return Err(format!("the message `{shown}` does not end with the missing name {name}"));
                        }
                        fp_str(&shown)
                    }
                };
                c.state(h);
                Ok(Fp::new().u(h).u(place).u(mref.len() as u64).u(msmp.len() as u64).get())
            });
        }
    });
    c.finish(
        "model_checking",
        "a token that is wrong everywhere before and behind (and instead of) every piece of 24 programs in 4 (thorough 12) layouts; 31 tokens before and instead of every piece; every well-formed but meaningless node at every place of a chain of up to 3; every node with references or samples with every choice of existing and missing names, in pairs over two chains, as first program and after others; states are the distinct explanations",
        &["if several names are missing any of them may be named", "unsupported nodes (reverb, expr, adc, bare events) are refused without a place"],
        true,
    )
}

// ---------------------------------------------------------------- C35

/// The chain builder runs under node and writes down what it built; here the
/// texts meet the parser and the engine.
pub fn c35(c: &'static Ctx) -> i32 {
    let out = std::process::Command::new("node")
        .args(["--no-warnings", "--experimental-vm-modules", &format!("{}/js/builder.mjs", c.root)])
        .arg(c.pick("quick", "thorough"))
        .output();
    let text = match out {
        Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).into_owned(),
        Ok(o) => {
            eprintln!("the builder cannot be run:\n{}", String::from_utf8_lossy(&o.stderr));
            return 3;
        }
        Err(e) => {
            eprintln!("node cannot be run: {e}");
            return 3;
        }
    };
    let recs: Vec<Vec<String>> = text.split('\x1e').map(|l| l.split('\x1f').map(|s| s.to_string()).collect()).collect();
    if recs.len() < 1000 || recs.iter().any(|r| r.len() != 3) {
        eprintln!("the builder's answer is not complete");
        return 3;
    }
    c.par(&recs, |r| {
        c.case(&r[0], || {
            let want = parsed(&r[1]).map_err(|e| format!("the plain program {:?} is refused: {e}", r[1]))?;
            match parsed(&r[2]) {
                Ok(got) if got == want => {
                    c.state(fp_str(&want));
                    c.steps(1);
                    Ok(fp_str(&r[2]))
                }
                Ok(got) => Err(format!("built {:?}, which means {got}; expected {want}", r[2])),
                Err(e) => Err(format!("built {:?}, which is refused: {e}", r[2])),
            }
        });
    });
    c.finish(
        "model_checking",
        "every source and every method of the chain builder over its whole grid of arguments, every chain of a source and two methods (thorough three), alone and played as a graph of up to two chains (thorough three); the text taken from the queue to the audio thread is parsed and compared with the tree of the plain program; states are the distinct trees",
        &["arguments are finite numbers that print without an exponent, references and names", "a played graph is at most 2048 bytes"],
        true,
    )
}
