//! Program texts as data: what the checks enumerate, print and hand to the
//! reference interpreter.  Independent of the parser's own types.

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    N(f32),
    R(&'static str),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Note {
    M(u32),
    Rest,
    R(&'static str),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Nd {
    Sin(P),
    Saw(P),
    Squ(P),
    Tri(P),
    Sig(f32),
    Imp(f32),
    Noise(u64),
    Speed(f32),
    Mul(P),
    Add(P),
    Pan(P),
    Delayn(usize),
    Delayms(P),
    EnvPerc(f32, f32),
    Adsr(f32, f32, f32, f32),
    Lpf(P, f32),
    /// cutoff pattern: (value, time), span
    LpfPat(Vec<(f32, f32)>, f32, f32),
    Hpf(P, f32),
    Onepole(P),
    Apf(P, f32),
    Seq(Vec<Vec<Note>>),
    Choose(Vec<i32>),
    Mix(Vec<&'static str>),
    Get(&'static str),
    Balance(&'static str, &'static str),
    Arrange(Vec<(&'static str, f32)>),
    /// (time in bars, extra milliseconds, value), span if written, looping
    Points(Vec<(f32, f32, f32)>, Option<u32>, bool),
    Sp(&'static str),
    PSampler(Vec<(&'static str, f32)>, Option<f32>),
    Bd(f32),
    Hh(f32),
    Sn(f32),
    SawSynth(f32, f32),
    SquSynth(f32, f32),
    TriSynth(f32, f32),
    MsgSynth(f32, f32),
    PSynth(Vec<(f32, f32)>, f32),
    Plate(f32),
    Meta(&'static str),
    Eval(&'static str),
}

pub fn num(v: f32) -> String {
    format!("{v}")
}

impl P {
    pub fn text(&self) -> String {
        match self {
            P::N(v) => num(*v),
            P::R(r) => r.to_string(),
        }
    }
}

impl Nd {
    pub fn text(&self) -> String {
        use Nd::*;
        match self {
            Sin(p) => format!("sin {}", p.text()),
            Saw(p) => format!("saw {}", p.text()),
            Squ(p) => format!("squ {}", p.text()),
            Tri(p) => format!("tri {}", p.text()),
            Sig(v) => format!("sig {}", num(*v)),
            Imp(v) => format!("imp {}", num(*v)),
            Noise(s) => format!("noise {s}"),
            Speed(v) => format!("speed {}", num(*v)),
            Mul(p) => format!("mul {}", p.text()),
            Add(p) => format!("add {}", p.text()),
            Pan(p) => format!("pan {}", p.text()),
            Delayn(n) => format!("delayn {n}"),
            Delayms(p) => format!("delayms {}", p.text()),
            EnvPerc(a, d) => format!("envperc {} {}", num(*a), num(*d)),
            Adsr(a, d, s, r) => format!("adsr {} {} {} {}", num(*a), num(*d), num(*s), num(*r)),
            Lpf(p, q) => format!("lpf {} {}", p.text(), num(*q)),
            LpfPat(v, span, q) => format!(
                "lpf \"{}\"({}) {}",
                v.iter().map(|(a, t)| format!("{}@{}", num(*a), num(*t))).collect::<Vec<_>>().join(" "),
                num(*span),
                num(*q)
            ),
            Hpf(p, q) => format!("hpf {} {}", p.text(), num(*q)),
            Onepole(p) => format!("onepole {}", p.text()),
            Apf(p, g) => format!("apfmsgain {} {}", p.text(), num(*g)),
            Seq(g) => format!(
                "seq {}",
                g.iter()
                    .map(|c| {
                        // adjacent numbers inside a group are kept apart by the
                        // grammar only through rests and references
                        c.iter()
                            .map(|n| match n {
                                Note::M(v) => v.to_string(),
                                Note::Rest => "_".into(),
                                Note::R(r) => r.to_string(),
                            })
                            .collect::<String>()
                    })
                    .collect::<Vec<_>>()
                    .join(" ")
            ),
            Choose(v) => format!("choose {}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")),
            Mix(v) => format!("mix {}", v.join(" ")),
            Get(r) => r.to_string(),
            Balance(l, r) => format!("balance {l} {r}"),
            Arrange(v) => format!(
                "arrange {}",
                v.iter().map(|(r, b)| format!("{r} {}", num(*b))).collect::<Vec<_>>().join(" ")
            ),
            Points(p, span, lp) => {
                let mut s = format!(
                    "[ {} ]",
                    p.iter()
                        .map(|(b, ms, v)| if *ms == 0.0 {
                            format!("{} => {}", num(*b), num(*v))
                        } else if *ms > 0.0 {
                            format!("{} + {}_ms => {}", num(*b), num(*ms), num(*v))
                        } else {
                            format!("{} - {}_ms => {}", num(*b), num(-*ms), num(*v))
                        })
                        .collect::<Vec<_>>()
                        .join(", ")
                );
                if let Some(k) = span {
                    s += &format!("*{k}");
                }
                if *lp {
                    s += "!";
                }
                s
            }
            Sp(s) => format!("sp {s}"),
            PSampler(v, span) => format!(
                "psampler \"{}\"({})",
                v.iter().map(|(a, t)| format!("{a}@{}", num(*t))).collect::<Vec<_>>().join(" "),
                span.map_or(String::new(), num)
            ),
            Bd(d) => format!("bd {}", num(*d)),
            Hh(d) => format!("hh {}", num(*d)),
            Sn(d) => format!("sn {}", num(*d)),
            SawSynth(a, d) => format!("sawsynth {} {}", num(*a), num(*d)),
            SquSynth(a, d) => format!("squsynth {} {}", num(*a), num(*d)),
            TriSynth(a, d) => format!("trisynth {} {}", num(*a), num(*d)),
            MsgSynth(a, d) => format!("msgsynth \\saw {} {}", num(*a), num(*d)),
            PSynth(e, span) => format!(
                "psynth `{}` {}",
                e.iter().map(|(t, m)| format!("{} {}", num(*t), num(*m))).collect::<Vec<_>>().join(", "),
                num(*span)
            ),
            Plate(m) => format!("plate {}", num(*m)),
            Meta(c) => format!("meta `{c}`"),
            Eval(c) => format!("eval `{c}`"),
        }
    }
    /// References in the order in which they are wired, each once for a
    /// sequence, as often as written otherwise.
    pub fn refs(&self) -> Vec<&'static str> {
        use Nd::*;
        match self {
            Sin(P::R(r)) | Saw(P::R(r)) | Squ(P::R(r)) | Tri(P::R(r)) | Mul(P::R(r)) | Add(P::R(r))
            | Pan(P::R(r)) | Delayms(P::R(r)) | Lpf(P::R(r), _) | Hpf(P::R(r), _) | Onepole(P::R(r))
            | Apf(P::R(r), _) | Get(r) => vec![r],
            Seq(g) => {
                let mut v = vec![];
                for n in g.iter().flatten() {
                    if let Note::R(r) = n {
                        if !v.contains(r) {
                            v.push(*r);
                        }
                    }
                }
                v
            }
            Mix(v) => v.clone(),
            Balance(l, r) => vec![l, r],
            Arrange(v) => v.iter().map(|(r, _)| *r).collect(),
            _ => vec![],
        }
    }
}

pub type Chain = Vec<Nd>;
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Prog(pub Vec<(&'static str, Chain)>);

impl Prog {
    pub fn new(v: &[(&'static str, &[Nd])]) -> Self {
        Prog(v.iter().map(|(n, c)| (*n, c.to_vec())).collect())
    }
    pub fn text(&self) -> String {
        self.0
            .iter()
            .map(|(n, c)| format!("{n}: {}", chain_text(c)))
            .collect::<Vec<_>>()
            .join("\n")
    }
}
pub fn chain_text(c: &[Nd]) -> String {
    c.iter().map(|n| n.text()).collect::<Vec<_>>().join(" >> ")
}
