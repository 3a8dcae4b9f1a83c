//! Driving the real engine next to the reference.

use crate::lang::Prog;
use crate::model::{Model, Sample};
use glicol::Engine;

pub type Out = (Vec<f32>, Vec<f32>);

pub fn engine<const N: usize>(sr: usize) -> Engine<N> {
    let mut e = Engine::<N>::new();
    e.set_sr(sr);
    e
}

pub fn blk<const N: usize>(e: &mut Engine<N>) -> Out {
    let b = e.next_block(vec![]);
    assert_eq!(b.len(), 2, "a block has two channels");
    (b[0].to_vec(), b[1].to_vec())
}
pub fn blk_in<const N: usize>(e: &mut Engine<N>, l: &[f32], r: &[f32]) -> Out {
    let b = e.next_block(vec![l, r]);
    assert_eq!(b.len(), 2, "a block has two channels");
    (b[0].to_vec(), b[1].to_vec())
}
/// `k` blocks, concatenated per channel.
pub fn render<const N: usize>(e: &mut Engine<N>, k: usize) -> Out {
    let mut o = (Vec::with_capacity(k * N), Vec::with_capacity(k * N));
    for _ in 0..k {
        let (l, r) = blk(e);
        o.0.extend(l);
        o.1.extend(r);
    }
    o
}
/// Feeds `l`/`r` through, padded to whole blocks with zeros.
pub fn render_in<const N: usize>(e: &mut Engine<N>, l: &[f32], r: &[f32]) -> Out {
    let mut o = (vec![], vec![]);
    let n = l.len().max(r.len());
    let mut i = 0;
    while i < n {
        let g = |s: &[f32]| -> Vec<f32> { (i..i + N).map(|k| s.get(k).copied().unwrap_or(0.0)).collect() };
        let (a, b) = blk_in(e, &g(l), &g(r));
        o.0.extend(a);
        o.1.extend(b);
        i += N;
    }
    o
}

/// Same samples, bit for bit apart from the sign of zero.
pub fn same(a: &Out, b: &Out, what: &str) -> Result<(), String> {
    for (c, (x, y)) in [(&a.0, &b.0), (&a.1, &b.1)].into_iter().enumerate() {
        if x.len() != y.len() {
            return Err(format!("{what}: {} and {} samples", x.len(), y.len()));
        }
        for i in 0..x.len() {
            if !(x[i] == y[i] || (x[i].is_nan() && y[i].is_nan())) {
                return Err(format!("{what}: channel {c} sample {i}: {} instead of {}", x[i], y[i]));
            }
        }
    }
    Ok(())
}
pub fn near(a: &Out, b: &Out, tol: f32, what: &str) -> Result<(), String> {
    for (c, (x, y)) in [(&a.0, &b.0), (&a.1, &b.1)].into_iter().enumerate() {
        for i in 0..x.len().max(y.len()) {
            let (p, q) = (x[i], y[i]);
            if !(p == q || p.is_nan() && q.is_nan() || (p - q).abs() <= tol * (1.0 + q.abs())) {
                return Err(format!("{what}: channel {c} sample {i}: {p} instead of {q}"));
            }
        }
    }
    Ok(())
}
/// Real output against the reference.
pub fn matches(a: &Out, m: &[Vec<f64>; 2], tol: f64, what: &str) -> Result<(), String> {
    for (c, (x, y)) in [(&a.0, &m[0]), (&a.1, &m[1])].into_iter().enumerate() {
        if x.len() != y.len() {
            return Err(format!("{what}: {} samples instead of {}", x.len(), y.len()));
        }
        for i in 0..x.len() {
            let (p, q) = (x[i] as f64, y[i]);
            if !((p - q).abs() <= tol * (1.0 + q.abs())) {
                return Err(format!("{what}: channel {c} sample {i}: {p} instead of {q}"));
            }
        }
    }
    Ok(())
}

pub fn upd<const N: usize>(e: &mut Engine<N>, code: &str) -> Result<(), String> {
    e.update_with_code(code).map_err(|x| format!("refused: {:?} for {:?}", short(&x), code))
}
pub fn short(e: &glicol::EngineError) -> String {
    match e {
        glicol::EngineError::ParsingError(p) => format!("syntax error at {:?}", p.location),
        glicol::EngineError::NonExistReference(r) => format!("no reference {r}"),
        glicol::EngineError::NonExistSample(r) => format!("no sample {r}"),
    }
}

/// Engine and reference side by side.
pub struct Pair<const N: usize> {
    pub e: Engine<N>,
    pub m: Model,
    pub tol: f64,
    pub t: usize,
}
impl<const N: usize> Pair<N> {
    pub fn new(sr: usize, tol: f64) -> Self {
        let mut m = Model::new(N);
        m.sr = sr as f64;
        Pair { e: engine(sr), m, tol, t: 0 }
    }
    pub fn sample(&mut self, name: &'static str, s: Sample) {
        self.e.add_sample(name, s.0, s.1, s.2);
        self.m.samples.insert(name, s);
    }
    pub fn update(&mut self, p: &Prog) -> Result<(), String> {
        upd(&mut self.e, &p.text())?;
        self.m.update(p);
        Ok(())
    }
    pub fn msg(&mut self, chain: &str, pos: usize, par: u8, v: f32) {
        self.e.send_msg(&format!("{chain}, {pos}, {par}, {v}"));
        self.m.msg(chain, pos, par, v);
    }
    pub fn bpm(&mut self, v: f32) {
        self.e.set_bpm(v);
        self.m.set_bpm(v as f64);
    }
    pub fn block(&mut self, f: &mut crate::util::Fp) -> Result<(), String> {
        let o = blk(&mut self.e);
        self.check(o, f)
    }
    fn check(&mut self, o: Out, f: &mut crate::util::Fp) -> Result<(), String> {
        let r = self.m.block();
        for x in o.0.iter().chain(&o.1) {
            f.f(*x);
        }
        self.t += 1;
        matches(&o, &r, self.tol, &format!("block {}", self.t - 1))
    }
    pub fn blocks(&mut self, k: usize, f: &mut crate::util::Fp) -> Result<(), String> {
        for _ in 0..k {
            self.block(f)?;
        }
        Ok(())
    }
    /// One block of live input.
    pub fn block_in(&mut self, l: &[f32], r: &[f32], f: &mut crate::util::Fp) -> Result<(), String> {
        let o = blk_in(&mut self.e, l, r);
        for i in 0..N {
            self.m.input.b[0][i] = l[i] as f64;
            self.m.input.b[1][i] = r[i] as f64;
        }
        self.check(o, f)
    }
    /// A whole signal of live input, padded with zeros to full blocks.
    pub fn feed(&mut self, l: &[f32], r: &[f32], f: &mut crate::util::Fp) -> Result<(), String> {
        let n = l.len().max(r.len());
        let mut i = 0;
        while i < n {
            let g = |s: &[f32]| -> Vec<f32> { (i..i + N).map(|k| s.get(k).copied().unwrap_or(0.0)).collect() };
            self.block_in(&g(l), &g(r), f)?;
            i += N;
        }
        Ok(())
    }
}

pub fn leak(v: Vec<f32>) -> &'static [f32] {
    Box::leak(v.into_boxed_slice())
}
