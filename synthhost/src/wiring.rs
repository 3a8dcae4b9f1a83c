//! C36: what the wiring calls of an audio context tell the nodes, and what a
//! context built by hand renders.

use crate::util::*;
use glicol_synth::{AudioContext, AudioContextBuilder, AudioContextConfig, BoxedNodeSend, Buffer, Input, Message, Node, NodeData};
use petgraph::graph::NodeIndex;
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};

const N: usize = 2;

#[derive(Default)]
struct Seen {
    msgs: Vec<String>,
    runs: usize,
    inputs: Vec<(usize, usize)>,
}
type Log = Arc<Mutex<Seen>>;
struct Probe {
    id: usize,
    log: Log,
}
fn value(id: usize, run: usize, chan: usize, i: usize) -> f32 {
    (id * 1000 + run * 100 + chan * 10 + i + 1) as f32
}
impl Node<N> for Probe {
    fn process(&mut self, inputs: &mut hashbrown::HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
        let mut l = self.log.lock().unwrap();
        l.runs += 1;
        l.inputs = inputs.iter().map(|(k, v)| (*k, v.buffers().len())).collect();
        l.inputs.sort();
        for (c, b) in output.iter_mut().enumerate() {
            for i in 0..N {
                b[i] = value(self.id, l.runs, c, i);
            }
        }
    }
    fn send_msg(&mut self, m: Message) {
        self.log.lock().unwrap().msgs.push(format!("{m:?}"));
    }
}

/// The ways a node can be handed over.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Wrap {
    Plain,
    Box,
    BoxBox,
    Send,
    Borrowed,
}
const WRAPS: [Wrap; 5] = [Wrap::Plain, Wrap::Box, Wrap::BoxBox, Wrap::Send, Wrap::Borrowed];

#[derive(Clone, Debug, PartialEq)]
enum Op {
    /// channels, wrapper
    Add(usize, Wrap),
    Connect(usize, usize),
    Order(usize, usize, usize),
    Chain(&'static [usize]),
    /// channels of a chain of new nodes
    Boxed(&'static [usize]),
    NodeChain(&'static [usize]),
    Msg(usize, f32),
    MsgAll(f32),
    Remove(usize),
    Feed(f32),
    Tag(usize),
    Reset,
}
/// The names of the destination and of the input node in operations.
const D: usize = 100;
const I: usize = 101;

struct Made {
    at: NodeIndex,
    chans: usize,
    log: Log,
    msgs: Vec<String>,
    runs: usize,
    alive: bool,
}

struct World {
    ctx: AudioContext<N>,
    chans: usize,
    nodes: Vec<Made>,
    edges: Vec<(usize, usize)>,
    feed: f32,
    tags: usize,
}

impl World {
    fn new(ctx: AudioContext<N>, chans: usize) -> Self {
        World { ctx, chans, nodes: vec![], edges: vec![], feed: 0.0, tags: 0 }
    }
    fn probe(&mut self) -> (Probe, Log) {
        let log: Log = Default::default();
        (Probe { id: self.nodes.len() + 1, log: log.clone() }, log)
    }
    fn made(&mut self, at: NodeIndex, chans: usize, log: Log) {
        self.nodes.push(Made { at, chans, log, msgs: vec![], runs: 0, alive: true });
    }
    fn at(&self, x: usize) -> NodeIndex {
        match x {
            D => self.ctx.destination,
            I => self.ctx.input,
            x => self.nodes[x].at,
        }
    }
    /// can the operation be done here?
    fn there(&self, x: usize) -> bool {
        x >= D || self.nodes.get(x).is_some_and(|n| n.alive)
    }
    fn edge(&mut self, e: petgraph::graph::EdgeIndex, a: usize, b: usize) -> Result<(), String> {
        if self.ctx.graph.edge_endpoints(e) != Some((self.at(a), self.at(b))) {
            return Err(format!("the edge returned for {a} to {b} is another one"));
        }
        self.edges.push((a, b));
        Ok(())
    }
    fn index_msg(&mut self, a: usize, b: usize) {
        let i = self.at(a).index();
        if b < D {
            self.nodes[b].msgs.push(format!("{:?}", Message::Index(i)));
        }
    }
    fn fresh(&mut self, chans: &[usize]) -> (Vec<glicol_synth::GlicolNodeData<N>>, Vec<Log>) {
        let first = self.nodes.len();
        chans
            .iter()
            .enumerate()
            .map(|(k, ch)| {
                let log: Log = Default::default();
                let p = Probe { id: first + k + 1, log: log.clone() };
                let d = match k % 2 {
                    0 => p.to_boxed_nodedata(*ch),
                    _ => NodeData::multi_chan_node(*ch, BoxedNodeSend::<N>::new(p)),
                };
                (d, log)
            })
            .unzip()
    }
    /// None when the operation does not apply.
    fn apply(&mut self, op: &Op) -> Option<Result<(), String>> {
        match op {
            Op::Add(ch, w) => {
                let (p, log) = self.probe();
                macro_rules! add {
                    ($p:expr) => {
                        match ch {
                            1 => self.ctx.add_mono_node($p),
                            2 => self.ctx.add_stereo_node($p),
                            n => self.ctx.add_multi_chan_node(*n, $p),
                        }
                    };
                }
                let at = match w {
                    Wrap::Plain => add!(p),
                    Wrap::Box => add!(Box::new(p)),
                    Wrap::BoxBox => add!(Box::new(Box::new(p))),
                    Wrap::Send => add!(BoxedNodeSend::<N>::new(p)),
                    Wrap::Borrowed => {
                        let r: &'static mut Probe = Box::leak(Box::new(p));
                        add!(r)
                    }
                };
                if self.nodes.iter().any(|n| n.alive && n.at == at) || at == self.ctx.destination || at == self.ctx.input {
                    return Some(Err("a new node got the place of another".into()));
                }
                self.made(at, *ch, log);
            }
            Op::Connect(a, b) => {
                if !self.there(*a) || !self.there(*b) {
                    return None;
                }
                let e = self.ctx.connect(self.at(*a), self.at(*b));
                if let Err(x) = self.edge(e, *a, *b) {
                    return Some(Err(x));
                }
                self.index_msg(*a, *b);
            }
            Op::Order(a, b, p) => {
                if !self.there(*a) || !self.there(*b) {
                    return None;
                }
                let e = self.ctx.connect_with_order(self.at(*a), self.at(*b), *p);
                if let Err(x) = self.edge(e, *a, *b) {
                    return Some(Err(x));
                }
                let i = self.at(*a).index();
                if *b < D {
                    self.nodes[*b].msgs.push(format!("{:?}", Message::IndexOrder(*p, i)));
                }
            }
            Op::Chain(l) => {
                if !l.iter().all(|x| self.there(*x)) {
                    return None;
                }
                let es = self.ctx.chain(l.iter().map(|x| self.at(*x)).collect());
                if es.len() + 1 != l.len().max(1) {
                    return Some(Err(format!("{} edges for a chain of {}", es.len(), l.len())));
                }
                for (w, e) in l.windows(2).zip(es) {
                    if let Err(x) = self.edge(e, w[0], w[1]) {
                        return Some(Err(x));
                    }
                    self.index_msg(w[0], w[1]);
                }
            }
            Op::Boxed(l) | Op::NodeChain(l) => {
                let first = self.nodes.len();
                let (data, logs) = self.fresh(l);
                let (ids, es) = if matches!(op, Op::Boxed(_)) { self.ctx.chain_boxed(data) } else { self.ctx.add_node_chain(data) };
                if ids.len() != l.len() || es.len() + 1 != l.len().max(1) {
                    return Some(Err(format!("{} nodes and {} edges for a chain of {}", ids.len(), es.len(), l.len())));
                }
                for ((id, ch), log) in ids.iter().zip(l.iter()).zip(logs) {
                    self.made(*id, *ch, log);
                }
                for (k, e) in es.into_iter().enumerate() {
                    if let Err(x) = self.edge(e, first + k, first + k + 1) {
                        return Some(Err(x));
                    }
                    self.index_msg(first + k, first + k + 1);
                }
            }
            Op::Msg(a, v) => {
                if !self.there(*a) {
                    return None;
                }
                let m = Message::SetToNumber(1, *v);
                if *a < D {
                    self.nodes[*a].msgs.push(format!("{m:?}"));
                }
                self.ctx.send_msg(self.at(*a), m);
            }
            Op::MsgAll(v) => {
                let m = Message::SetBPM(*v);
                for n in self.nodes.iter_mut().filter(|n| n.alive) {
                    n.msgs.push(format!("{m:?}"));
                }
                self.ctx.send_msg_to_all(m);
            }
            Op::Remove(a) => {
                if !self.there(*a) {
                    return None;
                }
                self.ctx.graph.remove_node(self.at(*a));
                self.nodes[*a].alive = false;
                self.edges.retain(|e| e.0 != *a && e.1 != *a);
            }
            Op::Feed(v) => {
                let at = self.ctx.input;
                for b in self.ctx.graph[at].buffers.iter_mut() {
                    for i in 0..N {
                        b[i] = *v;
                    }
                }
                self.feed = *v;
            }
            Op::Tag(a) => {
                if !self.there(*a) {
                    return None;
                }
                let at = self.at(*a);
                self.ctx.tags.insert("tag", at);
                self.tags = 1;
            }
            Op::Reset => {
                self.ctx.reset();
                for n in self.nodes.iter_mut() {
                    n.alive = false;
                }
                self.edges.clear();
                self.feed = 0.0;
                self.tags = 0;
            }
        }
        Some(Ok(()))
    }
    /// Renders a block and compares everything that can be seen.
    fn block(&mut self, f: &mut Fp) -> Result<(), String> {
        if self.ctx.tags.len() != self.tags {
            return Err(format!("{} tags instead of {}", self.ctx.tags.len(), self.tags));
        }
        let mut heard = BTreeSet::from([D]);
        loop {
            let n = heard.len();
            for (a, b) in &self.edges {
                if heard.contains(b) {
                    heard.insert(*a);
                }
            }
            if heard.len() == n {
                break;
            }
        }
        let out = self.ctx.next_block().to_vec();
        for (k, n) in self.nodes.iter_mut().enumerate() {
            let l = n.log.lock().unwrap();
            n.runs += heard.contains(&k) as usize;
            if l.runs != n.runs {
                return Err(format!("node {k} was processed {} times instead of {}", l.runs, n.runs));
            }
            if l.msgs != n.msgs {
                return Err(format!("node {k} was told {:?} instead of {:?}", l.msgs, n.msgs));
            }
        }
        for (k, n) in self.nodes.iter().enumerate() {
            if !heard.contains(&k) {
                continue;
            }
            let want: BTreeSet<(usize, usize)> = self
                .edges
                .iter()
                .filter(|(a, b)| *b == k && a != b)
                .map(|(a, _)| (self.at(*a).index(), if *a == I { self.chans } else { self.nodes[*a].chans }))
                .collect();
            let got = n.log.lock().unwrap().inputs.clone();
            if got != want.into_iter().collect::<Vec<_>>() {
                return Err(format!("node {k} was given the inputs {got:?}"));
            }
        }
        if out.len() != self.chans {
            return Err(format!("{} channels instead of {}", out.len(), self.chans));
        }
        let srcs: BTreeSet<usize> = self.edges.iter().filter(|e| e.1 == D).map(|e| e.0).collect();
        for (c, b) in out.iter().enumerate() {
            for i in 0..N {
                let want: f32 = srcs
                    .iter()
                    .map(|s| match *s {
                        I => self.feed,
                        s => {
                            let n = &self.nodes[s];
                            value(s + 1, n.runs, if c < n.chans { c } else { 0 }, i)
                        }
                    })
                    .sum();
                if b[i] != want {
                    return Err(format!("channel {c} sample {i}: {} instead of {want}", b[i]));
                }
                f.f(b[i]);
            }
        }
        Ok(())
    }
}

pub fn c36(c: &'static Ctx) -> i32 {
    let mut ops = vec![
        Op::Connect(0, 1),
        Op::Connect(1, 0),
        Op::Connect(0, 0),
        Op::Connect(0, D),
        Op::Connect(1, D),
        Op::Connect(2, D),
        Op::Connect(I, D),
        Op::Connect(I, 1),
        Op::Connect(2, 1),
        Op::Order(2, 1, 0),
        Op::Order(0, 1, 1),
        Op::Order(1, D, 0),
        Op::Chain(&[0, 1, D]),
        Op::Chain(&[2, 0, 1, D]),
        Op::Chain(&[I, 2, D]),
        Op::Chain(&[1]),
        Op::Chain(&[]),
        Op::Boxed(&[1, 2, 1]),
        Op::Boxed(&[]),
        Op::NodeChain(&[2, 1, 3]),
        Op::Chain(&[3, 4, 5, D]),
        Op::Connect(5, D),
        Op::Add(1, Wrap::Plain),
        Op::Add(2, Wrap::Box),
        Op::Msg(0, 0.5),
        Op::Msg(1, 0.25),
        Op::Msg(D, 1.0),
        Op::MsgAll(60.0),
        Op::Remove(1),
        Op::Remove(0),
        Op::Feed(7.0),
        Op::Tag(2),
        Op::Reset,
    ];
    if c.thorough() {
        ops.extend([Op::Connect(3, D), Op::Order(0, 2, 0), Op::Add(3, Wrap::Send), Op::Remove(2), Op::Msg(3, 2.0)]);
    }
    let len = c.pick(3, 4);
    // the three nodes at the start: channels and wrappers
    let starts: Vec<[(usize, Wrap); 3]> = WRAPS
        .iter()
        .enumerate()
        .map(|(i, w)| [(1, *w), (2, WRAPS[(i + 1) % 5]), (3, WRAPS[(i + 2) % 5])])
        .collect();
    let total = ops.len().pow(len as u32);
    c.note("operations", ops.len());
    c.note("history_length", len);
    for chans in 1..=3usize {
        for (si, start) in starts.iter().enumerate() {
            if !c.thorough() && si != 0 && chans != 2 {
                continue;
            }
            c.par_n(total, |m| {
                let mut x = m;
                let word: Vec<&Op> = (0..len)
                    .map(|_| {
                        let o = &ops[x % ops.len()];
                        x /= ops.len();
                        o
                    })
                    .collect();
                let key = format!("{chans} channels, nodes {start:?}: {word:?}");
                c.case(&key, || {
                    let ctx = match m % 3 {
                        0 => AudioContextBuilder::<N>::new().sr(64).channels(chans).max_nodes(2).max_edges(2).build(),
                        1 => AudioContext::<N>::new(AudioContextConfig { sr: 64, channels: chans, max_nodes: 16, max_edges: 16 }),
                        _ => glicol_synth::audiocontext!(2, {channels: chans, max_edges: 4}),
                    };
                    let mut w = World::new(ctx, chans);
                    let mut f = Fp::new();
                    for (ch, wr) in start {
                        w.apply(&Op::Add(*ch, *wr)).unwrap()?;
                    }
                    for op in &word {
                        match w.apply(op) {
                            Some(r) => r?,
                            // the same history without it is another case
                            None => return Ok(0),
                        }
                        w.block(&mut f)?;
                        c.steps(2);
                    }
                    w.block(&mut f)?;
                    c.state(f.get());
                    Ok(f.get())
                });
            });
        }
    }
    // what is not given has the documented values
    c.case("defaults", || {
        let a = AudioContextConfig::default();
        if (a.sr, a.channels) != (44100, 2) {
            return Err(format!("a context has {} channels at {} Hz by default", a.channels, a.sr));
        }
        for mut x in [AudioContext::<N>::new(a), AudioContextBuilder::<N>::new().build(), AudioContextBuilder::<N>::default().build()] {
            let b = x.next_block();
            if b.len() != 2 || b.iter().any(|b| b.iter().any(|v| *v != 0.0)) {
                return Err(format!("a new context renders {b:?}"));
            }
        }
        Ok(1)
    });
    // blocks are values: equal when every sample is, and silenced as a whole
    let w = words(&[0.0f32, 0.5, -0.5], 4);
    c.par_n(w.len(), |i| {
        let x = [w[i][0], w[i][1], w[i][2], w[i][3]];
        c.case(&format!("block {x:?}"), || {
            let a = Buffer::<4>::from(x);
            if a[..] != x || a.len() != Buffer::<4>::LEN || format!("{a:?}") != format!("{x:?}") {
                return Err(format!("reads {a:?}"));
            }
            for v in &w {
                let b = Buffer::<4>::from([v[0], v[1], v[2], v[3]]);
                if (a == b) != (v[..] == x) || (a != b) == (v[..] == x) {
                    return Err(format!("compared with {b:?}"));
                }
                let mut b = a.clone();
                b.copy_from_slice(v);
                if b[..] != v[..] || a[..] != x {
                    return Err(format!("a copy overwritten with {v:?} reads {b:?}"));
                }
                b.silence();
                if b[..] != [0.0; 4] || b != Buffer::SILENT || b != Buffer::default() {
                    return Err(format!("silenced reads {b:?}"));
                }
            }
            Ok(fp_str(&format!("{a:?}")))
        });
    });
    c.finish(
        "model_checking",
        "every word of wiring, message, removal and reset calls of the given length on a context with three recording nodes of 1, 2 and 3 channels, for 1 to 3 output channels and every way of handing a node over; states = distinct output streams",
        &["recording nodes emit values that identify node, run, channel and sample; sums of them are exact"],
        true,
    )
}
