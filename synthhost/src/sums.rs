//! C45: nodes that only hand signals on, for every number of channels.

use crate::util::*;
use glicol_synth::{AudioContextBuilder, BoxedNodeSend, Buffer, Input, Message, Node, NodeData, Pass, Sum, Sum2};

const N: usize = 3;

/// Emits values that tell source, block, channel and sample apart; sums of a
/// few of them are exact.
struct Source {
    id: usize,
    block: usize,
}
fn value(id: usize, block: usize, chan: usize, i: usize) -> f32 {
    (1usize << (4 * id)) as f32 * (1 + chan + 4 * (i + block)) as f32 / 16.0 * if (chan + i) % 2 == 0 { 1.0 } else { -1.0 }
}
impl Node<N> for Source {
    fn process(&mut self, _: &mut hashbrown::HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
        for (c, b) in output.iter_mut().enumerate() {
            for i in 0..N {
                b[i] = value(self.id, self.block, c, i);
            }
        }
        self.block += 1;
    }
    fn send_msg(&mut self, _: Message) {}
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Sum,
    Sum2,
    Pass,
}

pub fn c45(c: &'static Ctx) -> i32 {
    let top = c.pick(3, 4);
    let chans: Vec<usize> = (1..=top).collect();
    let mut cases = vec![];
    for kind in [Kind::Sum, Kind::Sum2, Kind::Pass] {
        for &outs in &chans {
            for ins in words_upto(&chans, 1, if kind == Kind::Pass { 1 } else { top }) {
                // `leaves`: which of the inputs is taken away after two blocks
                for leaves in std::iter::once(None).chain((0..ins.len()).filter(|_| kind != Kind::Pass).map(Some)) {
                    // one more node of the same kind behind it
                    for twice in [false, true] {
                        cases.push((kind, outs, ins.clone(), leaves, twice));
                    }
                }
            }
        }
    }
    c.par(&cases, |(kind, outs, ins, leaves, twice)| {
        c.case(&format!("{kind:?} of {ins:?} channels onto {outs}, {leaves:?} leaves, twice {twice}"), || {
            let mut x = AudioContextBuilder::<N>::new().channels(*outs).build();
            let hand = |x: &mut glicol_synth::AudioContext<N>| match kind {
                Kind::Sum => x.add_multi_chan_node(*outs, Sum),
                Kind::Sum2 => x.add_multi_chan_node(*outs, Sum2),
                Kind::Pass => x.add_multi_chan_node(*outs, Pass),
            };
            let sum = hand(&mut x);
            let src: Vec<_> = ins.iter().enumerate().map(|(id, n)| x.add_multi_chan_node(*n, Source { id, block: 0 })).collect();
            for s in &src {
                x.connect(*s, sum);
            }
            let last = if *twice {
                let b = hand(&mut x);
                x.connect(sum, b);
                b
            } else {
                sum
            };
            x.connect(last, x.destination);
            let mut f = Fp::new();
            for block in 0..4 {
                if let (2, Some(k)) = (block, leaves) {
                    x.graph.remove_node(src[*k]);
                }
                let out: Vec<Vec<f32>> = x.next_block().iter().map(|b| b.to_vec()).collect();
                if out.len() != *outs {
                    return Err(format!("{} channels instead of {outs}", out.len()));
                }
                for (ch, b) in out.iter().enumerate() {
                    for (i, got) in b.iter().enumerate() {
                        let mut want = 0.0;
                        for (id, n) in ins.iter().enumerate() {
                            if block >= 2 && *leaves == Some(id) {
                                continue;
                            }
                            let from = match kind {
                                _ if ch < *n => Some(ch),
                                Kind::Sum2 => Some(0),
                                // one channel goes to both of two
                                Kind::Pass if *n == 1 && *outs == 2 => Some(0),
                                _ => None,
                            };
                            want += from.map_or(0.0, |ch| value(id, block, ch, i));
                        }
                        if *got != want {
                            return Err(format!("block {block} channel {ch} sample {i} is {got}, not {want}"));
                        }
                        f.f(*got);
                    }
                }
            }
            c.steps(4);
            c.state(f.get());
            Ok(f.get())
        });
    });
    // the data of a node: its channels, silent
    c.par_n(5 * 9, |i| {
        let (how, n) = (i / 9, i % 9);
        c.case(&format!("node data {how} of {n}"), || {
            let node = || Source { id: 0, block: 0 };
            let (b, want) = match how {
                0 => (NodeData::new(node(), vec![Buffer::SILENT; n]).buffers, n),
                1 => (NodeData::new1(node()).buffers, 1),
                2 => (NodeData::new2(node()).buffers, 2),
                3 => (NodeData::multi_chan_node(n, node()).buffers, n),
                _ => (NodeData::new(BoxedNodeSend::<N>::new(node()), vec![Buffer::from([0.0; N]); n]).buffers, n),
            };
            if b.len() != want || b.iter().any(|b| b[..] != [0.0; N]) {
                return Err(format!("{b:?} instead of {want} silent channels"));
            }
            Ok((how * 10 + n) as u64)
        });
    });
    // a block: what is put in is there, and silence is silence
    let vals = [-1.0f32, 0.0, -0.0, 0.5, f32::MIN_POSITIVE, f32::NAN, f32::INFINITY];
    let blocks: Vec<[f32; N]> = words_upto(&vals, N, N).iter().map(|w| [w[0], w[1], w[2]]).collect();
    c.par(&blocks, |d| {
        c.case(&format!("block of {d:?}"), || {
            let mut b = Buffer::<N>::from(*d);
            let bits = |x: &[f32]| x.iter().map(|v| v.to_bits()).collect::<Vec<_>>();
            if bits(&b) != bits(d) || bits(&b.clone()) != bits(d) || Buffer::<N>::LEN != N {
                return Err(format!("is {b:?}"));
            }
            for o in &blocks {
                if (b == Buffer::from(*o)) != (d == o) {
                    return Err(format!("compared with {o:?} the answer is {}", d != o));
                }
            }
            for i in 0..N {
                b[i] = 2.0;
                if (0..N).any(|k| b[k].to_bits() != if k <= i { 2f32.to_bits() } else { d[k].to_bits() }) {
                    return Err(format!("writing sample {i} gives {b:?}"));
                }
            }
            let mut b = Buffer::from(*d);
            b.silence();
            if bits(&b) != [0; N] || bits(&Buffer::<N>::default()) != [0; N] || bits(&Buffer::<N>::SILENT) != [0; N] {
                return Err(format!("silenced it is {b:?}"));
            }
            Ok(fp_str(&format!("{d:?}")))
        });
    });
    c.finish(
        "model_checking",
        "a plain sum, a filling sum and a pass node of every number of channels up to 3 (4), with every list of up to 3 (4) inputs of every number of channels, over 4 blocks, each input taken away in between, alone and behind one more; the channels of new nodes; all blocks of 3 samples over 7 values, compared with each other; states = distinct outputs",
        &["a pass node with nothing wired to it keeps what is in its buffers (live input is written there)"],
        true,
    )
}
