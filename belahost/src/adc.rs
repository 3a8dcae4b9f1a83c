//! C42: every audio input of the board is heard where the program asks for it.

use crate::util::*;
use glicol::Engine;

const N: usize = 4;

/// A program and what it plays: the sum of inputs times gains, and how much of
/// the live input. A program without a meaning is one that must be refused.
#[derive(Clone)]
struct Prog {
    text: String,
    terms: Option<Vec<(usize, f32)>>,
    live: f32,
}

fn programs(ports: usize) -> Vec<Prog> {
    let mut v: Vec<Prog> = vec![];
    let mut push = |text: String, terms: Option<Vec<(usize, f32)>>, live: f32| v.push(Prog { text, terms, live });
    for i in 0..ports {
        push(format!("o: adc {i}"), Some(vec![(i, 1.0)]), 0.0);
        push(format!("o: adc {i} >> mul 2.0"), Some(vec![(i, 2.0)]), 0.0);
        push(format!("o: adc {i} >> mul ~g\n~g: sig 4.0"), Some(vec![(i, 4.0)]), 0.0);
        push(format!("o: ~input >> add ~a\n~a: adc {i}"), Some(vec![(i, 1.0)]), 1.0);
        for j in 0..ports {
            push(format!("o: adc {i}\np: adc {j} >> mul 4.0"), Some(vec![(i, 1.0), (j, 4.0)]), 0.0);
            push(format!("~a: adc {i}\no: ~a >> add ~b\n~b: adc {j} >> mul 0.5"), Some(vec![(i, 1.0), (j, 0.5)]), 0.0);
            push(format!("o: mix ~a ~b\n~a: adc {i}\n~b: adc {j}"), Some(vec![(i, 1.0), (j, 1.0)]), 0.0);
        }
    }
    push("o: sig 8.0 >> mul 0.0".into(), Some(vec![]), 0.0);
    for t in ["o: adc", "o: ~zz", "o: nosuch 1", "o: adc 0 >> mul ~zz"] {
        push(t.into(), None, 0.0);
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Play(usize),
    Reset,
}

pub fn c42(c: &'static Ctx) -> i32 {
    for chan in 1..=4usize {
        let progs = programs(chan + 1);
        let mut acts: Vec<Do> = (0..progs.len()).map(Do::Play).collect();
        acts.push(Do::Reset);
        let n = acts.len();
        let three = c.thorough() || chan <= 2;
        c.par_n(if three { n * n * n } else { n * n }, |i| {
            let h: Vec<Do> = if three { vec![acts[i / n / n], acts[i / n % n], acts[i % n]] } else { vec![acts[i / n], acts[i % n]] };
            // the inputs are made before the first program, or after it
            for late in [false, true] {
                if late && h[0] == Do::Reset {
                    continue;
                }
                let key = format!(
                    "{chan} inputs{} | {}",
                    if late { " made after the first program" } else { "" },
                    h.iter().map(|d| match d { Do::Play(k) => progs[*k].text.replace('\n', "; "), Do::Reset => "reset".into() }).collect::<Vec<_>>().join(" | ")
                );
                c.case(&key, || run(c, chan, &progs, &h, late));
            }
        });
    }
    c.finish(
        "model_checking",
        "all histories of three programs (two for the larger boards) over programs reading one or two inputs, programs to be refused and resets, for boards with 1 to 4 inputs; states = program played and inputs made",
        &["blocks of 4 frames", "inputs are written before every block, as the board does"],
        true,
    )
}

fn run(c: &Ctx, chan: usize, progs: &[Prog], h: &[Do], late: bool) -> Result<u64, String> {
    let mut e = Engine::<N>::new();
    let mut made = !late;
    if made {
        e.make_adc_node(chan);
    }
    let mut now: Option<&Prog> = None;
    let mut f = Fp::new();
    let mut t = 0;
    for d in h {
        match d {
            Do::Play(k) => {
                let p = &progs[*k];
                let good = p.terms.as_ref().map_or(false, |l| l.iter().all(|x| made && x.0 < chan));
                match (e.update_with_code(&p.text), good) {
                    (Ok(()), true) => now = Some(p),
                    (Err(_), false) => (),
                    (r, _) => return Err(format!("{:?} is {}", p.text, if r.is_ok() { "accepted" } else { "refused" })),
                }
            }
            Do::Reset => {
                e.reset();
                e.make_adc_node(chan);
                now = None;
            }
        }
        if !made {
            e.make_adc_node(chan);
            made = true;
        }
        c.state(Fp::new().s(now.map_or("", |p| &p.text)).u(chan as u64).get());
        for _ in 0..2 {
            t += 1;
            // small integers: sums and gains are exact
            let x: Vec<f32> = (0..chan * N).map(|i| ((i * i * 7 + 13 * t + i / N * 31) % 251) as f32 - 125.0).collect();
            let live: Vec<f32> = (0..2 * N).map(|i| ((i * 11 + 5 * t) % 127) as f32).collect();
            e.set_adc_node_buffer(&x, chan, N, false);
            let out = e.next_block(vec![&live[..N], &live[N..]]);
            for ch in 0..2 {
                for s in 0..N {
                    let want: f32 = now.map_or(0.0, |p| {
                        p.live * live[ch * N + s] + p.terms.iter().flatten().map(|(k, g)| x[k * N + s] * g).sum::<f32>()
                    });
                    if out[ch][s] != want {
                        return Err(format!("block {t} channel {ch} sample {s}: {} instead of {want}", out[ch][s]));
                    }
                    f.f(want);
                }
            }
            c.steps(1);
        }
    }
    Ok(f.get())
}
