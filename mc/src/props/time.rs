//! Messages, tempo, sequences, arrangements, curves.

use super::route::sound;
use crate::lang::Nd::*;
use crate::lang::*;
use crate::model::Sample;
use crate::rig::*;
use crate::util::*;

pub const SMP: Sample = (&[1.0, -0.5, 0.25, 0.75, -1.0, 0.5, 0.125, -0.25], 1, 64);
pub const SMP2: Sample = (&[0.5, 1.0, -1.0, 0.25, 0.75, -0.5], 2, 64);

// ---------------------------------------------------------------- C06

fn c06_pool() -> Vec<Prog> {
    let one = |v: &[Nd]| Prog(vec![("o", v.to_vec())]);
    let mut v = vec![
        one(&[Sin(P::N(2.0)), Mul(P::N(0.5))]),
        one(&[Saw(P::N(2.0)), Add(P::N(0.5))]),
        one(&[Squ(P::N(2.0)), Pan(P::N(0.5))]),
        one(&[Tri(P::N(2.0)), Delayn(3)]),
        one(&[Saw(P::N(2.0)), Delayms(P::N(62.5))]),
        one(&[Imp(8.0), EnvPerc(0.0625, 0.125)]),
        one(&[Imp(4.0), Adsr(0.0625, 0.0625, 0.5, 0.125)]),
        one(&[Squ(P::N(2.0)), Add(P::N(1.0)), Adsr(0.0625, 0.0625, 0.5, 0.125)]),
        one(&[Noise(7), Lpf(P::N(8.0), 1.0)]),
        one(&[Saw(P::N(2.0)), Hpf(P::N(4.0), 1.0)]),
        one(&[Saw(P::N(2.0)), Onepole(P::N(0.125))]),
        one(&[Saw(P::N(2.0)), Apf(P::N(62.5), 0.5)]),
        one(&[Sig(1.0), Mul(P::N(2.0)), Mul(P::N(4.0))]),
        one(&[Speed(2.0), Seq(vec![vec![Note::M(60), Note::Rest], vec![Note::M(72)]])]),
        one(&[Imp(8.0), Sp("\\s")]),
        one(&[PSampler(vec![("\\s", 0.0), ("\\s", 0.25)], Some(0.5))]),
        one(&[Saw(P::N(2.0)), LpfPat(vec![(4.0, 0.0), (8.0, 0.25)], 0.5, 1.0)]),
        one(&[Choose(vec![60, 67]), Mul(P::N(2.0))]),
        one(&[Points(vec![(0.0, 0.0, 1.0), (0.5, 0.0, 3.0)], None, true), Mul(P::N(2.0))]),
        one(&[PSynth(vec![(0.0, 60.0), (0.125, 67.0)], 0.5), Mul(P::N(2.0))]),
        one(&[MsgSynth(0.0625, 0.125), Mul(P::N(2.0))]),
        Prog(vec![("o", vec![Mix(vec!["~a", "~b"])]), ("~a", vec![Sig(1.0), Mul(P::N(2.0))]), ("~b", vec![Sig(8.0)])]),
        Prog(vec![("o", vec![Arrange(vec![("~a", 0.125), ("~b", 0.125)])]), ("~a", vec![Saw(P::N(1.0))]), ("~b", vec![Sig(8.0)])]),
        Prog(vec![("o", vec![Balance("~a", "~b")]), ("~a", vec![Saw(P::N(1.0))]), ("~b", vec![Tri(P::N(8.0))])]),
        Prog(vec![("o", vec![Sig(1.0), Mul(P::R("~a"))]), ("~a", vec![Saw(P::N(1.0)), Add(P::N(2.0))]), ("~b", vec![Sig(8.0)])]),
        Prog(vec![("o", vec![Get("~a")]), ("~a", vec![Sin(P::N(1.0))]), ("p", vec![Sin(P::N(1.0))])]),
        one(&[Sin(P::N(2.0)), Sin(P::N(3.0))]),
    ];
    v.retain(sound);
    v
}

pub fn c06(c: &'static Ctx) -> i32 {
    let pool = c06_pool();
    c.note("programs", pool.len());
    let vals = [4.0f32, 0.5, 1.0, 0.0, 0.25, 46.875, -0.5, -2.0];
    // one command: (chain, position, parameter, value)
    let mut one: Vec<(&'static str, usize, u8, f32)> = vec![];
    for ch in ["o", "~a", "~b", "p", "~zz"] {
        for pos in [0, 1, 2, 7] {
            for par in 0..5u8 {
                for v in vals {
                    one.push((ch, pos, par, v));
                }
            }
        }
    }
    let send = |p: &mut Pair<8>, cmds: &[(&str, usize, u8, f32)], blanks: bool| {
        let t: Vec<String> = cmds
            .iter()
            .map(|(a, b, c, v)| if blanks { format!(" {a} ,{b},\t{c}, {v} ") } else { format!("{a},{b},{c},{v}") })
            .collect();
        p.e.send_msg(&t.join(";"));
        for (a, b, c, v) in cmds {
            p.m.msg(a, *b, *c, *v);
        }
    };
    // messages whose effect the reference does not describe: a cutoff or
    // oscillator set to zero and sample frames of length zero are fine, but a
    // zero resonance or a rate of zero impulses is a division by zero
    let defined = |p: &Prog, cmd: &(&'static str, usize, u8, f32)| -> bool {
        let nd = p.0.iter().find(|x| x.0 == cmd.0).and_then(|x| x.1.get(cmd.1));
        match nd {
            // times, rates and seeds are not negative
            Some(Mul(_)) | Some(Add(_)) | Some(Pan(_)) | Some(Sig(_)) => true,
            Some(Apf(..)) if cmd.2 == 1 => cmd.3.abs() < 32.0,
            Some(_) if cmd.3 < 0.0 => false,
            Some(Lpf(..)) | Some(Hpf(..)) | Some(LpfPat(..)) => cmd.3 < 32.0 && (cmd.2 != 1 || cmd.3 > 0.0),
            Some(Imp(_)) | Some(Speed(_)) => cmd.3 > 0.0,
            Some(Arrange(l)) => cmd.2 as usize >= 2 * l.len() || cmd.2 % 2 == 0 || cmd.3 > 0.0,
            // the span of a curve is not a control
            Some(Points(..)) => cmd.2 != 1,
            _ => true,
        }
    };
    // beyond the last section a message is not described
    let in_range = |p: &Prog, cmd: &(&'static str, usize, u8, f32)| match p.0.iter().find(|x| x.0 == cmd.0).and_then(|x| x.1.get(cmd.1)) {
        Some(Arrange(l)) => (cmd.2 as usize) < 2 * l.len() && cmd.2 % 2 == 1,
        _ => true,
    };
    let mk = || {
        let mut p = Pair::<8>::new(64, 1e-4);
        p.sample("\\s", SMP);
        p
    };
    c.par_n(pool.len() * one.len(), |i| {
        let (p, m) = (&pool[i / one.len()], one[i % one.len()]);
        if !defined(p, &m) || !in_range(p, &m) {
            return;
        }
        for at in 0..c.pick(5, 10) {
            let key = format!("{} | after {at} blocks {m:?}", p.text().replace('\n', "; "));
            c.case(&key, || {
                let mut q = mk();
                let mut f = Fp::new();
                q.update(p)?;
                q.blocks(at, &mut f)?;
                send(&mut q, &[m], false);
                q.blocks(6, &mut f)?;
                c.steps(8 + at as u64);
                c.state(q.m.state_fp());
                Ok(f.get())
            });
        }
    });
    // large programs: every place on its own, and all places in one string
    let big = super::route::big_c04(c.pick(12, 16));
    c.par(&big, |p| {
        let places: Vec<(&'static str, usize, u8, f32)> = p
            .0
            .iter()
            .flat_map(|(n, ch)| ch.iter().enumerate().map(move |(k, nd)| (*n, k, nd)))
            .filter(|x| matches!(x.2, Saw(P::N(_)) | Sig(_) | Mul(P::N(_)) | Add(P::N(_)) | Pan(P::N(_)) | Tri(P::N(_)) | Delayn(_)))
            .enumerate()
            .map(|(i, (n, k, nd))| (n, k, 0u8, if matches!(nd, Delayn(_)) { 1.0 + (i % 3) as f32 } else { 0.5 + 0.125 * (i % 4) as f32 }))
            .collect();
        let mut lists: Vec<Vec<(&'static str, usize, u8, f32)>> = places.iter().map(|x| vec![*x]).collect();
        lists.push(places.clone());
        lists.push(places.iter().rev().copied().collect());
        lists.push(places.iter().chain(&places).enumerate().map(|(i, x)| (x.0, x.1, x.2, if x.3 >= 1.0 { x.3 } else { x.3 + (i % 2) as f32 * 0.25 })).collect());
        for l in lists {
            c.case(&format!("{} | {l:?}", p.text().replace('\n', "; ")), || {
                let mut q = mk();
                let mut f = Fp::new();
                q.update(p)?;
                q.blocks(1, &mut f)?;
                send(&mut q, &l, false);
                q.blocks(3, &mut f)?;
                c.steps(5);
                c.state(q.m.state_fp());
                Ok(f.get())
            });
        }
    });
    // long arrangements: every section, in bars
    for n in 2..=16usize {
        let p = Prog(vec![
            ("o", vec![Arrange((0..n).map(|k| (["~a", "~b"][k % 2], 0.0625)).collect())]),
            ("~a", vec![Saw(P::N(2.0))]),
            ("~b", vec![Sig(3.0)]),
        ]);
        for k in 0..n {
            let m = ("o", 0, 2 * k as u8 + 1, 0.25);
            c.case(&format!("{} | {m:?}", p.text().replace('\n', "; ")), || {
                let mut q = mk();
                let mut f = Fp::new();
                q.update(&p)?;
                q.blocks(1, &mut f)?;
                send(&mut q, &[m], false);
                q.blocks(n * 3 + 10, &mut f)?;
                c.steps(n as u64 * 3 + 12);
                Ok(f.get())
            });
        }
    }
    // every way to write a number
    for (t, v) in [("0.25", 0.25f32), (".25", 0.25), ("+0.25", 0.25), ("2.5e-1", 0.25), ("0.250000000", 0.25), ("25E-2", 0.25), ("-3", -3.0), ("-.5", -0.5), ("7.", 7.0), ("123456.5", 123456.5), ("1e3", 1000.0), ("0", 0.0), ("-0", 0.0)] {
        for (chain, pos) in [("o", 0), ("o", 1), ("~a", 0)] {
            c.case(&format!("number {t} for {chain} {pos}"), || {
                let mut q = mk();
                let mut f = Fp::new();
                q.update(&Prog(vec![("o", vec![Sig(1.0), Add(P::N(2.0)), Mul(P::R("~a"))]), ("~a", vec![Sig(0.5)])]))?;
                q.blocks(1, &mut f)?;
                q.e.send_msg(&format!("{chain},{pos},0,{t}"));
                q.m.msg(chain, pos, 0, v);
                q.blocks(2, &mut f)?;
                c.steps(4);
                Ok(f.get())
            });
        }
    }
    // two commands in one string, and one after the other at different times
    c.par_n(pool.len(), |i| {
        let p = &pool[i];
        let cmds: Vec<_> = one
            .iter()
            .filter(|m| defined(p, m) && in_range(p, m) && m.1 < 7 && m.2 < 3)
            .filter(|m| p.0.iter().any(|x| x.0 == m.0 && m.1 < x.1.len()))
            .copied()
            .collect();
        for a in &cmds {
            for b in &cmds {
                let key = format!("{} | {a:?};{b:?}", p.text().replace('\n', "; "));
                c.case(&key, || {
                    let mut q = mk();
                    let mut f = Fp::new();
                    q.update(p)?;
                    q.blocks(1, &mut f)?;
                    send(&mut q, &[*a, *b], true);
                    q.blocks(3, &mut f)?;
                    send(&mut q, &[*a], true);
                    q.blocks(2, &mut f)?;
                    c.steps(9);
                    c.state(q.m.state_fp());
                    Ok(f.get())
                });
            }
        }
    });
    // a message survives an update that leaves its node alone, and is
    // forgotten when the node is replaced
    c.par_n(pool.len() * pool.len(), |i| {
        let (a, b) = (&pool[i / pool.len()], &pool[i % pool.len()]);
        let key = format!("{} | o,0,0,4 | {} | o,1,0,0.25", a.text(), b.text()).replace('\n', "; ");
        let ok = |p: &Prog, m: &(&'static str, usize, u8, f32)| defined(p, m) && in_range(p, m);
        if !ok(a, &("o", 0, 0, 0.5)) || !ok(b, &("o", 1, 0, 0.25)) {
            return;
        }
        c.case(&key, || {
            let mut q = mk();
            let mut f = Fp::new();
            q.update(a)?;
            q.blocks(1, &mut f)?;
            send(&mut q, &[("o", 0, 0, 0.5)], false);
            q.blocks(1, &mut f)?;
            q.update(b)?;
            q.blocks(2, &mut f)?;
            send(&mut q, &[("o", 1, 0, 0.25)], false);
            q.blocks(3, &mut f)?;
            c.steps(11);
            c.state(q.m.state_fp());
            Ok(f.get())
        });
    });
    // malformed commands are ignored, the others in the string still count
    let junk = ["", ";", "o", "o,0", "o,0,0", ",,,", "nochain,0,0,5", "o,99,0,5", "o,0,200,5", "o,0,0,abc", ";;;", "o;0;0;5", "~,1,0,3"];
    let good = "o,1,0,0.25";
    c.par_n(pool.len() * junk.len() * 3, |i| {
        let p = &pool[i / (junk.len() * 3)];
        let j = junk[i / 3 % junk.len()];
        if j == "o,0,200,5" && !in_range(p, &("o", 0, 200, 5.0)) {
            return;
        }
        if !in_range(p, &("o", 1, 0, 0.25)) || !in_range(p, &("o", 0, 0, 0.25)) && j.starts_with("o,0") {
            return;
        }
        if j == "o,0,0,abc" && matches!(p.0[0].1[0], PSynth(..)) {
            return; // a list of no notes
        }
        let txt = match i % 3 {
            0 => j.to_string(),
            1 => format!("{j};{good}"),
            _ => format!("{good};{j};"),
        };
        let key = format!("{} | {txt}", p.text().replace('\n', "; "));
        c.case(&key, || {
            let mut q = mk();
            let mut f = Fp::new();
            q.update(p)?;
            q.blocks(1, &mut f)?;
            q.e.send_msg(&txt);
            if i % 3 != 0 {
                q.m.msg("o", 1, 0, 0.25);
            }
            q.blocks(4, &mut f)?;
            c.steps(7);
            Ok(f.get())
        });
    });
    // the mix of the plate has no memory: after the message the sound is the
    // one of a plate written with that mix
    let mixes = [0.0f32, 0.1, 0.5, 0.9, 1.0];
    let plate = |m: f32| -> Result<Vec<_>, String> {
        let mut e = engine::<128>(44100);
        upd(&mut e, &format!("o: imp 90 >> pan 0.3 >> plate {m}"))?;
        Ok((0..60).map(|_| blk(&mut e)).collect())
    };
    c.par_n(mixes.len().pow(3) * 4, |i| {
        let (a, b, d, at) = (mixes[i % 5], mixes[i / 5 % 5], mixes[i / 25 % 5], [0usize, 1, 20, 41][i / 125]);
        c.case(&format!("plate {a}, {b} after {at} blocks, {d} 9 blocks later"), || {
            let (pa, pb, pd) = (plate(a)?, plate(b)?, plate(d)?);
            let mut e = engine::<128>(44100);
            upd(&mut e, &format!("o: imp 90 >> pan 0.3 >> plate {a}"))?;
            let mut f = Fp::new();
            for t in 0..60 {
                if t == at {
                    e.send_msg(&format!("o,2,0,{b}"));
                }
                if t == at + 9 {
                    e.send_msg(&format!("o,2,0,{d}"));
                }
                let x = blk(&mut e);
                let want = if t < at { &pa } else if t < at + 9 { &pb } else { &pd };
                near(&x, &want[t], 1e-6, &format!("block {t}"))?;
                x.0.iter().for_each(|v| _ = f.f(*v));
            }
            c.steps(240);
            Ok(f.get())
        });
    });
    // a curve starts again with the span it is sent
    for (lp, bang) in [(false, ""), (true, "!")] {
        for (a, b) in [(1u32, 2u32), (2, 1), (1, 4), (4, 2)] {
            for at in 0..12usize {
                c.case(&format!("curve over {a} bars, {b} after {at} blocks, looping {lp}"), || {
                    let curve = |s: u32| -> Result<Vec<_>, String> {
                        let mut e = engine::<16>(64);
                        upd(&mut e, &format!("o: [ 0 => 1 1/4 => 4 1/2 => -2 ] *{s}{bang}"))?;
                        Ok((0..40).map(|_| blk(&mut e)).collect())
                    };
                    let (ca, cb) = (curve(a)?, curve(b)?);
                    let mut e = engine::<16>(64);
                    upd(&mut e, &format!("o: [ 0 => 1 1/4 => 4 1/2 => -2 ] *{a}{bang}"))?;
                    let mut f = Fp::new();
                    for t in 0..40 {
                        if t == at {
                            e.send_msg(&format!("o,0,1,{b}"));
                        }
                        let x = blk(&mut e);
                        near(&x, if t < at { &ca[t] } else { &cb[t - at] }, 1e-6, &format!("block {t}"))?;
                        x.0.iter().for_each(|v| _ = f.f(*v));
                    }
                    c.steps(120);
                    Ok(f.get())
                });
            }
        }
    }
    // the parameters of the ready-made instruments reach the right envelope
    let inst: [(&str, &str, &[(u8, &str, u8)]); 6] = [
        ("bd 0.02", "o: sin ~p >> mul ~env\n~env: ~t >> envperc 0.003 0.02\n~p: ~t >> envperc 0.01 0.1 >> mul 50 >> add 60", &[(0, "~env", 1)]),
        (
            "sn 0.02",
            "o: sin ~p >> add ~no >> mul ~env\n~env: ~t >> envperc 0.001 0.02\n~no: noise 42 >> mul 0.3\n~p: ~t >> envperc 0.001 0.1 >> mul 55 >> add 60",
            &[(0, "~env", 1)],
        ),
        ("hh 0.02", "o: noise 42 >> hpf 15000 1.0 >> mul ~env\n~env: ~t >> envperc 0.003 0.02", &[(0, "~env", 1)]),
        ("sawsynth 0.002 0.02", "o: saw ~p >> mul ~env\n~env: ~t >> envperc 0.002 0.02\n~p: ~t >> mul 261.63", &[(0, "~env", 0), (1, "~env", 1)]),
        ("squsynth 0.002 0.02", "o: squ ~p >> mul ~env\n~env: ~t >> envperc 0.002 0.02\n~p: ~t >> mul 261.63", &[(0, "~env", 0), (1, "~env", 1)]),
        ("trisynth 0.002 0.02", "o: tri ~p >> mul ~env\n~env: ~t >> envperc 0.002 0.02\n~p: ~t >> mul 261.63", &[(0, "~env", 0), (1, "~env", 1)]),
    ];
    let words = words_upto(&[(0u8, 0.001f32), (0, 0.004), (1, 0.0005), (1, 0.01), (2, 0.3), (7, 0.5)], 1, c.pick(2, 3));
    c.par_n(inst.len() * words.len() * 3, |i| {
        let ((node, patch, map), w, at) = (inst[i % inst.len()], &words[i / inst.len() % words.len()], [0usize, 3, 9][i / inst.len() / words.len()]);
        c.case(&format!("{node} | after {at} blocks {w:?}"), || {
            let (mut a, mut b) = (engine::<32>(44100), engine::<32>(44100));
            upd(&mut a, &format!("o: ~t >> {node}\n~t: imp 150"))?;
            upd(&mut b, &format!("{patch}\n~t: imp 150"))?;
            let mut f = Fp::new();
            for t in 0..40 {
                for (j, (par, v)) in w.iter().enumerate() {
                    if t == at + 5 * j {
                        a.send_msg(&format!("o,1,{par},{v}"));
                        if let Some((_, ch, to)) = map.iter().find(|x| x.0 == *par) {
                            b.send_msg(&format!("{ch},1,{to},{v}"));
                        }
                    }
                }
                let (x, y) = (blk(&mut a), blk(&mut b));
                near(&x, &y, 2e-5, &format!("{node} and its patch, block {t}"))?;
                x.0.iter().for_each(|v| _ = f.f(*v));
            }
            c.steps(42);
            Ok(f.get())
        });
    });
    c.finish(
        "model_checking",
        "every single command (chain x position x parameter x value) at every block of a window, every pair of commands, and commands around updates, on programs covering every node kind, against the reference interpreter, and every word of parameter changes of the instruments against the written-out patch; states = distinct reference states",
        &["values that make the documented formula divide by zero are left out", "comparison within 1e-4"],
        true,
    )
}

// ---------------------------------------------------------------- C13

pub fn c13(c: &'static Ctx) -> i32 {
    let sym = ["60", "72", "_", "~a", "~b"];
    // a group: symbols glued together; two numbers cannot be neighbours
    let group = |w: &[&'static str]| -> Option<Vec<Note>> {
        let mut g = vec![];
        for (i, s) in w.iter().enumerate() {
            if i > 0 && s.starts_with(|c: char| c.is_ascii_digit()) && w[i - 1].starts_with(|c: char| c.is_ascii_digit()) {
                return None;
            }
            g.push(match *s {
                "_" => Note::Rest,
                "~a" => Note::R("~a"),
                "~b" => Note::R("~b"),
                n => Note::M(n.parse().unwrap()),
            });
        }
        Some(g)
    };
    let g3: Vec<Vec<Note>> = words_upto(&sym, 1, 3).iter().filter_map(|w| group(w)).collect();
    let g2: Vec<Vec<Note>> = words_upto(&sym, 1, 2).iter().filter_map(|w| group(w)).collect();
    let mut seqs: Vec<Vec<Vec<Note>>> = g3.iter().map(|g| vec![g.clone()]).collect();
    seqs.extend(words(&g3, 2));
    seqs.extend(words(&g2, 3));
    if c.thorough() {
        let g1: Vec<Vec<Note>> = words_upto(&["60", "_", "~a"], 1, 2).iter().filter_map(|w| group(w)).collect();
        seqs.extend(words(&g1, 4));
        let g4: Vec<Vec<Note>> = words(&["60", "_", "~a"], 4).iter().filter_map(|w| group(w)).collect();
        seqs.extend(words(&g4, 2));
    } else {
        let g1: Vec<Vec<Note>> = words_upto(&["48", "_"], 1, 1).iter().filter_map(|w| group(w)).collect();
        seqs.extend(words_upto(&g1, 4, 8));
    }
    // long ones: a single note at every place, and notes everywhere
    for (ng, len) in [(1usize, 16usize), (2, 8), (4, 4), (8, 2), (16, 1), (1, 8), (2, 4), (4, 2), (8, 1), (2, 16), (16, 2), (32, 1), (1, 32)] {
        for at in 0..=ng * len {
            seqs.push(
                (0..ng)
                    .map(|g| {
                        (0..len)
                            .map(|k| {
                                let i = g * len + k;
                                if at == ng * len && len == 1 {
                                    Note::M(48 + i as u32)
                                } else if i == at || at == ng * len && i % 2 == 0 {
                                    Note::R(["~a", "~b"][i / 2 % 2])
                                } else if i == at + 1 {
                                    Note::M(55)
                                } else {
                                    Note::Rest
                                }
                            })
                            .collect()
                    })
                    .collect(),
            );
        }
    }
    // every note, on its own and next to another
    for n in (0..=140).chain([200, 255, 256, 257, 300, 512, 1000]) {
        seqs.push(vec![vec![Note::M(n)]]);
        seqs.push(vec![vec![Note::Rest, Note::M(n)], vec![Note::M(60)]]);
    }
    c.note("sequences", seqs.len());
    // what stands on the left and is not a speed changes nothing
    c.par_n(g3.len(), |i| {
        for left in ["sig 2", "sig 0.5", "saw 3 >> add 3", "noise 7", "speed 2 >> add 1", "~a", "sig -2", "sig 0"] {
            for s in [vec![g3[i].clone()], vec![g3[i].clone(), vec![Note::M(60)]]] {
                let text = |l: &str| format!("o: {l}{}\n~a: sig 65\n~b: sig 48", Seq(s.clone()).text());
                c.case(&format!("{left} >> {}", Seq(s.clone()).text()), || {
                    let (mut a, mut b) = (engine::<16>(72), engine::<16>(72));
                    upd(&mut a, &text(&format!("{left} >> ")))?;
                    upd(&mut b, &text(""))?;
                    let (x, y) = (render(&mut a, 20), render(&mut b, 20));
                    c.steps(42);
                    same(&x, &y, "compared with nothing on the left")?;
                    let mut f = Fp::new();
                    x.0.iter().for_each(|v| _ = f.f(*v));
                    Ok(f.get())
                });
            }
        }
    });
    // (sample rate, tempo): one bar is 128, 96, 120 samples ... chosen so that
    // every note of up to 3x3 or 4x4 falls exactly on a sample, plus odd ones
    let conf = [(72usize, 120.0f32), (36, 60.0), (48, 240.0), (100, 120.0), (64, 120.0)];
    c.par_n(seqs.len(), |i| {
        let s = &seqs[i];
        for (sr, bpm) in conf {
            // times that are not representable fall on either neighbour
            // depending on rounding, so those combinations are left out
            let bar = 240.0 / bpm as f64 * sr as f64;
            let exact = s.iter().enumerate().all(|(i, g)| {
                (0..g.len()).all(|j| {
                    let t = (i as f64 + j as f64 / g.len() as f64) / s.len() as f64 * bar;
                    let f = t - t.floor();
                    // zero, or clearly inside
                    (f < 1e-9 && (g.len() & (g.len() - 1)) == 0 && (s.len() & (s.len() - 1)) == 0) || (f > 0.01 && f < 0.99)
                })
            });
            if !exact {
                c.add("left_out_rounding", 1);
                continue;
            }
            let p = Prog(vec![
                ("o", vec![Seq(s.clone())]),
                ("~a", vec![Saw(P::N(sr as f32 / 16.0)), Mul(P::N(12.0)), Add(P::N(60.0))]),
                ("~b", vec![Sig(48.0)]),
            ]);
            let key = format!("sr {sr} bpm {bpm}: {}", p.0[0].1[0].text());
            c.case(&key, || {
                let mut q = Pair::<16>::new(sr, 1e-4);
                q.bpm(bpm);
                q.update(&p)?;
                let mut f = Fp::new();
                let k = (2.2 * bar / 16.0) as usize + 1;
                for _ in 0..k {
                    q.block(&mut f)?;
                    c.state(q.m.state_fp());
                }
                c.steps(k as u64);
                Ok(f.get())
            });
        }
    });
    // times that do fall on whole samples although they are thirds: the note
    // must sound exactly once per bar, on the sample or its left neighbour
    let thirds: Vec<Vec<Vec<Note>>> = words_upto(&g2, 3, 3).into_iter().chain(g3.iter().filter(|g| g.len() == 3).map(|g| vec![g.clone()])).collect();
    c.par(&thirds, |s| {
        let key = format!("thirds: {}", Seq(s.clone()).text());
        c.case(&key, || {
            let mut e = engine::<16>(72);
            upd(&mut e, &format!("o: {}\n~a: sig 65\n~b: sig 48", Seq(s.clone()).text()))?;
            let o = render(&mut e, 27);
            c.steps(27);
            let bar = 144.0;
            let mut f = Fp::new();
            for b in 0..3 {
                let mut want: Vec<(f64, f64)> = vec![];
                for (i, g) in s.iter().enumerate() {
                    for (j, n) in g.iter().enumerate() {
                        let m = match n {
                            Note::Rest => continue,
                            Note::M(m) => *m as f64,
                            Note::R("~a") => 65.0,
                            Note::R(_) => 48.0,
                        };
                        want.push(((i as f64 + j as f64 / g.len() as f64) / s.len() as f64 * bar, 2f64.powf((m - 60.0) / 12.0)));
                    }
                }
                let got: Vec<(usize, f32)> = (0..144).map(|k| (k, o.0[b * 144 + k])).filter(|x| x.1 != 0.0).collect();
                if got.len() != want.len() {
                    return Err(format!("bar {b}: {} notes instead of {}", got.len(), want.len()));
                }
                for ((k, v), (t, m)) in got.iter().zip(&want) {
                    if (*k as f64 - t).abs() > 1.0 || (*v as f64 - m).abs() > 1e-4 {
                        return Err(format!("bar {b}: {v} at {k} instead of {m} at {t}"));
                    }
                    f.u(*k as u64).f(*v);
                }
            }
            Ok(f.get())
        });
    });
    // a sequence of many references, each of which has its own place
    let many = 25; // a letter each, and one more
    let mut refs = vec![];
    for n in 1..=many {
        for order in 0..4 {
            for left in ["", "sig 2 >> ", "speed 1.0 >> "] {
                refs.push((n, order, left));
            }
        }
    }
    c.par(&refs, |(n, order, left)| {
        let n = *n;
        let list: Vec<usize> = match order {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            // each twice, in a row and one after the other
            2 => (0..n).flat_map(|i| [i, i]).collect(),
            _ => (0..n).chain((0..n).rev()).collect(),
        };
        let name = |k: usize| format!("~{}", (b'a' + k as u8) as char);
        c.case(&format!("{n} references, order {order}, after {left:?}"), || {
            let text = |l: &[usize]| {
                let seq: Vec<String> = l.iter().map(|k| name(*k)).collect();
                let defs: Vec<String> = (0..=n).map(|k| format!("{}: sig {}", name(k), 36 + k)).collect();
                format!("o: {left}seq {}\n{}", seq.join(" "), defs.join("\n"))
            };
            let mut f = Fp::new();
            let mut e = engine::<16>(8 * list.len());
            upd(&mut e, &text(&list))?;
            let mut longer = list.clone();
            longer[0] = n;
            for (round, l) in [&list, &longer].into_iter().enumerate() {
                if round == 1 {
                    upd(&mut e, &text(l))?;
                }
                // a bar is 16 samples for each entry
                let o = render(&mut e, l.len());
                let got: Vec<(usize, f32)> = o.0.iter().copied().enumerate().filter(|x| x.1 != 0.0).collect();
                if got.len() != l.len() {
                    return Err(format!("{} notes instead of {}", got.len(), l.len()));
                }
                for ((k, v), (i, m)) in got.iter().zip(l.iter().enumerate()) {
                    let m = 2f64.powf((36.0 + *m as f64 - 60.0) / 12.0);
                    if (*k as f64 - 16.0 * i as f64).abs() > 1.0 || (*v as f64 - m).abs() > 1e-4 * m.max(1.0) {
                        return Err(format!("round {round}: {v} at {k} instead of {m} at {}", 16 * i));
                    }
                    f.u(*k as u64).f(*v);
                }
            }
            c.steps(2 * list.len() as u64);
            Ok(f.get())
        });
    });
    c.finish(
        "model_checking",
        "every sequence of the bounded grammar at four sample-rate/tempo pairs for more than two bars, against the reference interpreter; states = distinct reference states; plus a count of notes per bar where the time is a whole sample only up to rounding; up to 25 references in one sequence in four orders, edited",
        &["note times that are whole samples only up to float rounding may fall one sample early"],
        true,
    )
}

// ---------------------------------------------------------------- C14

pub fn c14(c: &'static Ctx) -> i32 {
    let seq = || Seq(vec![vec![Note::M(60), Note::Rest], vec![Note::M(72)], vec![Note::R("~a"), Note::M(48)], vec![Note::M(60)]]);
    let a = ("~a", vec![Sig(64.0)]);
    let progs: Vec<Prog> = vec![
        Prog(vec![("o", vec![seq()]), a.clone()]),
        Prog(vec![("o", vec![Speed(2.0), seq()]), a.clone()]),
        Prog(vec![("o", vec![Speed(0.5), seq()]), a.clone()]),
        Prog(vec![("o", vec![Speed(4.0), seq(), Mul(P::N(2.0))]), a.clone()]),
        Prog(vec![("o", vec![Speed(8.0), seq(), Delayn(3)]), ("p", vec![seq()]), a.clone()]),
        Prog(vec![("o", vec![PSampler(vec![("\\s", 0.0), ("\\t", 0.25), ("\\s", 0.5)], Some(1.0))])]),
        Prog(vec![("o", vec![PSampler(vec![("\\s", 0.0), ("\\t", 0.375)], Some(0.5))])]),
        Prog(vec![("o", vec![Arrange(vec![("~a", 0.5), ("~b", 0.25)])]), a.clone(), ("~b", vec![Saw(P::N(1.0))])]),
        Prog(vec![("o", vec![Arrange(vec![("~s", 1.0), ("~b", 0.5)])]), ("~s", vec![seq()]), a.clone(), ("~b", vec![Saw(P::N(1.0))])]),
        Prog(vec![("o", vec![Saw(P::N(2.0)), LpfPat(vec![(4.0, 0.0), (8.0, 0.25), (2.0, 0.5)], 1.0, 1.0)])]),
        Prog(vec![("o", vec![PSynth(vec![(0.0, 60.0), (0.25, 67.0)], 0.5)])]),
        Prog(vec![("o", vec![Points(vec![(0.0, 0.0, 1.0), (0.25, 0.0, 4.0), (0.5, 62.5, -2.0)], None, true)])]),
        Prog(vec![("o", vec![Points(vec![(0.25, 0.0, 4.0), (1.5, 0.0, -2.0)], Some(2), false)])]),
        Prog(vec![("o", vec![Speed(2.0), seq(), Sp("\\s")]), a.clone()]),
    ];
    let bpms = [120.0f32, 240.0, 60.0, 480.0, 30.0, 160.0];
    let mk = || {
        let mut p = Pair::<8>::new(64, 1e-4);
        p.sample("\\s", SMP);
        p.sample("\\t", SMP2);
        p
    };
    let np = progs.len();
    // (tempo before, program, blocks, new tempo, more blocks, tempo again)
    c.par_n(np * 36 * bpms.len(), |i| {
        let (p, b1, b2, b3) = (&progs[i % np], bpms[i / np % 6], bpms[i / np / 6 % 6], bpms[i / np / 36]);
        for at in 0..c.pick(12, 34) {
            let key = format!("{} | bpm {b1}, {at} blocks, bpm {b2}, 9 blocks, bpm {b3}", p.text().replace('\n', "; "));
            c.case(&key, || {
                let mut q = mk();
                let mut f = Fp::new();
                q.bpm(b1);
                q.update(p)?;
                q.blocks(at, &mut f)?;
                q.bpm(b2);
                q.blocks(9, &mut f)?;
                c.state(q.m.state_fp());
                q.bpm(b3);
                q.blocks(20, &mut f)?;
                c.steps(33 + at as u64);
                c.state(q.m.state_fp());
                Ok(f.get())
            });
        }
    });
    // tempo, then programs replaced: old and new nodes follow the new tempo
    c.par_n(np * np * 3, |i| {
        let (a, b, t) = (&progs[i % np], &progs[i / np % np], bpms[1 + i / np / np]);
        for order in 0..3 {
            let key = format!("{} -> {} | tempo {t} at {order}", a.text(), b.text()).replace('\n', "; ");
            c.case(&key, || {
                let mut q = mk();
                let mut f = Fp::new();
                if order == 0 {
                    q.bpm(t);
                }
                q.update(a)?;
                q.blocks(5, &mut f)?;
                if order == 1 {
                    q.bpm(t);
                }
                q.update(b)?;
                if order == 2 {
                    q.bpm(t);
                }
                q.blocks(20, &mut f)?;
                c.steps(28);
                c.state(q.m.state_fp());
                Ok(f.get())
            });
        }
    });
    // a ladder of tempi, neighbours less than a tenth of a percent apart: one
    // bar is half a sample longer than a whole number of samples
    let bars = [2048.5f64, 2049.5, 2050.5, 2054.5, 2060.5, 2088.5, 2200.5];
    let grid: Vec<(usize, usize)> = (0..bars.len()).flat_map(|i| (0..bars.len()).map(move |j| (i, j))).collect();
    let fine: Vec<Prog> = vec![
        Prog(vec![("o", vec![Seq(vec![vec![Note::M(60)]])])]),
        Prog(vec![("o", vec![Speed(2.0), Seq(vec![vec![Note::R("~a")]])]), a.clone()]),
        Prog(vec![("o", vec![PSampler(vec![("\\s", 0.0)], Some(1.0))])]),
        Prog(vec![("o", vec![Arrange(vec![("~a", 1.0), ("~b", 0.5)])]), a.clone(), ("~b", vec![Saw(P::N(1.0))])]),
        Prog(vec![("o", vec![Saw(P::N(2.0)), LpfPat(vec![(4.0, 0.0), (8.0, 0.0)], 1.0, 1.0)])]),
    ];
    c.par_n(grid.len() * fine.len() * 3, |i| {
        let ((x, y), p, at) = (grid[i % grid.len()], &fine[i / grid.len() % fine.len()], [0usize, 5, 37][i / grid.len() / fine.len()]);
        let bpm = |k: usize| (240.0 * 1024.0 / bars[k]) as f32;
        let key = format!("{} | bpm {}, {at} blocks, bpm {}", p.text().replace('\n', "; "), bpm(x), bpm(y));
        c.case(&key, || {
            let mut q = Pair::<64>::new(1024, 1e-4);
            q.sample("\\s", SMP);
            let mut f = Fp::new();
            q.bpm(bpm(x));
            q.update(p)?;
            q.blocks(at, &mut f)?;
            q.bpm(bpm(y));
            q.blocks(75, &mut f)?;
            c.steps(at as u64 + 78);
            c.state(q.m.state_fp());
            Ok(f.get())
        });
    });
    // speed changed by message
    let sp = [0.5f32, 1.0, 2.0, 4.0, 8.0];
    c.par_n(125 * 8, |i| {
        let (s1, s2, s3, at) = (sp[i % 5], sp[i / 5 % 5], sp[i / 25 % 5], i / 125);
        let key = format!("speed {s1} -> {s2} -> {s3} after {at}");
        c.case(&key, || {
            let mut q = mk();
            let mut f = Fp::new();
            q.update(&Prog(vec![("o", vec![Speed(s1), seq()]), a.clone()]))?;
            q.blocks(at, &mut f)?;
            q.msg("o", 0, 0, s2);
            q.blocks(17, &mut f)?;
            q.msg("o", 0, 0, s3);
            q.blocks(17, &mut f)?;
            c.steps(40);
            c.state(q.m.state_fp());
            Ok(f.get())
        });
    });
    c.finish(
        "model_checking",
        "every (tempo, program, change time, tempo, tempo) over the grids, every ordered pair of programs with a tempo change before, between or after, every pair of a ladder of close tempi, every triple of speeds; against the reference interpreter; states = distinct reference states",
        &["tempi and speeds are chosen so that bar lengths are whole samples", "comparison within 1e-4"],
        true,
    )
}

// ---------------------------------------------------------------- C23

pub fn c23(c: &'static Ctx) -> i32 {
    let times = [0.0f32, 0.125, 0.25, 0.375, 0.5, 0.75, 1.0];
    let vals = [1.0f32, -2.0, 0.5];
    let mut curves: Vec<Vec<(f32, f32, f32)>> = vec![];
    for n in 1..=c.pick(3, 4) {
        for w in words(&vals, n) {
            // increasing times
            let mut idx: Vec<usize> = (0..n).collect();
            loop {
                curves.push(idx.iter().zip(&w).map(|(k, v)| (times[*k], 0.0, *v)).collect());
                let mut k = n;
                while k > 0 && idx[k - 1] == times.len() - (n - (k - 1)) {
                    k -= 1;
                }
                if k == 0 {
                    break;
                }
                idx[k - 1] += 1;
                for j in k..n {
                    idx[j] = idx[j - 1] + 1;
                }
            }
        }
    }
    // many points
    for n in 5..=17usize {
        for (mul, add) in [(3, 1), (5, 2), (7, 0)] {
            let all: Vec<(f32, f32, f32)> = (0..n).map(|k| (k as f32 / 16.0, 0.0, ((k * mul + add) % 8) as f32 / 2.0 - 2.0)).collect();
            curves.push(all[..n.min(16)].to_vec());
            curves.push(all[1..].to_vec());
            curves.push(all.iter().map(|p| (p.0 / 2.0, 62.5, p.2)).collect());
        }
    }
    for n in [18usize, 24, 31, 32, 33, 34, 48, 63, 64] {
        for (mul, add) in [(3, 1), (5, 2)] {
            curves.push((0..n).map(|k| (k as f32 / 64.0, 0.0, ((k * mul + add) % 8) as f32 / 2.0 - 2.0)).collect());
        }
    }
    // offsets in milliseconds (62.5 ms = 4 samples)
    for (b, ms) in [(0.0, 125.0), (0.25, 62.5), (0.5, -62.5), (0.25, 250.0), (0.0, 62.5)] {
        for v in vals {
            for w in vals {
                curves.push(vec![(0.0, 0.0, w), (b, ms, v)]);
                curves.push(vec![(0.0, 0.0, w), (b, ms, v), (0.875, 0.0, 2.0)]);
                curves.push(vec![(b, ms, v)]);
            }
        }
    }
    c.note("curves", curves.len());
    let spans = [None, Some(1u32), Some(2), Some(3)];
    c.par_n(curves.len() * spans.len() * 2, |i| {
        let pts = &curves[i % curves.len()];
        let (span, lp) = (spans[i / curves.len() % 4], i / curves.len() / 4 == 1);
        let nd = Points(pts.clone(), span, lp);
        for bpm in [120.0f32, 240.0, 80.0] {
            let key = format!("bpm {bpm}: {}", nd.text());
            c.case(&key, || {
                let mut q = Pair::<16>::new(64, 1e-4);
                q.bpm(bpm);
                q.update(&Prog(vec![("o", vec![nd.clone()])]))?;
                let mut f = Fp::new();
                for _ in 0..34 {
                    q.block(&mut f)?;
                    c.state(q.m.state_fp());
                }
                c.steps(35);
                Ok(f.get())
            });
        }
    });
    // all spellings of one time must mean the same moment
    let spell: [(&str, f32); 13] = [
        ("1/4", 0.25),
        ("0.25", 0.25),
        ("2/8", 0.25),
        ("1 / 4", 0.25),
        ("1/8 + 0.25_s", 0.25),
        ("1/8+250_ms", 0.25),
        ("0.125 + 250_ms", 0.25),
        ("0.5 - 0.5_s", 0.25),
        ("1/2 - 500_ms", 0.25),
        ("1/2-500.0_ms", 0.25),
        ("3/8", 0.375),
        ("1 - 1_s", 0.5),
        ("0 + 1_s", 0.5),
    ];
    for (t, want) in spell {
        for v in ["1", "0.5", "-1.5"] {
            let key = format!("spelling {t} => {v}");
            c.case(&key, || {
                let mut e = engine::<16>(64);
                upd(&mut e, &format!("o: [0.0 => 0.0, {t} => {v}]"))?;
                let mut m = crate::model::Model::new(16);
                m.sr = 64.0;
                m.update(&Prog(vec![("o", vec![Points(vec![(0.0, 0.0, 0.0), (want, 0.0, v.parse().unwrap())], None, false)])]));
                let mut f = Fp::new();
                for k in 0..10 {
                    let o = blk(&mut e);
                    o.0.iter().for_each(|x| {
                        f.f(*x);
                    });
                    matches(&o, &m.block(), 1e-4, &format!("block {k}"))?;
                }
                c.steps(11);
                Ok(f.get())
            });
        }
    }
    c.finish(
        "model_checking",
        "every curve with up to 3 (4) increasing times from the grid and every value assignment, with and without a written cycle length and looping, at three tempi, for 4 bars; against piecewise linear interpolation; states = distinct reference states",
        &["comparison within 1e-4"],
        true,
    )
}

// ---------------------------------------------------------------- C24

pub fn c24(c: &'static Ctx) -> i32 {
    let src: [(&'static str, Chain); 3] = [("~a", vec![Saw(P::N(1.0))]), ("~b", vec![Tri(P::N(2.0)), Pan(P::N(0.5))]), ("~c", vec![Sig(3.0)])];
    let lens = [0.125f32, 0.25, 0.5, 1.0, 1.5];
    let names = ["~a", "~b", "~c"];
    let mut lists: Vec<Vec<(&'static str, f32)>> = vec![];
    for n in 1..=3usize {
        for w in words(&names, n) {
            for l in words(&lens, n) {
                lists.push(w.iter().zip(&l).map(|(a, b)| (*a, *b)).collect());
            }
        }
    }
    if c.thorough() {
        for w in words(&names, 4) {
            for l in words(&[0.125f32, 0.5, 1.0], 4) {
                lists.push(w.iter().zip(&l).map(|(a, b)| (*a, *b)).collect());
            }
        }
    }
    // many sections
    for n in (4..=18usize).chain([24, 31, 32, 33, 34, 63, 64, 65, 66, 100, 128, 129]) {
        for lens in [[0.125f32, 0.25, 0.125], [0.25, 0.125, 0.5]] {
            lists.push((0..n).map(|k| (names[k % 3], lens[k % 3])).collect());
            lists.push((0..n).map(|k| (names[(k / 2) % 3], lens[k % 2])).collect());
        }
    }
    c.note("arrangements", lists.len());
    let conf = [(64usize, 120.0f32), (32, 60.0), (64, 480.0)];
    c.par_n(lists.len() * conf.len(), |i| {
        let l = &lists[i / conf.len()];
        let (sr, bpm) = conf[i % conf.len()];
        for tail in [false, true] {
            let mut o = vec![Arrange(l.clone())];
            if tail {
                o.push(Mul(P::N(0.5)));
            }
            let mut p = vec![("o", o)];
            p.extend(src.iter().cloned());
            let p = Prog(p);
            let key = format!("sr {sr} bpm {bpm}: {}", chain_text(&p.0[0].1));
            c.case(&key, || {
                let mut q = Pair::<16>::new(sr, 1e-4);
                q.bpm(bpm);
                q.update(&p)?;
                let mut f = Fp::new();
                let bar = 240.0 / bpm * sr as f32;
                let total: f32 = l.iter().map(|x| x.1).sum();
                let k = (total * bar * 2.3 / 16.0) as usize + 2;
                for _ in 0..k {
                    q.block(&mut f)?;
                    c.state(q.m.state_fp());
                }
                c.steps(k as u64 + 1);
                Ok(f.get())
            });
        }
    });
    c.finish(
        "model_checking",
        "every arrangement of up to 3 (4) sections over mono, stereo and repeated sources and section lengths from the grid, at three sample-rate/tempo pairs for more than two repeats; against the reference interpreter; states = distinct reference states",
        &["section lengths are whole numbers of samples", "comparison within 1e-4"],
        true,
    )
}
