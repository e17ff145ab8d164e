mod exec;
mod expr;
mod ir;
mod z3;

use std::collections::BTreeMap;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn selftest() {
    use expr::*;
    // Random expressions: every simplification must preserve evaluation.
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) * 0x9E3779B97F4A7C15 + 1;
    let mut rnd = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed
    };
    let mut n = 0u64;
    for _round in 0..4000 {
        let mut vals = std::collections::HashMap::new();
        for i in 0..6u32 {
            vals.insert(i, (match rnd() % 4 { 0 => 0, 1 => 255, _ => rnd() & 255 }) as u128);
        }
        let m = Model::new(vals.clone());
        let mut pool: Vec<(V, u128)> = (0..6u32).map(|i| (var(i, 8), vals[&i])).collect();
        for w in [1u16, 8, 16, 32, 64] {
            for k in [0u128, 1, 2, 7, 0x80, 0xff, u128::MAX, rnd() as u128] {
                pool.push((V::c(k, w), k & mask(w)));
            }
        }
        for _ in 0..60 {
            let (a, av) = pool[rnd() as usize % pool.len()];
            let w = a.w();
            let cands: Vec<(V, u128)> = pool.iter().copied().filter(|x| x.0.w() == w).collect();
            let (b, bv) = cands[rnd() as usize % cands.len()];
            let mk = mask(w);
            let s = |x: u128| to_signed(x, w);
            let r: (V, u128) = match rnd() % 20 {
                0 => (bin(Op::Add, a, b), av.wrapping_add(bv) & mk),
                1 => (bin(Op::Sub, a, b), av.wrapping_sub(bv) & mk),
                2 => (bin(Op::Mul, a, b), av.wrapping_mul(bv) & mk),
                3 => (bin(Op::And, a, b), av & bv),
                4 => (bin(Op::Or, a, b), av | bv),
                5 => (bin(Op::Xor, a, b), av ^ bv),
                6 => (bin(Op::Eq, a, b), (av == bv) as u128),
                7 => (bin(Op::Ult, a, b), (av < bv) as u128),
                8 => (bin(Op::Slt, a, b), (s(av) < s(bv)) as u128),
                9 => (bin(Op::Shl, a, b), if bv >= w as u128 { 0 } else { (av << bv) & mk }),
                10 => (bin(Op::LShr, a, b), if bv >= w as u128 { 0 } else { av >> bv }),
                11 => (bin(Op::AShr, a, b), (s(av) >> (bv.min(w as u128 - 1))) as u128 & mk),
                12 | 13 => {
                    let lo = (rnd() % w as u64) as u16;
                    let k = 1 + (rnd() % (w - lo) as u64) as u16;
                    (extract(a, lo, k), (av >> lo) & mask(k))
                }
                14 | 15 => {
                    let (c, cv) = pool[rnd() as usize % pool.len()];
                    if w + c.w() > 64 {
                        continue;
                    }
                    (concat(a, c), av << c.w() | cv)
                }
                16 => {
                    let k = w + (rnd() % 20) as u16;
                    if k > 64 {
                        continue;
                    }
                    (zext(a, k), av)
                }
                17 => {
                    let k = w + (rnd() % 20) as u16;
                    if k > 64 {
                        continue;
                    }
                    (sext(a, k), s(av) as u128 & mask(k))
                }
                18 => {
                    let cs: Vec<(V, u128)> = pool.iter().copied().filter(|x| x.0.w() == 1).collect();
                    let (c, cv) = cs[rnd() as usize % cs.len()];
                    (ite(c, a, b), if cv == 1 { av } else { bv })
                }
                _ => (if bv == 0 { continue } else { bin(if rnd() % 2 == 0 { Op::UDiv } else { Op::UDiv }, a, b) }, av / bv),
            };
            if m.eval(r.0) != r.1 || r.0.w() > 128 {
                eprintln!("SELFTEST FAIL {:?} vs {}", m.eval(r.0), r.1);
                std::process::exit(3);
            }
            n += 1;
            pool.push(r);
        }
    }
    println!("selftest ok: {} expressions", n);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("selftest") {
        selftest();
        return;
    }
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut dump = String::new();
    let mut dump_every = 50;
    let mut cfg = exec::Config { param: 0, max_steps: 5_000_000, max_paths: u64::MAX, time_limit_s: 1e9, max_viol: 4, concrete: None, max_samples: 40, known: vec![] };
    let mut timeout = 60_000;
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ll" => ll = v,
            "--entry" => entry = v,
            "--out" => out = v,
            "--param" => cfg.param = v.parse().unwrap(),
            "--max-steps" => cfg.max_steps = v.parse().unwrap(),
            "--max-paths" => cfg.max_paths = v.parse().unwrap(),
            "--time" => cfg.time_limit_s = v.parse().unwrap(),
            "--max-viol" => cfg.max_viol = v.parse().unwrap(),
            "--known" => cfg.known.push(v),
            "--solver-ms" => timeout = v.parse().unwrap(),
            "--samples" => cfg.max_samples = v.parse().unwrap(),
            "--concrete" => cfg.concrete = Some(unhex(&v)),
            "--dump" => dump = v,
            "--dump-every" => dump_every = v.parse().unwrap(),
            a => {
                eprintln!("unknown argument {}", a);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VPSYM_DEBUG").is_ok() {
            match i.payload().downcast_ref::<expr::Unsupported>() {
                Some(u) => eprintln!("unsupported: {}", u.0),
                None => eprintln!("{}", i),
            }
        }
    }));
    let child = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let t0 = std::time::Instant::now();
            let m = ir::Module::load(&ll);
            let param = cfg.param;
            let mut e = exec::Engine::new(m, cfg, timeout);
            if !dump.is_empty() {
                e.s.dump = Some((dump, dump_every, 0));
            }
            e.run(&entry);
            let mut o = String::from("{\n");
            o += &format!(" \"entry\": {}, \"param\": {},\n", js(&entry), param);
            o += &format!(" \"paths\": {}, \"forks\": {}, \"instructions\": {}, \"our_instructions\": {},\n", e.paths, e.forks, e.instrs, e.our_instrs);
            let s = &e.s.stats;
            o += &format!(
                " \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"cache_hits\": {}, \"core_hits\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3}, \"nodes\": {},\n",
                s.queries, s.sat, s.unsat, s.cache_hits, s.core_hits, s.solver_s, s.max_query_s, expr::pool_len()
            );
            o += &format!(" \"wall_s\": {:.3},\n", t0.elapsed().as_secs_f64());
            let errs: Vec<String> = e.errors.iter().map(|s| js(s)).collect();
            o += &format!(" \"errors\": [{}],\n", errs.join(", "));
            let ch: Vec<String> = e
                .checks
                .iter()
                .map(|(k, v)| format!("{}: {{\"by_simplification\": {}, \"by_solver\": {}, \"violated\": {}}}", js(k), v[0], v[1], v[2]))
                .collect();
            o += &format!(" \"checks\": {{{}}},\n", ch.join(", "));
            let cv: Vec<String> = e.covers.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
            o += &format!(" \"covers\": {{{}}},\n", cv.join(", "));
            let fs: BTreeMap<&str, u64> = e.func_hits.iter().filter(|(k, _)| k.contains("perf_event_data")).map(|(k, v)| (&**k, *v)).collect();
            let fs: Vec<String> = fs.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
            o += &format!(" \"functions\": {{{}}},\n \"functions_total\": {},\n", fs.join(", "), e.func_hits.len());
            let sm: Vec<String> = e.samples.iter().map(|s| format!("[\"{}\", {}]", hex(&s.0), js(&format!("{:016x}", s.1)))).collect();
            o += &format!(" \"samples\": [{}],\n", sm.join(", "));
            let outs: Vec<String> = e.outputs.iter().map(|s| js(s)).collect();
            o += &format!(" \"outputs\": [{}],\n", outs.join(", "));
            let vs: Vec<String> = e
                .viols
                .iter()
                .map(|v| {
                    let st: Vec<String> = v.stack.iter().map(|s| js(s)).collect();
                    let nt: Vec<String> = v.notes.iter().map(|s| js(s)).collect();
                    format!(
                        "{{\"kind\": {}, \"msg\": {}, \"input\": {}, \"stack\": [{}], \"notes\": [{}]}}",
                        js(&v.kind),
                        js(&v.msg),
                        js(&hex(&v.input)),
                        st.join(", "),
                        nt.join(", ")
                    )
                })
                .collect();
            o += &format!(" \"violations\": [{}]\n}}\n", vs.join(",\n  "));
            if out.is_empty() {
                print!("{}", o);
            } else {
                std::fs::write(&out, o).unwrap();
            }
        })
        .unwrap();
    if child.join().is_err() {
        eprintln!("engine thread panicked");
        std::process::exit(2);
    }
}
