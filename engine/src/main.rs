mod exec;
mod intr;
mod ir;
mod smt;
mod term;

use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::{Arc, Mutex};
use std::time::Instant;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nums(v: &[u128]) -> String {
    // decimal strings: inputs can exceed 2^53
    let s: Vec<String> = v.iter().map(|x| format!("\"{}\"", x)).collect();
    format!("[{}]", s.join(","))
}
fn map_json(m: &BTreeMap<String, u64>) -> String {
    let s: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    format!("{{{}}}", s.join(","))
}

fn report_json(entry: &str, shard: u64, nshards: u64, r: &Report) -> String {
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"entry\":{},\"shard\":{},\"nshards\":{},\"complete\":{},\"wall\":{:.3},\"paths_done\":{},\"paths_panic\":{},\"paths_dropped\":{},\"forks\":{},\"steps\":{},\"max_steps_path\":{},\"asserts\":{},\"asserts_normalised\":{},\"asserts_solver\":{},\"decided_by_normalisation\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"cross_checked\":{}",
        esc(entry), shard, nshards, r.complete, r.wall, r.paths_done, r.paths_panic, r.paths_dropped, r.forks, r.steps,
        r.max_steps_path, r.asserts, r.asserts_normalised, r.asserts_solver, r.decided_by_normalisation, r.queries, r.q_sat, r.q_unsat, r.q_unknown, r.q_cache, r.q_time, r.cross_checked
    );
    let u: Vec<String> = r.unsupported.iter().map(|s| esc(s)).collect();
    let _ = write!(o, ",\"unsupported\":[{}]", u.join(","));
    let v: Vec<String> = r
        .violations
        .iter()
        .map(|v| {
            let t: Vec<String> = v.trace.iter().map(|s| esc(s)).collect();
            format!(
                "{{\"kind\":{},\"msg\":{},\"assert_id\":{},\"inputs\":{},\"trace\":[{}]}}",
                esc(&v.kind),
                esc(&v.msg),
                v.assert_id.map(|x| x.to_string()).unwrap_or("null".into()),
                nums(&v.inputs),
                t.join(",")
            )
        })
        .collect();
    let _ = write!(o, ",\"violations\":[{}]", v.join(","));
    let s: Vec<String> = r
        .samples
        .iter()
        .map(|s| format!("{{\"inputs\":{},\"observes\":{},\"outcome\":{}}}", nums(&s.inputs), nums(&s.observes), esc(&s.outcome)))
        .collect();
    let _ = write!(o, ",\"samples\":[{}]", s.join(","));
    let _ = write!(o, ",\"functions\":{}", map_json(&r.functions));
    let _ = write!(o, ",\"stubs\":{}", map_json(&r.stubs));
    let c: Vec<String> = r.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let _ = write!(o, ",\"covers\":{{{}}}}}", c.join(","));
    o
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|s| s.as_str()) == Some("selftest") {
        let n: u64 = args.get(1).and_then(|s| s.parse().ok()).unwrap_or(2000);
        let seed: u64 = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
        std::process::exit(selftest(n, seed));
    }
    let mut ll = String::new();
    let mut out = String::new();
    let mut entries: Vec<(String, u64)> = vec![];
    let mut jobs = 8usize;
    let mut timeout = 600u64;
    let mut qtimeout = 20000u64;
    let mut max_steps = 20_000_000u64;
    let mut nsamples = 8usize;
    let mut cross = false;
    let mut raw = true;
    let mut seed = 1u64;
    let mut tier = 0u64;
    let mut solver = vec!["z3".to_string(), "-in".to_string()];
    let mut trace = false;
    let mut max_viol = 3usize;
    let mut dump = None;
    let mut i = 0;
    while i < args.len() {
        let nx = || args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ll" => ll = nx(),
            "--out" => out = nx(),
            "--entry" => {
                let a = nx();
                let (e, s) = match a.split_once(':') {
                    Some((e, s)) => (e.to_string(), s.parse().unwrap_or(1)),
                    None => (a.clone(), 1),
                };
                entries.push((e, s));
            }
            "--jobs" => jobs = nx().parse().unwrap(),
            "--timeout" => timeout = nx().parse().unwrap(),
            "--qtimeout" => qtimeout = nx().parse().unwrap(),
            "--max-steps" => max_steps = nx().parse().unwrap(),
            "--seed" => seed = nx().parse().unwrap(),
            "--samples" => nsamples = nx().parse().unwrap(),
            "--max-violations" => max_viol = nx().parse().unwrap(),
            "--tier" => tier = nx().parse().unwrap(),
            "--solver" => solver = nx().split(' ').map(|s| s.to_string()).collect(),
            "--dump" => dump = Some(nx()),
            "--norm" => {
                raw = false;
                i += 1;
                continue;
            }
            "--cross" => {
                cross = true;
                i += 1;
                continue;
            }
            "--trace" => {
                trace = true;
                i += 1;
                continue;
            }
            x => {
                eprintln!("unknown argument {}", x);
                std::process::exit(3);
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("cannot read the IR file");
    let m = Arc::new(ir::Module::load(text));
    eprintln!("loaded {} functions in {:.2}s", m.funcs.len(), t0.elapsed().as_secs_f64());
    let deadline = exec::Deadline::new(timeout);
    let mut tasks: Vec<(String, u64, u64)> = vec![];
    for (e, n) in &entries {
        for s in 0..*n {
            tasks.push((e.clone(), s, *n));
        }
    }
    tasks.reverse();
    let queue = Arc::new(Mutex::new(tasks));
    let results: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let mut hs = vec![];
    for _ in 0..jobs {
        let (q, rs, m, solver, dump) = (queue.clone(), results.clone(), m.clone(), solver.clone(), dump.clone());
        let deadline = deadline.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(1 << 28)
                .spawn(move || loop {
                    let t = match q.lock().unwrap().pop() {
                        Some(t) => t,
                        None => break,
                    };
                    let cfg = Cfg {
                        shard: t.1,
                        nshards: t.2,
                        max_steps,
                        deadline: deadline.clone(),
                        max_violations: max_viol,
                        nsamples,
                        trace,
                        tier,
                    };
                    let mut e = Engine::new(m.clone(), solver.clone(), qtimeout, cfg);
                    e.smt.dump = dump.clone();
                    e.tm.raw = raw;
                    e.reseed(seed);
                    if cross {
                        e.smt.cross = Some(vec!["cvc5".into(), "--lang=smt2".into()]);
                    }
                    e.run(&t.0);
                    let j = report_json(&t.0, t.1, t.2, &e.rep);
                    eprintln!(
                        "{:30} {}/{} done={} panic={} drop={} viol={} unsup={} asserts={} queries={} steps={} {:.2}s (solver {:.2}s)",
                        t.0, t.1, t.2, e.rep.paths_done, e.rep.paths_panic, e.rep.paths_dropped, e.rep.violations.len(),
                        e.rep.unsupported.len(), e.rep.asserts, e.rep.queries, e.rep.steps, e.rep.wall, e.rep.q_time
                    );
                    for v in &e.rep.violations {
                        eprintln!("   !! {}: {}   [{}]", v.kind, v.msg, v.trace.iter().take(4).cloned().collect::<Vec<_>>().join(" < "));
                        eprintln!("      inputs {:?}", v.inputs);
                    }
                    for v in e.rep.unsupported.iter().take(3) {
                        eprintln!("   ?? {}", v);
                    }
                    rs.lock().unwrap().push(j);
                })
                .unwrap(),
        );
    }
    for h in hs {
        if h.join().is_err() {
            eprintln!("engine thread panicked");
            std::process::exit(4);
        }
    }
    let rs = results.lock().unwrap();
    let body = format!("{{\"wall\":{:.3},\"reports\":[\n{}\n]}}\n", t0.elapsed().as_secs_f64(), rs.join(",\n"));
    if out.is_empty() {
        println!("{}", body);
    } else {
        std::fs::write(&out, body).expect("cannot write the report");
    }
}

/// Random terms built twice, once through the normalising constructors and once raw; the
/// solver must find no assignment on which they differ, and evaluation must agree with it.
fn selftest(n: u64, seed: u64) -> i32 {
    use term::*;
    let mut rng = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut next = move || {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        rng >> 11
    };
    let mut bad = 0;
    for round in 0..n {
        // build the same random expression through both constructors, with concrete evaluation
        let mut tm = Terms::new();
        let w = [8u32, 16, 32, 64][(next() % 4) as usize];
        let lo = -((next() % 9) as i128);
        let hi = (next() % 9) as i128;
        let mut pool: Vec<T> = vec![];
        let mut conc: Vec<u128> = vec![];
        let mut vals = vec![];
        for k in 0..3 {
            let v = tm.var(format!("x{}", k), w, lo, hi, true);
            let x = lo + (next() as i128 % (hi - lo + 1));
            vals.push(x as u128 & mask(w));
            pool.push(v);
            conc.push(x as u128 & mask(w));
        }
        for c in [0u128, 1, 2, 3, mask(w), 4, 8, next() as u128 & mask(w)] {
            let t = tm.konst(c, w);
            pool.push(t);
            conc.push(c);
        }
        for _ in 0..14 {
            let (i, j) = ((next() % pool.len() as u64) as usize, (next() % pool.len() as u64) as usize);
            let (a, b) = (pool[i], pool[j]);
            let (x, y) = (conc[i], conc[j]);
            let m = mask(w);
            let sx = |v: u128| ir::sext128(v, w);
            let (t, v) = match next() % 22 {
                0 | 1 => (tm.add(a, b), x.wrapping_add(y) & m),
                2 | 3 => (tm.sub(a, b), x.wrapping_sub(y) & m),
                4 | 5 => (tm.mul(a, b), x.wrapping_mul(y) & m),
                6 => (tm.neg(a), x.wrapping_neg() & m),
                7 => {
                    if y == 0 {
                        continue;
                    }
                    (tm.b2(B2::UDiv, a, b), eval_b2(B2::UDiv, x, y, w))
                }
                8 => {
                    if y == 0 {
                        continue;
                    }
                    (tm.b2(B2::SDiv, a, b), eval_b2(B2::SDiv, x, y, w))
                }
                9 => {
                    if y == 0 {
                        continue;
                    }
                    (tm.b2(B2::URem, a, b), x % y)
                }
                10 => {
                    if y == 0 {
                        continue;
                    }
                    (tm.b2(B2::SRem, a, b), eval_b2(B2::SRem, x, y, w))
                }
                11 => (tm.b2(B2::And, a, b), x & y),
                12 => (tm.b2(B2::Or, a, b), x | y),
                13 => (tm.b2(B2::Xor, a, b), x ^ y),
                14 => {
                    let k = next() as u128 % w as u128;
                    let kt = tm.konst(k, w);
                    (tm.b2(B2::Shl, a, kt), (x << k) & m)
                }
                15 => {
                    let k = next() as u128 % w as u128;
                    let kt = tm.konst(k, w);
                    (tm.b2(B2::LShr, a, kt), x >> k)
                }
                16 => {
                    let k = next() as u128 % w as u128;
                    let kt = tm.konst(k, w);
                    (tm.b2(B2::AShr, a, kt), (sx(x) >> k) as u128 & m)
                }
                17 => {
                    let c = tm.slt(a, b);
                    (tm.ite(c, a, b), if sx(x) < sx(y) { x } else { y })
                }
                18 => {
                    let c = tm.ult(a, b);
                    (tm.ite(c, b, a), if x < y { y } else { x })
                }
                19 => {
                    let c = tm.eq(a, b);
                    let s = tm.add(a, b);
                    (tm.ite(c, a, s), if x == y { x } else { x.wrapping_add(y) & m })
                }
                20 => {
                    let h = tm.sext(a, 2 * w);
                    let g = tm.sext(b, 2 * w);
                    let s = tm.mul(h, g);
                    let r = tm.extract(s, w - 1, 0);
                    (r, x.wrapping_mul(y) & m)
                }
                _ => {
                    let h = tm.zext(a, 2 * w);
                    let g = tm.extract(b, w / 2 - 1, 0);
                    let g = tm.zext(g, 2 * w);
                    let s = tm.add(h, g);
                    let r = tm.extract(s, w - 1, 0);
                    (r, x.wrapping_add(y & mask(w / 2)) & m)
                }
            };
            pool.push(t);
            conc.push(v);
        }
        let vv = vals.clone();
        let f = move |k: u32| vv[k as usize];
        let mut memo = std::collections::HashMap::new();
        for (t, v) in pool.iter().zip(&conc) {
            let e = tm.eval(*t, &f, &mut memo);
            if e != *v {
                eprintln!("selftest: round {} evaluation mismatch: {} vs {} for {:?}", round, e, v, tm.n(*t).op);
                bad += 1;
            }
            let nd = tm.n(*t);
            let s = ir::sext128(*v, w);
            if *v < nd.umin || *v > nd.umax || s < nd.smin || s > nd.smax {
                eprintln!("selftest: round {} interval does not contain the value: {:?}", round, nd.op);
                bad += 1;
            }
        }
        // the rendering must agree with the evaluation: (vars = vals) and t != v is unsat
        if round % 10 == 0 {
            let mut smt = smt::Smt::new(vec!["z3".into(), "-in".into()], 20000);
            let mut cs = vec![];
            for k in 0..3 {
                let c = tm.konst(vals[k], w);
                let e = tm.eq(pool[k], c);
                cs.push(e);
            }
            let mut any = tm.boolc(false);
            for (t, v) in pool.iter().zip(&conc) {
                let c = tm.konst(*v, w);
                let e = tm.eq(*t, c);
                let ne = tm.not(e);
                any = tm.or(any, ne);
            }
            cs.push(any);
            match smt.check(&tm, &cs) {
                smt::Res::Unsat => {}
                smt::Res::Sat(_) => {
                    eprintln!("selftest: round {} rendering disagrees with evaluation", round);
                    bad += 1;
                }
                smt::Res::Unknown(s) => eprintln!("selftest: unknown {}", s),
            }
        }
    }
    eprintln!("selftest: {} rounds, {} mismatches", n, bad);
    if bad == 0 {
        0
    } else {
        1
    }
}
