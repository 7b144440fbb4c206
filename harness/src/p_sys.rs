//! C22 and C23: sharing and histories; refusal of misuse.
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::p_scheme::*;
use crate::run::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use onion_pir::vp_hooks::*;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};

// ---------------------------------------------------------------- C22

type Bits = Vec<Vec<u64>>;
/// A ciphertext as data: every residue of every component.
fn bits_of(ct: &BfvCipherText) -> Bits {
    ct.cts.iter().flat_map(raw).collect()
}

/// Many threads answer queries of several clients over shared servers; every
/// answer is compared bit by bit with the one given when alone.
fn concurrent_queries(cx: &mut Cx) -> R {
    let c = if cx.tiny() { cfg(cx, &TINY) } else { small(cx, &PIR, 32) };
    let d = loop {
        // a second server, often of the same degree over different moduli
        let d = if cx.tiny() { cfg(cx, &TINY) } else { small(cx, &PIR, 32) };
        if cx.tiny() || d.n == c.n || cx.rng.gen_range(0..8) == 0 {
            break d;
        }
    };
    let mut jobs = vec![];
    let cs = [c, d];
    let rows = if cx.tiny() { 2 } else { 24 };
    for c in &cs {
        let (s, db, server) = shared_server(cx, c, rows);
        for _ in 0..2 {
            let sk = secret(cx, c);
            let eval = Arc::new(VpEvaluation::build(&sk, &c.params));
            for _ in 0..if cx.tiny() { 1 } else { 2 } {
                let i = cx.rng.gen_range(0..s.rows());
                let q = make_query(c, &sk, &s, i);
                jobs.push((c.clone(), server.clone(), eval.clone(), q, sk.coeffs.to_vec(), db[i].values.to_vec()));
            }
            if cx.tiny() {
                break;
            }
        }
    }
    // alone, each in a fresh thread
    let mut alone = vec![];
    for (c, server, eval, q, s, want) in &jobs {
        let r = std::thread::scope(|sc| sc.spawn(|| catch(|| server.decode(q.clone(), eval, &c.params))).join()).map_err(|_| "thread died".to_string())??;
        let sk = SecretKey::new(s.clone(), &c.params);
        ensure!(r.len() == 1 && decrypt(&sk, &r[0]) == *want, "the answer to a query is wrong");
        alone.push(bits_of(&r[0]));
    }
    // together
    let threads = if cx.tiny() { 2 } else { 6 };
    let per = if cx.tiny() { 1 } else { 4 };
    let bar = Barrier::new(threads);
    let clock = AtomicUsize::new(0);
    let log = Mutex::new(vec![]);
    let seeds: Vec<u64> = (0..threads).map(|_| cx.rng.gen()).collect();
    let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (jobs, alone, bar, clock, log, errs, seeds) = (&jobs, &alone, &bar, &clock, &log, &errs, &seeds);
            sc.spawn(move || {
                let mut rng = ChaCha8Rng::seed_from_u64(seeds[t]);
                let mut mine = vec![];
                bar.wait();
                for _ in 0..per {
                    let j = rng.gen_range(0..jobs.len());
                    for _ in 0..rng.gen_range(0..3) {
                        std::thread::yield_now();
                    }
                    let (c, server, eval, q, _, _) = &jobs[j];
                    let t0 = clock.fetch_add(1, Ordering::SeqCst);
                    let r = catch(|| server.decode(q.clone(), eval, &c.params));
                    let t1 = clock.fetch_add(1, Ordering::SeqCst);
                    mine.push((t0, t1, j));
                    match r {
                        Ok(r) if r.len() == 1 && bits_of(&r[0]) == alone[j] => {}
                        Ok(_) => errs.lock().unwrap().push(format!("query {} is answered differently when others run", j)),
                        Err(p) => errs.lock().unwrap().push(p),
                    }
                }
                log.lock().unwrap().extend(mine);
            });
        }
    });
    if let Some(e) = errs.into_inner().unwrap().into_iter().next() {
        return Err(e);
    }
    let mut log = log.into_inner().unwrap();
    log.sort();
    let overlap = log.iter().enumerate().flat_map(|(i, a)| log[i + 1..].iter().map(move |b| (a, b))).filter(|(a, b)| b.0 < a.1).count();
    cx.events("answers compared", log.len() as u64);
    cx.events("overlapping pairs of queries", overlap as u64);
    cx.eval(overlap > 0, &log);
    cx.sample(|| format!("{} / {}: start-end-query {:?}", cs[0].desc(), cs[1].desc(), log));
    Ok(())
}
fn small(cx: &mut Cx, class: &'static Class, n: usize) -> Arc<Cfg> {
    loop {
        let c = cfg(cx, class);
        if c.n <= n {
            return c;
        }
    }
}

/// Everything deterministic the library computes for one parameter set, as data.
struct Task {
    c: Arc<Cfg>,
    lv: usize,
    sk: Vec<i64>,
    m: Vec<u64>,
    poly: Vec<BigUint>,
    seed: [u8; 32],
    k: usize,
    ct: BfvCipherText,
    ct2: BfvCipherText,
    ksk: Ksk,
    gk: GaliosKey,
    rlk: Option<RelinearizationKey>,
    rgsw: RgswCt,
}
const OPS: usize = 14;
fn task(cx: &mut Cx, c: &Arc<Cfg>) -> Task {
    let lv = level(cx, c, 2);
    let sk = secret(cx, c);
    let m = vals(&mut cx.rng, c.n, c.t);
    let crt = Crt::new(c.ql(lv));
    let poly = crt_vals(&mut cx.rng, c.n, &crt);
    let k = 2 * cx.rng.gen_range(0..c.n) + 1;
    let pt = Plaintext::new(&c.params, &m, lv, Encoding::Poly);
    Task {
        lv,
        ct: sk.encrypt(&pt),
        ct2: sk.encrypt(&pt),
        ksk: Ksk::new_with_pt(&sk, &pt, lv, lv),
        gk: GaliosKey::new(&sk, &Substitution::new(&c.ctx(lv), k), lv),
        rlk: Some(RelinearizationKey::new(&sk, lv)),
        rgsw: RgswCt::encrypt(&sk, &pt),
        sk: sk.coeffs.to_vec(),
        m,
        poly,
        seed: seed32(&mut cx.rng),
        k,
        c: c.clone(),
    }
}
fn op(t: &Task, o: usize) -> Bits {
    let c = &t.c;
    let ctx = c.ctx(t.lv);
    let two = |p: (Poly, Poly)| -> Bits { raw(&p.0).into_iter().chain(raw(&p.1)).collect() };
    match o {
        0 => raw(&poly_from_big(&ctx, &t.poly, true)),
        1 => {
            let mut p = Poly::try_from_bigint(&ctx, &t.poly);
            p.change_representation(Representation::Ntt);
            p.change_representation(Representation::PowerBasis);
            raw(&p)
        }
        2 => raw(&Poly::random_from_seed(&ctx, Representation::Ntt, t.seed)),
        3 => vec![Plaintext::new(&c.params, &t.m, t.lv, Encoding::SIMD).values.to_vec()],
        4 => {
            let mut p = Plaintext::new(&c.params, &t.m, t.lv, Encoding::Poly);
            p.set_encoding(Encoding::SIMD);
            vec![p.decode()]
        }
        5 => raw(&Plaintext::new(&c.params, &t.m, t.lv, Encoding::Poly).to_poly()),
        6 => {
            let sk = SecretKey::new(t.sk.clone(), &c.params);
            vec![decrypt(&sk, &t.ct), vec![sk.measure_noise(&t.ct) as u64]]
        }
        7 => two(t.ksk.key_switch(&Poly::try_from_bigint(&ctx, &t.poly))),
        8 => bits_of(&t.gk.relinearize(&t.ct)),
        9 => match &t.rlk {
            Some(r) => bits_of(&multiply_with_strategy(&t.ct, &t.ct2, r)),
            None => vec![],
        },
        10 => two(RgswCt::external_product(&t.rgsw, &t.ct)),
        11 => {
            let mut p = Poly::try_from_bigint(&ctx, &t.poly);
            p.mod_switch_down_next();
            raw(&p)
        }
        12 => {
            let s = Substitution::new(&ctx, t.k);
            let p = poly_from_big(&ctx, &t.poly, true);
            raw(&p.substitute(&s)).into_iter().chain(raw(&Poly::try_from_bigint(&ctx, &t.poly).substitute(&s))).collect()
        }
        _ => {
            let n = NttOperator::new(&Modulus::new(c.t), c.n);
            let mut v = t.m.clone();
            n.forward(&mut v);
            let a = v.clone();
            n.backward(&mut v);
            let md = Modulus::new(c.q[0]);
            let inv: Vec<u64> = t.m.iter().map(|x| if x % c.q[0] == 0 { 0 } else { md.inv(x % c.q[0]) }).collect();
            vec![a, v, inv]
        }
    }
}
/// What the library computes from parameters it builds on the spot: nothing of
/// an earlier parameter set, dropped or alive, may show.
fn rebuilt(c: &Cfg, t: &Task, o: usize) -> Bits {
    let d = Cfg::new(c.n, c.t, c.q.clone(), c.v);
    let pt = Plaintext::new(&d.params, &t.m, t.lv, Encoding::Poly);
    match o {
        0 => {
            let mut p = poly_from_big(&d.ctx(t.lv), &t.poly, true);
            let a = raw(&p.substitute(&Substitution::new(&d.ctx(t.lv), t.k)));
            p.change_representation(Representation::PowerBasis);
            p.mod_switch_down_next();
            a.into_iter().chain(raw(&p)).chain(raw(&pt.to_poly())).collect()
        }
        1 => {
            // with randomness of this thread: only messages are comparable
            let sk = SecretKey::generate(&d.params);
            let ct = sk.encrypt(&pt);
            let mut out = vec![];
            if d.fresh() <= d.room(t.lv) {
                out.push(decrypt(&sk, &ct));
            }
            if d.fresh() + d.ks(t.lv) <= d.room(t.lv) {
                let gk = GaliosKey::new(&sk, &Substitution::new(&d.ctx(t.lv), t.k), t.lv);
                out.push(decrypt(&sk, &gk.relinearize(&ct)));
            }
            out
        }
        2 => {
            let sk = SecretKey::new(t.sk.clone(), &d.params);
            let e = vec![num_bigint::BigInt::zero(); d.n];
            let ct = craft(&d, t.lv, &t.sk, &t.m, &e, &t.poly);
            let mut out = bits_of(&ct);
            out.push(decrypt(&sk, &ct));
            out
        }
        _ => {
            // expansion and retrieval
            let sk = SecretKey::generate(&d.params);
            let shapes = [(2, 2, 2), (3, 2, 1), (2, 3, 1), (4, 2, 0)];
            let (first, dim, k) = shapes[t.k % shapes.len()];
            let s = Shape { first, dim, k };
            let mut out = vec![];
            if unpack_noise(&d) + d.fresh() > d.room(0) {
                return out;
            }
            let eval = VpEvaluation::build(&sk, &d.params);
            for c in eval.unpack(sk.encrypt(&Plaintext::new(&d.params, &t.m, 0, Encoding::Poly))) {
                out.push(decrypt(&sk, &c));
            }
            if pir_noise(&d, &s) <= d.room(0) {
                let db: Vec<Plaintext> = (0..s.rows())
                    .map(|i| {
                        let v: Vec<u64> = t.m.iter().map(|x| (x + i as u64) % d.t).collect();
                        Plaintext::new(&d.params, &v, 0, Encoding::Poly)
                    })
                    .collect();
                let server = VpServer::new(first, dim, &db, &d.params);
                let ans = server.decode(make_query(&d, &sk, &s, t.k % s.rows()), &eval, &d.params);
                out.extend(ans.iter().map(|a| decrypt(&sk, a)));
            }
            out
        }
    }
}
const ALL_OPS: usize = OPS + 4;
fn any_op(t: &Task, o: usize) -> Bits {
    if o < OPS {
        op(t, o)
    } else {
        rebuilt(&t.c, t, o - OPS)
    }
}
/// A task that depends on its arguments only: built in a thread of its own.
fn task_of(c: &Arc<Cfg>, seed: u64, tier: Tier) -> Result<Task, String> {
    std::thread::scope(|s| {
        s.spawn(|| {
            catch(|| {
                getrandom::vp_seed(seed);
                task(&mut Cx::derived(seed, tier), c)
            })
        })
        .join()
    })
    .map_err(|_| "thread died".to_string())?
}
/// Each operation of a task in a fresh thread, as a digest.
fn digests(t: &Task) -> Result<Vec<u64>, String> {
    (0..ALL_OPS)
        .map(|o| std::thread::scope(|s| s.spawn(|| catch(|| hash(&any_op(t, o)))).join()).map_err(|_| "thread died".to_string())?)
        .collect()
}
/// `vp alone N T V Q,Q,... SEED`: the digests of a task in a process of its own.
pub fn alone_main(a: &[String]) -> i32 {
    let num = |i: usize| a[i].parse::<u64>().expect("number");
    let q: Vec<u64> = a[3].split(',').map(|x| x.parse().expect("modulus")).collect();
    let r = catch(|| Arc::new(Cfg::new(num(0) as usize, num(1), q, num(2) as usize)))
        .and_then(|c| task_of(&c, num(4), Tier::Quick))
        .and_then(|t| digests(&t));
    match r {
        Ok(d) => {
            println!("{}", d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
            0
        }
        Err(e) => {
            println!("{}", e);
            4
        }
    }
}
fn alone(c: &Cfg, seed: u64) -> Result<Vec<u64>, String> {
    let q = c.q.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let o = std::process::Command::new(std::env::current_exe().expect("exe"))
        .args(["alone", &c.n.to_string(), &c.t.to_string(), &c.v.to_string(), &q, &seed.to_string()])
        .output()
        .expect("spawn");
    let out = String::from_utf8_lossy(&o.stdout).trim().to_string();
    let d: Vec<u64> = out.split(' ').filter_map(|x| x.parse().ok()).collect();
    ensure!(o.status.success() && d.len() == ALL_OPS, "a single parameter set in a process of its own fails: {} {}", out, String::from_utf8_lossy(&o.stderr).lines().take(5).collect::<Vec<_>>().join(" | "));
    Ok(d)
}
/// Parameter sets that agree in some respects and not in others.
fn relatives(cx: &mut Cx) -> Vec<(usize, u64, Vec<u64>, usize)> {
    let a = small(cx, &MEDIUM, 32);
    let mut out = vec![(a.n, a.t, a.q.clone(), a.v)];
    // same moduli in another order
    let mut q = a.q.clone();
    q.shuffle(&mut cx.rng);
    if q != a.q {
        out.push((a.n, a.t, q, a.v));
    }
    // same moduli, another plaintext modulus
    for _ in 0..20 {
        let b = cx.rng.gen_range((2 * a.n).ilog2() as usize + 2..=20);
        if let Some(t) = ntt_prime(&mut cx.rng, b, 2 * a.n as u64, &a.q) {
            if t != a.t {
                out.push((a.n, t, a.q.clone(), a.v));
                break;
            }
        }
    }
    // fewer moduli: equal to a lower level
    if a.q.len() > 2 {
        out.push((a.n, a.t, a.q[..a.q.len() - 1].to_vec(), a.v));
    }
    // one modulus replaced, or one more
    let mut q = a.q.clone();
    let i = cx.rng.gen_range(0..q.len());
    if let Some(p) = ntt_prime(&mut cx.rng, 64 - q[i].leading_zeros() as usize, 2 * a.n as u64, &q) {
        if cx.rng.gen() {
            q[i] = p;
        } else {
            q.push(p);
        }
        out.push((a.n, a.t, q, a.v));
    }
    // another variance
    if cx.rng.gen() {
        out.push((a.n, a.t, a.q.clone(), 1 + a.v % 16));
    }
    // the same moduli for another degree, where they serve
    if a.n > 8 && cx.rng.gen() {
        out.push((a.n / 2, a.t, a.q.clone(), a.v));
    }
    out
}
fn histories(cx: &mut Cx) -> R {
    let specs = if cx.tiny() {
        let c = cfg(cx, &TINY);
        vec![(c.n, c.t, c.q.clone(), c.v)]
    } else {
        relatives(cx)
    };
    let make = |s: &(usize, u64, Vec<u64>, usize)| Arc::new(Cfg::new(s.0, s.1, s.2.clone(), s.3));
    let seeds: Vec<u64> = specs.iter().map(|_| cx.rng.gen()).collect();
    let n_ops = if cx.tiny() { 20 } else { 100 };
    let plan: Vec<(usize, usize)> = (0..n_ops).map(|_| (cx.rng.gen_range(0..specs.len()), cx.rng.gen_range(0..ALL_OPS))).collect();
    // each operation with no history of its own, nor of its process
    let mut fresh: Vec<Vec<u64>> = vec![];
    for (s, seed) in specs.iter().zip(&seeds) {
        let c = make(s);
        fresh.push(if cx.tiny() { digests(&task_of(&c, *seed, cx.tier)?)? } else { alone(&c, *seed)? });
    }
    // parameter sets come and go
    let mut live: Vec<Option<Task>> = specs.iter().map(|_| None).collect();
    let mut built = 0;
    for (i, key) in plan.iter().enumerate() {
        if live[key.0].is_none() {
            // the parameters are built by the thread with the history
            live[key.0] = Some(task_of(&make(&specs[key.0]), seeds[key.0], cx.tier)?);
            built += 1;
        }
        let t = live[key.0].as_ref().unwrap();
        let r = hash(&any_op(t, key.1));
        ensure!(r == fresh[key.0][key.1], "operation {} on {} after {:?} (parameter set, operation) of {:?} differs from the same operation alone", key.1, t.c.desc(), &plan[..i], specs);
        cx.event(&format!("operation {}", key.1));
        if cx.rng.gen_range(0..4) == 0 {
            let j = cx.rng.gen_range(0..live.len());
            live[j] = None;
        }
    }
    cx.eval(specs.len() > 1, &(&specs, &plan));
    cx.events("parameter sets interleaved", specs.len() as u64);
    cx.events("parameter sets built in a history", built);
    cx.sample(|| format!("{} relatives of {:?}: {:?}", specs.len(), specs[0], plan));
    Ok(())
}
/// Several threads work over related parameter sets at once.
fn parallel_histories(cx: &mut Cx) -> R {
    let specs = if cx.tiny() {
        let c = cfg(cx, &TINY);
        vec![(c.n, c.t, c.q.clone(), c.v)]
    } else {
        relatives(cx)
    };
    let seeds: Vec<u64> = specs.iter().map(|_| cx.rng.gen()).collect();
    let (mut fresh, mut tasks) = (vec![], vec![]);
    for (s, seed) in specs.iter().zip(&seeds) {
        let c = Arc::new(Cfg::new(s.0, s.1, s.2.clone(), s.3));
        let t = task_of(&c, *seed, cx.tier)?;
        fresh.push(if cx.tiny() { digests(&t)? } else { alone(&c, *seed)? });
        tasks.push(t);
    }
    let threads = if cx.tiny() { 2 } else { 6 };
    let per = if cx.tiny() { 5 } else { 25 };
    let bar = Barrier::new(threads);
    let seeds: Vec<u64> = (0..threads).map(|_| cx.rng.gen()).collect();
    let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (tasks, fresh, bar, errs, seeds) = (&tasks, &fresh, &bar, &errs, &seeds);
            sc.spawn(move || {
                let mut rng = ChaCha8Rng::seed_from_u64(seeds[t]);
                bar.wait();
                for i in 0..per {
                    let (j, o) = (rng.gen_range(0..tasks.len()), rng.gen_range(0..ALL_OPS));
                    match catch(|| hash(&any_op(&tasks[j], o))) {
                        Ok(h) if h == fresh[j][o] => {}
                        Ok(_) => errs.lock().unwrap().push(format!("operation {} on {} differs when other threads work (step {} of thread {})", o, tasks[j].c.desc(), i, t)),
                        Err(p) => errs.lock().unwrap().push(p),
                    }
                    if rng.gen_range(0..3) == 0 {
                        std::thread::yield_now();
                    }
                }
            });
        }
    });
    if let Some(e) = errs.into_inner().unwrap().into_iter().next() {
        return Err(e);
    }
    cx.events("operations compared under concurrency", (threads * per) as u64);
    cx.eval(specs.len() > 1, &(&specs, &seeds));
    cx.sample(|| format!("{} threads over {:?}", threads, specs));
    Ok(())
}
type Job<'a> = Box<dyn Fn() -> u64 + Sync + Send + 'a>;
/// One short operation at a time, by all threads at once, over operands that
/// differ from thread to thread: the steps inside one call meet those of others.
fn storm(cx: &mut Cx) -> R {
    let specs = if cx.tiny() {
        let c = cfg(cx, &TINY);
        vec![(c.n, c.t, c.q.clone(), c.v)]
    } else {
        let mut s = relatives(cx);
        s.shuffle(&mut cx.rng);
        s.truncate(3);
        s
    };
    let mut tasks = vec![];
    for s in &specs {
        let c = Arc::new(Cfg::new(s.0, s.1, s.2.clone(), s.3));
        for _ in 0..(if cx.tiny() { 1 } else { 2 }) {
            let seed = cx.rng.gen();
            tasks.push(task_of(&c, seed, cx.tier)?);
        }
    }
    let salt: u64 = cx.rng.gen();
    let mut groups: Vec<(String, Vec<Job>)> = vec![];
    for o in 0..OPS {
        groups.push((format!("operation {}", o), tasks.iter().map(|t| Box::new(move || hash(&op(t, o))) as Job).collect()));
    }
    // what is built on the spot from arguments alone
    type Build = fn(&Task, usize) -> u64;
    let builds: [(&str, Build); 13] = [
        ("substitution", |t, j| {
            let ctx = t.c.ctx(t.lv);
            let p = Poly::try_from_bigint(&ctx, &t.poly[..1]);
            let mut x = Poly::try_from_vec_u64(&ctx, &[0, 1]);
            x.change_representation(Representation::Ntt);
            let s = Substitution::new(&ctx, 2 * (j % t.c.n) + 1);
            hash(&(raw(&x.substitute(&s)), raw(&p.substitute(&s))))
        }),
        ("ring", |t, j| {
            let k = 1 + j % t.c.q.len();
            let ctx = Arc::new(RqContext::new(t.c.q[..k].to_vec(), t.c.n, BD));
            let mut p = Poly::try_from_vec_u64(&ctx, &t.m);
            p.change_representation(Representation::Ntt);
            hash(&raw(&p))
        }),
        ("transform", |t, j| {
            let q = t.c.q[j % t.c.q.len()];
            let n = NttOperator::new(&Modulus::new(q), t.c.n >> (j % 2 * (t.c.n > 8) as usize));
            let mut v: Vec<u64> = t.m[..t.c.n >> (j % 2 * (t.c.n > 8) as usize)].iter().map(|x| x % q).collect();
            n.forward(&mut v);
            hash(&v)
        }),
        ("residues", |t, j| {
            let mut q = t.c.q.clone();
            let k = j % q.len();
            q.rotate_left(k);
            let r = RnsContext::new(&q);
            let x = r.project(&t.poly[j % t.c.n]);
            hash(&(r.lift((&x).into()).to_bytes_le(), r.garner.iter().map(|g| g.to_bytes_le()).collect::<Vec<_>>(), x))
        }),
        ("scaler", |t, j| {
            let (from, to) = (t.c.ctx(0), t.c.params.e_ctxs[j % t.c.levels()].clone());
            let s = RqScaler::new(&from, &to, ScalingFactor::new(BigUint::from(1 + j % 5), BigUint::from(1 + j / 5 % 5)));
            hash(&raw(&rq_scale(&s, &Poly::try_from_bigint(&from, &t.poly))))
        }),
        ("encoding", |t, j| {
            let mut m = t.m.clone();
            m.rotate_left(j % t.c.n);
            let a = Plaintext::new(&t.c.params, &m, j % t.c.levels(), Encoding::SIMD);
            let mut b = Plaintext::new(&t.c.params, &m, j % t.c.levels(), Encoding::Poly);
            b.set_encoding(Encoding::SIMD);
            hash(&(a.values.to_vec(), b.decode(), a.decode(), raw(&a.to_poly())))
        }),
        ("primes", |t, j| {
            let b = 20 + j % 40;
            let p = generate_prime(b, 2 * t.c.n as u64, 1 << b);
            hash(&(p, BfvParameters::generate_moduli(&[b, b, b + 1], t.c.n), (0..20).map(|i| is_prime(t.c.q[0] + i)).collect::<Vec<_>>()))
        }),
        ("words", |t, j| {
            let q = Modulus::new(t.c.q[j % t.c.q.len()]);
            let v: Vec<u64> = t.m.iter().map(|x| q.reduce(x.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ j as u64)).collect();
            let w = v[j % v.len()];
            let s = q.shoup(w);
            let mut r = q.scalar_mul_vec(&v, w).iter().map(|x| q.reduce(*x)).collect::<Vec<_>>();
            r.extend(v.iter().map(|x| q.mul_shoup(*x, w, s)));
            r.push(q.pow(w, 12345 + j as u64));
            r.push(mod_inverse(w.max(1), q.p).unwrap_or(0));
            r.push(q.reduce_biguint(&t.poly[j % t.c.n]));
            hash(&r)
        }),
        ("seeds", |t, j| {
            let mut s = t.seed;
            s[j % 32] ^= 1 + (j / 32) as u8;
            hash(&raw(&Poly::random_from_seed(&t.c.ctx(j % t.c.levels()), Representation::Ntt, s)))
        }),
        ("linear", |t, j| {
            let lv = t.lv;
            let pt = Plaintext::new(&t.c.params, &t.m[..1 + j % t.c.n].to_vec(), lv, Encoding::Poly);
            let p = poly_from_big(&t.c.ctx(lv), &t.poly[j % t.c.n..], true);
            let s = &(&t.ct + &t.ct2) - &(&t.ct * &pt);
            let v = omr_inner_product(&vec![s.clone(), t.ct2.clone(), t.ct.clone()], &vec![p.clone(), p.clone(), &p + &p]);
            hash(&(bits_of(&(&v + &p)), bits_of(&(&s * &t.poly[j % t.c.n])), raw(&-&p)))
        }),
        ("levels", |t, j| {
            let mut p = Poly::try_from_bigint(&t.c.ctx(0), &t.poly);
            p.mod_switch_to(&t.c.ctx(j % t.c.levels()));
            let ctx = t.c.ctx(j % t.c.levels());
            hash(&(raw(&p), t.c.params.ctx_level(&ctx), t.c.ctx(0).switch_iterations(&ctx)))
        }),
        ("query", |t, j| {
            let sk = SecretKey::new(t.sk.clone(), &t.c.params);
            let (first, dim) = (1 + j % 4, 2 + j / 4 % 3);
            let e = VpClient::new(first, dim).encode(vec![j % first, j % dim, j / 2 % dim], first * dim * dim, &t.c.params, &sk);
            hash(&(e, decompose_bits(t.poly[0].iter_u64_digits().next().unwrap_or(0), 64, 1 + j % 9), bit_vector(64, t.m[j % t.m.len()])))
        }),
        ("keys", |t, j| {
            // keys are random, the messages they carry are not
            let c = &t.c;
            let sk = SecretKey::new(t.sk.clone(), &c.params);
            if c.fresh() + c.ks(t.lv) > c.room(t.lv) {
                return 0;
            }
            let k = 2 * (j % c.n) + 1;
            let pt = Plaintext::new(&c.params, &t.m, t.lv, Encoding::Poly);
            let gk = GaliosKey::new(&sk, &Substitution::new(&c.ctx(t.lv), k), t.lv);
            hash(&decrypt(&sk, &gk.relinearize(&sk.encrypt(&pt))))
        }),
    ];
    for (name, f) in builds {
        let f: Build = f;
        let jobs = tasks.iter().enumerate().flat_map(|(i, t)| (0..5usize).map(move |j| {
            let j = ((salt >> (4 * i)) as usize % 64) + j;
            Box::new(move || f(t, j)) as Job
        })).collect();
        groups.push((name.to_string(), jobs));
    }
    let threads = if cx.tiny() { 2 } else { 6 };
    let mut calls = 0u64;
    for (name, jobs) in &groups {
        // each alone first; its time decides how often it is repeated
        let t0 = std::time::Instant::now();
        let mut want = vec![];
        for j in jobs {
            want.push(catch(|| j()).map_err(|e| format!("{} fails: {}", name, e))?);
        }
        let each = t0.elapsed().as_micros() as u64 / jobs.len() as u64 + 1;
        let per = if cx.tiny() { 2 } else { (12_000 / each).clamp(12, 1500) };
        let bar = Barrier::new(threads);
        let seeds: Vec<u64> = (0..threads).map(|_| cx.rng.gen()).collect();
        let bad: Mutex<Option<String>> = Mutex::new(None);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (bar, bad, want, seed) = (&bar, &bad, &want, seeds[t]);
                sc.spawn(move || {
                    let mut rng = ChaCha8Rng::seed_from_u64(seed);
                    bar.wait();
                    for i in 0..per {
                        let j = rng.gen_range(0..jobs.len());
                        let e = match catch(|| jobs[j]()) {
                            Ok(h) if h == want[j] => continue,
                            Ok(_) => format!("call {} of thread {} differs from the same call alone", i, t),
                            Err(e) => e,
                        };
                        *bad.lock().unwrap() = Some(e);
                        break;
                    }
                });
            }
        });
        if let Some(e) = bad.into_inner().unwrap() {
            return Err(format!("{} by {} threads at once: {}; parameters {:?}", name, threads, e, specs));
        }
        calls += per * threads as u64;
        cx.event(&format!("storm: {}", name));
    }
    cx.events("calls compared in storms", calls);
    cx.eval(tasks.len() > 1, &(&specs, salt));
    cx.sample(|| format!("{} calls by {} threads over {:?}", calls, threads, specs));
    Ok(())
}
/// Two parties that construct equal parameters independently interoperate.
fn interoperate(cx: &mut Cx) -> R {
    let c = if cx.tiny() { cfg(cx, &TINY) } else { small(cx, &PIR, 32) };
    // elsewhere: another thread, after other work
    let other = {
        let (n, t, q, v) = (c.n, c.t, c.q.clone(), c.v);
        let warm: u64 = cx.rng.gen();
        std::thread::spawn(move || {
            catch(|| {
                getrandom::vp_seed(warm);
                if warm % 2 == 0 {
                    let _ = SecretKey::generate(&Arc::new(BfvParameters::default(1, 8, BD)));
                }
                Cfg::new(n, t, q, v)
            })
        })
        .join()
        .map_err(|_| "thread died".to_string())??
    };
    ensure!(other.params == c.params, "equal parameters constructed twice are not equal; {}", c.desc());
    let rows = if cx.tiny() { 2 } else { 12 };
    let s = shape(cx, &c, rows);
    // the server's database and context are its own
    let dbc = Cfg { n: other.n, t: other.t, q: other.q.clone(), v: other.v, params: other.params.clone() };
    let db = make_db(cx, &dbc, s.rows());
    let server = VpServer::new(s.first, s.dim, &db, &other.params);
    let sk = secret(cx, &c);
    let eval = VpEvaluation::build(&sk, &c.params);
    let i = cx.rng.gen_range(0..s.rows());
    let q = make_query(&c, &sk, &s, i);
    let ans = server.decode(q, &eval, &other.params);
    let got = decrypt(&sk, &ans[0]);
    ensure!(got == db[i].values.to_vec(), "row {} retrieved between two parties is {:?}; {}", i, got, c.desc());
    // a key moved between the parties
    let sk2 = SecretKey::new(sk.coeffs.to_vec(), &other.params);
    let m = vals(&mut cx.rng, c.n, c.t);
    let lv = level(cx, &c, 1);
    if c.fresh() * 2u64 <= c.room(lv) {
        let a = sk.encrypt(&Plaintext::new(&c.params, &m, lv, Encoding::Poly));
        let b = sk2.encrypt(&Plaintext::new(&other.params, &m, lv, Encoding::Poly));
        ensure!(decrypt(&sk2, &a) == m && decrypt(&sk, &b) == m, "a ciphertext of one party does not decrypt for the other");
        let two: Vec<u64> = m.iter().map(|x| addmod(*x, *x, c.t)).collect();
        ensure!(decrypt(&sk, &(&a + &b)) == two, "sum of ciphertexts of two parties is wrong");
    }
    cx.eval(s.rows() > 1, &(c.desc(), i, got));
    cx.event("two parties");
    Ok(())
}
pub fn c22() -> Prop {
    Prop {
        id: "C22",
        quick: 240,
        thorough: 4000,
        rule: "case = (concurrent) 2 servers, up to 4 clients, 6 threads with random yields, each answer compared bitwise with the answer given alone; (histories) 100 operations interleaved over up to 7 parameter sets, built and dropped on the way, that agree in degree, moduli, variance or plaintext modulus but not all, each compared bitwise with the same operation in a fresh thread of another process that never saw another parameter set; (parallel) the same operations in 6 threads at once; (storm) 6 threads in step at one short operation with different operands, at parameter sets built on the spot; (interoperate) client and server with independently constructed equal parameters. Non-trivial: queries overlapped in time / more than one parameter set / more than one row.",
        kinds: vec![
            Kind { name: "concurrent", weight: 1, f: concurrent_queries },
            Kind { name: "histories", weight: 4, f: histories },
            Kind { name: "parallel", weight: 2, f: parallel_histories },
            Kind { name: "storm", weight: 2, f: storm },
            Kind { name: "interoperate", weight: 3, f: interoperate },
        ],
    }
}

// ---------------------------------------------------------------- C23

macro_rules! refused {
    ($cx:expr, $what:expr, $c:expr, $e:expr) => {{
        let r = catch(|| {
            let _ = $e;
        });
        ensure!(r.is_err(), "accepted: {}; {}", $what, $c);
        $cx.eval(true, &($what, &$c));
        $cx.event(&format!("refused: {}", $what));
    }};
}
/// An in-place call: refused, and its operand as before.
macro_rules! kept {
    ($cx:expr, $what:expr, $c:expr, $p:expr, $t:ident, $e:expr) => {{
        let mut v = $p.clone();
        let r = catch(|| {
            let $t = &mut v;
            let _ = $e;
        });
        ensure!(r.is_err(), "accepted: {}; {}", $what, $c);
        ensure!(v == $p, "changed its operand though refused: {}; {}", $what, $c);
        $cx.eval(true, &($what, &$c));
        $cx.event(&format!("refused: {}", $what));
    }};
}
macro_rules! accepted {
    ($cx:expr, $what:expr, $c:expr, $e:expr) => {{
        let r = catch(|| {
            let _ = $e;
        });
        ensure!(r.is_ok(), "refused: {}; {}; {}", $what, $c, r.err().unwrap_or_default());
        $cx.eval(true, &($what, &$c, "ok"));
        $cx.event(&format!("accepted: {}", $what));
    }};
}
fn ct_at(c: &Cfg, sk: &SecretKey, lv: usize, m: &[u64]) -> BfvCipherText {
    sk.encrypt(&Plaintext::new(&c.params, &m.to_vec(), lv, Encoding::Poly))
}
/// Polynomial arithmetic across rings, in every form. With an operand over an
/// extension of the other's ring the result is well defined (the operand is
/// reduced); anything else is refused and the operands stay as they were.
fn mixed_rings(cx: &mut Cx, l: &Poly, r: &Poly, why: &str, d: &str) -> R {
    let extension = l.context.degree == r.context.degree && r.context.moduli_64.starts_with(&l.context.moduli_64);
    let (l0, r0) = (l.clone(), r.clone());
    if extension {
        let mut red = r.clone();
        red.change_representation(Representation::PowerBasis);
        let mut red = Poly::try_from_bigint(&l.context, &Vec::<BigUint>::from(&red));
        red.change_representation(Representation::Ntt);
        for (op, got, want) in [
            ("+", catch(|| l + r), l + &red),
            ("-", catch(|| l - r), l - &red),
            ("*", catch(|| l * r), l * &red),
        ] {
            if let Ok(g) = got {
                ensure!(g == want, "poly {} poly {}: neither refused nor reduced; {}", op, why, d);
            }
            cx.eval(true, &(op, why, d));
            cx.event("operand over an extension: reduced or refused");
        }
    } else {
        refused!(cx, format!("poly + poly {}", why), d, l + r);
        refused!(cx, format!("poly - poly {}", why), d, l - r);
        refused!(cx, format!("poly * poly {}", why), d, l * r);
        let mut t = l.clone();
        refused!(cx, format!("poly += poly {}", why), d, t += r);
        ensure!(t == l0, "a refused addition changed its operand; {}", d);
        refused!(cx, format!("poly -= poly {}", why), d, t -= r);
        ensure!(t == l0, "a refused subtraction changed its operand; {}", d);
        refused!(cx, format!("poly *= poly {}", why), d, t *= r);
        ensure!(t == l0, "a refused product changed its operand; {}", d);
    }
    ensure!(*l == l0 && *r == r0, "a mixed operation changed its operand; {}", d);
    Ok(())
}
/// Operands under different parameters or at different levels.
fn foreign(cx: &mut Cx) -> R {
    let a = small(cx, &MEDIUM, 32);
    let n2 = 2 * a.n as u64;
    let mut others: Vec<(&str, Cfg)> = vec![];
    // differing in one respect only
    let tb = (n2.ilog2() as usize + 2).max(8);
    let t2 = loop {
        let b = cx.rng.gen_range(tb..=20);
        if let Some(t) = ntt_prime(&mut cx.rng, b, n2, &a.q) {
            if t != a.t {
                break t;
            }
        }
    };
    others.push(("another plaintext modulus", Cfg::new(a.n, t2, a.q.clone(), a.v)));
    let v2 = if a.v == 16 { 15 } else { a.v + 1 };
    others.push(("another noise variance", Cfg::new(a.n, a.t, a.q.clone(), v2)));
    let mut q = a.q.clone();
    q.reverse();
    others.push(("moduli in another order", Cfg::new(a.n, a.t, q, a.v)));
    let mut q = a.q.clone();
    let i = cx.rng.gen_range(0..q.len());
    if let Some(p) = ntt_prime(&mut cx.rng, 64 - q[i].leading_zeros() as usize, n2, &q) {
        q[i] = p;
        others.push(("another modulus", Cfg::new(a.n, a.t, q, a.v)));
    }
    others.push(("fewer moduli", Cfg::new(a.n, a.t, a.q[..a.q.len() - 1].to_vec(), a.v)));
    if a.n > 8 {
        others.push(("another degree", Cfg::new(a.n / 2, a.t, a.q.clone(), a.v)));
    }
    let ska = secret(cx, &a);
    for (why, b) in &others {
        let skb = secret(cx, b);
        let lv = level(cx, b, 1);
        let ma = vals(&mut cx.rng, a.n, a.t);
        let mb = vals(&mut cx.rng, b.n, b.t);
        let (x, y) = (ct_at(&a, &ska, lv, &ma), ct_at(b, &skb, lv, &mb));
        let d = format!("{} level {}", a.desc(), lv);
        refused!(cx, format!("ct + ct with {}", why), d, &x + &y);
        refused!(cx, format!("ct - ct with {}", why), d, &x - &y);
        refused!(cx, format!("ct * ct with {}", why), d, &x * &y);
        refused!(cx, format!("ct + ct with {} (swapped)", why), d, &y + &x);
        refused!(cx, format!("ct - ct with {} (swapped)", why), d, &y - &x);
        refused!(cx, format!("ct * ct with {} (swapped)", why), d, &y * &x);
        let pt = Plaintext::new(&b.params, &mb, lv, Encoding::Poly);
        refused!(cx, format!("ct * pt with {}", why), d, &x * &pt);
        refused!(cx, format!("RGSW encryption under {}", why), d, RgswCt::encrypt(&ska, &pt));
        refused!(cx, format!("encryption of a plaintext with {}", why), d, ska.encrypt(&pt));
        refused!(cx, format!("decryption of a ciphertext with {}", why), d, ska.decrypt(&y));
        refused!(cx, format!("noise of a ciphertext with {}", why), d, ska.measure_noise(&y));
        refused!(cx, format!("database with {}", why), d, VpServer::new(1, 2, &vec![pt.clone()], &a.params));
        let row = Plaintext::new(&a.params, &ma, 0, Encoding::Poly);
        refused!(cx, format!("one row with {}", why), d, VpServer::new(2, 2, &vec![row.clone(), pt.clone()], &a.params));
        let rlk = RelinearizationKey::new(&ska, lv);
        let rlb = RelinearizationKey::new(&skb, lv);
        refused!(cx, format!("relinearised product with {}", why), d, multiply_with_strategy(&x, &y, &rlk));
        refused!(cx, format!("relinearisation key under {}", why), d, multiply_with_strategy(&x, &x, &rlb));
        refused!(cx, format!("key rows under {}", why), d, Ksk::try_from_decomposed_rlwes(&a.params, &vec![x.clone(), y.clone()]));
        refused!(cx, format!("key rows all under {}", why), d, Ksk::try_from_decomposed_rlwes(&a.params, &vec![y.clone(), y.clone()]));
        // what differs shows in the ring only for these
        if a.ctx(lv).moduli_64 != b.ctx(lv).moduli_64 || a.n != b.n {
            let mut p = Poly::try_from_vec_u64(&b.ctx(lv), &mb);
            p.change_representation(Representation::Ntt);
            let mut own = Poly::try_from_vec_u64(&a.ctx(lv), &ma);
            own.change_representation(Representation::Ntt);
            mixed_rings(cx, &own, &p, &format!("over {}", why), &d)?;
            mixed_rings(cx, &p, &own, &format!("over {} (swapped)", why), &d)?;
            if a.n != b.n {
                let g = Substitution::new(&b.ctx(lv), 2 * cx.rng.gen_range(0..b.n) + 1);
                refused!(cx, "substitution of another degree", d, own.substitute(&g));
                let mut own = own.clone();
                own.change_representation(Representation::PowerBasis);
                refused!(cx, "substitution of another degree, coefficient form", d, own.substitute(&g));
                let g = Substitution::new(&a.ctx(lv), 2 * cx.rng.gen_range(0..a.n) + 1);
                refused!(cx, "substitution of a larger degree", d, p.substitute(&g));
            }
            // a ring that is not on the way down from the other
            for (from, to, w) in [(&*a, b, ""), (b, &*a, " (swapped)")] {
                let p = Poly::try_from_vec_u64(&from.ctx(0), &[1, 2, 3]);
                for l in 0..to.levels() {
                    if from.n != to.n || !from.q.starts_with(to.ql(l)) {
                        kept!(cx, format!("switching to a ring of {}{}", why, w), d, p, t, t.mod_switch_to(&to.ctx(l)));
                    }
                }
            }
            refused!(cx, format!("ct + poly over {}", why), d, &x + &p);
            refused!(cx, format!("ct * poly over {}", why), d, &x * &p);
            refused!(cx, format!("inner product over {}", why), d, omr_inner_product(&vec![x.clone()], &vec![p.clone()]));
            // a ring that is none of the levels of these parameters
            if (0..a.levels()).all(|l| a.ctx(l).moduli_64 != b.ctx(lv).moduli_64) || a.n != b.n {
                refused!(cx, format!("encryption of a polynomial over {}", why), d, ska.encrypt_poly(&p));
                refused!(cx, format!("RGSW encryption of a polynomial over {}", why), d, RgswCt::encrypt_poly(&ska, &p));
            }
            let ksk = Ksk::new_with_pt(&ska, &Plaintext::new(&a.params, &ma, lv, Encoding::Poly), lv, lv);
            refused!(cx, format!("key switching over {}", why), d, ksk.key_switch(&Poly::try_from_vec_u64(&b.ctx(lv), &mb)));
            refused!(cx, format!("decryption of mixed components over {}", why), d, ska.decrypt_trial(&x.cts[0], &y.cts[1]));
            let rg = RgswCt::encrypt(&ska, &Plaintext::new(&a.params, &ma, lv, Encoding::Poly));
            refused!(cx, format!("external product over {}", why), d, RgswCt::external_product(&rg, &y));
            let gk = GaliosKey::new(&ska, &Substitution::new(&a.ctx(lv), 3), lv);
            refused!(cx, format!("automorphism over {}", why), d, gk.relinearize(&y));
            let sc = RqScaler::new(&a.ctx(lv), &a.ctx(0), ScalingFactor::new(BigUint::one(), BigUint::one()));
            refused!(cx, format!("change of basis over {}", why), d, rq_scale(&sc, &p));
        }
    }
    Ok(())
}
fn levels(cx: &mut Cx) -> R {
    let a = small(cx, &MEDIUM, 32);
    let sk = secret(cx, &a);
    let l1 = cx.rng.gen_range(0..a.levels());
    let l2 = (l1 + 1 + cx.rng.gen_range(0..a.levels() - 1)) % a.levels();
    let m = vals(&mut cx.rng, a.n, a.t);
    let (x, y) = (ct_at(&a, &sk, l1, &m), ct_at(&a, &sk, l2, &m));
    let d = format!("{} levels {} and {}", a.desc(), l1, l2);
    refused!(cx, "ct + ct across levels", d, &x + &y);
    refused!(cx, "ct - ct across levels", d, &x - &y);
    refused!(cx, "ct * ct across levels", d, &x * &y);
    let pt = Plaintext::new(&a.params, &m, l2, Encoding::Poly);
    mixed_rings(cx, &x.cts[0], &y.cts[1], "across levels", &d)?;
    mixed_rings(cx, &y.cts[0], &x.cts[1], "across levels", &d)?;
    refused!(cx, "ct * pt across levels", d, &x * &pt);
    refused!(cx, "ct + poly across levels", d, &x + &pt.to_poly());
    refused!(cx, "ct * poly across levels", d, &x * &pt.to_poly());
    refused!(cx, "inner product across levels", d, omr_inner_product(&vec![x.clone(), y.clone()], &vec![Plaintext::new(&a.params, &m, l1, Encoding::Poly).to_poly(), pt.to_poly()]));
    let rlk = RelinearizationKey::new(&sk, l1);
    refused!(cx, "relinearised product across levels", d, multiply_with_strategy(&x, &y, &rlk));
    refused!(cx, "relinearisation key of another level", d, multiply_with_strategy(&y, &y, &rlk));
    refused!(cx, "relinearisation across levels", d, rlk.relinearize_poly(&y.cts[1]));
    let gk = GaliosKey::new(&sk, &Substitution::new(&a.ctx(l1), 3), l1);
    refused!(cx, "automorphism across levels", d, gk.relinearize(&y));
    let rg = RgswCt::encrypt(&sk, &Plaintext::new(&a.params, &m, l1, Encoding::Poly));
    refused!(cx, "external product across levels", d, RgswCt::external_product(&rg, &y));
    let rg2 = RgswCt::encrypt(&sk, &Plaintext::new(&a.params, &m, l2, Encoding::Poly));
    for z in [&x, &y] {
        refused!(cx, "external product by keys of two levels", d, RgswCt::external_product(&RgswCt::try_from_ksks(&rg.ksk0, &rg2.ksk1), z));
    }
    // a key over fewer moduli than what it switches
    let (hi, lo) = (l1.min(l2), l1.max(l2));
    let from = Plaintext::new(&a.params, &m, lo, Encoding::Poly).to_poly();
    refused!(cx, "switching by a key over fewer moduli", d, {
        let k = Ksk::new(&sk, &from, hi, lo);
        k.key_switch(&Poly::try_from_vec_u64(&a.ctx(hi), &m))
    });
    // ciphertexts labelled with a level that is not theirs
    let mut w = x.clone();
    w.level = l2;
    refused!(cx, "decryption at a level that is not the ciphertext's", d, sk.decrypt(&w));
    refused!(cx, "noise at a level that is not the ciphertext's", d, sk.measure_noise(&w));
    refused!(cx, "product at a level that is not the ciphertexts'", d, &w * &w);
    refused!(cx, "automorphism at a level that is not the ciphertext's", d, GaliosKey::new(&sk, &Substitution::new(&a.ctx(l2), 3), l2).relinearize(&w));
    refused!(cx, "relinearised product at a level that is not the ciphertexts'", d, multiply_with_strategy(&w, &w, &RelinearizationKey::new(&sk, l2)));
    refused!(cx, "mixed components across levels", d, sk.decrypt_trial(&x.cts[0], &y.cts[1]));
    refused!(cx, "plaintext of a level that does not exist", d, Plaintext::new(&a.params, &m, a.levels(), Encoding::Poly).to_poly());
    refused!(cx, "key of a level that does not exist", d, RelinearizationKey::new(&sk, a.levels()));
    // switching up, or past the last modulus
    let crt = Crt::new(a.ql(l1));
    let v = crt_vals(&mut cx.rng, a.n, &crt);
    let p = poly_from_big(&a.ctx(l1), &v, false);
    if l1 > 0 {
        let up = cx.rng.gen_range(0..l1);
        kept!(cx, "switching to a higher level", d, p, t, t.mod_switch_to(&a.ctx(up)));
    }
    let last = Poly::try_from_vec_u64(&a.ctx(a.levels() - 1), &m);
    kept!(cx, "switching down from the last level", d, last, t, t.mod_switch_down_next());
    let np = poly_from_big(&a.ctx(0), &vec![BigUint::one(); a.n], true);
    kept!(cx, "switching down in evaluation form", d, np, t, t.mod_switch_down_next());
    if a.levels() > 1 {
        kept!(cx, "switching to a lower level in evaluation form", d, np, t, t.mod_switch_to(&a.ctx(1)));
    }
    let foreign = cfg_at(0, &TINY, 0);
    if foreign.q != a.q {
        kept!(cx, "switching to a foreign ring", d, p, t, t.mod_switch_to(&foreign.ctx(0)));
    }
    Ok(())
}
fn representation(cx: &mut Cx) -> R {
    let a = small(cx, &MEDIUM, 32);
    let sk = secret(cx, &a);
    let lv = level(cx, &a, 1);
    let ctx = a.ctx(lv);
    let m = vals(&mut cx.rng, a.n, a.t);
    let x = ct_at(&a, &sk, lv, &m);
    let pb = Poly::try_from_vec_u64(&ctx, &m);
    let mut nt = pb.clone();
    nt.change_representation(Representation::Ntt);
    let d = format!("{} level {}", a.desc(), lv);
    for (l, r, w) in [(&pb, &pb, "both in coefficient form"), (&pb, &nt, "left in coefficient form"), (&nt, &pb, "right in coefficient form")] {
        refused!(cx, format!("poly + poly, {}", w), d, l + r);
        refused!(cx, format!("poly - poly, {}", w), d, l - r);
        refused!(cx, format!("poly * poly, {}", w), d, l * r);
        kept!(cx, format!("poly += poly, {}", w), d, *l, t, *t += r);
        kept!(cx, format!("poly -= poly, {}", w), d, *l, t, *t -= r);
        kept!(cx, format!("poly *= poly, {}", w), d, *l, t, *t *= r);
    }
    let k = big_val(&mut cx.rng, &a.big(lv));
    refused!(cx, "poly * scalar in coefficient form", d, &pb * &k);
    kept!(cx, "poly *= scalar in coefficient form", d, pb, t, *t *= &k);
    refused!(cx, "ct + poly in coefficient form", d, &x + &pb);
    refused!(cx, "ct * poly in coefficient form", d, &x * &pb);
    refused!(cx, "encryption of a polynomial in coefficient form", d, sk.encrypt_poly(&pb));
    refused!(cx, "RGSW encryption of a polynomial in coefficient form", d, RgswCt::encrypt_poly(&sk, &pb));
    let pt = Plaintext::new(&a.params, &m, lv, Encoding::Poly);
    let ksk = Ksk::new_with_pt(&sk, &pt, lv, lv);
    refused!(cx, "key switching in evaluation form", d, ksk.key_switch(&nt));
    refused!(cx, "key from a polynomial in coefficient form", d, Ksk::new(&sk, &pb, lv, lv));
    let rlk = RelinearizationKey::new(&sk, lv);
    let x3 = &x * &x;
    refused!(cx, "inverse in coefficient form", d, pb.inverse());
    let mut holes = nt.clone();
    holes -= &nt;
    refused!(cx, "inverse of zero", d, holes.inverse());
    let q0 = &ctx.moduli[cx.rng.gen_range(0..ctx.moduli.len())];
    refused!(cx, "inverse of zero modulo q", d, q0.inv(0));
    let gk = GaliosKey::new(&sk, &Substitution::new(&ctx, 3), lv);
    refused!(cx, "automorphism of three components", d, gk.relinearize(&x3));
    let rg = RgswCt::encrypt(&sk, &Plaintext::new(&a.params, &m, lv, Encoding::Poly));
    refused!(cx, "external product with three components", d, RgswCt::external_product(&rg, &x3));
    let mut x1 = x.clone();
    x1.cts.pop();
    refused!(cx, "automorphism of one component", d, gk.relinearize(&x1));
    refused!(cx, "external product with one component", d, RgswCt::external_product(&rg, &x1));
    // keys from rows that are none
    let l = ctx.moduli.len();
    for bad in [l - 1, l + 1] {
        refused!(cx, if bad < l { "key with a row missing" } else { "key with a row too many" }, d, Ksk::try_from_decomposed_rlwes(&a.params, &vec![x.clone(); bad]));
    }
    refused!(cx, "key of no rows", d, Ksk::try_from_decomposed_rlwes(&a.params, &vec![]));
    let mut bad = vec![x.clone(); l];
    bad[cx.rng.gen_range(0..l)] = x3.clone();
    refused!(cx, "key with a row of three components", d, Ksk::try_from_decomposed_rlwes(&a.params, &bad));
    if a.levels() > 1 {
        let mut bad = vec![x.clone(); l];
        let other = if lv > 0 { lv - 1 } else { lv + 1 };
        bad[cx.rng.gen_range(0..l)] = ct_at(&a, &sk, other, &m);
        refused!(cx, "key with a row of another level", d, Ksk::try_from_decomposed_rlwes(&a.params, &bad));
    }
    accepted!(cx, "key from rows", d, Ksk::try_from_decomposed_rlwes(&a.params, &vec![x.clone(); l]));
    refused!(cx, "relinearised product of three components", d, multiply_with_strategy(&x3, &x, &rlk));
    refused!(cx, "relinearised product by three components", d, multiply_with_strategy(&x, &x3, &rlk));
    refused!(cx, "inner product of unequal lengths", d, omr_inner_product(&vec![x.clone(), x.clone()], &vec![nt.clone()]));
    refused!(cx, "inner product of unequal lengths", d, omr_inner_product(&vec![x.clone()], &vec![nt.clone(), nt.clone()]));
    refused!(cx, "empty inner product", d, omr_inner_product(&vec![], &vec![]));
    refused!(cx, "plaintext without an encoding", d, Plaintext::new(&a.params, &m, lv, Encoding::None));
    refused!(cx, "decoding without an encoding", d, sk.decrypt(&x).decode());
    refused!(cx, "too many slots", d, Plaintext::new(&a.params, &vec![0; a.n + cx.rng.gen_range(1..4)], lv, Encoding::SIMD));
    refused!(cx, "too many values", d, Plaintext::new(&a.params, &vec![0; a.n + 1], lv, Encoding::Poly));
    let short = cx.rng.gen_range(0..a.n);
    refused!(cx, "too few slots", d, Plaintext::new(&a.params, &vec![0; short], lv, Encoding::SIMD));
    refused!(cx, "too many coefficients", d, Poly::try_from_vec_u64(&ctx, &vec![0; a.n + 1]));
    refused!(cx, "too many signed coefficients", d, Poly::try_from_vec_i64(&ctx, &vec![0; a.n + 1]));
    refused!(cx, "too many integer coefficients", d, Poly::try_from_bigint(&ctx, &vec![BigUint::zero(); a.n + 1]));
    if ctx.moduli_64.len() > 1 {
        refused!(cx, "one-word coefficients of several moduli", d, Vec::<u64>::from(&pb));
    }
    accepted!(cx, "poly + poly", d, &nt + &nt);
    let mut again = Poly::try_from_vec_u64(&Arc::new(RqContext::new(ctx.moduli_64.clone(), a.n, BD)), &m);
    again.change_representation(Representation::Ntt);
    accepted!(cx, "poly + poly, the ring built twice", d, &nt + &again);
    accepted!(cx, "poly - poly, the ring built twice", d, &again - &nt);
    accepted!(cx, "poly * poly, the ring built twice", d, &nt * &again);
    accepted!(cx, "poly * scalar", d, &nt * &k);
    accepted!(cx, "ct + poly", d, &x + &nt);
    accepted!(cx, "ct * poly", d, &x * &nt);
    accepted!(cx, "key switching", d, ksk.key_switch(&pb));
    Ok(())
}
fn arguments(cx: &mut Cx) -> R {
    let d = String::new();
    for _ in 0..4 {
        let n = 1usize << cx.rng.gen_range(3..8);
        let big = cx.rng.gen_range(1u64 << 62..=u64::MAX);
        for p in [big, 1 << 62, u64::MAX, (1 << 62) + 1, 0] {
            refused!(cx, "modulus outside 2..2^62", format!("{}", p), Modulus::new(p));
        }
        // NTT: wrong congruence, composite, wrong size
        let step = 2 * n as u64;
        let pr = loop {
            let b = cx.rng.gen_range(16..=62);
            if let Some(p) = ntt_prime(&mut cx.rng, b, step, &[]) {
                break p;
            }
        };
        accepted!(cx, "NTT", format!("{} {}", pr, n), NttOperator::new(&Modulus::new(pr), n));
        let bad = loop {
            let p = crate::p_ring::any_prime(&mut cx.rng);
            if p % step != 1 {
                break p;
            }
        };
        refused!(cx, "NTT without roots of unity", format!("{} {}", bad, n), NttOperator::new(&Modulus::new(bad), n));
        let comp = loop {
            let k = cx.rng.gen_range(1..(1u64 << 61) / step);
            if !prime(k * step + 1) {
                break k * step + 1;
            }
        };
        refused!(cx, "NTT over a composite", format!("{} {}", comp, n), NttOperator::new(&Modulus::new(comp), n));
        // products of NTT primes and squares are = 1 mod 2N as well
        let small = ntt_prime(&mut cx.rng, step.ilog2() as usize + 4, step, &[]);
        if let Some(s) = small {
            refused!(cx, "NTT over a square", format!("{} {}", s * s, n), NttOperator::new(&Modulus::new(s * s), n));
        }
        for bad_n in [0usize, 1, 2, 4, 3, 6, 12, n + 1, n - 1, 3 * n] {
            // give it a prime of the right congruence when there is one
            let p = if bad_n > 0 { ntt_prime(&mut cx.rng, 30, 2 * bad_n as u64, &[]).unwrap_or(pr) } else { pr };
            refused!(cx, "NTT of an unsupported size", format!("{} {}", p, bad_n), NttOperator::new(&Modulus::new(p), bad_n));
        }
        let op = NttOperator::new(&Modulus::new(pr), n);
        for len in [0, 1, n - 1, n + 1, 2 * n, n / 2] {
            let v: Vec<u64> = (1..=len as u64).collect();
            kept!(cx, "forward NTT of the wrong length", format!("{} {}", n, len), v, t, op.forward(t));
            kept!(cx, "backward NTT of the wrong length", format!("{} {}", n, len), v, t, op.backward(t));
        }
        // rings
        refused!(cx, "ring over a repeated modulus", format!("{} {}", pr, n), RqContext::new(vec![pr, pr], n, BD));
        refused!(cx, "residues over a repeated modulus", format!("{}", pr), RnsContext::new(&vec![pr, pr]));
        let g = cx.rng.gen_range(2..1000u64);
        let (x, y) = (g * cx.rng.gen_range(1..1u64 << 40), g * cx.rng.gen_range(1..1u64 << 40));
        refused!(cx, "residues over moduli with a common factor", format!("{} {}", x, y), RnsContext::new(&vec![x, y]));
        refused!(cx, "ring over a composite", format!("{} {}", comp, n), RqContext::new(vec![comp], n, BD));
        let ctx = Arc::new(RqContext::new(vec![pr], n, BD));
        if n > 8 {
            let h = Arc::new(RqContext::new(vec![pr], n / 2, BD));
            refused!(cx, "change of basis across degrees", format!("{} {}", pr, n), RqScaler::new(&ctx, &h, ScalingFactor::new(BigUint::one(), BigUint::one())));
            refused!(cx, "change of basis across degrees", format!("{} {} up", pr, n), RqScaler::new(&h, &ctx, ScalingFactor::new(BigUint::one(), bu2())));
        }
        let even = 2 * cx.rng.gen_range(0..4 * n);
        refused!(cx, "even substitution", format!("{} {}", n, even), Substitution::new(&ctx, even));
        refused!(cx, "zero denominator", d, ScalingFactor::new(BigUint::from(cx.rng.gen::<u64>()), BigUint::zero()));
        // sampling
        let mut rng = ChaCha8Rng::seed_from_u64(cx.rng.gen());
        for v in [0usize, 17, 18, 32, 64, 1 << 20] {
            let len = cx.rng.gen_range(1..100);
            refused!(cx, "variance outside 1..16", format!("{} {}", v, len), sample_vec_cbd(len, v, &mut rng));
        }
        accepted!(cx, "variance", d, (1..=16).for_each(|v| drop(sample_vec_cbd(10, v, &mut rng))));
        for size in [0usize, 1, 9, 63, 64] {
            refused!(cx, "modulus size outside 10..62", format!("{}", size), BfvParameters::generate_moduli(&[30, size], 8));
        }
        for bits in [0usize, 1, 9, 63, 64, 100] {
            ensure!(catch(|| generate_prime(bits, 16, 1 << 9)).ok().flatten().is_none(), "a prime of {} bits", bits);
        }
        refused!(cx, "logarithm of zero", d, ilog2(0u64));
        refused!(cx, "division by zero", d, div_ceil(cx.rng.gen::<u64>() >> 1, 0));
    }
    // a plaintext modulus that does not fit one of the rings
    let c = small(cx, &GENERAL, 32);
    let n2 = 2 * c.n as u64;
    let i = cx.rng.gen_range(0..c.q.len());
    let qb = 64 - c.q[i].leading_zeros() as usize;
    for _ in 0..8 {
        let b = cx.rng.gen_range(qb..=(qb + 3).min(62));
        if let Some(t) = ntt_prime(&mut cx.rng, b, n2, &c.q) {
            if t > c.q[i] {
                refused!(cx, "plaintext modulus above a ciphertext modulus", format!("t={} {}", t, c.desc()), BfvParameters::new(c.n, t, c.q.clone(), c.v, BD));
            }
        }
    }
    refused!(cx, "plaintext modulus equal to a ciphertext modulus", c.desc(), BfvParameters::new(c.n, c.q[i], c.q.clone(), c.v, BD));
    // PVW messages
    let p = PvwParams { n: cx.rng.gen_range(1..6), ell: cx.rng.gen_range(1..6), m: cx.rng.gen_range(1..20), q: 65537, variance: 1 };
    let sk = PvwSk::gen_sk(&p);
    let pk = sk.gen_pk(&p);
    let bits: Vec<u64> = (0..p.ell).map(|_| cx.rng.gen_range(0..2)).collect();
    accepted!(cx, "PVW message", format!("{:?}", p), pk.encrypt(&p, bits.clone()));
    let mut long = bits.clone();
    long.push(cx.rng.gen_range(0..2));
    refused!(cx, "PVW message too long", format!("{:?}", p), pk.encrypt(&p, long));
    refused!(cx, "PVW message too short", format!("{:?}", p), pk.encrypt(&p, bits[1..].to_vec()));
    let mut other = bits.clone();
    other[cx.rng.gen_range(0..p.ell)] = *pick(&mut cx.rng, &[2u64, 3, 65536, 65537, u64::MAX]);
    refused!(cx, "PVW message that is not bits", format!("{:?}", p), pk.encrypt(&p, other));
    // a secret of more coefficients than the degree
    let long = SecretKey::new(vec![1; c.n + 1 + cx.rng.gen_range(0..3)], &c.params);
    refused!(cx, "secret key beyond the degree", c.desc(), long.encrypt(&Plaintext::new(&c.params, &vec![1], 0, Encoding::Poly)));
    // a key-switching key needs two moduli for automorphisms
    let one = cfg_single(cx);
    let sk = secret(cx, &one);
    refused!(cx, "automorphism key over one modulus", one.desc(), GaliosKey::new(&sk, &Substitution::new(&one.ctx(0), 3), 0));
    Ok(())
}
fn bu2() -> BigUint {
    BigUint::from(2u64)
}
fn cfg_single(cx: &mut Cx) -> Cfg {
    let n = *pick(&mut cx.rng, &[8usize, 16]);
    let q = ntt_prime(&mut cx.rng, 50, 2 * n as u64, &[]).unwrap();
    let t = ntt_prime(&mut cx.rng, 10, 2 * n as u64, &[]).unwrap();
    Cfg::new(n, t, vec![q], 4)
}
/// The protocol's own entry points.
fn protocol(cx: &mut Cx) -> R {
    let c = cfg_at(0, &TINY, 0);
    let sk = SecretKey::new(vec![1; c.n], &c.params);
    for _ in 0..12 {
        let s = Shape { first: cx.rng.gen_range(1..=40), dim: cx.rng.gen_range(2..=8), k: cx.rng.gen_range(0..=4) };
        let i = cx.rng.gen_range(0..s.rows());
        let dims = dims_of(i, &s);
        let client = VpClient::new(s.first, s.dim);
        let d = format!("first={} dim={} index={:?}", s.first, s.dim, dims);
        accepted!(cx, "encoding", d, client.encode(dims.clone(), s.rows(), &c.params, &sk));
        let j = cx.rng.gen_range(0..dims.len());
        let mut bad = dims.clone();
        bad[j] = if j == 0 { s.first } else { s.dim } + *pick(&mut cx.rng, &[0usize, 1, 100]);
        refused!(cx, if j == 0 { "first index out of range" } else { "later index out of range" }, d, client.encode(bad, s.rows(), &c.params, &sk));
        // an index vector that is too long or too short for the database
        let mut long = dims.clone();
        long.push(0);
        refused!(cx, "too many indices", d, client.encode(long, s.rows(), &c.params, &sk));
        if s.k > 0 {
            refused!(cx, "too few indices", d, client.encode(dims[..s.k].to_vec(), s.rows(), &c.params, &sk));
        }
        refused!(cx, "no index", d, client.encode(vec![], s.rows(), &c.params, &sk));
    }
    // a server refuses a query with the wrong number of ciphertexts
    let c = small(cx, &PIR, 16);
    let s = shape(cx, &c, 8);
    let db = make_db(cx, &c, s.rows());
    let server = VpServer::new(s.first, s.dim, &db, &c.params);
    let sk = secret(cx, &c);
    let eval = VpEvaluation::build(&sk, &c.params);
    let q = make_query(&c, &sk, &s, 0);
    let d = c.desc();
    refused!(cx, "query with a ciphertext missing", d, server.decode(q[..q.len() - 1].to_vec(), &eval, &c.params));
    let mut more = q.clone();
    more.push(q[0].clone());
    refused!(cx, "query with a ciphertext too many", d, server.decode(more, &eval, &c.params));
    refused!(cx, "empty query", d, server.decode(vec![], &eval, &c.params));
    accepted!(cx, "query", d, server.decode(q, &eval, &c.params));
    // shapes a server cannot fold
    let rows = |k: usize| -> Vec<Plaintext> { (0..k).map(|i| db[i % db.len()].clone()).collect() };
    let q1 = make_query(&c, &sk, &Shape { first: 2, dim: 2, k: 1 }, 0);
    for dim in [0usize, 1] {
        refused!(cx, "further dimensions of fewer than two", d, VpServer::new(2, dim, &rows(4), &c.params).decode(q1.clone(), &eval, &c.params));
    }
    refused!(cx, "no first dimension", d, VpServer::new(0, 2, &rows(4), &c.params).decode(q1.clone(), &eval, &c.params));
    refused!(cx, "fewer rows than the first dimension", d, VpServer::new(3, 2, &rows(2), &c.params).decode(q1.clone(), &eval, &c.params));
    refused!(cx, "no rows", d, VpServer::new(2, 2, &vec![], &c.params).decode(q1.clone(), &eval, &c.params));
    refused!(cx, "first dimension beyond the degree", d, VpServer::new(c.n + 1, 2, &rows(c.n + 1), &c.params).decode(q1.clone(), &eval, &c.params));
    refused!(cx, "further dimensions beyond the degree", d, VpServer::new(1, c.n + 1, &rows(c.n + 1), &c.params).decode(q1.clone(), &eval, &c.params));
    let o = small(cx, &PIR, 16);
    if o.q != c.q || o.n != c.n {
        let eo = VpEvaluation::build(&secret(cx, &o), &o.params);
        refused!(cx, "evaluation key of other parameters", d, VpServer::new(2, 2, &rows(4), &c.params).decode(q1.clone(), &eo, &c.params));
        refused!(cx, "expansion by a key of other parameters", d, eo.unpack(q1[0].clone()));
        let sko = secret(cx, &o);
        let so = Shape { first: 1, dim: 2, k: 0 };
        let mut qo = make_query(&o, &sko, &so, 0);
        qo.resize(c.q.len() + 1, qo[0].clone());
        refused!(cx, "query under other parameters", d, server.decode(qo, &eval, &c.params));
    }
    // the same rings, another plaintext modulus or noise
    let n2 = 2 * c.n as u64;
    let t2 = loop {
        let b = cx.rng.gen_range((n2.ilog2() as usize + 2).max(8)..=20);
        if let Some(t) = ntt_prime(&mut cx.rng, b, n2, &c.q) {
            if t != c.t {
                break t;
            }
        }
    };
    let o = if cx.rng.gen() { Cfg::new(c.n, t2, c.q.clone(), c.v) } else { Cfg::new(c.n, c.t, c.q.clone(), c.v % 16 + 1) };
    let sko = SecretKey::new(sk.coeffs.to_vec(), &o.params);
    let qo = make_query(&o, &sko, &s, 0);
    refused!(cx, "query of the same ring under other parameters", d, server.decode(qo.clone(), &eval, &c.params));
    refused!(cx, "answer under other parameters", d, server.decode(qo, &eval, &o.params));
    Ok(())
}
pub fn c23() -> Prop {
    Prop {
        id: "C23",
        quick: 300,
        thorough: 6000,
        rule: "case = parameter sets that differ in exactly one respect, two levels, a representation, or an argument outside its domain, presented to every operation that combines them; plus the matching valid calls. Non-trivial: all. Oracle: an invalid call must not return a value (it panics), a valid one must; operands of refused in-place calls are unchanged.",
        kinds: vec![
            Kind { name: "parameters", weight: 2, f: foreign },
            Kind { name: "levels", weight: 3, f: levels },
            Kind { name: "representation", weight: 2, f: representation },
            Kind { name: "arguments", weight: 2, f: arguments },
            Kind { name: "protocol", weight: 2, f: protocol },
        ],
    }
}
