//! Runs the real program next to a reference model on random instruction sequences and
//! reports the first sequence on which they disagree about a given property.
mod adversary;
mod bank;
mod check;
mod gen;
mod model;
mod ops;
mod wire;
mod world;

use bank::{Acc, Bank, Outcome};
use check::{accept_tags, invariants, reject_tags, tags, Compare, Diff, Tags};
use model::*;
use ops::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use world::*;

#[derive(Clone)]
struct Case {
    seed: u64,
    case: u64,
    profile: Profile,
    /// kept indices; None: all
    keep: Option<Vec<usize>>,
}

struct Failure {
    at: usize,
    tags: Tags,
    text: String,
    trace: Vec<String>,
}

#[derive(Default, Clone)]
struct Stats {
    cases: u64,
    steps: u64,
    accepted: u64,
    variants: u64,
    abandoned: u64,
    harness_errors: u64,
    kinds: BTreeMap<String, (u64, u64)>,
    flags: BTreeMap<&'static str, u64>,
}
impl Stats {
    fn merge(&mut self, o: &Stats) {
        self.cases += o.cases;
        self.steps += o.steps;
        self.accepted += o.accepted;
        self.variants += o.variants;
        self.abandoned += o.abandoned;
        self.harness_errors += o.harness_errors;
        for (k, v) in &o.kinds {
            let e = self.kinds.entry(k.clone()).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        for (k, v) in &o.flags {
            *self.flags.entry(k).or_default() += v;
        }
    }
    fn flag(&mut self, f: &Flags) {
        for (n, b) in [
            ("self_trade", f.self_trade),
            ("pegged", f.pegged),
            ("dropped", f.dropped),
            ("expired_removed", f.expired_removed),
            ("evicted", f.evicted),
            ("fills", f.fills > 0),
            ("direct", f.direct > 0),
            ("outs", f.outs > 0),
            ("posted", f.posted),
            ("cancels", f.cancels > 0),
        ] {
            if b {
                *self.flags.entry(n).or_default() += 1;
            }
        }
    }
}

fn prepare(bank: &mut Bank, op: &Op) {
    match op {
        Op::CreateMarket(n) => {
            for (k, len) in [(n.bids, wire::SIDE_LEN), (n.asks, wire::SIDE_LEN), (n.heap, wire::HEAP_LEN)] {
                if bank.get(&k).is_none() {
                    bank.put(k, Acc { lamports: 1_000_000_000, data: vec![0; len], owner: program(), executable: false });
                }
            }
        }
        Op::Advance { secs, slots } => {
            bank.now += secs;
            bank.slot += slots;
        }
        Op::RawOracle { key, kind, raw, .. } => {
            bank.put(*key, Acc { lamports: 1_000_000, data: raw.0.clone(), owner: oracle_owner(*kind), executable: false });
        }
        _ => {}
    }
}

fn ret_bytes(r: &Ret) -> Vec<u8> {
    let opt = |v: &mut Vec<u8>, x: &Option<u128>| match x {
        None => v.push(0),
        Some(i) => {
            v.push(1);
            v.extend_from_slice(&i.to_le_bytes());
        }
    };
    let mut v = vec![];
    match r {
        Ret::None => {}
        Ret::Id(x) => opt(&mut v, x),
        Ret::Ids(l) => {
            v.extend_from_slice(&(l.len() as u32).to_le_bytes());
            for x in l {
                opt(&mut v, x);
            }
        }
        Ret::Qty(q) => v.extend_from_slice(&q.to_le_bytes()),
    }
    v
}

/// One instruction on both sides. Ok(true): went through; Ok(false): refused by both.
fn step(bank: &mut Bank, model: &mut Model, world: &World, op: &Op, adversary: bool, prop: Option<&str>, st: &mut Stats) -> Result<bool, (Tags, String)> {
    prepare(bank, op);
    let mut next = model.clone();
    next.script.clear();
    let res = next.apply(op);
    let ix = match model.build(op) {
        None => {
            *model = next;
            return Ok(true);
        }
        Some(ix) => ix,
    };
    if adversary && res.is_ok() {
        for v in adversary::variants(model, world, bank, op, &ix) {
            if let Some(p) = prop {
                if !v.tags.contains(&p) {
                    continue;
                }
            }
            st.variants += 1;
            for (k, a) in &v.extra {
                bank.put(*k, a.clone());
            }
            let r = bank.exec(&v.metas, &ix.data);
            for (k, _) in &v.extra {
                bank.accs.remove(k);
            }
            if let Outcome::Ok { .. } = r {
                return Err((v.tags.iter().copied().collect(), format!("accepted although {} is wrong", v.what)));
            }
        }
    }
    let lam: Vec<(solana_program::pubkey::Pubkey, u64)> = ix.metas.iter().map(|m| (m.key, bank.get(&m.key).map(|a| a.lamports).unwrap_or(0))).collect();
    let real = bank.exec(&ix.metas, &ix.data);
    let e = st.kinds.entry(op.kind().to_string()).or_default();
    e.0 += 1;
    match (real, res) {
        (Outcome::Err(_), Err(_)) => Ok(false),
        (Outcome::Err(msg), Ok(_)) => {
            // another answer to an open point may also refuse
            for alt in alternatives(model, op) {
                if alt.1.is_err() {
                    return Ok(false);
                }
            }
            Err((reject_tags(op, &next.flags, model), format!("refused ({msg}) although it must go through")))
        }
        (Outcome::Ok { ret, .. }, res) => {
            e.1 += 1;
            st.accepted += 1;
            let mut first: Option<(Model, Vec<Diff>)> = None;
            let mut reason = "";
            let mut tries: Vec<(Model, Result<Ret, Rej>)> = vec![(next, res)];
            let mut k = 0;
            while k < tries.len() {
                let (mut m, r) = tries[k].clone();
                match r {
                    Err(why) => reason = why,
                    Ok(r) => {
                        let mut diffs = Compare { bank, before: model, after: &mut m }.run();
                        if !matches!(r, Ret::None) && ret != ret_bytes(&r) {
                            diffs.push(Diff { class: "ret", text: format!("returned {ret:?}, expected {r:?}") });
                        }
                        lamports(bank, &m, op, &lam, &mut diffs);
                        if diffs.is_empty() {
                            st.flag(&m.flags);
                            if let Some((p, q)) = m.flags.crossed {
                                return Err((Tags::from(["M03"]), format!("an order now rests at {p} although a matchable opposite order rests at {q}")));
                            }
                            *model = m;
                            return Ok(true);
                        }
                        if first.is_none() {
                            first = Some((m, diffs));
                        }
                    }
                }
                if k == 0 {
                    tries.extend(alternatives(model, op));
                }
                k += 1;
            }
            match first {
                None => Err((accept_tags(reason, op, &tries[0].0.flags), format!("accepted although it must be refused ({reason})"))),
                Some((m, diffs)) => {
                    let mut t = Tags::new();
                    let mut text = String::new();
                    for x in &diffs {
                        t.extend(tags(x, op, &m.flags));
                        text.push_str(&format!("\n    {}", x.text));
                    }
                    for (p, x) in invariants(bank, &m) {
                        t.insert(p);
                        text.push_str(&format!("\n    {x}"));
                    }
                    Err((t, text))
                }
            }
        }
    }
}

fn lamports(bank: &Bank, m: &Model, op: &Op, before: &[(solana_program::pubkey::Pubkey, u64)], diffs: &mut Vec<Diff>) {
    let trading = matches!(
        op,
        Op::Place { .. } | Op::Edit { .. } | Op::Many { .. } | Op::Take { .. } | Op::Settle { .. } | Op::Consume { .. } | Op::CancelId { .. } | Op::CancelAll { .. } | Op::CancelClient { .. } | Op::Prune { .. } | Op::Sweep { .. } | Op::Deposit { .. }
    );
    if !trading {
        return;
    }
    let mut seen = BTreeSet::new();
    for (k, was) in before {
        if !seen.insert(*k) {
            continue;
        }
        let mut want = *was as i128;
        for (f, t, n) in &m.lamports {
            if f == k {
                want -= *n as i128;
            }
            if t == k {
                want += *n as i128;
            }
        }
        let have = bank.get(k).map(|a| a.lamports).unwrap_or(0) as i128;
        if have != want {
            diffs.push(Diff { class: "lamports", text: format!("lamports of {k}: {have}, expected {want}") });
        }
    }
}

/// Results under the other answers to points the behaviour leaves open.
fn alternatives(model: &Model, op: &Op) -> Vec<(Model, Result<Ret, Rej>)> {
    let mut out = vec![];
    let mut script: Vec<usize> = vec![];
    for _ in 0..64 {
        let mut m = model.clone();
        m.script = script.clone();
        let r = m.apply(op);
        let asked = m.asked.clone();
        out.push((m, r));
        // next script: count up in the mixed radix given by what was asked
        let mut s: Vec<usize> = (0..asked.len()).map(|i| script.get(i).copied().unwrap_or(0)).collect();
        loop {
            match s.pop() {
                None => return out,
                Some(x) => {
                    if x + 1 < asked[s.len()] {
                        s.push(x + 1);
                        break;
                    }
                }
            }
        }
        script = s;
    }
    out
}

fn hash_profile(p: Profile) -> u64 {
    PROFILES.iter().position(|x| *x == p).unwrap() as u64
}

/// A panic of the harness itself ends the case without a verdict.
fn run_case(c: &Case, prop: Option<&str>, st: &mut Stats, tracing: bool, stop: Option<Instant>) -> Option<Failure> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_case_inner(c, prop, st, tracing, stop)));
    match r {
        Ok(f) => f,
        Err(_) => {
            st.harness_errors += 1;
            st.abandoned += 1;
            None
        }
    }
}

fn run_case_inner(c: &Case, prop: Option<&str>, st: &mut Stats, tracing: bool, stop: Option<Instant>) -> Option<Failure> {
    let mut bank = Bank::default();
    let mut model = Model::default();
    let mut r = Rng::of(&[c.seed, c.case, hash_profile(c.profile)]);
    let world = World::new(c.profile, &mut r, &mut bank, &mut model);
    let mut trace = vec![];
    st.cases += 1;
    let want = |t: &Tags| match prop {
        None => true,
        Some(p) => t.contains(p),
    };
    for op in &world.setup {
        st.steps += 1;
        if tracing {
            trace.push(format!("setup  {op:?}"));
        }
        if let Err((t, text)) = step(&mut bank, &mut model, &world, op, false, prop, st) {
            if want(&t) {
                return Some(Failure { at: 0, tags: t, text: format!("{}: {text}", op.kind()), trace });
            }
            st.abandoned += 1;
            return None;
        }
    }
    let all: Vec<usize> = (0..world.len).collect();
    for i in c.keep.as_ref().unwrap_or(&all) {
        if let Some(s) = stop {
            if Instant::now() > s {
                return None;
            }
        }
        let mut r = Rng::of(&[c.seed, c.case, hash_profile(c.profile), 77 + *i as u64]);
        let op = gen::Gen { w: &world, m: &model, r: &mut r, index: *i }.op();
        let adv = r.chance(world.adversary, 100);
        st.steps += 1;
        let n = trace.len();
        if tracing {
            trace.push(format!("{i:5}  {op:?}"));
        }
        match step(&mut bank, &mut model, &world, &op, adv, prop, st) {
            Ok(ok) => {
                if tracing {
                    trace[n].push_str(if ok { "  => ok" } else { "  => refused" });
                }
            }
            Err((t, text)) => {
                if want(&t) {
                    return Some(Failure { at: *i, tags: t, text: format!("{}: {text}", op.kind()), trace });
                }
                st.abandoned += 1;
                return None;
            }
        }
    }
    None
}

/// Drop instructions that are not needed for the failure.
fn shrink(c: &Case, at: usize, prop: Option<&str>, until: Instant) -> Case {
    let mut st = Stats::default();
    let mut keep: Vec<usize> = match &c.keep {
        Some(k) => k.iter().copied().filter(|i| *i <= at).collect(),
        None => (0..=at).collect(),
    };
    let mut size = keep.len() / 2;
    while size >= 1 {
        let mut i = 0;
        while i < keep.len() {
            if Instant::now() > until {
                return Case { keep: Some(keep), ..c.clone() };
            }
            let end = (i + size).min(keep.len());
            let mut k = keep.clone();
            k.drain(i..end);
            let t = Case { keep: Some(k.clone()), ..c.clone() };
            if let Some(f) = run_case(&t, prop, &mut st, false, Some(until)) {
                keep = k.into_iter().filter(|x| *x <= f.at).collect();
            } else {
                i = end;
            }
        }
        size /= 2;
    }
    Case { keep: Some(keep), ..c.clone() }
}

/// Profiles worth trying for a property, most useful first.
fn profiles(prop: &str) -> Vec<Profile> {
    use Profile::*;
    match prop {
        "B01" => vec![Mixed, Match, Pegged, Expiry, Full, FullPegged],
        "B02" => vec![Match, Pegged, Mixed, Pegged, Expiry],
        "B03" => vec![Expiry, Pegged, Expiry, Full, Mixed],
        "B04" => vec![Match, Pegged, Mixed, Extreme],
        "B05" => vec![Full, FullPegged],
        "E01" => vec![HeapFull, Match, Mixed, Life],
        "E02" => vec![Mixed, Match, Life, SelfTrade, Pegged],
        "E03" => vec![Match, Pegged, Expiry, Mixed, SelfTrade],
        "M01" => vec![Match, Fees, Mixed, Extreme, SelfTrade],
        "M02" => vec![Match, Pegged, Mixed, Fees],
        "M03" => vec![Match, Mixed, Pegged, Expiry],
        "M04" => vec![SelfTrade, Mixed, SelfTrade, Match],
        "M05" => vec![Pegged, Pegged, Mixed, Extreme],
        "F01" => vec![Fees, Match, SelfTrade, Pegged, Extreme],
        "C01" => vec![Match, Fees, Mixed, Pegged, SelfTrade, Extreme],
        "C02" => vec![Mixed, Pegged, Fees, Life, Expiry, SelfTrade],
        "C03" => vec![Mixed, Pegged, Match, Life, SelfTrade],
        "C04" => vec![Mixed, Life, Fees, Auth, Match],
        "C05" => vec![Life, Mixed, Fees, SelfTrade],
        "A01" | "A03" => vec![Auth, Auth, Life, Pegged],
        "A02" => vec![Auth, Life],
        "L01" => vec![Life, Mixed, Auth],
        "L02" => vec![Create, Create, Life],
        "L03" => vec![Life, Life, Mixed],
        "O01" => vec![Pegged, Mixed, Pegged, Extreme, Auth],
        "I01" => vec![Life, Auth, Mixed],
        _ => vec![Mixed, Match, Pegged, Expiry, SelfTrade, Life, Auth, Fees, Extreme, Create, Full, FullPegged, HeapFull],
    }
}

fn report(c: &Case, prop: Option<&str>, f: &Failure) -> String {
    let mut s = String::new();
    s.push_str(&format!("property {}\n", prop.unwrap_or("any")));
    s.push_str(&format!("case seed={} case={} profile={} keep={}\n", c.seed, c.case, c.profile.name(), c.keep.as_ref().map(|k| k.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).unwrap_or("all".into())));
    s.push_str(&format!("failure {}\n", f.text));
    s.push_str(&format!("speaks about {:?}\n", f.tags));
    s.push_str("instructions:\n");
    for t in &f.trace {
        s.push_str(&format!("  {t}\n"));
    }
    names(s)
}

/// Puts readable names in the place of well-known addresses.
fn names(mut s: String) -> String {
    for tag in ["user", "admin", "outsider", "market", "bids", "asks", "heap", "oracle"] {
        for i in 0..24 {
            s = s.replace(&world::named(tag, i).to_string(), &format!("{tag}{i}"));
        }
    }
    for i in 0..24 {
        let u = world::named("user", i);
        for n in 0..8 {
            s = s.replace(&ops::oo_key(&u, n).0.to_string(), &format!("account{n}-of-user{i}"));
        }
    }
    s
}

fn arg(a: &[String], n: &str) -> Option<String> {
    a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned())
}

fn search(a: &[String]) -> i32 {
    let prop = arg(a, "--prop");
    let prop = prop.as_deref().filter(|p| *p != "any");
    let seed: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = arg(a, "--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let threads: usize = arg(a, "--threads").and_then(|s| s.parse().ok()).unwrap_or(4);
    let only = arg(a, "--profile").and_then(|s| Profile::parse(&s));
    let out = arg(a, "--out");
    let many = a.iter().any(|x| x == "--all");
    let start = Instant::now();
    let until = start + Duration::from_secs_f64(secs);
    let next = AtomicU64::new(0);
    let done = AtomicBool::new(false);
    let found: Mutex<Option<(Case, usize)>> = Mutex::new(None);
    let total = Mutex::new(Stats::default());
    let by: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let list = match only {
        Some(p) => vec![p],
        None => profiles(prop.unwrap_or("")),
    };
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                let mut st = Stats::default();
                while Instant::now() < until && !done.load(Ordering::Relaxed) {
                    let n = next.fetch_add(1, Ordering::Relaxed);
                    let c = Case { seed, case: n, profile: list[n as usize % list.len()], keep: None };
                    if let Some(f) = run_case(&c, prop, &mut st, false, Some(until)) {
                        if many {
                            let key = f.text.chars().filter(|c| !c.is_ascii_digit()).take(90).collect::<String>();
                            let mut b = by.lock().unwrap();
                            let e = b.entry(format!("{:?} {key}", f.tags)).or_default();
                            if *e == 0 {
                                println!("case {n} {} at {}: {}", c.profile.name(), f.at, f.text);
                            }
                            *e += 1;
                        } else {
                            done.store(true, Ordering::Relaxed);
                            let mut g = found.lock().unwrap();
                            if g.as_ref().map(|x| x.0.case > n).unwrap_or(true) {
                                *g = Some((c, f.at));
                            }
                        }
                    }
                }
                total.lock().unwrap().merge(&st);
            });
        }
    });
    let st = total.into_inner().unwrap();
    let kinds: Vec<String> = st.kinds.iter().map(|(k, v)| format!("\"{k}\":[{},{}]", v.0, v.1)).collect();
    let flags: Vec<String> = st.flags.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    println!(
        "STATS {{\"cases\":{},\"steps\":{},\"accepted\":{},\"variants\":{},\"abandoned\":{},\"harness_errors\":{},\"kinds\":{{{}}},\"flags\":{{{}}}}}",
        st.cases,
        st.steps,
        st.accepted,
        st.variants,
        st.abandoned,
        st.harness_errors,
        kinds.join(","),
        flags.join(",")
    );
    for (k, v) in by.into_inner().unwrap() {
        println!("{v:6} {k}");
    }
    match found.into_inner().unwrap() {
        None => 0,
        Some((c, at)) => {
            let mut s = Stats::default();
            let small = shrink(&c, at, prop, Instant::now() + Duration::from_secs(10));
            let (c, f) = match run_case(&small, prop, &mut s, true, None) {
                Some(f) => (small, f),
                None => match run_case(&c, prop, &mut s, true, None) {
                    Some(f) => (c.clone(), f),
                    None => return 0,
                },
            };
            let text = report(&c, prop, &f);
            if let Some(o) = out {
                std::fs::write(&o, &text).expect("write failing input");
            } else {
                print!("{text}");
            }
            println!("FAILING {}", f.text.lines().take(3).map(|x| x.trim()).collect::<Vec<_>>().join(" "));
            1
        }
    }
}

fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("read replay file");
    let get = |line: &str, k: &str| line.split_whitespace().find_map(|x| x.strip_prefix(&format!("{k}=")).map(|y| y.to_string()));
    let prop = s.lines().find_map(|l| l.strip_prefix("property ")).map(|x| x.trim().to_string()).filter(|x| x != "any");
    let line = match s.lines().find(|l| l.starts_with("case ")) {
        Some(l) => l,
        None => {
            println!("no case in {file}");
            return 2;
        }
    };
    let keep = get(line, "keep").filter(|x| x != "all").map(|x| x.split(',').filter_map(|y| y.parse().ok()).collect());
    let c = Case {
        seed: get(line, "seed").unwrap().parse().unwrap(),
        case: get(line, "case").unwrap().parse().unwrap(),
        profile: Profile::parse(&get(line, "profile").unwrap()).unwrap(),
        keep,
    };
    match run_case(&c, prop.as_deref(), &mut Stats::default(), true, None) {
        Some(f) => {
            print!("{}", report(&c, prop.as_deref(), &f));
            println!("FAILING {}", f.text.lines().take(3).map(|x| x.trim()).collect::<Vec<_>>().join(" "));
            1
        }
        None => {
            println!("quiet");
            0
        }
    }
}

fn main() {
    bank::install();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("search") => search(&a),
        Some("replay") => replay(&a[2]),
        _ => {
            println!("program {}", openbook_v2::ID);
            0
        }
    };
    std::process::exit(code);
}
