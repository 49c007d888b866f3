//! Supervisor / worker processes.  Workers run shards of cases; the supervisor
//! survives worker crashes (stack overflow, abort) and hangs, re-runs the case
//! in a fresh process to confirm, shrinks it and writes the replay file.

use std::{
    collections::{BTreeMap, HashSet},
    fs,
    io::Write,
    os::unix::{fs::FileExt, process::ExitStatusExt},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    time::{Duration, Instant},
};

use crate::engine::*;

const SHARDS: u64 = 16;
/// CPU seconds one case may use before it is called a hang.  Ordinary cases
/// take well under 10 ms.
const HANG_CPU_S: u64 = 25;
const MEM_KB: u64 = 6_000_000;

pub fn thread_run<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    // 8 MiB: the usual size of a main thread's stack.
    std::thread::Builder::new().stack_size(8 << 20).spawn(f).expect("spawn").join().expect("join")
}

fn case_seed(seed: u64, id: &str, fam: &str, shard: u64, i: u64) -> u64 {
    mix(hash_str(id) ^ mix(hash_str(fam) ^ mix(seed ^ mix(shard.wrapping_mul(1_000_003) ^ mix(i)))))
}

fn find<'a>(props: &'a [Prop], id: &str, fam: &str) -> (&'a Prop, &'a Family) {
    let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| die(&format!("unknown property {id}")));
    let f = p.families.iter().find(|f| f.name == fam).unwrap_or_else(|| die(&format!("unknown family {fam}")));
    (p, f)
}

pub fn die(msg: &str) -> ! {
    eprintln!("vp: error: {msg}");
    std::process::exit(3)
}

pub fn tape_to_string(t: &[u64]) -> String {
    t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
}
pub fn tape_from_str(s: &str) -> Vec<u64> {
    s.split_whitespace().filter_map(|x| x.parse().ok()).collect()
}

// ------------------------------------------------------------ worker -------

/// worker ID FAM SHARD SEED N DIR
pub fn worker(props: &[Prop], a: &[String]) -> i32 {
    let (_, fam) = find(props, &a[0], &a[1]);
    let shard: u64 = a[2].parse().unwrap_or(0);
    let seed: u64 = a[3].parse().unwrap_or(1);
    let n: u64 = a[4].parse().unwrap_or(0);
    let dir = PathBuf::from(&a[5]);
    let stem = format!("{}-{}", a[1], shard);
    let prog = fs::File::create(dir.join(format!("{stem}.prog"))).unwrap_or_else(|e| die(&format!("progress file: {e}")));
    let run = fam.run;
    let (id, fname) = (a[0].clone(), a[1].clone());
    thread_run(move || {
        let mut st = Stats::default();
        let mut code = 0;
        for i in 0..n {
            let _ = prog.write_all_at(format!("{i:020}").as_bytes(), 0);
            let r = run_case(run, G::random(case_seed(seed, &id, &fname, shard, i)));
            let want = st.samples.len() < 2 && i >= n / 4;
            st.add(&r.cx, want);
            if let Err(first) = r.out {
                let mut msg = first;
                let mut input = r.cx.input.clone();
                let tape = shrink(r.tape.clone(), 6000, |t| {
                    let q = run_case(run, G::replay(t));
                    match q.out {
                        Err(m) => {
                            msg = m;
                            input = q.cx.input;
                            Some(q.tape)
                        }
                        Ok(()) => None,
                    }
                });
                // Final message belongs to the final tape.
                let q = run_case(run, G::replay(&tape));
                if let Err(m) = q.out {
                    msg = m;
                    input = q.cx.input;
                } else {
                    // not reproducible from the tape: report it as such
                    msg = format!("NOT-REPRODUCIBLE {msg}");
                }
                let body = format!(
                    "property {id}\nfamily {fname}\ntape {}\n--- message\n{msg}\n--- input\n{input}\n",
                    tape_to_string(&tape)
                );
                let _ = fs::write(dir.join(format!("{stem}.fail")), body);
                code = 1;
                break;
            }
        }
        let mut f = String::new();
        f.push_str(&format!("evals {}\nnontrivial {}\n", st.evals, st.nontrivial));
        for (k, v) in &st.labels {
            f.push_str(&format!("label {v} {k}\n"));
        }
        for s in &st.samples {
            f.push_str(&format!("sample {}\n", json_str(s)));
        }
        let _ = fs::write(dir.join(format!("{stem}.stats")), f);
        let mut hb = Vec::with_capacity(st.hashes.len() * 8);
        for h in &st.hashes {
            hb.extend_from_slice(&h.to_le_bytes());
        }
        let _ = fs::write(dir.join(format!("{stem}.hash")), hb);
        code
    })
}

/// one ID FAM TAPEFILE|seed:… — runs a single case; prints message; exit 0/1.
pub fn one(props: &[Prop], a: &[String]) -> i32 {
    let (_, fam) = find(props, &a[0], &a[1]);
    let run = fam.run;
    let g = if let Some(rest) = a[2].strip_prefix("seed:") {
        let v: Vec<u64> = rest.split(',').filter_map(|x| x.parse().ok()).collect();
        let s = case_seed(v[0], &a[0], &a[1], v[1], v[2]);
        G::random(s)
    } else {
        let t = fs::read_to_string(&a[2]).unwrap_or_else(|e| die(&format!("{}: {e}", a[2])));
        let t = t.lines().find_map(|l| l.strip_prefix("tape")).map(str::to_string).unwrap_or(t);
        G::replay(&tape_from_str(&t))
    };
    thread_run(move || {
        let r = run_case(run, g);
        println!("--- input\n{}", r.cx.input);
        match r.out {
            Ok(()) => {
                println!("--- held");
                0
            }
            Err(m) => {
                println!("--- message\n{m}");
                1
            }
        }
    })
}

/// tape ID FAM SEED / show ID FAM FILE: see [`DUMP`].
pub fn dumping(props: &[Prop], cmd: &str, a: &[String]) -> i32 {
    let (_, fam) = find(props, &a[0], &a[1]);
    let run = fam.run;
    let g = if cmd == "tape" {
        DUMP.store(1, std::sync::atomic::Ordering::Relaxed);
        dump("tape");
        G::random(a[2].parse().unwrap_or(0))
    } else {
        DUMP.store(2, std::sync::atomic::Ordering::Relaxed);
        let t = fs::read_to_string(&a[2]).unwrap_or_default();
        let t = t.lines().find_map(|l| l.strip_prefix("tape")).map(str::to_string).unwrap_or(t);
        G::replay(&tape_from_str(&t))
    };
    thread_run(move || {
        let _ = run_case(run, g);
        0
    })
}

// -------------------------------------------------------- supervisor -------

struct Job {
    fam: String,
    shard: u64,
    n: u64,
}

struct Running {
    job: Job,
    child: std::process::Child,
    last: String,
    cpu_at_last: f64,
}

fn cpu_secs(pid: u32) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let ut: f64 = f.get(11)?.parse().ok()?;
    let st: f64 = f.get(12)?.parse().ok()?;
    Some((ut + st) / 100.0)
}

fn limited(exe: &Path, cpu: Option<u64>, args: &[String]) -> Command {
    let mut c = Command::new("/bin/sh");
    let mut s = format!("ulimit -c 0; ulimit -v {MEM_KB}; ");
    if let Some(t) = cpu {
        s.push_str(&format!("ulimit -t {t}; "));
    }
    s.push_str("exec \"$0\" \"$@\"");
    c.arg("-c").arg(s).arg(exe).args(args);
    c.stdin(Stdio::null());
    c
}

enum Died {
    Held,
    Failed(String),
    Crash(String),
}

fn run_one(exe: &Path, id: &str, fam: &str, what: &str, cpu: u64) -> Died {
    let out = limited(exe, Some(cpu), &["one".into(), id.into(), fam.into(), what.into()])
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .output()
        .unwrap_or_else(|e| die(&format!("spawn: {e}")));
    let so = String::from_utf8_lossy(&out.stdout).to_string();
    match (out.status.code(), out.status.signal()) {
        (Some(0), _) => Died::Held,
        (Some(1), _) => Died::Failed(so),
        (Some(3), _) => die(&String::from_utf8_lossy(&out.stderr)),
        (_, Some(s)) if s == 24 || s == 9 => Died::Crash(format!("does not terminate: more than {cpu} s of CPU time")),
        (c, s) => {
            let e = String::from_utf8_lossy(&out.stderr);
            let first: Vec<&str> = e.lines().filter(|l| !l.trim().is_empty()).take(3).collect();
            Died::Crash(format!("process died (exit {c:?}, signal {s:?}): {}", first.join(" | ")))
        }
    }
}

pub struct Opts {
    pub root: PathBuf,
    pub seed: u64,
    pub tier: String,
    pub scale: f64,
}

pub fn check(props: &[Prop], id: &str, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let prop = props.iter().find(|p| p.id == id).unwrap_or_else(|| die(&format!("unknown property {id}")));
    let exe = std::env::current_exe().unwrap_or_else(|e| die(&e.to_string()));
    let dir = o.root.join("work").join(format!("{id}-{}", std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("{}: {e}", dir.display())));

    // 1. Known findings: specific inputs.
    let known = known_findings(&exe, id, o);
    let mut violations: Vec<PathBuf> = vec![];

    // 2. Saved regression inputs (shrunk failures of repaired defects, and of
    // changes the checks are known to have caught).
    let mut regress = 0u64;
    let rdir = o.root.join("regress").join(id);
    let mut files: Vec<PathBuf> = fs::read_dir(&rdir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        let body = fs::read_to_string(&f).unwrap_or_default();
        let fam = body.lines().find_map(|l| l.strip_prefix("family ")).unwrap_or("").to_string();
        if !prop.families.iter().any(|x| x.name == fam) {
            continue;
        }
        regress += 1;
        match run_one(&exe, id, &fam, &f.to_string_lossy(), HANG_CPU_S) {
            Died::Held => {}
            Died::Failed(m) | Died::Crash(m) => {
                eprintln!("{m}");
                violations.push(f.clone());
            }
        }
    }

    // 3. Generated search.
    let thorough = o.tier == "thorough";
    let mut jobs: Vec<Job> = vec![];
    for f in &prop.families {
        let total = if thorough { f.thorough } else { f.quick };
        let total = ((total as f64) * o.scale) as u64;
        let per = total.div_ceil(SHARDS);
        for s in 0..SHARDS {
            jobs.push(Job { fam: f.name.to_string(), shard: s, n: per });
        }
    }
    jobs.reverse();
    let par = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let mut running: Vec<Running> = vec![];
    let mut bad: Option<(Job, String)> = None; // crash/hang
    let mut failed = false;
    loop {
        while !failed && running.len() < par && let Some(j) = jobs.pop() {
            let args: Vec<String> = vec![
                "worker".into(), id.into(), j.fam.clone(), j.shard.to_string(), o.seed.to_string(),
                j.n.to_string(), dir.to_string_lossy().into(),
            ];
            let child = limited(&exe, None, &args)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .unwrap_or_else(|e| die(&format!("spawn worker: {e}")));
            running.push(Running { job: j, child, last: String::new(), cpu_at_last: 0.0 });
        }
        if running.is_empty() {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < running.len() {
            let r = &mut running[i];
            match r.child.try_wait() {
                Ok(Some(st)) => {
                    let r = running.swap_remove(i);
                    match st.code() {
                        Some(0) => {}
                        Some(1) => failed = true,
                        c => {
                            failed = true;
                            if bad.is_none() {
                                bad = Some((r.job, format!("worker ended with {c:?}/{:?}", st.signal())));
                            }
                        }
                    }
                }
                Ok(None) => {
                    let prog = dir.join(format!("{}-{}.prog", r.job.fam, r.job.shard));
                    let cur = fs::read_to_string(&prog).unwrap_or_default();
                    let cpu = cpu_secs(r.child.id()).unwrap_or(0.0);
                    if cur != r.last {
                        r.last = cur;
                        r.cpu_at_last = cpu;
                    } else if cpu - r.cpu_at_last > HANG_CPU_S as f64
                        && !dir.join(format!("{}-{}.fail", r.job.fam, r.job.shard)).exists()
                        && !r.last.is_empty()
                    {
                        let _ = r.child.kill();
                        let _ = r.child.wait();
                        let r = running.swap_remove(i);
                        failed = true;
                        if bad.is_none() {
                            bad = Some((r.job, "hang".into()));
                        }
                        continue;
                    }
                    i += 1;
                }
                Err(e) => die(&format!("wait: {e}")),
            }
        }
        if failed {
            // Let the shards already running finish shrinking, but give up on
            // the ones still searching.
            let deadline = Instant::now() + Duration::from_secs(60);
            while !running.is_empty() {
                let mut i = 0;
                while i < running.len() {
                    let r = &mut running[i];
                    let done = matches!(r.child.try_wait(), Ok(Some(_)));
                    if done {
                        running.swap_remove(i);
                    } else {
                        i += 1;
                    }
                }
                if has_fail(&dir) || Instant::now() > deadline || bad.is_some() {
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            for r in &mut running {
                let _ = r.child.kill();
                let _ = r.child.wait();
            }
            running.clear();
            break;
        }
    }

    // 4. Failures.
    let replay_dir = o.root.join("replay");
    let _ = fs::create_dir_all(&replay_dir);
    let mut inconclusive = None;
    let mut fails: Vec<PathBuf> = fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    fails.retain(|p| p.extension().is_some_and(|e| e == "fail"));
    fails.sort();
    if let Some(f) = fails.first() {
        let body = fs::read_to_string(f).unwrap_or_default();
        let dst = replay_dir.join(format!("{id}-{:016x}.txt", hash_str(&body)));
        let _ = fs::write(&dst, &body);
        eprintln!("{body}");
        violations.push(dst);
    } else if let Some((job, why)) = bad {
        let prog = fs::read_to_string(dir.join(format!("{}-{}.prog", job.fam, job.shard))).unwrap_or_default();
        let idx: u64 = prog.trim().parse().unwrap_or(0);
        let spec = format!("seed:{},{},{idx}", o.seed, job.shard);
        match run_one(&exe, id, &job.fam, &spec, HANG_CPU_S) {
            Died::Held => inconclusive = Some(format!("{why}; case {spec} of {} did not reproduce it", job.fam)),
            Died::Failed(m) => {
                let dst = replay_dir.join(format!("{id}-{:016x}.txt", hash_str(&m)));
                let _ = fs::write(&dst, format!("property {id}\nfamily {}\nspec {spec}\n{m}", job.fam));
                eprintln!("{m}");
                violations.push(dst);
            }
            Died::Crash(m) => {
                let dst = shrink_crash(&exe, id, &job.fam, case_seed(o.seed, id, &job.fam, job.shard, idx), &dir, &replay_dir, &m);
                violations.push(dst);
            }
        }
    }

    // 5. Evidence.
    let mut st = Stats::default();
    let mut perfam: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut famsamples: BTreeMap<String, Vec<String>> = BTreeMap::new();
    if let Ok(rd) = fs::read_dir(&dir) {
        let mut ps: Vec<PathBuf> = rd.flatten().map(|e| e.path()).collect();
        ps.sort();
        for p in ps {
            match p.extension().and_then(|e| e.to_str()) {
                Some("stats") => {
                    let fam = p.file_stem().and_then(|s| s.to_str()).and_then(|s| s.rsplit_once('-')).map(|x| x.0.to_string()).unwrap_or_default();
                    let e = perfam.entry(fam.clone()).or_default();
                    for l in fs::read_to_string(&p).unwrap_or_default().lines() {
                        if let Some(v) = l.strip_prefix("evals ") {
                            let v: u64 = v.parse().unwrap_or(0);
                            st.evals += v;
                            e.0 += v;
                        } else if let Some(v) = l.strip_prefix("nontrivial ") {
                            let v: u64 = v.parse().unwrap_or(0);
                            st.nontrivial += v;
                            e.1 += v;
                        } else if let Some(v) = l.strip_prefix("label ")
                            && let Some((n, k)) = v.split_once(' ')
                        {
                            *st.labels.entry(format!("{fam}: {k}")).or_default() += n.parse::<u64>().unwrap_or(0);
                        } else if let Some(v) = l.strip_prefix("sample ") {
                            famsamples.entry(fam.clone()).or_default().push(v.to_string());
                        }
                    }
                }
                Some("hash") => {
                    let b = fs::read(&p).unwrap_or_default();
                    for c in b.chunks_exact(8) {
                        hashes.insert(u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
                    }
                }
                _ => {}
            }
        }
    }
    let mut samples: Vec<String> = vec![];
    for (f, v) in &famsamples {
        for s in v.iter().take(3) {
            samples.push(format!("{{\"family\":{},\"case\":{s}}}", json_str(f)));
        }
    }
    if samples.is_empty() {
        samples.push("\"(no non-trivial case before the run ended)\"".into());
    }
    let fams: Vec<String> = perfam
        .iter()
        .map(|(k, v)| format!("{}: {{\"evaluations\": {}, \"nontrivial\": {}}}", json_str(k), v.0, v.1))
        .collect();
    let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"families\": {{{}}},\n  \"regression_inputs\": {regress},\n  \"known_findings\": {known},\n  \"labels\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(id),
        json_str(if thorough { "thorough" } else { "quick" }),
        o.seed,
        st.evals,
        hashes.len(),
        json_str(prop.rule),
        fams.join(", "),
        labels.join(", "),
        samples.join(", "),
        prop.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        violations.len()
    );
    let evdir = o.root.join("evidence");
    let _ = fs::create_dir_all(&evdir);
    if let Err(e) = fs::write(evdir.join(format!("{id}.json")), ev) {
        die(&format!("evidence: {e}"));
    }
    let _ = fs::remove_dir_all(&dir);
    let mut so = std::io::stdout();
    for v in &violations {
        let _ = writeln!(so, "VIOLATION property={id} replay={}", v.display());
    }
    if !violations.is_empty() {
        return 1;
    }
    if let Some(m) = inconclusive {
        eprintln!("vp: inconclusive: {m}");
        return 3;
    }
    let _ = writeln!(
        so,
        "OK property={id} tier={} seed={} evaluations={} distinct_nontrivial={} known_findings={known} wall={:.1}s",
        o.tier, o.seed, st.evals, hashes.len(), t0.elapsed().as_secs_f64()
    );
    0
}

fn has_fail(dir: &Path) -> bool {
    fs::read_dir(dir).map(|d| d.flatten().any(|e| e.path().extension().is_some_and(|x| x == "fail"))).unwrap_or(false)
}

/// A case that kills its process: shrink through child processes.
fn shrink_crash(exe: &Path, id: &str, fam: &str, seed: u64, dir: &Path, replay_dir: &Path, msg: &str) -> PathBuf {
    let tmp = dir.join("shrink.tape");
    let hang = msg.contains("does not terminate");
    let mut last = msg.to_string();
    let cpu = if hang { 4 } else { HANG_CPU_S };
    let out = limited(exe, Some(HANG_CPU_S), &["tape".into(), id.into(), fam.into(), seed.to_string()])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .output();
    let mut tape = vec![];
    if let Ok(o) = out {
        let s = String::from_utf8_lossy(&o.stdout).to_string();
        if let Some(l) = s.lines().find_map(|l| l.strip_prefix("tape")) {
            tape = tape_from_str(l);
        }
    }
    let start = Instant::now();
    let mut works = |t: &[u64]| -> Option<Vec<u64>> {
        if start.elapsed() > Duration::from_secs(180) {
            return None;
        }
        let _ = fs::write(&tmp, format!("tape {}", tape_to_string(t)));
        match run_one(exe, id, fam, &tmp.to_string_lossy(), cpu) {
            Died::Crash(m) => {
                last = m;
                Some(t.to_vec())
            }
            _ => None,
        }
    };
    let tape = if !tape.is_empty() && works(&tape).is_some() {
        shrink(tape, if hang { 40 } else { 1500 }, &mut works)
    } else {
        tape
    };
    let _ = works(&tape);
    let inp = {
        let _ = fs::write(&tmp, format!("tape {}", tape_to_string(&tape)));
        let o = limited(exe, Some(HANG_CPU_S), &["show".into(), id.into(), fam.into(), tmp.to_string_lossy().into()])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .output();
        o.map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default()
    };
    let body = format!("property {id}\nfamily {fam}\ntape {}\n--- message\n{last}\n--- input\n{inp}\n", tape_to_string(&tape));
    let dst = replay_dir.join(format!("{id}-{:016x}.txt", hash_str(&body)));
    let _ = fs::write(&dst, &body);
    eprintln!("{body}");
    dst
}

/// `known_findings.txt`: one line per finding:
///   `open: property=<id> family=<fam> file=<path under /verif> <what fails>`
///   `fixed: property=<id> <commit> <what failed>`
fn known_findings(exe: &Path, id: &str, o: &Opts) -> u64 {
    let mut n = 0;
    let body = fs::read_to_string(o.root.join("known_findings.txt")).unwrap_or_default();
    for l in body.lines() {
        let Some(rest) = l.strip_prefix("open: ") else { continue };
        let mut it = rest.splitn(4, ' ');
        let p = it.next().and_then(|x| x.strip_prefix("property=")).unwrap_or("");
        let fam = it.next().and_then(|x| x.strip_prefix("family=")).unwrap_or("");
        let file = it.next().and_then(|x| x.strip_prefix("file=")).unwrap_or("");
        let what = it.next().unwrap_or("");
        if p != id {
            continue;
        }
        let path = o.root.join(file);
        match run_one(exe, id, fam, &path.to_string_lossy(), HANG_CPU_S) {
            Died::Held => {}
            Died::Failed(_) | Died::Crash(_) => {
                println!("KNOWN-FINDING: property={id} {what}");
                n += 1;
            }
        }
    }
    n
}
