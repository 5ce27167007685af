mod exec;
mod ir;
mod term;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn pipe(p: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn prctl(a: i32, b: u64) -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

#[derive(Default)]
struct Merged {
    paths: u64,
    assumed: u64,
    forks: u64,
    steps: u64,
    checks: u64,
    max_pc: u64,
    max_steps_path: u64,
    q: u64,
    sat: u64,
    unsat: u64,
    unknown: u64,
    qtime: f64,
    reach_total: u64,
    reached: BTreeSet<u64>,
    check_ids: BTreeMap<u64, u64>,
    errors: BTreeMap<String, u64>,
    ext: BTreeSet<String>,
    cov: BTreeSet<(u32, u32)>,
    viols: Vec<String>,
    samples: Vec<String>,
    forksites: BTreeMap<String, u64>,
}

pub fn viol_line(v: &exec::Violation) -> String {
    let stk: Vec<String> = v.stack.iter().map(|s| js(s)).collect();
    format!(
        "V\t{{\"kind\":{},\"msg\":{},\"input\":\"{}\",\"stack\":[{}]}}\n",
        js(&v.kind),
        js(&v.msg),
        hex(&v.input),
        stk.join(",")
    )
}

/// Child results are lines "tag\tfields".
fn dump(e: &Eng, base: &Base) -> String {
    let mut o = String::new();
    o += &format!(
        "S\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n",
        e.st.paths - base.paths,
        e.st.assumed_out - base.assumed,
        e.st.forks - base.forks,
        e.st.steps - base.steps,
        e.st.checks - base.checks,
        e.st.max_pc,
        e.st.max_steps_path,
        e.z.queries - base.q,
        e.z.n_sat - base.sat,
        e.z.n_unsat - base.unsat,
        e.z.n_unknown - base.unknown,
        e.z.time - base.time,
        e.reach_total
    );
    for r in &e.reached {
        o += &format!("R\t{}\n", r);
    }
    for (k, v) in &e.check_ids {
        o += &format!("K\t{}\t{}\n", k, v);
    }
    for (k, v) in &e.errors {
        o += &format!("E\t{}\t{}\n", v, k.replace('\n', " ").replace('\t', " "));
    }
    for k in &e.ext_used {
        o += &format!("X\t{}\n", k);
    }
    for (f, bs) in e.cov.iter().enumerate() {
        let l: Vec<String> = bs.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i.to_string()).collect();
        if !l.is_empty() {
            o += &format!("C\t{}\t{}\n", f, l.join(","));
        }
    }
    for v in &e.viols[e.viols_sent..] {
        o += &viol_line(v);
    }
    for s in &e.samples {
        let ob: Vec<String> = s.obs.iter().map(|x| x.to_string()).collect();
        o += &format!("P\t{{\"input\":\"{}\",\"obs\":[{}]}}\n", hex(&s.input), ob.join(","));
    }
    for (n, b, c) in e.hot_forks(12) {
        o += &format!("F\t{}\t{}#{}\n", c, n, b);
    }
    o
}

#[derive(Default, Clone)]
struct Base {
    paths: u64,
    assumed: u64,
    forks: u64,
    steps: u64,
    checks: u64,
    q: u64,
    sat: u64,
    unsat: u64,
    unknown: u64,
    time: f64,
}

fn base_of(e: &Eng) -> Base {
    Base {
        paths: e.st.paths,
        assumed: e.st.assumed_out,
        forks: e.st.forks,
        steps: e.st.steps,
        checks: e.st.checks,
        q: e.z.queries,
        sat: e.z.n_sat,
        unsat: e.z.n_unsat,
        unknown: e.z.n_unknown,
        time: e.z.time,
    }
}

fn clear(e: &mut Eng) {
    e.viols.clear();
    e.samples.clear();
    e.errors.clear();
    e.reached.clear();
    e.check_ids.clear();
    e.ext_used.clear();
    e.reach_total = 0;
    e.st.max_pc = 0;
    e.st.max_steps_path = 0;
    for c in &mut e.cov {
        for b in c.iter_mut() {
            *b = false;
        }
    }
}

fn merge(m: &mut Merged, s: &str, max_samples: usize) {
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let n = |i: usize| f[i].parse::<u64>().unwrap_or(0);
        match f[0] {
            "S" => {
                m.paths += n(1);
                m.assumed += n(2);
                m.forks += n(3);
                m.steps += n(4);
                m.checks += n(5);
                m.max_pc = m.max_pc.max(n(6));
                m.max_steps_path = m.max_steps_path.max(n(7));
                m.q += n(8);
                m.sat += n(9);
                m.unsat += n(10);
                m.unknown += n(11);
                m.qtime += f[12].parse::<f64>().unwrap_or(0.0);
                m.reach_total = m.reach_total.max(n(13));
            }
            "R" => {
                m.reached.insert(n(1));
            }
            "K" => *m.check_ids.entry(n(1)).or_default() += n(2),
            "E" => *m.errors.entry(f[2].to_string()).or_default() += n(1),
            "X" => {
                m.ext.insert(f[1].to_string());
            }
            "C" => {
                for b in f[2].split(',') {
                    m.cov.insert((n(1) as u32, b.parse().unwrap()));
                }
            }
            "V" => m.viols.push(f[1].to_string()),
            "P" => {
                if m.samples.len() < max_samples {
                    m.samples.push(f[1].to_string())
                }
            }
            "F" => *m.forksites.entry(f[2].to_string()).or_default() += n(1),
            _ => {}
        }
    }
}

struct Job {
    pid: i32,
    fd: std::fs::File,
    buf: Vec<u8>,
    entry: usize,
}

/// Waits for output of the jobs (and for a token, if one is wanted); returns whether a token may be
/// there, and the jobs that ended, with their status.
fn wait_jobs(jobs: &mut Vec<Job>, token: Option<i32>) -> (bool, Vec<(Job, i32)>) {
    use std::os::fd::AsRawFd;
    extern "C" {
        fn poll(f: *mut [i32; 2], n: u64, t: i32) -> i32;
    }
    let mut fds: Vec<[i32; 2]> = jobs.iter().map(|j| [j.fd.as_raw_fd(), 1]).collect();
    if let Some(t) = token {
        fds.push([t, 1]);
    }
    unsafe { poll(fds.as_mut_ptr(), fds.len() as u64, 1000) };
    let ready = |k: usize| (fds[k][1] >> 16) & 0x1f != 0;
    let tok = token.is_some() && ready(fds.len() - 1);
    let mut ended = vec![];
    for k in (0..jobs.len()).rev() {
        if ready(k) {
            let mut b = [0u8; 65536];
            match jobs[k].fd.read(&mut b) {
                Ok(n) if n > 0 => jobs[k].buf.extend_from_slice(&b[..n]),
                _ => {
                    let j = jobs.remove(k);
                    let mut st = 0;
                    unsafe { waitpid(j.pid, &mut st, 0) };
                    ended.push((j, st));
                }
            }
        }
    }
    (tok, ended)
}
fn death(st: i32) -> String {
    if st == 14 {
        "a solver query did not end".to_string()
    } else {
        format!("worker died (status {})", st)
    }
}
/// Processes that compute hold one of as many tokens as there are jobs.
struct Tokens([i32; 2]);
impl Tokens {
    fn new(n: usize) -> Tokens {
        let mut p = [0i32; 2];
        unsafe {
            pipe(p.as_mut_ptr());
            fcntl(p[0], 4, 0o4000);
        }
        let t = Tokens(p);
        for _ in 0..n {
            t.put();
        }
        t
    }
    fn put(&self) {
        let b = 1u8;
        unsafe { write(self.0[1], &b as *const u8 as _, 1) };
    }
    fn take(&self) -> bool {
        let mut b = 0u8;
        unsafe { read(self.0[0], &mut b as *mut u8 as _, 1) == 1 }
    }
}
extern "C" {
    fn fcntl(fd: i32, c: i32, a: i32) -> i32;
    fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize;
    fn read(fd: i32, b: *mut std::ffi::c_void, n: usize) -> isize;
}
/// Forks; the child runs `f` with the write end of a pipe.
fn spawn(entry: usize, f: impl FnOnce(std::fs::File)) -> Job {
    use std::os::fd::FromRawFd;
    let mut p = [0i32; 2];
    unsafe { pipe(p.as_mut_ptr()) };
    std::io::stdout().flush().ok();
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe {
            prctl(1, 9);
            close(p[0]);
            f(std::fs::File::from_raw_fd(p[1]));
            _exit(0)
        };
    }
    unsafe { close(p[1]) };
    Job {
        pid,
        fd: unsafe { std::fs::File::from_raw_fd(p[0]) },
        buf: vec![],
        entry,
    }
}
/// Explores one entry: splits it breadth first, then lets workers finish the pieces.
fn explore(mut e: Eng, name: &str, param: u64, jobs_n: usize, mem_limit: u64, tok: &Tokens, mut out: std::fs::File) {
    let mut held = false;
    while !held {
        wait_jobs(&mut vec![], Some(tok.0[0]));
        held = tok.take();
        if Instant::now() > e.cfg.deadline {
            let s = "E\t1\ttime limit\nDONE\n";
            if held {
                tok.put();
                out.write_all(b"T\n").ok();
            }
            out.write_all(s.as_bytes()).ok();
            return;
        }
    }
    unsafe { setrlimit(9, &[mem_limit, mem_limit]) };
    clear(&mut e);
    let b = base_of(&e);
    let s = e.entry_state(name, param);
    let mut frontier = std::collections::VecDeque::new();
    frontier.push_back(s);
    let split_start = Instant::now();
    let want = if jobs_n > 1 { jobs_n * 6 } else { 1 };
    while let Some(s) = frontier.pop_front() {
        e.run_state(s);
        frontier.extend(e.stack.drain(..));
        if Instant::now() > e.cfg.deadline {
            break;
        }
        if frontier.len() >= want || (frontier.len() > 1 && split_start.elapsed().as_secs_f64() > 0.7) {
            break;
        }
    }
    out.write_all(dump(&e, &b).as_bytes()).ok();
    clear(&mut e);
    tok.put();
    out.write_all(b"T\n").ok();
    if Instant::now() > e.cfg.deadline && !frontier.is_empty() {
        out.write_all(b"E\t1\ttime limit\n").ok();
        frontier.clear();
    }
    let groups = frontier.len().min(want);
    let mut gs: Vec<Vec<State>> = (0..groups).map(|_| vec![]).collect();
    for (i, s) in frontier.into_iter().enumerate() {
        gs[i % groups].push(s);
    }
    gs.reverse();
    let mut jobs: Vec<Job> = vec![];
    while !gs.is_empty() || !jobs.is_empty() {
        let (t, ended) = wait_jobs(&mut jobs, if gs.is_empty() { None } else { Some(tok.0[0]) });
        // violations are passed on at once, so that nothing is lost with a worker
        for j in jobs.iter_mut() {
            if let Some(k) = j.buf.iter().rposition(|c| *c == b'\n') {
                let rest = j.buf.split_off(k + 1);
                out.write_all(&j.buf).ok();
                j.buf = rest;
            }
        }
        for (j, st) in ended {
            tok.put();
            let mut s = String::from_utf8_lossy(&j.buf).to_string();
            if st != 0 {
                if !s.is_empty() && !s.ends_with('\n') {
                    s.truncate(s.rfind('\n').map(|k| k + 1).unwrap_or(0));
                }
                s += &format!("E\t1\t{}\n", death(st));
            }
            out.write_all(s.as_bytes()).ok();
        }
        if t && tok.take() {
            let g = gs.pop().unwrap();
            let j = spawn(0, |f| {
                let b = base_of(&e);
                e.stack = g;
                e.live = Some(f);
                e.drain();
                let s = dump(&e, &b);
                e.live.take().unwrap().write_all(s.as_bytes()).ok();
            });
            jobs.push(j);
        }
    }
    out.write_all(b"DONE\n").ok();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entries: Vec<(String, u64)> = vec![];
    let mut out = String::new();
    let mut jobs_n = 8usize;
    let mut timeout = 600u64;
    let mut max_steps = 150_000_000u64;
    let mut alloc_limit = 64u64 << 20;
    let mut qt = 60_000u32;
    let mut samples = 16usize;
    let mut stubs = vec![];
    let mut trace = false;
    let mut qfbv = false;
    let mut max_depth = 3000usize;
    let mut mem_limit = 3u64 << 30;
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut nx = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--entry" => {
                let s = nx();
                let mut it = s.split(':');
                let n = it.next().unwrap().to_string();
                match it.next() {
                    None => entries.push((n, 0)),
                    Some(r) => {
                        if let Some((x, y)) = r.split_once('-') {
                            for k in x.parse::<u64>().unwrap()..=y.parse::<u64>().unwrap() {
                                entries.push((n.clone(), k));
                            }
                        } else {
                            entries.push((n, r.parse().unwrap()));
                        }
                    }
                }
            }
            "--out" => out = nx(),
            "--jobs" => jobs_n = nx().parse().unwrap(),
            "--timeout" => timeout = nx().parse().unwrap(),
            "--max-steps" => max_steps = nx().parse().unwrap(),
            "--max-depth" => max_depth = nx().parse().unwrap(),
            "--alloc-limit" => alloc_limit = nx().parse().unwrap(),
            "--query-timeout" => qt = nx().parse().unwrap(),
            "--samples" => samples = nx().parse().unwrap(),
            "--stub" => stubs.push(nx()),
            "--mem-limit" => mem_limit = nx().parse::<u64>().unwrap() << 20,
            "--selftest" => {
                let n = term::selftest(0x9e3779b97f4a7c15, 20000);
                println!("selftest: {} evaluations agree", n);
                return;
            }
            "--trace" => trace = true,
            "--qfbv" => qfbv = true,
            _ => ll = a.to_string(),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read ir");
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    let module: &'static ir::Module = Box::leak(Box::new(ir::parse(&text)));
    std::panic::set_hook(hook);
    let tparse = t0.elapsed().as_secs_f64();
    let cfg = Cfg {
        max_steps,
        alloc_limit,
        max_depth,
        deadline: t0 + Duration::from_secs(timeout),
        max_viol: 3,
        max_samples: samples,
        stubs,
        trace,
    };
    let mut base = Some(Eng::new(module, cfg, z3::Z3::new(qt, qfbv)));
    base.as_mut().unwrap().z.deadline = Some(t0 + Duration::from_secs(timeout));
    let mut res: Vec<Merged> = entries.iter().map(|_| Merged::default()).collect();
    let mut jobs: Vec<Job> = vec![];
    let tok = Tokens::new(jobs_n);
    let mut next = 0;
    while next < entries.len() || !jobs.is_empty() {
        while next < entries.len() && jobs.len() < jobs_n * 2 {
            let (name, param) = &entries[next];
            let j = spawn(next, |f| explore(base.take().unwrap(), name, *param, jobs_n, mem_limit, &tok, f));
            jobs.push(j);
            next += 1;
        }
        for (j, st) in wait_jobs(&mut jobs, None).1 {
            let s = String::from_utf8_lossy(&j.buf).to_string();
            let m = &mut res[j.entry];
            if st != 0 || !s.ends_with("DONE\n") {
                *m.errors.entry(death(st)).or_default() += 1;
                if !s.lines().any(|l| l == "T") {
                    tok.put();
                }
            }
            merge(m, &s, samples);
        }
    }
    // report
    let mut o = String::from("{\n");
    o += &format!("\"ir\":{},\"ir_lines\":{},\"parse_s\":{:.2},\"wall_s\":{:.2},\n", js(&ll), text.lines().count(), tparse, t0.elapsed().as_secs_f64());
    let mut locs: BTreeSet<u32> = BTreeSet::new();
    let mut fns: BTreeSet<&str> = BTreeSet::new();
    o += "\"entries\":[\n";
    for (ei, (name, param)) in entries.iter().enumerate() {
        let m = &res[ei];
        for (f, b) in &m.cov {
            let fu = &module.funcs[*f as usize];
            fns.insert(&fu.name);
            for d in &fu.blocks[*b as usize].dbg {
                locs.insert(*d);
            }
        }
        let un: Vec<String> = m.reached.iter().map(|i| i.to_string()).collect();
        let errs: Vec<String> = m.errors.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let ck: Vec<String> = m.check_ids.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
        let ext: Vec<String> = m.ext.iter().map(|k| js(k)).collect();
        let mut fs: Vec<(u64, String)> = m.forksites.iter().map(|(k, v)| (*v, k.clone())).collect();
        fs.sort();
        fs.reverse();
        let fs: Vec<String> = fs.iter().take(8).map(|(c, n)| format!("[{},{}]", c, js(n))).collect();
        o += &format!(
            "{{\"entry\":{},\"param\":{},\"paths\":{},\"assumed_out\":{},\"forks\":{},\"steps\":{},\"checks\":{},\"max_pc\":{},\"max_steps_path\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"reached\":[{}],\"check_ids\":{{{}}},\"errors\":{{{}}},\"externals\":[{}],\"violations\":[{}],\"samples\":[{}],\"forksites\":[{}]}}{}\n",
            js(name), param, m.paths, m.assumed, m.forks, m.steps, m.checks, m.max_pc, m.max_steps_path, m.q, m.sat, m.unsat, m.unknown, m.qtime,
            un.join(","), ck.join(","), errs.join(","), ext.join(","), m.viols.join(","), m.samples.join(","), fs.join(","),
            if ei + 1 < entries.len() { "," } else { "" }
        );
    }
    o += "],\n";
    let ln = module.dbg.resolve(&locs);
    let fl: Vec<String> = ln.iter().map(|(f, n, l)| format!("[{},{},{}]", js(f), js(n), l)).collect();
    o += &format!("\"ir_functions\":{},\n\"source\":[{}]\n}}\n", fns.len(), fl.join(","));
    if out.is_empty() {
        println!("{}", o);
    } else {
        std::fs::write(&out, o).unwrap();
    }
}
