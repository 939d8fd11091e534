//! Minimisation of a violating plan: fewer events, fewer and simpler faults,
//! fewer preemptions, plainer arguments -- while the same violation class stays.
use crate::seam::{self, EntropySpec};
use crate::world::World;

pub struct Min {
    pub events: Vec<String>,
    pub detail: String,
    pub tried: u64,
}

struct Ctl<'a> {
    class: &'a str,
    workers: usize,
    deadline: u64,
    tried: u64,
}

fn detail_of(ev: &[String], class: &str) -> (Option<String>, String) {
    let mut w = World::new();
    w.run(ev);
    (
        w.viol.iter().find(|v| v.class == class).map(|v| v.detail.clone()),
        w.last_switches.clone(),
    )
}

impl Ctl<'_> {
    fn out_of_time(&self) -> bool {
        seam::real_now_ns() > self.deadline
    }
    /// index of the first candidate that still violates; evaluated in parallel
    fn first(&mut self, cands: &[Vec<String>]) -> Option<usize> {
        for (c, chunk) in cands.chunks(self.workers.max(1)).enumerate() {
            if self.out_of_time() {
                return None;
            }
            let mut pids = vec![];
            for ev in chunk {
                self.tried += 1;
                let pid = unsafe { libc::fork() };
                assert!(pid >= 0);
                if pid == 0 {
                    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
                    let r = std::panic::catch_unwind(|| detail_of(ev, self.class).0.is_some());
                    unsafe { libc::_exit(if matches!(r, Ok(true)) { 10 } else { 0 }) };
                }
                pids.push(pid);
            }
            let mut hit = None;
            for (i, p) in pids.into_iter().enumerate() {
                let mut st = 0;
                unsafe { libc::waitpid(p, &mut st, 0) };
                if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 10 && hit.is_none() {
                    hit = Some(c * self.workers.max(1) + i);
                }
            }
            if hit.is_some() {
                return hit;
            }
        }
        None
    }

    /// drop as many of `n` parts as possible; `make` builds the plan without a range
    fn ddmin(&mut self, mut keep: Vec<usize>, make: &dyn Fn(&[usize]) -> Vec<String>) -> Vec<usize> {
        let mut gran = 2usize;
        while keep.len() >= 2 && !self.out_of_time() {
            let sz = keep.len().div_ceil(gran);
            let cands: Vec<Vec<usize>> = (0..keep.len())
                .step_by(sz)
                .map(|a| {
                    let mut k = keep.clone();
                    k.drain(a..(a + sz).min(keep.len()));
                    k
                })
                .collect();
            let plans: Vec<Vec<String>> = cands.iter().map(|k| make(k)).collect();
            match self.first(&plans) {
                Some(i) => {
                    keep = cands[i].clone();
                    gran = (gran - 1).max(2);
                }
                None => {
                    if sz == 1 {
                        break;
                    }
                    gran = (gran * 2).min(keep.len());
                }
            }
        }
        if keep.len() == 1 && !self.out_of_time() && self.first(&[make(&[])]).is_some() {
            keep.clear();
        }
        keep
    }
}

fn replace(ev: &[String], i: usize, l: String) -> Vec<String> {
    let mut e = ev.to_vec();
    e[i] = l;
    e
}

/// simpler variants of one event line, simplest first
fn variants(l: &str) -> Vec<String> {
    let t: Vec<&str> = l.split(' ').collect();
    let join = |v: &[String]| v.join(" ");
    let own: Vec<String> = t.iter().map(|x| x.to_string()).collect();
    let mut out = vec![];
    if t[0] != "+0" {
        let mut v = own.clone();
        v[0] = "+0".into();
        out.push(join(&v));
    }
    for (i, x) in t.iter().enumerate().skip(2) {
        if x.starts_with("job=") || x.starts_with("crash=") || x.starts_with("oom=") || x.starts_with("env=") || x.starts_with("thr=") || x.starts_with("inst=") || x.starts_with("check=") {
            let mut v = own.clone();
            v.remove(i);
            out.push(join(&v));
        }
        if let Some(e) = x.strip_prefix("ent=").and_then(EntropySpec::parse) {
            let mut c = vec![];
            if e.faults.len() > 1 {
                for j in 0..e.faults.len() {
                    let mut f = e.clone();
                    f.faults.remove(j);
                    c.push(f);
                }
            }
            if e.faults.len() == 1 {
                let mut f = e.clone();
                f.faults.clear();
                c.push(f);
                for len in [1, e.faults[0].len / 2] {
                    if len > 0 && len < e.faults[0].len {
                        let mut f = e.clone();
                        f.faults[0].len = len;
                        c.push(f);
                    }
                }
            }
            if e.seed > 15 {
                let mut f = e.clone();
                f.seed &= 15;
                c.push(f);
            }
            for f in c {
                let mut v = own.clone();
                v[i] = format!("ent={}", f.fmt());
                out.push(join(&v));
            }
        }
        if let Some(m) = x.strip_prefix("m=") {
            let p: Vec<&str> = m.split(':').collect();
            if p.len() == 4 {
                for c in [["0", p[1], p[2], p[3]], [p[0], "0", p[2], p[3]], [p[0], p[1], "1", "1"]] {
                    if c != p[..] {
                        let mut v = own.clone();
                        v[i] = format!("m={}", c.join(":"));
                        out.push(join(&v));
                    }
                }
            }
        }
    }
    out
}

pub fn minimise(ev: &[String], class: &str, workers: usize, secs: u64) -> Min {
    let mut c = Ctl { class, workers, deadline: seam::real_now_ns() + secs * 1_000_000_000, tried: 0 };
    let ev0 = ev.to_vec();
    let keep = c.ddmin((0..ev0.len()).collect(), &|k| k.iter().map(|&i| ev0[i].clone()).collect());
    let mut ev: Vec<String> = keep.iter().map(|&i| ev0[i].clone()).collect();
    // plainer arguments
    let mut again = true;
    while again && !c.out_of_time() {
        again = false;
        for i in 0..ev.len() {
            loop {
                let v: Vec<Vec<String>> = variants(&ev[i]).into_iter().map(|l| replace(&ev, i, l)).collect();
                match c.first(&v) {
                    Some(j) => {
                        ev = v[j].clone();
                        again = true;
                    }
                    None => break,
                }
            }
        }
    }
    // an explicit, shortest list of preemptions
    if let Some(i) = ev.iter().rposition(|l| l.contains(" policy=r:")) {
        let (_, sw) = detail_of(&ev, class);
        let parts: Vec<String> = sw.split(',').map(|x| x.to_string()).collect();
        let t: Vec<&str> = ev[i].split(' ').collect();
        let mk = |k: &[usize]| -> Vec<String> {
            let list = k.iter().map(|&j| parts[j].clone()).collect::<Vec<_>>().join(",");
            let l: Vec<String> = t
                .iter()
                .map(|x| if x.starts_with("policy=") { format!("policy=x:{list}") } else { x.to_string() })
                .collect();
            replace(&ev, i, l.join(" "))
        };
        let all: Vec<usize> = (0..parts.len()).collect();
        if parts.len() < 20_000 && !c.out_of_time() && c.first(&[mk(&all)]).is_some() {
            let k = c.ddmin(all, &mk);
            ev = mk(&k);
        }
    }
    let (d, _) = detail_of(&ev, class);
    Min { events: ev, detail: d.unwrap_or_else(|| "(did not reproduce)".into()), tried: c.tried }
}
