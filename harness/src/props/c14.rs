//! C14: the contiguous queue pairs only adjacent values and loses none.
use std::{
    collections::BTreeMap,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
};

use paladin::contiguous::{Contiguous, ContiguousQueue};
use serde_json::json;

use crate::{
    driver::{Bad, Ctx, Family, Prop, Res, Seen},
    ensure,
    rng::{mix, Rng},
};

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        level: "exploration",
        rule: "one case is a sequence of offers, look-ups, insertions and removals of ranges against an exact model, for \
               three key types; or 2 to 8 threads that offer, merge and re-offer the pieces of ranges (with and without \
               gaps, with concurrent removals), after which the handed-out identities and what is left in the queue are \
               checked. Non-trivial if at least two values were paired; distinct by the trace",
        families: vec![
            Family { name: "sequential", run: sequential, quick: 30_000, thorough: 20, threads: 6, secs: 15, min: 100 },
            Family { name: "threads", run: threads, quick: 2500, thorough: 20, threads: 2, secs: 30, min: 20 },
            Family { name: "last-pair", run: last_pair, quick: 120, thorough: 20, threads: 2, secs: 20, min: 4 },
        ],
        assumptions: vec!["values queued at the same time have distinct keys and do not overlap"],
        allowed_panics: vec![],
    }
}

/// A range of one group, with an identity.
trait Val: Contiguous<Key: Send + Sync + 'static> + Clone + Send + Sync + 'static {
    fn make(group: u8, lo: i64, hi: i64, id: u64) -> Self;
    fn parts(&self) -> (u8, i64, i64, u64);
}

macro_rules! val {
    ($name:ident, $key:ty, |$g:ident, $lo:ident| $mk:expr) => {
        #[derive(Clone, Debug)]
        struct $name {
            key: $key,
            group: u8,
            lo: i64,
            hi: i64,
            id: u64,
        }
        impl Contiguous for $name {
            type Key = $key;
            fn is_contiguous(&self, o: &Self) -> bool {
                self.group == o.group && (self.hi + 1 == o.lo || o.hi + 1 == self.lo)
            }
            fn key(&self) -> &$key {
                &self.key
            }
        }
        impl Val for $name {
            fn make($g: u8, $lo: i64, hi: i64, id: u64) -> Self {
                let group = $g;
                let lo = $lo;
                $name { key: $mk, group, lo, hi, id }
            }
            fn parts(&self) -> (u8, i64, i64, u64) {
                (self.group, self.lo, self.hi, self.id)
            }
        }
    };
}
val!(Signed, i64, |_g, lo| lo);
val!(Grouped, (u8, i64), |g, lo| (g, lo));
/// Keys that take long to compare, so that operations overlap more.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct SlowKey(i64);
impl Ord for SlowKey {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        for _ in 0..(self.0 ^ o.0) & 31 {
            std::hint::spin_loop();
        }
        self.0.cmp(&o.0)
    }
}
impl PartialOrd for SlowKey {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
val!(Slow, SlowKey, |_g, lo| SlowKey(lo));

fn sequential(seed: u64, _: &Ctx) -> Res {
    match seed % 3 {
        0 => seq::<Signed>(seed, 1),
        1 => seq::<Grouped>(seed, 3),
        _ => seq::<Slow>(seed, 1),
    }
}

fn seq<V: Val>(seed: u64, groups: u8) -> Res {
    let mut rng = Rng::new(seed);
    let base = *rng.pick(&[-40i64, 0, 1 << 40]);
    let span = rng.range(4, 60) as i64;
    // What is not in use, per group, by unit.
    let mut used = vec![vec![false; span as usize]; groups as usize];
    let mut model: BTreeMap<(u8, i64), (i64, u64)> = BTreeMap::new();
    let mut next_id = 1;
    let mut trace: Vec<String> = vec![];
    let mut initial = vec![];
    let mut fresh = |rng: &mut Rng, used: &mut Vec<Vec<bool>>| -> Option<(u8, i64, i64)> {
        let g = rng.below(groups as u64) as usize;
        let lo = rng.below(span as u64) as usize;
        if used[g][lo] {
            return None;
        }
        let mut hi = lo;
        let want = rng.below(4) as usize;
        while hi + 1 < span as usize && !used[g][hi + 1] && hi - lo < want {
            hi += 1;
        }
        used[g][lo..=hi].iter_mut().for_each(|u| *u = true);
        Some((g as u8, base + lo as i64, base + hi as i64))
    };
    for _ in 0..rng.below(6) {
        if let Some((g, lo, hi)) = fresh(&mut rng, &mut used) {
            initial.push(V::make(g, lo, hi, next_id));
            model.insert((g, lo), (hi, next_id));
            next_id += 1;
        }
    }
    let q = if initial.is_empty() { ContiguousQueue::<V>::new() } else { ContiguousQueue::from(initial) };
    let mut pairs = 0u64;
    let free = |used: &mut Vec<Vec<bool>>, g: u8, lo: i64, hi: i64| {
        used[g as usize][(lo - base) as usize..=(hi - base) as usize].iter_mut().for_each(|u| *u = false)
    };
    let neighbours = |model: &BTreeMap<(u8, i64), (i64, u64)>, g: u8, lo: i64, hi: i64| {
        let left = model
            .range((g, i64::MIN)..(g, lo))
            .next_back()
            .filter(|(_, v)| v.0 + 1 == lo)
            .map(|(k, v)| (k.1, v.0, v.1));
        let right = model.get(&(g, hi + 1)).map(|v| (hi + 1, v.0, v.1));
        (left, right)
    };
    for _ in 0..rng.range(5, 80) {
        match rng.below(10) {
            0..=5 => {
                let Some((g, lo, hi)) = fresh(&mut rng, &mut used) else { continue };
                let id = next_id;
                next_id += 1;
                let (l, r) = neighbours(&model, g, lo, hi);
                let find_only = rng.chance(25);
                let v = V::make(g, lo, hi, id);
                trace.push(format!("{} {g}:{lo}..={hi}", if find_only { "find" } else { "offer" }));
                if find_only {
                    // The type of what is found can't be named; what is removed is seen by its absence.
                    let found = q.find_contiguous(&v).is_some();
                    ensure!(found == (l.is_some() || r.is_some()), "{trace:?}: {found}, but the neighbours are {l:?} and {r:?}");
                    let mut gone = 0;
                    for (nlo, nhi, nid) in l.into_iter().chain(r) {
                        match q.dequeue(V::make(g, nlo, nlo, 0).key()) {
                            Some(v) => {
                                ensure!(v.parts() == (g, nlo, nhi, nid), "{trace:?}: {:?} is queued", v.parts());
                                q.queue(v);
                            }
                            None => {
                                gone += 1;
                                model.remove(&(g, nlo));
                                free(&mut used, g, nlo, nhi);
                            }
                        }
                    }
                    ensure!(gone == found as u64, "{trace:?}: {gone} values were removed");
                    free(&mut used, g, lo, hi);
                    continue;
                }
                let got = q.acquire_contiguous_pair_or_queue(v);
                match got {
                    None => {
                        ensure!(
                            l.is_none() && r.is_none(),
                            "{trace:?}: the value was not paired although its neighbours {l:?}, {r:?} are queued"
                        );
                        model.insert((g, lo), (hi, id));
                    }
                    Some((a, b)) => {
                        pairs += 1;
                        let ((ga, la, ha, ia), (gb, lb, hb, ib)) = (a.parts(), b.parts());
                        trace.push(format!("= ({la}..={ha}, {lb}..={hb})"));
                        ensure!(ga == g && gb == g && ha + 1 == lb, "{trace:?}: paired in the wrong order, or not contiguous");
                        let (mate, mate_id) = if ia == id { ((gb, lb), ib) } else { ((ga, la), ia) };
                        ensure!(ia == id || ib == id, "{trace:?}: the offered value is not part of the pair");
                        let m = model.remove(&mate);
                        ensure!(m.is_some_and(|m| m.1 == mate_id), "{trace:?}: paired with a value that is not queued");
                        free(&mut used, g, la, ha);
                        free(&mut used, g, lb, hb);
                    }
                }
            }
            6 => {
                let Some((g, lo, hi)) = fresh(&mut rng, &mut used) else { continue };
                q.queue(V::make(g, lo, hi, next_id));
                model.insert((g, lo), (hi, next_id));
                next_id += 1;
                trace.push(format!("queue {g}:{lo}..={hi}"));
            }
            _ => {
                let g = rng.below(groups as u64) as u8;
                let keys: Vec<_> = model.keys().copied().collect();
                let (g, lo) = if rng.chance(60) && !keys.is_empty() {
                    *rng.pick(&keys)
                } else {
                    (g, base + rng.below(span as u64) as i64)
                };
                let got = q.dequeue(V::make(g, lo, lo, 0).key());
                let want = model.remove(&(g, lo));
                trace.push(format!("dequeue {g}:{lo}"));
                let got = got.map(|v| v.parts());
                ensure!(
                    got.map(|p| p.3) == want.map(|w| w.1),
                    "{trace:?}: gave {got:?} instead of {want:?}"
                );
                if let Some((g, lo, hi, _)) = got {
                    free(&mut used, g, lo, hi);
                }
            }
        }
    }
    // Everything that was not handed out is still there.
    for ((g, lo), (_, id)) in &model {
        let got = q.dequeue(V::make(*g, *lo, *lo, 0).key()).map(|v| v.parts().3);
        ensure!(got == Some(*id), "{trace:?}: in the end {g}:{lo} is {got:?} instead of {id}");
        ensure!(q.dequeue(V::make(*g, *lo, *lo, 0).key()).is_none(), "{trace:?}: {g}:{lo} was handed out twice");
    }
    Ok(Seen {
        sig: trace.iter().fold(1, |h, s| s.bytes().fold(h, |h, b| mix(h, b as u64))),
        nontrivial: pairs > 1,
        sample: Some(json!({"key": std::any::type_name::<V>(), "steps": trace.iter().take(12).collect::<Vec<_>>()})),
        counts: vec![("pairs", pairs)],
    })
}

/// Cuts of `0..n` into pieces; `None` where there is a gap.
fn pieces(rng: &mut Rng, n: i64, gaps: u64) -> (Vec<(i64, i64)>, Vec<(i64, i64)>) {
    let mut v = vec![];
    let mut runs: Vec<(i64, i64)> = vec![];
    let mut lo = 0;
    let mut broken = true;
    while lo < n {
        let hi = (lo + rng.below(3) as i64).min(n - 1);
        if rng.chance(gaps) {
            broken = true;
        } else {
            v.push((lo, hi));
            match runs.last_mut() {
                Some(r) if !broken => r.1 = hi,
                _ => runs.push((lo, hi)),
            }
            broken = false;
        }
        lo = hi + 1;
    }
    (v, runs)
}

fn threads(seed: u64, ctx: &Ctx) -> Res {
    match seed % 3 {
        0 => threaded::<Signed>(seed, ctx),
        1 => threaded::<Grouped>(seed, ctx),
        _ => threaded::<Slow>(seed, ctx),
    }
}

fn threaded<V: Val>(seed: u64, _: &Ctx) -> Res {
    let mut rng = Rng::new(seed);
    let n = *rng.pick(&[2i64, 3, 8, 40, 200]);
    let gaps = *rng.pick(&[0u64, 0, 10]);
    let (mut ps, runs) = pieces(&mut rng, n, gaps);
    match rng.below(3) {
        0 => rng.shuffle(&mut ps),
        1 => {
            // Neighbours go to different threads at about the same time.
        }
        _ => ps.reverse(),
    }
    let workers = rng.range(2, 8) as usize;
    let removals = rng.chance(40);
    let q = Arc::new(ContiguousQueue::<V>::new());
    let next_id = Arc::new(AtomicU64::new(1));
    // Who has been handed out: an identity may be given back only once.
    let given: Arc<Mutex<std::collections::HashSet<u64>>> = Default::default();
    let barrier = Arc::new(std::sync::Barrier::new(workers));
    let count = ps.len();
    let handles: Vec<_> = (0..workers)
        .map(|w| {
            let mine: Vec<_> = ps.iter().skip(w).step_by(workers).copied().collect();
            let (q, next_id, given, barrier) = (q.clone(), next_id.clone(), given.clone(), barrier.clone());
            let mut rng = rng.fork();
            std::thread::spawn(move || -> Result<(u64, u64), String> {
                barrier.wait();
                let (mut pairs, mut removed) = (0, 0);
                let take = |v: &V, own: u64| -> Result<(), String> {
                    let id = v.parts().3;
                    if id != own && !given.lock().unwrap().insert(id) {
                        return Err(format!("{:?} was handed out twice", v.parts()));
                    }
                    Ok(())
                };
                let offer = |lo: i64, hi: i64, pairs: &mut u64| -> Result<(), String> {
                    let (mut lo, mut hi) = (lo, hi);
                    loop {
                        let id = next_id.fetch_add(1, Ordering::SeqCst);
                        let Some((a, b)) = q.acquire_contiguous_pair_or_queue(V::make(0, lo, hi, id)) else {
                            return Ok(());
                        };
                        *pairs += 1;
                        let ((_, la, ha, ia), (_, lb, hb, ib)) = (a.parts(), b.parts());
                        if ha + 1 != lb || (ia != id && ib != id) {
                            return Err(format!("offering {lo}..={hi} gave the pair {la}..={ha} and {lb}..={hb}"));
                        }
                        take(&a, id)?;
                        take(&b, id)?;
                        (lo, hi) = (la, hb);
                    }
                };
                for (lo, hi) in mine {
                    offer(lo, hi, &mut pairs)?;
                    if removals && rng.chance(30) {
                        let k = rng.below(n as u64) as i64;
                        if let Some(v) = q.dequeue(V::make(0, k, k, 0).key()) {
                            take(&v, 0)?;
                            let (_, lo, hi, _) = v.parts();
                            if lo != k {
                                return Err(format!("dequeue {k} gave {lo}..={hi}"));
                            }
                            removed += 1;
                            offer(lo, hi, &mut pairs)?;
                        }
                    }
                }
                Ok((pairs, removed))
            })
        })
        .collect();
    let (mut pairs, mut removed) = (0, 0);
    for h in handles {
        let (p, r) = h.join().map_err(|_| Bad::Violation("a thread using the queue panicked".into()))??;
        pairs += p;
        removed += r;
    }
    let mut left = vec![];
    for k in 0..n {
        if let Some(v) = q.dequeue(V::make(0, k, k, 0).key()) {
            let (_, lo, hi, id) = v.parts();
            ensure!(given.lock().unwrap().insert(id), "{lo}..={hi} was handed out and is still queued");
            left.push((lo, hi));
        }
    }
    ensure!(
        left == runs,
        "{workers} threads offered {count} pieces of {runs:?} and merged the pairs; {left:?} are left instead"
    );
    Ok(Seen {
        sig: mix(mix(pairs, removed), mix(count as u64, seed)),
        nontrivial: pairs > 1,
        sample: Some(json!({"threads": workers, "pieces": count, "runs": runs.len(), "removed": removed, "key": std::any::type_name::<V>()})),
        counts: vec![("pairs", pairs), ("removals", removed)],
    })
}

/// Two or three neighbours offered at the same instant, over and over.
fn last_pair(seed: u64, _: &Ctx) -> Res {
    let mut rng = Rng::new(seed);
    let parties = rng.range(2, 4) as usize;
    let rounds = 300;
    let q = Arc::new(ContiguousQueue::<Slow>::new());
    let barrier = Arc::new(std::sync::Barrier::new(parties));
    // Other values, so that look-ups take a while.
    for i in 0..rng.below(200) as i64 {
        q.queue(Slow::make(0, 1_000_000 + 10 * i, 1_000_000 + 10 * i, 0));
    }
    let results: Arc<Mutex<Vec<Vec<(i64, i64)>>>> = Arc::new(Mutex::new(vec![vec![]; rounds]));
    let handles: Vec<_> = (0..parties as i64)
        .map(|me| {
            let (q, barrier, results) = (q.clone(), barrier.clone(), results.clone());
            let mut rng = rng.fork();
            std::thread::spawn(move || {
                for r in 0..rounds {
                    barrier.wait();
                    for _ in 0..rng.below(60) {
                        std::hint::spin_loop();
                    }
                    let (mut lo, mut hi) = (me, me);
                    while let Some((a, b)) = q.acquire_contiguous_pair_or_queue(Slow::make(0, lo, hi, 0)) {
                        (lo, hi) = (a.lo, b.hi);
                    }
                    barrier.wait();
                    if me == 0 {
                        // Collect what is left; everyone else waits.
                        let left: Vec<_> =
                            (0..8).filter_map(|k| q.dequeue(&SlowKey(k))).map(|v| (v.lo, v.hi)).collect();
                        results.lock().unwrap()[r] = left;
                    }
                    barrier.wait();
                }
            })
        })
        .collect();
    for h in handles {
        h.join().map_err(|_| Bad::Violation("a thread using the queue panicked".into()))?;
    }
    let results = results.lock().unwrap();
    for (r, left) in results.iter().enumerate() {
        ensure!(
            left[..] == [(0, parties as i64 - 1)],
            "round {r}: {parties} neighbours were offered concurrently; {left:?} are left in the queue"
        );
    }
    Ok(Seen {
        sig: seed,
        nontrivial: true,
        sample: Some(json!({"parties": parties, "rounds": rounds})),
        counts: vec![("rounds", rounds as u64)],
    })
}
