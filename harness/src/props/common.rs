//! Shared by the monitors: workloads and result checks.
use std::{
    collections::HashMap,
    pin::Pin,
    task::{Context, Poll},
    time::Duration,
};

use futures::Stream;
use paladin::directive::IndexedStream;

use crate::{
    driver::Bad,
    ensure,
    ledger::Run,
    ops::{Act, Item, Seg},
    rng::{mix, Rng},
};

/// A length, with preference for small and boundary values.
/// A number of workers: up to `max`, rarely many more.
pub fn any_workers(rng: &mut Rng, max: u64) -> usize {
    let max = if rng.chance(4) { 48 } else { max };
    rng.range(1, max) as usize
}

/// A length of up to `usual`, rarely of up to `rare`.
pub fn scaled(rng: &mut Rng, from: u64, usual: u64, percent: u64, rare: u64) -> u64 {
    if rng.chance(percent) {
        rng.range(usual, rare)
    } else {
        rng.range(from, usual)
    }
}

/// `n` different names (at most 12) that are alike, fit for AMQP: not empty,
/// at most 255 bytes, no NUL. Plain ones most of the time.
pub fn alike(rng: &mut Rng, n: usize) -> Vec<String> {
    if rng.chance(30) {
        return (0..n).map(|k| format!("name-{k}")).collect();
    }
    let base = match rng.below(6) {
        0 => "a".to_string(),
        1 => format!("pv{:x}", rng.below(1 << 20)),
        2 => "x".repeat(*rng.pick(&[15, 31, 63, 127, 200])),
        3 => "Caf\u{e9} \u{4e16}\u{754c}".to_string(),
        4 => "some-queue_of.mine/1:2".to_string(),
        _ => format!("{}", rng.below(100)),
    };
    let swapped: String = base.chars().map(|c| if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect();
    let mut all = vec![
        swapped,
        format!(" {base}"),
        format!("{base} "),
        format!("\t{base}"),
        format!("{base}\n"),
        format!("{base}\u{a0}"),
        format!("{base}\u{301}"),
        format!("{base}0"),
        format!("{base}1"),
        format!("0{base}"),
        format!("{base}{base}"),
        format!("{base}-"),
        format!("{base}."),
        format!("{base}_"),
        format!("{base}/"),
        format!("{base}#"),
        format!("{base}\u{200b}"),
        base.chars().rev().collect(),
        base.chars().skip(1).collect(),
        base.replace(['-', '_', '.', '/', ':', ' '], ""),
        base.replace('\u{e9}', "e\u{301}"),
        base.replace('_', "-"),
    ];
    all.retain(|x| !x.is_empty() && x.len() <= 255 && *x != base);
    all.sort();
    all.dedup();
    rng.shuffle(&mut all);
    all.truncate(n.saturating_sub(1));
    all.push(base);
    rng.shuffle(&mut all);
    assert_eq!(all.len(), n);
    all
}

pub fn any_len(rng: &mut Rng, max: u64) -> usize {
    let n = match rng.below(12) {
        0 => 0,
        1 => 1,
        2 => 2,
        3..=5 => rng.range(3, 12),
        6..=8 => rng.range(13, 70),
        9 => rng.range(9, 12),
        10 => *rng.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257]),
        _ => rng.range(70, max.max(71)),
    };
    n.min(max) as usize
}

/// Distinct indices: `0..n`, or any others.
pub fn any_indices(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = match rng.below(5) {
        0 | 1 => (0..n).collect(),
        4 => {
            // Alike in their low bits.
            let (bits, base) = (*rng.pick(&[8, 16, 31, 32, 48]), rng.below(20) as usize);
            (0..n).map(|i| base + (i << bits)).collect()
        }
        2 => {
            let base = *rng.pick(&[
                1usize,
                250,
                65_530,
                (1 << 31) - 3,
                (1 << 32) - 5,
                (1 << 53) - 2,
                usize::MAX - n,
            ]);
            (0..n).map(|i| base + i).collect()
        }
        _ => {
            let mut s = std::collections::BTreeSet::new();
            while s.len() < n {
                s.insert(rng.u64() as usize >> rng.below(64));
            }
            s.into_iter().collect()
        }
    };
    if rng.chance(50) {
        rng.shuffle(&mut v);
    }
    v
}

pub fn pad(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(40) {
        0 => rng.range(60_000, 140_000),
        1..=3 => rng.range(1000, 9000),
        4..=8 => *rng.pick(&[127, 128, 255, 256]),
        9..=15 => rng.range(1, 100),
        _ => 0,
    };
    rng.bytes(n as usize)
}

pub fn items(rng: &mut Rng, run: u64, indices: &[usize], padded: bool) -> Vec<Item> {
    indices
        .iter()
        .map(|i| Item {
            run,
            idx: *i as u64,
            stage: 0,
            val: rng.u64(),
            act: Act::None,
            act_stage: 0,
            pad: if padded { pad(rng) } else { vec![] },
        })
        .collect()
}

/// The text of an error: often a unique one, of any length and characters.
pub fn any_message(rng: &mut Rng, tag: &str) -> String {
    let unique = format!("{tag}-{:x}", rng.u64());
    match rng.below(12) {
        0 => String::new(),
        1 => " ".into(),
        2 => format!("{unique} with spaces "),
        3 => format!("\u{fc}n\u{ef}code \u{2713} {unique} \u{1f980}"),
        4 => format!("{unique}\nnew\r\nline\t\0nul"),
        5 => format!("%{{}}%s \"{unique}\" 'quotes' \\ <&>"),
        6 => format!("Fatal operation error: {unique}: closed: eof"),
        7 => {
            let n = *rng.pick(&[100, 200, 255, 256, 300, 1000, 1024, 4096, 5000, 70_000]);
            format!("{} {unique}", "long ".repeat(n / 5))
        }
        _ => unique,
    }
}

/// How the elements of an input arrive.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pace {
    /// All available at once.
    Burst,
    /// Pending now and then, woken at once.
    Yields,
    /// Timers between some elements, and before the end.
    Timers,
}

pub fn any_pace(rng: &mut Rng) -> Pace {
    *rng.pick(&[Pace::Burst, Pace::Burst, Pace::Yields, Pace::Timers])
}

/// Runs the future in between polls of a stream.
pub async fn pause(pace: Pace, h: u64, ms: u64) {
    match pace {
        Pace::Burst => {}
        Pace::Yields => {
            for _ in 0..h % 4 {
                tokio::task::yield_now().await;
            }
        }
        Pace::Timers => match h % 5 {
            0 => tokio::time::sleep(Duration::from_millis(1 + (h >> 8) % ms)).await,
            1 => tokio::task::yield_now().await,
            _ => {}
        },
    }
}

/// The pause before element `i` of `n`. However many there are, all of the
/// pauses together are far shorter than what counts as never.
pub async fn pause_among(n: u64, i: u64, pace: Pace, h: u64, ms: u64) {
    if i % (n / 1500 + 1) == 0 {
        pause(pace, h, ms.min(4_000_000 / n.clamp(1, 1500))).await;
    }
}

/// An input of the given elements at the given pace.
pub fn paced<T: Send + 'static>(
    xs: Vec<anyhow::Result<(usize, T)>>,
    pace: Pace,
    seed: u64,
    ms: u64,
) -> impl Stream<Item = anyhow::Result<(usize, T)>> + Send + 'static {
    let n = xs.len() as u64;
    let state = (xs.into_iter(), 0u64);
    futures::stream::unfold(state, move |(mut it, i)| async move {
        pause_among(n, i, pace, mix(seed, i), ms).await;
        let x = it.next()?;
        Some((x, (it, i + 1)))
    })
}

pub fn paced_ok<T: Send + 'static>(
    xs: Vec<(usize, T)>,
    pace: Pace,
    seed: u64,
    ms: u64,
) -> IndexedStream<'static, T> {
    IndexedStream::new(paced(xs.into_iter().map(Ok).collect(), pace, seed, ms))
}

/// The outputs of a map against the expected ones, by index.
pub fn check_outputs(
    what: &str,
    got: &[(usize, Item)],
    want: &HashMap<usize, Item>,
) -> Result<(), Bad> {
    let mut seen = std::collections::HashSet::new();
    for (i, x) in got {
        ensure!(seen.insert(*i), "{what}: index {i} was delivered more than once");
        let Some(w) = want.get(i) else {
            return Err(Bad::Violation(format!("{what}: output with index {i}, which the input does not have")));
        };
        ensure!(
            x == w,
            "{what}: output {i} is {} instead of {}",
            short(x),
            short(w)
        );
    }
    if got.len() != want.len() {
        let mut missing: Vec<_> = want.keys().filter(|i| !seen.contains(i)).collect();
        missing.sort();
        missing.truncate(5);
        return Err(Bad::Violation(format!(
            "{what}: ended with {} of {} outputs; missing e.g. {missing:?}",
            got.len(),
            want.len()
        )));
    }
    Ok(())
}

pub fn short(x: &Item) -> String {
    format!(
        "(run {} idx {} stage {} val {:x} pad {})",
        x.run,
        x.idx,
        x.stage,
        x.val,
        x.pad.len()
    )
}

/// Every element of the run was executed exactly once at a stage.
pub fn check_tally(run: &Run, stage: u32, indices: impl Iterator<Item = u64>) -> Result<(), Bad> {
    let mut t = run.tally(stage);
    for i in indices {
        let n = t.remove(&i).unwrap_or(0);
        ensure!(n == 1, "element {i} was executed {n} times at stage {stage}");
    }
    if let Some((i, n)) = t.iter().next() {
        return Err(Bad::Violation(format!(
            "element {i}, not part of the input, was executed {n} times"
        )));
    }
    Ok(())
}

/// The result of folding segments of `0..n`.
pub fn check_fold(run: &Run, got: &Seg, n: usize) -> Result<(), Bad> {
    if let Some(p) = run.first_problem() {
        return Err(Bad::Violation(format!("fold: {p}")));
    }
    let want: Vec<u64> = if n == 0 {
        vec![u64::MAX]
    } else {
        (0..n as u64).collect()
    };
    ensure!(
        got.items == want,
        "fold of {n} elements gave {} elements: {:?}...",
        got.items.len(),
        &got.items[..got.items.len().min(20)]
    );
    let combos = run.execs().iter().filter(|e| e.ranges.is_some()).count();
    ensure!(
        combos == n.saturating_sub(1),
        "fold of {n} elements took {combos} combinations"
    );
    Ok(())
}

/// Counts polls of a stream.
pub struct Counted<S> {
    pub inner: S,
    pub polls: std::sync::Arc<std::sync::atomic::AtomicU64>,
}

impl<S: Stream + Unpin> Stream for Counted<S> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        self.polls.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        Pin::new(&mut self.inner).poll_next(cx)
    }
}
