#![feature(rustc_private)]
extern crate rustc_span;
use flowistry::{infoflow::{self, Direction}, test_utils};
use std::sync::{Arc, Mutex};

/// Source snippets of the slice of the place marked with `(..)` in `src`.
#[allow(dead_code)]
fn slice(src: &str, forward: bool) -> Vec<String> {
  let dir = std::env::temp_dir().join(format!("flowistry_probe_{}_{}", std::process::id(), next()));
  std::fs::create_dir_all(&dir).unwrap();
  let input = dir.join("input.txt");
  let expected = dir.join("input.txt.expected");
  std::fs::write(&input, src).unwrap();
  std::fs::write(&expected, src.replace("`(", "").replace(")`", "")).unwrap();
  let out: Arc<Mutex<Vec<String>>> = Default::default();
  let out2 = out.clone();
  test_utils::test_command_output(&input, Some(&expected), move |results, spanner, target| {
    let places = spanner.span_to_places(target);
    assert!(!places.is_empty(), "no place at the marked range");
    let targets = places
      .iter()
      .map(|m| m.locations.iter().map(|l| (m.place, *l)).collect::<Vec<_>>())
      .collect();
    let direction = if forward { Direction::Forward } else { Direction::Backward };
    let source_map = results.analysis.tcx.sess.source_map();
    let mut v = infoflow::compute_dependency_spans(&results, targets, direction, &spanner)
      .into_iter()
      .flatten()
      .map(|span| source_map.span_to_snippet(span).unwrap())
      .collect::<Vec<_>>();
    v.sort();
    v.dedup();
    *out2.lock().unwrap() = v;
    Vec::new()
  });
  std::fs::remove_dir_all(&dir).unwrap();
  let v = out.lock().unwrap().clone();
  v
}
fn next() -> usize {
  static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
  N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)
}
#[allow(dead_code)]
fn has(v: &[String], s: &str) -> bool {
  v.iter().any(|x| x.contains(s))
}
#[allow(dead_code)]
fn check(src: &str, forward: bool, present: &[&str], absent: &[&str]) {
  let v = slice(src, forward);
  println!("{v:?}");
  for s in present { assert!(has(&v, s), "slice lacks {s:?}: {v:?}"); }
  for s in absent { assert!(!has(&v, s), "slice contains {s:?}: {v:?}"); }
}
