//! C13: the map of macro definitions with undo.
use super::sym::*;
use mitex_lexer::snapshot_map::{Snapshot, SnapshotMap};

const KEYS: [&str; 3] = ["a", "bb", "b"];
type Model = [Option<u8>; 3];

/// any sequence of n operations on a map with three keys
pub fn h_snap(n: u64, depth: u64, _c: u64, _d: u64) {
    let mut map: SnapshotMap<&str, u8> = SnapshotMap::default();
    let mut now: Model = [None; 3];
    let mut open: Vec<(Snapshot, Model)> = Vec::with_capacity(8);
    for _ in 0..n {
        match split(choose(10), 10) {
            k @ 0..=2 => {
                let v = byte(&DIGIT);
                check(map.insert(KEYS[k as usize], v) == now[k as usize].is_none(), "insert does not tell whether the key is new");
                now[k as usize] = Some(v);
            }
            k @ 3..=5 => {
                let k = k as usize - 3;
                check(map.remove(KEYS[k]) == now[k].is_some(), "remove does not tell whether the key was there");
                now[k] = None;
            }
            6 => {
                if open.len() as u64 == depth {
                    return;
                }
                open.push((map.snapshot(), now));
            }
            7 => {
                let Some((s, m)) = open.pop() else { return };
                map.rollback_to(s);
                now = m;
            }
            8 => {
                let Some((s, _)) = open.pop() else { return };
                map.commit(s);
            }
            _ => {
                // emptied between histories
                if !open.is_empty() {
                    return;
                }
                map.clear();
                now = [None; 3];
            }
        }
        for k in 0..3 {
            check(map.get(KEYS[k]).copied() == now[k], "the map does not hold what the operations left");
            if let Some(v) = now[k] {
                check(map[&KEYS[k]] == v, "indexing does not find what is there");
            }
        }
    }
    // give back what is still open
    while let Some((s, m)) = open.pop() {
        map.rollback_to(s);
        now = m;
        for k in 0..3 {
            check(map.get(KEYS[k]).copied() == now[k], "rolling back does not restore the map");
        }
    }
}

/// n operations on `keys` keys in a snapshot, one more snapshot anywhere among them that is kept or rolled back
pub fn h_snap_long(n: u64, keys: u64, how: u64, _d: u64) {
    let mut map: SnapshotMap<u64, u8> = SnapshotMap::default();
    let mut now: Vec<Option<u8>> = vec![None; keys as usize];
    let same = |map: &SnapshotMap<u64, u8>, now: &[Option<u8>], what: &str| {
        for k in 0..keys {
            check(map.get(&k).copied() == now[k as usize], what);
        }
    };
    // what was there before
    let v = byte(&DIGIT);
    for k in 0..keys / 2 {
        map.insert(k, v);
        now[k as usize] = Some(v);
    }
    let first = (map.snapshot(), now.clone());
    // anywhere in the first half, ended anywhere in the second
    let points = 6;
    let at = split(choose(points), points) as u64 * (n / 2) / points as u64;
    let until = n / 2 + split(choose(points), points) as u64 * (n / 2) / points as u64;
    let keep = split(choose(2), 2) == 1;
    let mut inner = None;
    let w = byte(&LOWER);
    for i in 0..n {
        if i == at {
            inner = Some((map.snapshot(), now.clone()));
        }
        if i == until {
            let (s, m) = inner.take().unwrap();
            if keep {
                map.commit(s);
            } else {
                map.rollback_to(s);
                now = m;
                same(&map, &now, "rolling back does not restore the map");
            }
        }
        let k = (i * 7 + i / keys) % keys;
        if how == 1 && i % 3 == 2 {
            check(map.remove(k) == now[k as usize].is_some(), "remove does not tell whether the key was there");
            now[k as usize] = None;
        } else {
            let x = if i % 5 == 0 { w } else { i as u8 };
            check(map.insert(k, x) == now[k as usize].is_none(), "insert does not tell whether the key is new");
            now[k as usize] = Some(x);
        }
    }
    same(&map, &now, "the map does not hold what the operations left");
    if split(choose(2), 2) == 1 {
        map.commit(first.0);
        same(&map, &now, "keeping a snapshot changes the map");
    } else {
        map.rollback_to(first.0);
        same(&map, &first.1, "rolling back does not restore the map");
    }
}
