//! C18: the utilities against their models.

use super::Verdict;
use crate::gen::*;
use crate::rt::tgt;
use crate::stats::Stats;
use crate::tape::Tape;
use actiondb::utils::{flatten_vec, CommonPrefix, SortedVec};

pub const RULE: &str = "a case is a history of pushes, removals and look-ups on a SortedVec, or a pair of strings (derived from each other, multi-byte characters sharing bytes); non-trivial when the vector held at least three elements, or the strings share a proper prefix, and the case was not seen before";

pub fn run(t: &mut Tape, st: &mut Stats) -> Verdict {
    if t.chance(1, 2) {
        sorted(t, st)
    } else {
        prefixes(t, st)
    }
}

fn sorted(t: &mut Tape, st: &mut Stats) -> Verdict {
    let range = *t.pick(&[3usize, 10, 100, 100_000]);
    let strings = t.chance(1, 3);
    let al = alpha(t);
    let mut sv: SortedVec<String> = SortedVec::new();
    let mut model: Vec<String> = Vec::new();
    let n = size(t, 30, 700);
    let mut log: Vec<String> = Vec::new();
    let key = |t: &mut Tape| -> String {
        if strings {
            let k = t.range(0, 3);
            al.text(t, k)
        } else {
            format!("{:06}", t.below(range))
        }
    };
    let asc = t.below(8);
    let mut next = 0;
    for _ in 0..n {
        match t.weighted(&[6, 2, 3, 2]) {
            0 => {
                let k = match asc {
                    0 => {
                        next += 1;
                        format!("{:06}", next)
                    }
                    1 => {
                        next += 1;
                        format!("{:06}", 999_999 - next)
                    }
                    _ => key(t),
                };
                tgt(|| sv.push(k.clone()));
                log.push(format!("push {:?}", k));
                model.push(k);
                model.sort();
                st.inc("pushes");
            }
            1 => {
                if !model.is_empty() {
                    let i = t.below(model.len());
                    let got = tgt(|| sv.remove(i));
                    log.push(format!("remove {}", i));
                    let want = model.remove(i);
                    st.inc("removals");
                    if got != want {
                        return Err(format!("remove({}) returned {:?}, should be {:?} after {:?}\n", i, got, want, log));
                    }
                }
            }
            2 => {
                let k = if !model.is_empty() && t.chance(1, 2) { t.pick(&model).clone() } else { key(t) };
                let held = model.contains(&k);
                let f = tgt(|| sv.find(&k).cloned());
                let p = tgt(|| sv.find_pos(&k));
                let b = tgt(|| sv.binary_search_by(|x| x.cmp(&k)));
                st.inc(if held { "lookups_of_held_elements" } else { "lookups_of_absent_elements" });
                let ok = f.is_some() == held
                    && p.is_some() == held
                    && b.is_ok() == held
                    && f.map_or(true, |x| x == k)
                    && p.map_or(true, |i| model.get(i) == Some(&k))
                    && match b {
                        Ok(i) => model.get(i) == Some(&k),
                        Err(i) => i == model.iter().filter(|x| **x < k).count(),
                    };
                if !ok {
                    return Err(format!("look-up of {:?} (held: {}): find {:?} find_pos {:?} binary_search_by {:?} after {:?}\n", k, held, tgt(|| sv.find(&k).cloned()), p, b, log));
                }
            }
            _ => {
                if !model.is_empty() {
                    let i = t.below(model.len());
                    if tgt(|| sv.get_mut(i).map(|x| x.clone())) != model.get(i).cloned() {
                        return Err(format!("get_mut({}) is wrong after {:?}\n", i, log));
                    }
                }
            }
        }
        if tgt(|| sv.len()) != model.len() || tgt(|| sv.is_empty()) != model.is_empty() {
            return Err(format!("len is {} instead of {} after {:?}\n", sv.len(), model.len(), log));
        }
        let step = 1 + model.len() / 16;
        for i in (0..model.len()).step_by(step) {
            if tgt(|| sv.get(i)) != Some(&model[i]) {
                return Err(format!("element {} is {:?}, should be {:?} after {:?}\n", i, sv.get(i), model[i], log));
            }
        }
        if tgt(|| sv.get(model.len())).is_some() {
            return Err(format!("an element beyond the end after {:?}\n", log));
        }
    }
    for i in 0..model.len() {
        if tgt(|| sv.get(i)) != Some(&model[i]) {
            return Err(format!("element {} is {:?}, should be {:?} after {:?}\n", i, sv.get(i), model[i], log));
        }
    }
    st.max("max_elements", model.len() as u64);
    if model.len() >= 3 {
        st.case(&log);
    }
    st.sample(|| format!("{:?}", log));
    Ok(())
}

fn prefixes(t: &mut Tape, st: &mut Stats) -> Verdict {
    let al = alpha(t);
    let n = size(t, 6, 5000);
    let mut a = al.text(t, n);
    if n > 3 && t.chance(1, 60) {
        // beyond 16 bits
        let k = t.range(1, 200_000) / a.len() + 1;
        a = a.repeat(k);
    }
    let b = match t.below(5) {
        0 => a.clone(),
        1 => {
            let cs: Vec<char> = a.chars().collect();
            let k = t.range(0, cs.len());
            let s: String = cs[..k].iter().collect();
            let j = t.range(0, 3);
            s + &al.text(t, j)
        }
        2 | 3 => mutate(t, &a, &al),
        _ => {
            let n = size(t, 6, 5000);
            al.text(t, n)
        }
    };
    let mut want = 0;
    for (x, y) in a.chars().zip(b.chars()) {
        if x != y {
            break;
        }
        want += x.len_utf8();
    }
    let (x, y) = tgt(|| (a.common_prefix_len(&b), b.common_prefix_len(&a)));
    if x != want || y != want {
        return Err(format!("common prefix of {:?} and {:?}: {} and {} instead of {}\n", a, b, x, y, want));
    }
    let h = tgt(|| a.has_common_prefix(&b));
    if h != if want > 0 { Some(want) } else { None } {
        return Err(format!("has_common_prefix of {:?} and {:?}: {:?} instead of {}\n", a, b, h, want));
    }
    st.inc("string_pairs");
    let cuts: Vec<usize> = a.char_indices().map(|x| x.0).chain(Some(a.len())).collect();
    for _ in 0..4 {
        let i = *t.pick(&cuts);
        if tgt(|| a.ltrunc(i)).as_bytes() != &a.as_bytes()[i..] {
            return Err(format!("{:?}.ltrunc({}) is {:?}\n", a, i, a.ltrunc(i)));
        }
        let k = a.len() - i;
        if tgt(|| a.rtrunc(k)).as_bytes() != &a.as_bytes()[..i] {
            return Err(format!("{:?}.rtrunc({}) is {:?}\n", a, k, a.rtrunc(k)));
        }
        st.inc("truncations");
    }
    // flattening keeps every element in order
    let k = size(t, 4, 5000);
    let vs: Vec<Vec<usize>> = (0..k).map(|i| (0..t.below(4)).map(|j| i * 10 + j).collect()).collect();
    let want_flat: Vec<usize> = vs.iter().flat_map(|v| v.iter().cloned()).collect();
    let flat = tgt(|| flatten_vec(vs.clone()));
    if flat != want_flat {
        return Err(format!("flatten_vec({:?}) is {:?}\n", vs, flat));
    }
    if want > 0 && (want < a.len() || want < b.len()) {
        st.case(&(&a, &b));
    }
    st.sample(|| format!("{:?} / {:?}: {}", a, b, want));
    Ok(())
}
