//! C21: the containers against standard-library models.
use adhoc_audio::verif_hooks::{
    BitVec, CircularStack, FixedRingBuffer, InsertDirection, LinkedList, LinkedListIterator,
    LruCache, NibbleList, Ptr, NULL,
};
use pbt::engine::{guarded, run, Obs, Prop, Tier};
use pbt::ensure;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::VecDeque;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Case {
    Bits(Vec<BitOp>),
    Nibbles(Vec<NibOp>),
    Ring { log2: u8, spare: u8, ops: Vec<RingOp> },
    Stack(Vec<StackOp>),
    List(Vec<ListOp>),
    Lru { capacity: u8, ops: Vec<LruOp> },
    /// more elements than 16 bits can count, in every container
    Large { n: u32, seed: u32 },
    /// many insertions and removals with never more than `live` elements
    Churn { live: u8, rounds: u32, seed: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum BitOp {
    Push(u64),
    /// n copies of the 16-bit pattern, bit by bit
    PushMany(u16, u8),
    Set(u16, u64),
    Clear,
    Truncate(u16),
    Serialise,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum NibOp {
    Push(u8),
    PushMany(u8, u8),
    Set(u16, u8),
    Clear,
    Truncate(u16),
    Serialise,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum RingOp {
    PushFront(u32),
    PushRear(u32),
    PopFront,
    PopRear,
    Clear,
    Serialise,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum StackOp {
    Push(i32),
    Pop,
    Copy,
    Serialise,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ListOp {
    PushFront(u32),
    PushRear(u32),
    PopFront,
    PopRear,
    /// beside the live node number `at` (modulo the length)
    Insert { at: u16, right: bool, v: u32 },
    InsertNull(u32),
    Remove(u16),
    SetAt(u16, u32),
    /// adds to every value through iter_mut
    AddAll(u32),
    /// a node outside the list
    AllocFree(u32),
    Serialise,
    Json,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum LruOp {
    Put(u8, u32),
    Get(u8),
    /// adds through get_mut
    Add(u8, u32),
    Remove(u8),
    Serialise,
    Json,
}

fn round_trip<T: Serialize + DeserializeOwned>(v: &T) -> Result<T, String> {
    let bytes = bincode::serialize(v).map_err(|e| e.to_string())?;
    bincode::deserialize(&bytes).map_err(|e| e.to_string())
}

fn json_trip<T: Serialize + DeserializeOwned>(v: &T) -> Result<T, String> {
    let text = serde_json::to_string(v).map_err(|e| e.to_string())?;
    serde_json::from_str(&text).map_err(|e| e.to_string())
}

// ------------------------------------------------------------------ bit vector

fn check_bits(ops: &[BitOp], obs: &mut Obs) -> Result<(), String> {
    let mut v = BitVec::new();
    let mut m: Vec<u64> = vec![];
    let mut high = 0;
    let mut shrunk = false;
    for op in ops {
        match op {
            BitOp::Push(b) => {
                v.push(*b);
                m.push(b & 1);
                obs.label_if(shrunk, "bits: push after a clear or truncate");
            }
            BitOp::PushMany(p, n) => {
                for _ in 0..*n {
                    for k in 0..16 {
                        let b = (*p as u64 >> k) & 1;
                        v.push(b);
                        m.push(b);
                    }
                }
                obs.label_if(shrunk && *n > 0, "bits: push after a clear or truncate");
            }
            BitOp::Set(i, b) => {
                if !m.is_empty() {
                    let i = *i as usize % m.len();
                    v.set(i, *b);
                    m[i] = b & 1;
                }
            }
            BitOp::Clear => {
                v.clear();
                m.clear();
                shrunk = true;
            }
            BitOp::Truncate(n) => {
                let n = *n as usize % (m.len() + 3);
                v.truncate(n);
                m.truncate(n);
                shrunk = true;
            }
            BitOp::Serialise => v = round_trip(&v)?,
        }
        high = high.max(m.len());
        ensure!(v.len() == m.len(), "after {:?} the length is {} not {}", op, v.len(), m.len());
        let got: Vec<u64> = v.iter().collect();
        ensure!(got == m, "after {:?} the bits are {:?} not {:?}", op, got, m);
        for i in [0, m.len() / 2, m.len().saturating_sub(1)] {
            if i < m.len() {
                ensure!(v.get(i) == m[i], "bit {} reads as {}", i, v.get(i));
            }
        }
        // documented: an invalid index reads as 0 and is not set
        for i in [m.len(), m.len() + 1, m.len() + 63, m.len() + 64, m.len() + 1000] {
            v.set(i, 1);
            ensure!(v.get(i) == 0, "bit {} of {} reads as 1", i, m.len());
        }
        let most = BitVec::compute_bits_required(high as u64);
        ensure!(
            v.capacity() >= m.len() && v.capacity() <= most && v.capacity() % 64 == 0,
            "capacity {} for {} bits (at most {} before)",
            v.capacity(),
            m.len(),
            high
        );
        ensure!(v.is_consistent(), "after {:?} the vector calls itself inconsistent", op);
    }
    obs.label_if(m.len() > 64, "bits: several words");
    obs.nontrivial = high > 64 && shrunk;
    for n in [m.len() as u64, high as u64 * 1_000_003] {
        let r = BitVec::compute_bits_required(n) as u64;
        ensure!(
            r % 64 == 0 && r >= n && r < n + 64,
            "{} bits are said to require {}",
            n,
            r
        );
    }
    Ok(())
}

// ------------------------------------------------------------------ nibble list

fn check_nibbles(ops: &[NibOp], obs: &mut Obs) -> Result<(), String> {
    let mut v = NibbleList::new();
    let mut m: Vec<u8> = vec![];
    let mut high = 0;
    let mut shrunk = false;
    for op in ops {
        match op {
            NibOp::Push(b) => {
                v.push(*b);
                m.push(b & 15);
                obs.label_if(shrunk, "nibbles: push after a clear or truncate");
            }
            NibOp::PushMany(b, n) => {
                for k in 0..*n {
                    let x = b.wrapping_mul(k | 1).wrapping_add(k);
                    v.push(x);
                    m.push(x & 15);
                }
            }
            NibOp::Set(i, b) => {
                if !m.is_empty() {
                    let i = *i as usize % m.len();
                    v.set(i, *b);
                    m[i] = b & 15;
                }
            }
            NibOp::Clear => {
                v.clear();
                m.clear();
                shrunk = true;
            }
            NibOp::Truncate(n) => {
                let n = *n as usize % (m.len() + 3);
                v.truncate(n);
                m.truncate(n);
                shrunk = true;
            }
            NibOp::Serialise => v = round_trip(&v)?,
        }
        high = high.max(m.len());
        ensure!(v.len() == m.len(), "after {:?} the length is {} not {}", op, v.len(), m.len());
        ensure!(v.is_empty() == m.is_empty(), "is_empty with {} nibbles", m.len());
        let got: Vec<u8> = v.iter().collect();
        ensure!(got == m, "after {:?} the nibbles are {:?} not {:?}", op, got, m);
        for i in [0, m.len() / 2, m.len().saturating_sub(1)] {
            if i < m.len() {
                ensure!(v.get(i) == m[i], "nibble {} reads as {}", i, v.get(i));
            }
        }
        // far outside there is nothing to read or set
        v.set(high + 2, 15);
        ensure!(v.get(high + 2) == 0, "nibble {} exists", high + 2);
        ensure!(
            v.capacity() >= 4 * m.len() && v.capacity() <= 4 * (high + 1),
            "capacity {} for {} nibbles (at most {} before)",
            v.capacity(),
            m.len(),
            high
        );
        ensure!(v.is_consistent(), "after {:?} the list calls itself inconsistent", op);
    }
    obs.nontrivial = high > 2 && shrunk;
    Ok(())
}

// ------------------------------------------------------------------ ring buffer

fn check_ring(log2: u8, spare: u8, ops: &[RingOp], obs: &mut Obs) -> Result<(), String> {
    let cap = 1u32 << log2;
    // documented: other capacities are refused (the index arithmetic relies on it)
    for bad in [0, cap * 3, (cap << 3) - 1] {
        let made = guarded(|| FixedRingBuffer::new(vec![0u32; 1], bad).len());
        ensure!(made.is_err() || bad.is_power_of_two(), "a ring buffer of capacity {} was made", bad);
    }
    let mut r = FixedRingBuffer::new(vec![0u32; cap as usize + spare as usize], cap);
    let mut m: VecDeque<u32> = VecDeque::new();
    let (mut fronts, mut rears) = (0, 0);
    for op in ops {
        let full = m.len() == cap as usize;
        match op {
            RingOp::PushFront(v) => {
                r.push_front(*v);
                obs.label_if(full, "ring: push when full");
                if !full {
                    m.push_front(*v);
                    fronts += 1;
                }
            }
            RingOp::PushRear(v) => {
                r.push_rear(*v);
                obs.label_if(full, "ring: push when full");
                if !full {
                    m.push_back(*v);
                    rears += 1;
                }
            }
            RingOp::PopFront => {
                let (got, want) = (r.pop_front().copied(), m.pop_front());
                obs.label_if(want.is_none(), "ring: pop when empty");
                ensure!(got == want, "pop_front gives {:?} not {:?}", got, want);
            }
            RingOp::PopRear => {
                let (got, want) = (r.pop_rear().copied(), m.pop_back());
                obs.label_if(want.is_none(), "ring: pop when empty");
                ensure!(got == want, "pop_rear gives {:?} not {:?}", got, want);
            }
            RingOp::Clear => {
                r.clear();
                m.clear();
            }
            RingOp::Serialise => r = round_trip(&r)?,
        }
        ensure!(r.len() == m.len(), "after {:?} the length is {} not {}", op, r.len(), m.len());
        ensure!(r.is_empty() == m.is_empty(), "is_empty with {} items", m.len());
        ensure!(r.is_full() == (m.len() == cap as usize), "is_full with {} of {}", m.len(), cap);
        let got: Vec<u32> = r.iter().copied().collect();
        ensure!(got.iter().eq(m.iter()), "after {:?} the items are {:?} not {:?}", op, got, m);
    }
    obs.label_if(fronts as u32 > cap || rears as u32 > cap, "ring: wraps around");
    obs.nontrivial = fronts > 0 && rears > 0 && fronts + rears > cap;
    Ok(())
}

// ------------------------------------------------------------------ history stack

fn check_stack(ops: &[StackOp], obs: &mut Obs) -> Result<(), String> {
    let mut s: CircularStack<i32> = CircularStack::new();
    let mut m: VecDeque<i32> = VecDeque::new();
    let mut pushes = 0;
    for op in ops {
        match op {
            StackOp::Push(v) => {
                s.push(*v);
                m.push_back(*v);
                pushes += 1;
                if m.len() > 4 {
                    m.pop_front();
                    obs.label("stack: more than four pushes");
                }
            }
            StackOp::Pop => {
                let got = s.pop();
                match m.pop_back() {
                    Some(v) => ensure!(got == v, "pop gives {} not {}", got, v),
                    None => obs.label("stack: pop when empty"),
                }
            }
            StackOp::Copy => {
                // a copy is independent of the original
                let mut other = s;
                other.push(-7777);
                other.push(-7778);
                ensure!(other.prev(1) == -7778 && other.prev(2) == -7777, "copy lost its pushes");
            }
            StackOp::Serialise => s = round_trip(&s)?,
        }
        ensure!(s.len() == m.len(), "after {:?} the length is {} not {}", op, s.len(), m.len());
        ensure!(s.is_empty() == m.is_empty(), "is_empty is {} with {} values", s.is_empty(), m.len());
        for k in 1..=m.len() {
            let (got, want) = (s.prev(k as u32), m[m.len() - k]);
            ensure!(got == want, "after {:?} prev({}) is {} not {}", op, k, got, want);
        }
        if pushes == 0 {
            ensure!(s.prev(1) == 0 && s.prev(3) == 0, "a new stack holds something");
        }
    }
    obs.nontrivial = pushes > 4;
    Ok(())
}

// ------------------------------------------------------------------ linked list

struct ListModel {
    /// value and handle of every node, front to rear
    nodes: Vec<(u32, Ptr)>,
}

fn handles(l: &LinkedList<u32>) -> Vec<Ptr> {
    LinkedListIterator::new(l).collect()
}

/// The list must be `before` with a node of value `v` added at `at`; notes the new handle.
fn added(l: &LinkedList<u32>, m: &mut ListModel, at: usize, v: u32) -> Result<(), String> {
    let hs = handles(l);
    ensure!(hs.len() == m.nodes.len() + 1, "{} nodes instead of {}", hs.len(), m.nodes.len() + 1);
    let new = hs[at];
    ensure!(
        m.nodes.iter().all(|(_, h)| *h != new),
        "the handle {:?} of a live node is given out again",
        new
    );
    m.nodes.insert(at, (v, new));
    Ok(())
}

fn list_agrees(l: &LinkedList<u32>, m: &ListModel, op: &ListOp) -> Result<(), String> {
    let n = m.nodes.len();
    ensure!(l.len() == n, "after {:?} the length is {} not {}", op, l.len(), n);
    let got: Vec<u32> = l.iter().copied().collect();
    let want: Vec<u32> = m.nodes.iter().map(|x| x.0).collect();
    ensure!(got == want, "after {:?} the list is {:?} not {:?}", op, got, want);
    let hs = handles(l);
    ensure!(
        hs.iter().eq(m.nodes.iter().map(|x| &x.1)),
        "after {:?} the handles are {:?} not {:?}",
        op,
        hs,
        m.nodes.iter().map(|x| x.1).collect::<Vec<_>>()
    );
    for (v, h) in &m.nodes {
        let got = l.get(*h).and_then(|x| x.data()).copied();
        ensure!(got == Some(*v), "handle {:?} leads to {:?} not {}", h, got, v);
        ensure!(l[*h].data() == Some(v), "indexing {:?} leads to another value", h);
    }
    if n > 0 {
        ensure!(l.front() == m.nodes[0].1, "after {:?} front is {:?}", op, l.front());
        ensure!(l.rear() == m.nodes[n - 1].1, "after {:?} rear is {:?}", op, l.rear());
    } else {
        ensure!(l.front() == NULL && l.rear() == NULL, "after {:?} an empty list has ends", op);
    }
    Ok(())
}

fn check_list(ops: &[ListOp], obs: &mut Obs) -> Result<(), String> {
    let mut l: LinkedList<u32> = LinkedList::new();
    let mut m = ListModel { nodes: vec![] };
    let mut removed = 0;
    let mut inner = false;
    for op in ops {
        let n = m.nodes.len();
        match op {
            ListOp::PushFront(v) => {
                l.push_front(*v);
                added(&l, &mut m, 0, *v)?;
                obs.label_if(removed > 0, "list: reuses a freed node");
            }
            ListOp::PushRear(v) => {
                l.push_rear(*v);
                added(&l, &mut m, n, *v)?;
                obs.label_if(removed > 0, "list: reuses a freed node");
            }
            ListOp::PopFront => {
                let got = l.pop_front();
                let want = if n > 0 { Some(m.nodes.remove(0).0) } else { None };
                ensure!(got == want, "pop_front gives {:?} not {:?}", got, want);
                removed += want.is_some() as u32;
            }
            ListOp::PopRear => {
                let got = l.pop_rear();
                let want = m.nodes.pop().map(|x| x.0);
                ensure!(got == want, "pop_rear gives {:?} not {:?}", got, want);
                removed += want.is_some() as u32;
            }
            ListOp::Insert { at, right, v } => {
                let dir = if *right { InsertDirection::Right } else { InsertDirection::Left };
                if n == 0 {
                    l.insert_at(NULL, dir, *v);
                    added(&l, &mut m, 0, *v)?;
                } else {
                    let at = *at as usize % n;
                    l.insert_at(m.nodes[at].1, dir, *v);
                    added(&l, &mut m, at + *right as usize, *v)?;
                    inner |= n > 1;
                }
            }
            ListOp::InsertNull(v) => {
                if n > 0 {
                    l.insert_at(NULL, InsertDirection::Right, *v);
                    l.insert_at(NULL, InsertDirection::Left, *v);
                }
            }
            ListOp::Remove(at) => {
                if n > 0 {
                    let at = *at as usize % n;
                    let (v, h) = m.nodes.remove(at);
                    let got = l.remove_at(h);
                    ensure!(got == Some(v), "remove_at gives {:?} not {}", got, v);
                    removed += 1;
                    obs.label_if(at > 0 && at + 1 < n, "list: removes an inner node");
                }
            }
            ListOp::SetAt(at, v) => {
                if n > 0 {
                    let at = *at as usize % n;
                    let h = m.nodes[at].1;
                    if v % 2 == 0 {
                        l.get_mut(h).ok_or("a live handle is gone")?.set_data(*v);
                    } else {
                        *l[h].data_mut().ok_or("a live node is empty")? = *v;
                    }
                    m.nodes[at].0 = *v;
                }
            }
            ListOp::AddAll(d) => {
                let mut k = 0;
                for x in l.iter_mut() {
                    *x = x.wrapping_add(*d).wrapping_mul(2 * k + 1);
                    k += 1;
                }
                ensure!(k as usize == n, "iter_mut visits {} of {} nodes", k, n);
                for (k, x) in m.nodes.iter_mut().enumerate() {
                    x.0 = x.0.wrapping_add(*d).wrapping_mul(2 * k as u32 + 1);
                }
            }
            ListOp::AllocFree(v) => {
                let h = l.allocate(*v);
                ensure!(
                    m.nodes.iter().all(|(_, x)| *x != h),
                    "allocate gives out the live handle {:?}",
                    h
                );
                ensure!(l[h].data() == Some(v), "an allocated node does not hold its value");
                let got = l.free(h);
                ensure!(got == Some(*v), "free gives {:?} not {}", got, v);
            }
            ListOp::Serialise => {
                l = round_trip(&l)?;
                obs.label_if(removed > 0, "list: serialised with freed nodes");
            }
            ListOp::Json => l = json_trip(&l)?,
        }
        list_agrees(&l, &m, op)?;
    }
    obs.nontrivial = removed > 0 && inner;
    // take it apart from both ends
    let mut front = true;
    while !m.nodes.is_empty() {
        let (got, want) = if front {
            (l.pop_front(), m.nodes.remove(0).0)
        } else {
            (l.pop_rear(), m.nodes.pop().unwrap().0)
        };
        ensure!(got == Some(want), "dismantling gives {:?} not {}", got, want);
        front = !front;
    }
    ensure!(l.len() == 0 && l.pop_front().is_none() && l.pop_rear().is_none(), "the list stays");
    Ok(())
}

// ------------------------------------------------------------------ LRU cache

fn check_lru(capacity: u8, ops: &[LruOp], obs: &mut Obs) -> Result<(), String> {
    let cap = capacity as usize + 1;
    let mut c: LruCache<u8, u32> = LruCache::new(cap);
    // most recently used first
    let mut m: Vec<(u8, u32)> = vec![];
    let raise = |m: &mut Vec<(u8, u32)>, k: u8| -> bool {
        match m.iter().position(|x| x.0 == k) {
            Some(i) => {
                let e = m.remove(i);
                m.insert(0, e);
                true
            }
            None => false,
        }
    };
    let mut evictions = 0;
    for op in ops {
        match *op {
            LruOp::Put(k, v) => {
                c.put(k, v);
                if raise(&mut m, k) {
                    m[0].1 = v;
                    obs.label("lru: put of a present key");
                } else {
                    if m.len() == cap {
                        m.pop();
                        evictions += 1;
                    }
                    m.insert(0, (k, v));
                }
            }
            LruOp::Get(k) => {
                let got = c.get(&k).copied();
                let want = raise(&mut m, k).then(|| m[0].1);
                obs.label_if(want.is_some(), "lru: get of a present key");
                ensure!(got == want, "get({}) gives {:?} not {:?}", k, got, want);
            }
            LruOp::Add(k, d) => {
                let got = c.get_mut(&k).map(|v| {
                    *v = v.wrapping_add(d);
                    *v
                });
                let want = raise(&mut m, k).then(|| {
                    m[0].1 = m[0].1.wrapping_add(d);
                    m[0].1
                });
                ensure!(got == want, "get_mut({}) gives {:?} not {:?}", k, got, want);
            }
            LruOp::Remove(k) => {
                let got = c.remove(&k);
                let want = m.iter().position(|x| x.0 == k).map(|i| m.remove(i).1);
                obs.label_if(want.is_some(), "lru: remove of a present key");
                ensure!(got == want, "remove({}) gives {:?} not {:?}", k, got, want);
            }
            LruOp::Serialise => c = round_trip(&c)?,
            LruOp::Json => c = json_trip(&c)?,
        }
        ensure!(c.len() == m.len(), "after {:?} there are {} keys, not {}", op, c.len(), m.len());
        for k in 0..=24u8 {
            let got = c.lookup(&k).copied();
            let want = m.iter().find(|x| x.0 == k).map(|x| x.1);
            ensure!(got == want, "after {:?} key {} has {:?} not {:?}", op, k, got, want);
        }
    }
    obs.label_if(evictions > 0, "lru: evicts");
    obs.nontrivial = evictions > 1;
    // the order of use: new keys push the old ones out, least recently used first
    for new in 100..100 + cap as u8 {
        if m.len() == cap {
            m.pop();
        }
        c.put(new, 0);
        m.insert(0, (new, 0));
        for k in (0..=24u8).chain(100..=new) {
            let (got, want) = (c.lookup(&k).is_some(), m.iter().any(|x| x.0 == k));
            ensure!(got == want, "filling up with new keys: key {} present: {} not {}", k, got, want);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ large containers

fn scramble(k: u32, seed: u32) -> u32 {
    let mut z = (k ^ seed.rotate_left(13)).wrapping_mul(0x9E37_79B9);
    z ^= z >> 15;
    z = z.wrapping_mul(0x85EB_CA6B);
    z ^ z >> 13
}

fn check_large(n: u32, seed: u32) -> Result<(), String> {
    // bit vector and nibble list
    let (mut b, mut l) = (BitVec::new(), NibbleList::new());
    for k in 0..n {
        b.push((scramble(k, seed) & 1) as u64);
        l.push((scramble(k, seed) & 15) as u8);
    }
    (b, l) = (round_trip(&b)?, round_trip(&l)?);
    ensure!(b.len() == n as usize && l.len() == n as usize, "{} bits and {} nibbles of {}", b.len(), l.len(), n);
    for k in 0..n {
        let want = scramble(k, seed);
        ensure!(b.get(k as usize) == (want & 1) as u64, "bit {} of {} is wrong", k, n);
        ensure!(l.get(k as usize) == (want & 15) as u8, "nibble {} of {} is wrong", k, n);
    }
    ensure!(l.iter().count() == n as usize, "the iterator visits {} of {} nibbles", l.iter().count(), n);

    // linked list: built from both ends, every third node removed, its handle reused
    let mut list: LinkedList<u32> = LinkedList::new();
    let mut m: VecDeque<(u32, Ptr)> = VecDeque::new();
    for k in 0..n {
        if scramble(k, seed) & 1 == 0 {
            list.push_front(k);
            m.push_front((k, list.front()));
        } else {
            list.push_rear(k);
            m.push_back((k, list.rear()));
        }
    }
    let mut kept = VecDeque::new();
    for (i, (v, h)) in m.into_iter().enumerate() {
        if i % 3 == 1 {
            let got = list.remove_at(h);
            ensure!(got == Some(v), "large list: remove_at gives {:?} not {}", got, v);
        } else {
            kept.push_back((v, h));
        }
    }
    list = round_trip(&list)?;
    for k in n..n + n / 2 {
        list.push_rear(k);
        kept.push_back((k, list.rear()));
    }
    ensure!(list.len() == kept.len(), "large list: {} nodes, not {}", list.len(), kept.len());
    ensure!(list.iter().eq(kept.iter().map(|x| &x.0)), "large list: the values differ");
    for (v, h) in &kept {
        ensure!(list[*h].data() == Some(v), "large list: handle {:?} leads to another value", h);
    }

    // ring buffer with room for all of them
    let log2 = 32 - n.leading_zeros();
    let mut ring = FixedRingBuffer::new(vec![0u32; 1 << log2], 1u32 << log2);
    let mut q = VecDeque::new();
    for k in 0..2 * n {
        if k % 5 == 4 {
            let (got, want) = (ring.pop_front().copied(), q.pop_front());
            ensure!(got == want, "large ring: pop_front gives {:?} not {:?}", got, want);
        } else if q.len() < (n as usize).min(1 << log2) {
            ring.push_rear(k);
            q.push_back(k);
        }
    }
    ensure!(ring.len() == q.len(), "large ring: {} values, not {}", ring.len(), q.len());
    while let Some(want) = q.pop_front() {
        ensure!(ring.pop_front().copied() == Some(want), "large ring: {} is missing", want);
    }

    // cache: the last `n` keys used stay
    let mut c: LruCache<u32, u32> = LruCache::new(n as usize);
    for k in 0..n {
        c.put(k, !k);
    }
    let spared: Vec<u32> = (0..n / 4).collect();
    for k in &spared {
        ensure!(c.get(k) == Some(&!*k), "large cache: key {} is gone", k);
    }
    c = round_trip(&c)?;
    for k in n..n + n / 2 {
        c.put(k, !k);
    }
    ensure!(c.len() == n as usize, "large cache: {} keys, not {}", c.len(), n);
    for k in 0..n + n / 2 {
        let want = k < n / 4 || k >= n / 4 + n / 2;
        let got = c.lookup(&k).copied();
        ensure!(got == want.then_some(!k), "large cache: key {} has {:?}", k, got);
    }
    Ok(())
}

// ------------------------------------------------------------------ reuse of freed space

/// The space of what is removed is used again: after any number of rounds, a container takes about
/// as much as it took when it was full for the first time.
fn check_churn(live: u8, rounds: u32, seed: u32) -> Result<(), String> {
    fn size<T: Serialize>(v: &T) -> Result<usize, String> {
        bincode::serialized_size(v).map(|n| n as usize).map_err(|e| e.to_string())
    }
    let live = live.max(1) as usize;
    let allowed = |full: usize| 4 * full + 1024;

    let mut list: LinkedList<u32> = LinkedList::new();
    let mut m: VecDeque<(u32, Ptr)> = VecDeque::new();
    for k in 0..live as u32 {
        list.push_rear(k);
        m.push_back((k, list.rear()));
    }
    let full = size(&list)?;
    for k in 0..rounds {
        let r = scramble(k, seed);
        let burst = 1 + (r >> 20) as usize % m.len().min(1 + k as usize % 7);
        for _ in 0..burst {
            let at = (r >> 8) as usize % m.len();
            let removed = match r % 3 {
                0 => (m.pop_front(), list.pop_front()),
                1 => (m.pop_back(), list.pop_rear()),
                _ => {
                    let e = m.remove(at);
                    (e, list.remove_at(e.unwrap().1))
                }
            };
            ensure!(removed.0.map(|e| e.0) == removed.1, "list: removed {:?} in round {}, expected {:?}", removed.1, k, removed.0);
        }
        // restored while some of its space is free
        if (r >> 25) % 64 == 0 || k == rounds / 2 {
            list = round_trip(&list)?;
        }
        for i in 0..burst as u32 {
            if r & 16 == 0 {
                list.push_front(r ^ i);
                m.push_front((r ^ i, list.front()));
            } else {
                list.push_rear(r ^ i);
                m.push_back((r ^ i, list.rear()));
            }
        }
    }
    ensure!(list.iter().eq(m.iter().map(|e| &e.0)), "list of {} elements is wrong after {} rounds", live, rounds);
    ensure!(size(&list)? <= allowed(full), "a list of {} elements takes {} bytes after {} rounds, and took {} at first", live, size(&list)?, rounds, full);

    let mut c: LruCache<u32, u32> = LruCache::new(live);
    for k in 0..live as u32 {
        c.put(k, k);
    }
    let full = size(&c)?;
    for k in 0..rounds {
        let r = scramble(k, seed);
        let key = live as u32 + k;
        c.put(key, r);
        ensure!(c.get(&key) == Some(&r), "cache: key {} is not there", key);
        // a few removals in a row now and then
        for back in 0..(r >> 20) % 4 * (k % 4 / 3) {
            let key = key - back;
            let was_there = c.lookup(&key).is_some();
            ensure!(c.remove(&key).is_some() == was_there, "cache: key {} can't be removed", key);
        }
        if (r >> 25) % 64 == 0 || k == rounds / 2 {
            c = round_trip(&c)?;
        }
    }
    ensure!(c.len() <= live && size(&c)? <= allowed(full), "a cache of {} elements takes {} bytes after {} rounds, and took {} at first", live, size(&c)?, rounds, full);

    let (mut b, mut l) = (BitVec::new(), NibbleList::new());
    let mut full = (0, 0);
    for round in 0..(rounds / live as u32).min(200) {
        for k in 0..live {
            b.push(k as u64);
            l.push(k as u8);
        }
        if round == 0 {
            full = (size(&b)?, size(&l)?);
        }
        ensure!(size(&b)? <= allowed(full.0) && b.capacity() / 8 <= allowed(full.0), "{} bits take {} bytes after {} rounds", live, size(&b)?, round);
        ensure!(size(&l)? <= allowed(full.1) && l.capacity() / 8 <= allowed(full.1), "{} nibbles take {} bytes after {} rounds", live, size(&l)?, round);
        if round % 2 == 0 {
            b.clear();
            l.clear();
        } else {
            b.truncate(0);
            l.truncate(0);
        }
    }
    Ok(())
}

pub struct C21;

fn len_of<T: std::fmt::Debug + Clone + 'static>(op: BoxedStrategy<T>) -> BoxedStrategy<Vec<T>> {
    prop_oneof![
        90 => proptest::collection::vec(op.clone(), 1..15),
        60 => proptest::collection::vec(op.clone(), 10..60),
        30 => proptest::collection::vec(op.clone(), 60..200),
        1 => proptest::collection::vec(op, 258..700),
    ]
    .boxed()
}

fn bit_ops() -> BoxedStrategy<Vec<BitOp>> {
    len_of(
        prop_oneof![
            8 => any::<u64>().prop_map(BitOp::Push),
            2 => (any::<u16>(), 0u8..10).prop_map(|(a, b)| BitOp::PushMany(a, b)),
            4 => (any::<u16>(), any::<u64>()).prop_map(|(a, b)| BitOp::Set(a, b)),
            1 => Just(BitOp::Clear),
            1 => any::<u16>().prop_map(BitOp::Truncate),
            1 => Just(BitOp::Serialise),
        ]
        .boxed(),
    )
}

fn nib_ops() -> BoxedStrategy<Vec<NibOp>> {
    len_of(
        prop_oneof![
            8 => any::<u8>().prop_map(NibOp::Push),
            1 => (any::<u8>(), 0u8..20).prop_map(|(a, b)| NibOp::PushMany(a, b)),
            4 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| NibOp::Set(a, b)),
            1 => Just(NibOp::Clear),
            1 => any::<u16>().prop_map(NibOp::Truncate),
            1 => Just(NibOp::Serialise),
        ]
        .boxed(),
    )
}

fn ring_ops() -> BoxedStrategy<Vec<RingOp>> {
    len_of(
        prop_oneof![
            5 => any::<u32>().prop_map(RingOp::PushFront),
            5 => any::<u32>().prop_map(RingOp::PushRear),
            4 => Just(RingOp::PopFront),
            4 => Just(RingOp::PopRear),
            1 => Just(RingOp::Clear),
            1 => Just(RingOp::Serialise),
        ]
        .boxed(),
    )
}

fn stack_ops() -> BoxedStrategy<Vec<StackOp>> {
    len_of(
        prop_oneof![
            8 => any::<i32>().prop_map(StackOp::Push),
            4 => Just(StackOp::Pop),
            1 => Just(StackOp::Copy),
            1 => Just(StackOp::Serialise),
        ]
        .boxed(),
    )
}

fn list_ops() -> BoxedStrategy<Vec<ListOp>> {
    len_of(
        prop_oneof![
            3 => any::<u32>().prop_map(ListOp::PushFront),
            3 => any::<u32>().prop_map(ListOp::PushRear),
            2 => Just(ListOp::PopFront),
            2 => Just(ListOp::PopRear),
            6 => (any::<u16>(), any::<bool>(), any::<u32>())
                .prop_map(|(at, right, v)| ListOp::Insert { at, right, v }),
            1 => any::<u32>().prop_map(ListOp::InsertNull),
            4 => any::<u16>().prop_map(ListOp::Remove),
            2 => (any::<u16>(), any::<u32>()).prop_map(|(a, b)| ListOp::SetAt(a, b)),
            1 => any::<u32>().prop_map(ListOp::AddAll),
            1 => any::<u32>().prop_map(ListOp::AllocFree),
            1 => Just(ListOp::Serialise),
            1 => Just(ListOp::Json),
        ]
        .boxed(),
    )
}

fn lru_ops(keys: u8) -> BoxedStrategy<Vec<LruOp>> {
    len_of(
        prop_oneof![
            8 => (0..keys, any::<u32>()).prop_map(|(k, v)| LruOp::Put(k, v)),
            4 => (0..keys).prop_map(LruOp::Get),
            2 => (0..keys, any::<u32>()).prop_map(|(k, v)| LruOp::Add(k, v)),
            2 => (0..keys).prop_map(LruOp::Remove),
            1 => Just(LruOp::Serialise),
            1 => Just(LruOp::Json),
        ]
        .boxed(),
    )
}

impl Prop for C21 {
    const ID: &'static str = "C21";
    type Case = Case;
    const RULE: &'static str = "random operation sequences (up to 200) per container, and fixed scenarios of up to 100000 elements, compared with a model after every operation; non-trivial: bit vector over 64 bits and nibble list that shrink in between, ring buffer used from both ends beyond its capacity, stack with more than four pushes, list with inner inserts and removals, cache that evicts more than once";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "list handles are only used while their node is in the list",
        "caches hold at least one key; ring buffer capacities are powers of two (the constructor demands it)",
        "what pop and prev return on an empty stack, and nibbles between the length and the largest length so far, are unspecified",
    ];
    fn cases(tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 480_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        prop_oneof![
            1 => bit_ops().prop_map(Case::Bits),
            1 => nib_ops().prop_map(Case::Nibbles),
            1 => (0u8..6, prop_oneof![3 => Just(0u8), 1 => 1u8..5], ring_ops())
                .prop_map(|(log2, spare, ops)| Case::Ring { log2, spare, ops }),
            1 => stack_ops().prop_map(Case::Stack),
            2 => list_ops().prop_map(Case::List),
            2 => prop_oneof![
                (0u8..4, lru_ops(6)).boxed(),
                (0u8..12, lru_ops(24)).boxed(),
            ]
            .prop_map(|(capacity, ops)| Case::Lru { capacity, ops }),
            1 => (prop_oneof![1u8..5, 1u8..60], 50u32..1000, any::<u32>())
                .prop_map(|(live, rounds, seed)| Case::Churn { live, rounds, seed }),
        ]
        .boxed()
    }
    fn directed(_: Tier) -> Vec<Case> {
        [1000, 4096, 40_000, 65_535, 65_536, 65_537, 70_000, 100_003]
            .iter()
            .map(|&n| Case::Large { n, seed: n })
            .chain([1u8, 2, 3, 10, 200].map(|live| Case::Churn { live, rounds: 30_000, seed: 7 }))
            .collect()
    }
    fn check(case: &Case, obs: &mut Obs) -> Result<(), String> {
        match case {
            Case::Bits(ops) => check_bits(ops, obs),
            Case::Nibbles(ops) => check_nibbles(ops, obs),
            Case::Ring { log2, spare, ops } => check_ring(*log2, *spare, ops, obs),
            Case::Stack(ops) => check_stack(ops, obs),
            Case::List(ops) => check_list(ops, obs),
            Case::Lru { capacity, ops } => check_lru(*capacity, ops, obs),
            Case::Churn { live, rounds, seed } => {
                obs.label("space is used again");
                obs.nontrivial = *rounds > 4 * *live as u32;
                check_churn(*live, *rounds, *seed)
            }
            Case::Large { n, seed } => {
                obs.label("large containers");
                obs.nontrivial = true;
                check_large(*n, *seed)
            }
        }
    }
}

#[allow(dead_code)]
fn main() {
    let argv: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(run::<C21>(&argv[1.min(argv.len())..]));
}
