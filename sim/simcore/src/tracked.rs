//! Values with identity: each is counted, so leaks, double drops, duplication and loss show.
use std::collections::BTreeMap;
use std::sync::Mutex;

static REG: Mutex<Option<Reg>> = Mutex::new(None);

#[derive(Default)]
struct Reg {
    next: u64,
    live: BTreeMap<u64, i64>,
    errors: Vec<String>,
}

fn with<T>(f: impl FnOnce(&mut Reg) -> T) -> T {
    // not preemptible: a client must never be switched out while it holds this lock
    crate::sim::callback(|| {
        let mut g = match REG.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        f(g.get_or_insert_with(Reg::default))
    })
}

/// An owned value with an identity and heap contents derived from it.
pub struct Tracked {
    pub id: u64,
    pub key: f64,
    body: Box<[u64; 3]>,
}

fn body(id: u64, key: f64) -> [u64; 3] { [id ^ 0xabcd, key.to_bits(), id.wrapping_mul(31)] }

impl Tracked {
    pub fn new(key: f64) -> Tracked {
        let id = with(|r| {
            r.next += 1;
            let id = r.next;
            r.live.insert(id, 1);
            id
        });
        Tracked { id, key, body: Box::new(body(id, key)) }
    }
    pub fn intact(&self) -> bool {
        let b = body(self.id, self.key);
        b == *self.body && with(|r| r.live.get(&self.id) == Some(&1))
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        let b = body(self.id, self.key);
        let ok = b == *self.body;
        let id = self.id;
        with(|r| {
            if !ok {
                r.errors.push(format!("value {} dropped with damaged contents", id));
            }
            match r.live.get_mut(&id) {
                Some(n) if *n == 1 => *n = 0,
                Some(n) => {
                    *n -= 1;
                    r.errors.push(format!("value {} dropped twice", id));
                },
                None => r.errors.push(format!("unknown value {} dropped", id)),
            }
        })
    }
}

pub fn live() -> Vec<u64> { with(|r| r.live.iter().filter(|(_, n)| **n > 0).map(|(i, _)| *i).collect()) }
pub fn errors() -> Vec<String> { with(|r| r.errors.clone()) }
