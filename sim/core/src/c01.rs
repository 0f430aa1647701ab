use crate::forms::*;
use crate::util::*;
use kofft::fft::*;
use simrt::ctx::{self, S};
use simrt::{ev, sched};
use std::sync::{Arc, Mutex};

enum Obj {
    S32(ScalarFftImpl<f32>),
    S64(ScalarFftImpl<f64>),
    P32(FftPlan<f32>),
    P64(FftPlan<f64>),
    Dyn(Box<dyn FftImpl<f32>>),
    Free,
}
unsafe fn _unused() {}

fn make(pool: &[usize]) -> Obj {
    match ctx::w(8) {
        0 | 1 => Obj::S32(ScalarFftImpl::default()),
        2 => Obj::S64(ScalarFftImpl::default()),
        3 => Obj::P32(FftPlan::new(from_pool(pool), strategy())),
        4 => Obj::P64(FftPlan::new(from_pool(pool), strategy())),
        5 => Obj::Dyn(new_fft_impl()),
        6 => {
            // a planner that has already been asked for tables
            let mut p = FftPlanner::<f32>::new();
            for _ in 0..ctx::w(3) {
                let n = from_pool(pool);
                p.get_twiddles(n.next_power_of_two());
                #[cfg(not(feature = "bare"))]
                p.get_bluestein(n.max(1));
                p.plan_strategy(n);
            }
            Obj::S32(ScalarFftImpl::with_planner(p))
        }
        _ => Obj::Free,
    }
}

fn act(i: usize, o: &Obj, pool: &[usize]) {
    let who = format!("object {i}");
    match o {
        Obj::S32(e) => {
            if ctx::chance(S::Work, 1, 5) {
                scalar32_form(&who, e, from_pool(pool))
            } else {
                any_scalar(&who, e, pool)
            }
        }
        Obj::S64(e) => any_scalar(&who, e, pool),
        Obj::P32(p) => {
            #[cfg(feature = "par")]
            if ctx::chance(S::Work, 1, 4) {
                return complex_vec_form(&who, Some(p), p.n);
            }
            plan_form(&who, p)
        }
        Obj::P64(p) => plan_form(&who, p),
        Obj::Dyn(e) => trait_form(&who, e.as_ref(), from_pool(pool)),
        Obj::Free => {
            #[cfg(feature = "par")]
            if ctx::chance(S::Work, 1, 4) {
                return complex_vec_form(&who, None, from_pool(pool));
            }
            if ctx::w(2) == 0 {
                free_form::<f32>(&who, from_pool(pool))
            } else {
                free_form::<f64>(&who, from_pool(pool))
            }
        }
    }
}

/// One user-visible history over a few shared objects: every result against the definition.
pub fn history() {
    pool_use();
    spoil_some();
    let mut pool = size_pool();
    if ctx::chance(S::Work, 1, 50) {
        pool = vec![big_size(); 2];
        pool.push(size());
        if pool[0] < 5000 {
            pool.push(related(pool[0]));
        }
        ctx::count("runs with lengths beyond 1500");
    }
    // many different lengths on the same object
    if ctx::chance(S::Work, 1, 20) {
        pool = (0..ctx::range(8, 40)).map(|_| fit(ctx::range(1, 120))).collect();
    }
    let k = ctx::range(1, 3);
    let objs: Vec<Obj> = (0..k).map(|_| make(&pool)).collect();
    let mut used = vec![0usize; k];
    let most = if pool[0] > 5000 { 8 } else { 40 };
    ctx::repeat(1, most, most.min(9), |_| {
        let i = ctx::w(k as u64);
        used[i] += 1;
        if used[i] > 1 {
            ctx::nontrivial();
        }
        act(i, &objs[i], &pool);
        ctx::count("transforms checked");
        ctx::state(i as u64 * 1000 + used[i] as u64);
    });
}

/// Objects wander between threads: each is used by one thread at a time, by several in turn.
pub fn handover() {
    pool_use();
    spoil_some();
    let pool: Vec<usize> = size_pool().into_iter().map(|n| n.min(256)).collect();
    let k = ctx::range(1, 3);
    enum O {
        A(ScalarFftImpl<f32>),
        B(ScalarFftImpl<f64>),
        C(FftPlan<f32>),
    }
    let shelf: Arc<Vec<Mutex<(O, Option<usize>)>>> = Arc::new(
        (0..k)
            .map(|_| {
                let o = match ctx::w(3) {
                    0 => O::A(ScalarFftImpl::default()),
                    1 => O::B(ScalarFftImpl::default()),
                    _ => O::C(FftPlan::new(from_pool(&pool).min(256), strategy())),
                };
                Mutex::new((o, None))
            })
            .collect(),
    );
    let threads = ctx::range(2, 3);
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let shelf = shelf.clone();
            let pool = pool.clone();
            let plan: Vec<usize> = (0..ctx::range(1, 4)).map(|_| ctx::w(k as u64)).collect();
            std::thread::spawn(move || {
                for i in plan {
                    let mut g = shelf[i].lock().unwrap();
                    if g.1.is_some() && g.1 != Some(t) {
                        ctx::fault("object used by another thread before");
                    }
                    g.1 = Some(t);
                    let who = format!("object {i} on thread {t}");
                    match &g.0 {
                        O::A(e) => any_scalar(&who, e, &pool),
                        O::B(e) => any_scalar(&who, e, &pool),
                        O::C(p) => plan_form(&who, p),
                    }
                    ctx::count("transforms checked");
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    ev!("threads {}", sched::nthreads());
}
