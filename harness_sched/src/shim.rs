//! Scheduled primitives. Inside a session one thread runs at a time and every operation on a primitive is a
//! point where the schedule (a list of choices) may hand over to another thread. Plain stores wait in a store buffer
//! of their thread until the schedule, a fence, a read-modify-write or a lock writes them out, as on x86.

use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex as StdMutex};

pub struct State {
    current: usize,
    done: Vec<bool>,
    choices: Vec<u8>,
    at: usize,
    pub switches: usize,
    pub steps: usize,
    limit: usize,
    /// stores not yet written out: (address of the cell, value), oldest first
    buffers: Vec<Vec<(usize, usize)>>,
    pub buffered: usize,
}

pub struct Sched {
    state: StdMutex<State>,
    turn: Vec<Condvar>,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = RefCell::new(None);
}

fn me() -> Option<(Arc<Sched>, usize)> {
    ME.try_with(|m| m.borrow().clone()).ok().flatten()
}

fn write_out(b: &mut Vec<(usize, usize)>, n: usize) {
    for (addr, v) in b.drain(..n) {
        unsafe { (*(addr as *const std::sync::atomic::AtomicUsize)).store(v, std::sync::atomic::Ordering::SeqCst) }
    }
}

impl State {
    fn others(&self, id: usize) -> Vec<usize> {
        let n = self.done.len();
        (1..n).map(|d| (id + d) % n).filter(|t| !self.done[*t]).collect()
    }
    fn flush(&mut self, id: usize) {
        let n = self.buffers[id].len();
        write_out(&mut self.buffers[id], n);
    }
}

impl Sched {
    /// a point of the schedule; `leave` is a request to let somebody else run
    fn point(&self, id: usize, leave: bool) {
        let mut s = self.state.lock().unwrap();
        s.steps += 1;
        if s.steps > s.limit {
            // no way to unwind: what is dropped may wait again
            eprintln!("the threads wait for each other without end");
            std::process::abort();
        }
        let others = s.others(id);
        let mut next = id;
        match s.choices.get(s.at).cloned() {
            None => {
                for t in 0..s.buffers.len() {
                    s.flush(t);
                }
                if let Some(t) = others.first() {
                    next = *t;
                }
            }
            Some(c) => {
                s.at += 1;
                let c = c as usize;
                if c % 4 == 3 {
                    // a store is written out
                    let t = (c / 4) % s.buffers.len();
                    let n = s.buffers[t].len().min(1);
                    write_out(&mut s.buffers[t], n);
                } else if c > 0 && !others.is_empty() {
                    next = others[(c - 1) % others.len()];
                }
                if leave && next == id {
                    if let Some(t) = others.first() {
                        next = *t;
                    }
                }
            }
        }
        if next != id {
            s.switches += 1;
            s.current = next;
            self.turn[next].notify_one();
            while s.current != id {
                s = self.turn[id].wait(s).unwrap();
            }
        }
    }
    fn finish(&self, id: usize) {
        let mut s = self.state.lock().unwrap();
        s.flush(id);
        s.done[id] = true;
        if let Some(t) = s.others(id).first().cloned() {
            s.current = t;
            self.turn[t].notify_one();
        }
    }
}

/// A point that is no operation on a primitive.
pub fn point() {
    if let Some((s, id)) = me() {
        s.point(id, false);
    }
}

fn leave() {
    if let Some((s, id)) = me() {
        s.point(id, true);
    } else {
        std::thread::yield_now();
    }
}

/// Full fence of this thread.
fn barrier() {
    if let Some((s, id)) = me() {
        s.state.lock().unwrap().flush(id);
    }
}

pub struct Outcome {
    pub panics: Vec<String>,
    pub switches: usize,
    pub steps: usize,
    pub buffered: usize,
}

/// Runs the threads to their end under the schedule. The first one starts.
pub fn run<'a>(choices: Vec<u8>, limit: usize, threads: Vec<Box<dyn FnOnce() + Send + 'a>>) -> Outcome {
    let n = threads.len();
    let sched = Arc::new(Sched {
        state: StdMutex::new(State { current: 0, done: vec![false; n], choices, at: 0, switches: 0, steps: 0, limit, buffers: vec![vec![]; n], buffered: 0 }),
        turn: (0..n).map(|_| Condvar::new()).collect(),
    });
    let panics: StdMutex<Vec<String>> = StdMutex::new(vec![]);
    std::thread::scope(|sc| {
        for (id, f) in threads.into_iter().enumerate() {
            let (sched, panics) = (sched.clone(), &panics);
            sc.spawn(move || {
                ME.with(|m| *m.borrow_mut() = Some((sched.clone(), id)));
                {
                    let mut s = sched.state.lock().unwrap();
                    while s.current != id {
                        s = sched.turn[id].wait(s).unwrap();
                    }
                }
                if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                    panics.lock().unwrap().push(m);
                }
                sched.finish(id);
                ME.with(|m| *m.borrow_mut() = None);
            });
        }
    });
    let s = sched.state.lock().unwrap();
    Outcome { panics: panics.into_inner().unwrap(), switches: s.switches, steps: s.steps, buffered: s.buffered }
}

pub mod hint {
    pub use std::hint::{black_box, unreachable_unchecked};
    pub fn spin_loop() {
        super::point()
    }
}

pub mod thread {
    pub fn yield_now() {
        super::leave()
    }
    pub fn sleep(_: std::time::Duration) {
        super::leave()
    }
    pub fn panicking() -> bool {
        std::thread::panicking()
    }
}

pub mod sync {
    pub use std::sync::{Arc, LockResult, PoisonError, TryLockError, TryLockResult, Weak};
    use std::cell::UnsafeCell;
    use std::ops::{Deref, DerefMut};

    pub struct Mutex<T: ?Sized> {
        locked: std::sync::atomic::AtomicBool,
        value: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);

    impl<T> Mutex<T> {
        pub fn new(t: T) -> Self {
            Mutex { locked: std::sync::atomic::AtomicBool::new(false), value: UnsafeCell::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.value.into_inner())
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            super::point();
            super::barrier();
            while self.locked.swap(true, std::sync::atomic::Ordering::SeqCst) {
                super::leave();
            }
            Ok(MutexGuard(self))
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            super::point();
            super::barrier();
            if self.locked.swap(true, std::sync::atomic::Ordering::SeqCst) {
                Err(TryLockError::WouldBlock)
            } else {
                Ok(MutexGuard(self))
            }
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.value.get_mut())
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.value.get() }
        }
    }
    impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.value.get() }
        }
    }
    impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
        fn drop(&mut self) {
            super::barrier();
            self.0.locked.store(false, std::sync::atomic::Ordering::SeqCst);
            super::point();
        }
    }

    pub mod atomic {
        pub use std::sync::atomic::{compiler_fence, Ordering};
        use std::sync::atomic::AtomicUsize as Cell;
        const SC: Ordering = Ordering::SeqCst;

        pub fn fence(o: Ordering) {
            super::super::point();
            if o == Ordering::SeqCst {
                super::super::barrier();
            }
        }

        fn load(c: &Cell) -> usize {
            super::super::point();
            let mine = super::super::me().and_then(|(s, id)| {
                let st = s.state.lock().unwrap();
                let a = c as *const Cell as usize;
                st.buffers[id].iter().rev().find(|(x, _)| *x == a).map(|(_, v)| *v)
            });
            mine.unwrap_or_else(|| c.load(SC))
        }
        fn store(c: &Cell, v: usize, o: Ordering) {
            super::super::point();
            match super::super::me() {
                Some((s, id)) => {
                    let mut st = s.state.lock().unwrap();
                    st.buffers[id].push((c as *const Cell as usize, v));
                    st.buffered += 1;
                    // x86: a sequentially consistent store is an exchange
                    if o == Ordering::SeqCst {
                        st.flush(id);
                    }
                }
                None => c.store(v, SC),
            }
        }
        fn rmw<R>(c: &Cell, f: impl FnOnce(&Cell) -> R) -> R {
            super::super::point();
            super::super::barrier();
            f(c)
        }
        /// the cell goes away, and with it the stores to it
        fn forget(c: &Cell) {
            if let Some((s, _)) = super::super::me() {
                let a = c as *const Cell as usize;
                if let Ok(mut st) = s.state.lock() {
                    st.buffers.iter_mut().for_each(|b| b.retain(|(x, _)| *x != a));
                };
            }
        }

        macro_rules! int {
            ($name:ident, $t:ty) => {
                #[derive(Debug, Default)]
                pub struct $name(Cell);
                impl $name {
                    pub fn new(v: $t) -> Self {
                        $name(Cell::new(v as usize))
                    }
                    pub fn load(&self, _: Ordering) -> $t {
                        load(&self.0) as $t
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        store(&self.0, v as usize, o)
                    }
                    pub fn swap(&self, v: $t, _: Ordering) -> $t {
                        rmw(&self.0, |c| c.swap(v as usize, SC)) as $t
                    }
                    pub fn fetch_add(&self, v: $t, _: Ordering) -> $t {
                        rmw(&self.0, |c| c.fetch_add(v as usize, SC)) as $t
                    }
                    pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t {
                        rmw(&self.0, |c| c.fetch_sub(v as usize, SC)) as $t
                    }
                    pub fn fetch_or(&self, v: $t, _: Ordering) -> $t {
                        rmw(&self.0, |c| c.fetch_or(v as usize, SC)) as $t
                    }
                    pub fn fetch_and(&self, v: $t, _: Ordering) -> $t {
                        rmw(&self.0, |c| c.fetch_and(v as usize, SC)) as $t
                    }
                    pub fn fetch_max(&self, v: $t, _: Ordering) -> $t {
                        rmw(&self.0, |c| c.fetch_max(v as usize, SC)) as $t
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                        rmw(&self.0, |c| c.compare_exchange(a as usize, b as usize, SC, SC)).map(|x| x as $t).map_err(|x| x as $t)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> {
                        self.compare_exchange(a, b, x, y)
                    }
                    pub fn get_mut(&mut self) -> &mut usize {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.load(SC) as $t
                    }
                }
                impl Drop for $name {
                    fn drop(&mut self) {
                        forget(&self.0)
                    }
                }
            };
        }
        int!(AtomicUsize, usize);
        int!(AtomicU64, u64);

        #[derive(Debug, Default)]
        pub struct AtomicBool(Cell);
        impl AtomicBool {
            pub fn new(v: bool) -> Self {
                AtomicBool(Cell::new(v as usize))
            }
            pub fn load(&self, _: Ordering) -> bool {
                load(&self.0) != 0
            }
            pub fn store(&self, v: bool, o: Ordering) {
                store(&self.0, v as usize, o)
            }
            pub fn swap(&self, v: bool, _: Ordering) -> bool {
                rmw(&self.0, |c| c.swap(v as usize, SC)) != 0
            }
        }
        impl Drop for AtomicBool {
            fn drop(&mut self) {
                forget(&self.0)
            }
        }

        pub struct AtomicPtr<T>(Cell, std::marker::PhantomData<*mut T>);
        unsafe impl<T> Send for AtomicPtr<T> {}
        unsafe impl<T> Sync for AtomicPtr<T> {}
        impl<T> AtomicPtr<T> {
            pub fn new(p: *mut T) -> Self {
                AtomicPtr(Cell::new(p as usize), std::marker::PhantomData)
            }
            pub fn load(&self, _: Ordering) -> *mut T {
                load(&self.0) as *mut T
            }
            pub fn store(&self, p: *mut T, o: Ordering) {
                store(&self.0, p as usize, o)
            }
            pub fn swap(&self, p: *mut T, _: Ordering) -> *mut T {
                rmw(&self.0, |c| c.swap(p as usize, SC)) as *mut T
            }
            pub fn compare_exchange(&self, a: *mut T, b: *mut T, _: Ordering, _: Ordering) -> Result<*mut T, *mut T> {
                rmw(&self.0, |c| c.compare_exchange(a as usize, b as usize, SC, SC)).map(|x| x as *mut T).map_err(|x| x as *mut T)
            }
        }
        impl<T> Drop for AtomicPtr<T> {
            fn drop(&mut self) {
                forget(&self.0)
            }
        }
    }
}
