//! Stand-in for scoped_threadpool whose jobs run in an order chosen by the caller: one schedule of
//! the real pool per run, but exactly the one asked for (spec/Bands.tla generates them).
use std::cell::RefCell;
use std::marker::PhantomData;
use std::sync::Mutex;

/// After each queued job numbers are taken from the schedule up to a 0: k > 0 runs the k-th pending
/// job (modulo their number); at the end of the scope what is left runs, chosen likewise.
static SCHEDULE: Mutex<Vec<usize>> = Mutex::new(Vec::new());
static JOBS: Mutex<usize> = Mutex::new(0);

pub fn set_schedule(s: Vec<usize>) { *SCHEDULE.lock().unwrap() = s; *JOBS.lock().unwrap() = 0; }
/// jobs run since the schedule was set
pub fn jobs() -> usize { *JOBS.lock().unwrap() }

pub struct Pool { n: u32 }

pub struct Scope<'pool, 'scope>
{
    jobs: RefCell<Vec<Box<dyn FnOnce() + Send + 'scope>>>,
    at:   RefCell<usize>,
    _m:   PhantomData<(&'pool (), *mut &'scope ())>,
}

impl Pool
{
    pub fn new(n: u32) -> Pool { assert!(n >= 1); Pool { n } }
    pub fn thread_count(&self) -> u32 { self.n }
    pub fn scoped<'pool, 'scope, F, R>(&'pool mut self, f: F) -> R
    where F: FnOnce(&Scope<'pool, 'scope>) -> R
    {
        let scope = Scope { jobs: RefCell::new(vec![]), at: RefCell::new(0), _m: PhantomData };
        let r = f(&scope);
        scope.join_all();
        r
    }
}

impl<'pool, 'scope> Scope<'pool, 'scope>
{
    fn choice(&self) -> Option<usize>
    {
        let s = SCHEDULE.lock().unwrap();
        let mut at = self.at.borrow_mut();
        *at += 1;
        s.get(*at - 1).copied()
    }
    fn run(&self, k: usize)
    {
        let n = self.jobs.borrow().len();
        if n == 0 { return; }
        let job = self.jobs.borrow_mut().remove((k - 1) % n);
        *JOBS.lock().unwrap() += 1;
        job();
    }
    pub fn execute<F>(&self, f: F) where F: FnOnce() + Send + 'scope
    {
        self.jobs.borrow_mut().push(Box::new(f));
        while let Some(k) = self.choice() { if k == 0 { break; } self.run(k); }
    }
    pub fn join_all(&self)
    {
        while !self.jobs.borrow().is_empty() { let k = self.choice().unwrap_or(1); self.run(k.max(1)); }
    }
}
