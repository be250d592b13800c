//! Coroutines: several actors of one plan may share one OS thread (and so its
//! thread-local state). They are switched only between library calls.
use std::cell::Cell;
use std::sync::Mutex;

const STACK: usize = 1 << 20;
const GUARD: usize = 64 << 10;

struct Stack(*mut u8);
unsafe impl Send for Stack {}
static POOL: Mutex<Vec<Stack>> = Mutex::new(vec![]);

fn stack() -> Stack {
    if let Some(s) = POOL.lock().unwrap_or_else(|e| e.into_inner()).pop() { return s; }
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), STACK + GUARD, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_STACK, -1, 0);
        assert!(p != libc::MAP_FAILED);
        libc::mprotect(p, GUARD, libc::PROT_NONE);
        Stack(p as *mut u8)
    }
}

/// A context with room for what newer C libraries append to it.
struct Ctx { c: libc::ucontext_t, _room: [u64; 64] }
fn ctx() -> Box<Ctx> { unsafe { Box::new(std::mem::zeroed()) } }
/// The scheduler loop's context of one thread.
pub struct Home(Box<Ctx>);
impl Home { pub fn new() -> Home { Home(ctx()) } }

pub struct Co<'s> { ctx: Box<Ctx>, stack: Option<Stack>, body: Option<Box<dyn FnOnce() + Send + 's>>, started: bool }

thread_local! {
    static MAIN: Cell<*mut libc::ucontext_t> = const { Cell::new(std::ptr::null_mut()) };
    static CUR: Cell<*mut libc::ucontext_t> = const { Cell::new(std::ptr::null_mut()) };
    static BODY: Cell<Option<Box<dyn FnOnce() + Send + 'static>>> = const { Cell::new(None) };
}

extern "C" fn entry() {
    let b = BODY.with(|c| c.take()).expect("no coroutine body");
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(b)).is_err() { std::process::abort(); }
    // returning continues at uc_link: the scheduler loop of this thread
}

impl<'s> Co<'s> {
    pub fn new(body: Box<dyn FnOnce() + Send + 's>) -> Co<'s> { Co { ctx: ctx(), stack: Some(stack()), body: Some(body), started: false } }
    /// Continues the coroutine until it yields or ends. `home` is the same for all coroutines of a thread.
    pub fn resume(&mut self, home: &mut Home) {
        unsafe {
            let main: *mut libc::ucontext_t = &mut home.0.c;
            MAIN.with(|m| m.set(main));
            CUR.with(|c| c.set(&mut self.ctx.c));
            if !self.started {
                self.started = true;
                libc::getcontext(&mut self.ctx.c);
                self.ctx.c.uc_stack.ss_sp = self.stack.as_ref().unwrap().0.add(GUARD) as *mut _;
                self.ctx.c.uc_stack.ss_size = STACK;
                self.ctx.c.uc_link = main;
                let b = self.body.take().unwrap();
                BODY.with(|c| c.set(Some(std::mem::transmute::<Box<dyn FnOnce() + Send + 's>, Box<dyn FnOnce() + Send + 'static>>(b))));
                libc::makecontext(&mut self.ctx.c, entry, 0);
            }
            libc::swapcontext(main, &self.ctx.c);
        }
    }
}
impl Drop for Co<'_> {
    fn drop(&mut self) { if let Some(s) = self.stack.take() { POOL.lock().unwrap_or_else(|e| e.into_inner()).push(s); } }
}

/// Back to this thread's scheduler loop.
pub fn yield_main() {
    let (c, m) = (CUR.with(|c| c.get()), MAIN.with(|m| m.get()));
    unsafe { libc::swapcontext(c, m); }
}
