//! The JavaScript side: values, classes, exceptions, the event loop.
use crate::borrow::LoanError;
use crate::context::TaskContext;
use crate::handle::Managed;
use crate::object::Class;
use crate::result::{NeonResult, Throw};
use crate::task::Task;
use std::any::{Any, TypeId};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Val(pub u32);

#[derive(Clone, Debug, PartialEq)]
pub enum Key {
    Index(u32),
    Name(String),
}
pub type Callback = Rc<dyn Fn(Vec<Val>) -> NeonResult<Val>>;
pub struct Cell0 {
    data: RefCell<Box<dyn Any>>,
    readers: Cell<u32>,
    writer: Cell<bool>,
}
pub enum Slot {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Array(Vec<Val>),
    Object(Vec<(String, Val)>),
    Function(Callback),
    /// aligned storage, length in bytes
    Buffer { words: Vec<u64>, len: usize },
    Error(String),
    Instance { class: TypeId, name: &'static str, cell: Option<Rc<Cell0>> },
}
impl Slot {
    pub fn is_object(&self) -> bool {
        !matches!(self, Slot::Undefined | Slot::Null | Slot::Bool(_) | Slot::Num(_) | Slot::Str(_))
    }
}

type Init = Rc<dyn Fn(Val, Vec<Val>) -> NeonResult<Box<dyn Any>>>;
type Method = Rc<dyn Fn(Val, Vec<Val>) -> NeonResult<Val>>;
#[derive(Clone, Default)]
pub struct ClassDef {
    init: Option<Init>,
    methods: HashMap<String, Method>,
}
impl ClassDef {
    pub fn init(&mut self, f: impl Fn(Val, Vec<Val>) -> NeonResult<Box<dyn Any>> + 'static) {
        self.init = Some(Rc::new(f))
    }
    pub fn method(&mut self, name: &str, f: impl Fn(Val, Vec<Val>) -> NeonResult<Val> + 'static) {
        self.methods.insert(name.into(), Rc::new(f));
    }
}

/// A task under way.
trait Pending {
    fn finish(self: Box<Self>) -> Finished;
}
enum Finished {
    Called,
    /// the worker thread panicked: with node, the process is gone
    Died(String),
}

#[derive(Default)]
struct Engine {
    heap: Vec<Slot>,
    thrown: Option<String>,
    functions: HashMap<String, Method>,
    classes: HashMap<String, (TypeId, &'static str, ClassDef)>,
    methods_of: HashMap<TypeId, ClassDef>,
    pending: Vec<Box<dyn Pending>>,
    /// values the program still holds on to
    scheduled: u64,
}
thread_local! {
    static ENGINE: RefCell<Engine> = RefCell::new(Engine::default());
}
fn eng<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    ENGINE.with(|e| f(&mut e.borrow_mut()))
}

// ---- values --------------------------------------------------------------------------------------

pub fn alloc(s: Slot) -> Val {
    eng(|e| {
        e.heap.push(s);
        Val(e.heap.len() as u32 - 1)
    })
}
pub fn with<R>(v: Val, f: impl FnOnce(&Slot) -> R) -> R {
    ENGINE.with(|e| f(&e.borrow().heap[v.0 as usize]))
}
pub fn undefined() -> Val {
    alloc(Slot::Undefined)
}
pub fn null() -> Val {
    alloc(Slot::Null)
}
pub fn number(n: f64) -> Val {
    alloc(Slot::Num(n))
}
pub fn string(s: &str) -> Val {
    alloc(Slot::Str(s.to_string()))
}
pub fn boolean(b: bool) -> Val {
    alloc(Slot::Bool(b))
}
pub fn array(v: Vec<Val>) -> Val {
    alloc(Slot::Array(v))
}
pub fn object(fields: Vec<(&str, Val)>) -> Val {
    alloc(Slot::Object(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect()))
}
pub fn function(f: impl Fn(Vec<Val>) + 'static) -> Val {
    alloc(Slot::Function(Rc::new(move |a| {
        f(a);
        Ok(undefined())
    })))
}
pub fn buffer_slot(bytes: usize) -> Slot {
    Slot::Buffer { words: vec![0; bytes / 8 + 1], len: bytes }
}
pub fn buffer(data: &[u32]) -> Val {
    let v = alloc(buffer_slot(data.len() * 4));
    let (p, _) = buffer_ptr(v);
    unsafe { std::ptr::copy_nonoverlapping(data.as_ptr() as *const u8, p, data.len() * 4) }
    v
}
pub fn buffer_ptr(v: Val) -> (*mut u8, usize) {
    eng(|e| match &mut e.heap[v.0 as usize] {
        Slot::Buffer { words, len } => (words.as_mut_ptr() as *mut u8, *len),
        _ => (std::ptr::null_mut(), 0),
    })
}
pub fn buffer_words(v: Val) -> Option<Vec<u32>> {
    let (p, n) = buffer_ptr(v);
    if p.is_null() {
        return None;
    }
    Some(unsafe { std::slice::from_raw_parts(p as *const u32, n / 4).to_vec() })
}
pub fn get(v: Val, k: Key) -> Val {
    let found = with(v, |s| match (s, &k) {
        (Slot::Array(a), Key::Index(i)) => a.get(*i as usize).cloned(),
        (Slot::Array(a), Key::Name(n)) => match n.parse::<usize>() {
            Ok(i) => a.get(i).cloned(),
            Err(_) => None,
        },
        (Slot::Object(o), Key::Name(n)) => o.iter().find(|f| &f.0 == n).map(|f| f.1),
        (Slot::Object(o), Key::Index(i)) => {
            let n = i.to_string();
            o.iter().find(|f| f.0 == n).map(|f| f.1)
        }
        _ => None,
    });
    found.unwrap_or_else(undefined)
}
pub fn set(v: Val, k: Key, x: Val) -> bool {
    eng(|e| {
        let hole = Val(e.heap.len() as u32);
        let mut holes = false;
        let done = match (&mut e.heap[v.0 as usize], k) {
            (Slot::Array(a), Key::Index(i)) => {
                while a.len() <= i as usize {
                    a.push(hole);
                    holes = true;
                }
                a[i as usize] = x;
                true
            }
            (Slot::Object(o), Key::Name(n)) => {
                match o.iter_mut().find(|f| f.0 == n) {
                    Some(f) => f.1 = x,
                    None => o.push((n, x)),
                }
                true
            }
            (Slot::Object(o), Key::Index(i)) => {
                o.push((i.to_string(), x));
                true
            }
            _ => false,
        };
        if holes {
            e.heap.push(Slot::Undefined);
        }
        done
    })
}
pub fn names(v: Val) -> Vec<String> {
    with(v, |s| match s {
        Slot::Object(o) => o.iter().map(|f| f.0.clone()).collect(),
        Slot::Array(a) => (0..a.len()).map(|i| i.to_string()).collect(),
        _ => vec![],
    })
}
pub fn describe(v: Val) -> String {
    with(v, |s| match s {
        Slot::Undefined => "undefined".into(),
        Slot::Null => "null".into(),
        Slot::Bool(b) => b.to_string(),
        Slot::Num(n) => n.to_string(),
        Slot::Str(t) => t.clone(),
        Slot::Error(t) => t.clone(),
        Slot::Array(_) => "[array]".into(),
        Slot::Function(_) => "[function]".into(),
        Slot::Buffer { .. } => "[ArrayBuffer]".into(),
        Slot::Instance { name, .. } => format!("[{}]", name),
        Slot::Object(_) => "[object Object]".into(),
    })
}

// ---- exceptions ----------------------------------------------------------------------------------

pub fn throw(text: &str) {
    eng(|e| e.thrown = Some(text.to_string()))
}
pub fn pending_exception() -> bool {
    eng(|e| e.thrown.is_some())
}
#[derive(Clone, Debug, PartialEq)]
pub enum JsError {
    Thrown(String),
    /// an error of the addon itself: it panicked, or its result and the exception state disagree
    Broken(String),
}
fn settle<T>(what: &str, f: impl FnOnce() -> NeonResult<T>) -> Result<T, JsError> {
    eng(|e| e.thrown = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    let thrown = eng(|e| e.thrown.take());
    match (r, thrown) {
        (Ok(Ok(v)), None) => Ok(v),
        (Ok(Ok(_)), Some(t)) => {
            Err(JsError::Broken(format!("{} returned a value with an exception pending: {}", what, t)))
        }
        (Ok(Err(Throw)), Some(t)) => Err(JsError::Thrown(t)),
        (Ok(Err(Throw)), None) => Err(JsError::Broken(format!("{} failed without an exception", what))),
        (Err(p), _) => {
            if p.is::<simrt::SimCrash>() || p.is::<simrt::SimOverrun>() || p.is::<simrt::SimMisuse>() {
                std::panic::resume_unwind(p)
            }
            Err(JsError::Broken(format!("{} panicked: {}", what, simrt::panic_text(&*p))))
        }
    }
}

// ---- functions and classes -----------------------------------------------------------------------

pub fn export_function(name: &str, f: Box<dyn Fn(Val, Vec<Val>) -> NeonResult<Val>>) {
    eng(|e| e.functions.insert(name.into(), Rc::from(f)));
}
pub fn export_class<T: Class>(name: &str) {
    let mut d = ClassDef::default();
    T::define(&mut d);
    eng(|e| {
        e.methods_of.insert(TypeId::of::<T>(), d.clone());
        e.classes.insert(name.into(), (TypeId::of::<T>(), T::class_name(), d));
    });
}
pub fn is_instance<T: Class>(v: Val) -> bool {
    with(v, |s| matches!(s, Slot::Instance { class, .. } if *class == TypeId::of::<T>()))
}
pub fn loan<I: 'static>(v: Val, exclusive: bool) -> Result<(*mut I, Box<dyn Any>), LoanError> {
    let cell = with(v, |s| match s {
        Slot::Instance { cell, .. } => cell.clone(),
        _ => None,
    });
    let cell = match cell {
        Some(c) => c,
        None => panic!("use of a value after it was collected"),
    };
    if cell.writer.get() || (exclusive && cell.readers.get() > 0) {
        return Err(LoanError::Mutating);
    }
    struct Keep(Rc<Cell0>, bool);
    impl Drop for Keep {
        fn drop(&mut self) {
            if self.1 {
                self.0.writer.set(false)
            } else {
                self.0.readers.set(self.0.readers.get() - 1)
            }
        }
    }
    if exclusive {
        cell.writer.set(true)
    } else {
        cell.readers.set(cell.readers.get() + 1)
    }
    let p = cell.data.borrow_mut().downcast_mut::<I>().expect("class data") as *mut I;
    Ok((p, Box::new(Keep(cell, exclusive))))
}
/// `new addon.<class>(args)`
pub fn construct(class: &str, args: Vec<Val>) -> Result<Val, JsError> {
    let (ty, name, def) = eng(|e| e.classes.get(class).cloned())
        .ok_or_else(|| JsError::Broken(format!("the addon exports no class {}", class)))?;
    let this = alloc(Slot::Instance { class: ty, name, cell: None });
    let init = def.init.clone().ok_or_else(|| JsError::Broken(format!("{} has no constructor", class)))?;
    let data = settle(class, || init(undefined(), args))?;
    let cell = Rc::new(Cell0 { data: RefCell::new(data), readers: Cell::new(0), writer: Cell::new(false) });
    eng(|e| e.heap[this.0 as usize] = Slot::Instance { class: ty, name, cell: Some(cell) });
    Ok(this)
}
pub fn call_method(this: Val, name: &str, args: Vec<Val>) -> Result<Val, JsError> {
    let class = with(this, |s| match s {
        Slot::Instance { class, .. } => Some(*class),
        _ => None,
    });
    let m = eng(|e| class.and_then(|c| e.methods_of.get(&c)).and_then(|d| d.methods.get(name).cloned()));
    match m {
        Some(m) => settle(name, || m(this, args)),
        None => Err(JsError::Broken(format!("{} is not a function", name))),
    }
}
pub fn call_function(name: &str, args: Vec<Val>) -> Result<Val, JsError> {
    match eng(|e| e.functions.get(name).cloned()) {
        Some(f) => settle(name, || f(undefined(), args)),
        None => Err(JsError::Broken(format!("the addon exports no function {}", name))),
    }
}
pub fn call(f: Val, args: Vec<Val>) -> NeonResult<Val> {
    match with(f, |s| if let Slot::Function(f) = s { Some(f.clone()) } else { None }) {
        Some(f) => f(args),
        None => Err(Throw),
    }
}
/// The program let go of an instance and the collector ran.
pub fn collect(v: Val) {
    let gone = eng(|e| match &mut e.heap[v.0 as usize] {
        Slot::Instance { cell, .. } => cell.take(),
        _ => None,
    });
    drop(gone);
}
pub fn collected(v: Val) -> bool {
    with(v, |s| matches!(s, Slot::Instance { cell: None, .. }))
}

// ---- tasks ---------------------------------------------------------------------------------------

struct Running<T: Task> {
    handle: simrt::TaskHandle<(T, Result<T::Output, T::Error>)>,
    callback: Val,
}
impl<T: Task> Pending for Running<T> {
    fn finish(self: Box<Self>) -> Finished {
        let (sim, _) = simrt::current().expect("event loop outside the simulation");
        let me = *self;
        match sim.join_raw(vec![me.handle]).pop().expect("one task") {
            Ok((task, result)) => {
                let r = settle("task", || task.complete(TaskContext::new_internal(), result).map(|h| h.to_raw()));
                let args = match r {
                    Ok(v) => vec![null(), v],
                    Err(JsError::Thrown(t)) => vec![alloc(Slot::Error(t))],
                    Err(JsError::Broken(t)) => return Finished::Died(t),
                };
                let _ = call(me.callback, args);
                Finished::Called
            }
            Err(p) => {
                if p.is::<simrt::SimCrash>() || p.is::<simrt::SimOverrun>() || p.is::<simrt::SimMisuse>() {
                    std::panic::resume_unwind(p)
                }
                Finished::Died(simrt::panic_text(&*p))
            }
        }
    }
}
pub fn schedule<T: Task>(task: T, callback: Val) {
    let (sim, me) = simrt::current().expect("task scheduled outside the simulation");
    let proc_id = sim.proc_of(me);
    let handle = sim.spawn(proc_id, move || {
        simrt::yield_now();
        let r = task.perform();
        simrt::yield_now();
        (task, r)
    });
    eng(|e| {
        e.scheduled += 1;
        e.pending.push(Box::new(Running { handle, callback }))
    });
}
pub fn pending() -> usize {
    eng(|e| e.pending.len())
}
pub fn scheduled() -> u64 {
    eng(|e| e.scheduled)
}
/// One turn of the event loop: waits for a task to end and completes it. `Err`: the process died.
pub fn turn() -> Result<bool, String> {
    let n = pending();
    if n == 0 {
        return Ok(false);
    }
    let (sim, _) = simrt::current().expect("event loop outside the simulation");
    let k = sim.choose(n);
    let p = eng(|e| e.pending.remove(k));
    match p.finish() {
        Finished::Called => Ok(true),
        Finished::Died(t) => Err(t),
    }
}
/// What node does when it loads the addon.
pub fn load(f: impl FnOnce() -> NeonResult<()>) -> Result<(), JsError> {
    settle("loading the addon", f)
}
/// The JavaScript thread ends: everything it holds goes.
pub fn exit() {
    let gone = eng(|e| std::mem::take(e));
    drop(gone);
}
