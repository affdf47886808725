"""Type-level obligations of C14: clients which the signatures must accept, and clients which they must reject.

A client is rejected for the right reason when its twin, which differs only in the marked lines, is accepted:
  //~ neg   only in the client that must be rejected
  //~ pos   only in the twin
Clients are generic over the element type or the wrapped iterator wherever the property quantifies over them.
"""

PRELUDE = """#![allow(unused, dropping_references, dropping_copy_types, clippy::all)]
use orx_concurrent_iter::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
fn crosses<X: Send + Sync>(_: &X) {}
fn shared<X: Sync>(_: &X) {}
fn sent<X: Send>(_: X) {}
fn is_clone<X: Clone>(_: &X) {}
#[derive(Clone)]
struct Owned(String);
fn local(n: usize) -> Vec<Owned> { (0..n).map(|x| Owned(x.to_string())).collect() }
fn keep<X>(_: X) {}
"""

# kind: (source declaration, iterator expression, is the element owned by the iterator)
KINDS = {
    "slice": ("let mut src = local(5);", "src.as_slice().into_con_iter()"),
    "vecref": ("let mut src = local(5);", "src.con_iter()"),
    "arrayref": ("let mut src = [Owned(String::new()), Owned(String::new())];", "src.con_iter()"),
    "slicecon": ("let mut src = local(5); let s: &[Owned] = &src;", "s.con_iter()"),
    "cloned": ("let mut src = local(5);", "src.con_iter().cloned()"),
    "copied": ("let mut src = vec![1usize, 2, 3];", "src.con_iter().copied()"),
    "wrapref": ("let mut src = local(5);", "src.iter().filter(|x| x.0.len() < 9).into_con_iter()"),
    "wrapcloned": ("let mut src = local(5);", "src.iter().into_con_iter().cloned()"),
    "wrapcopied": ("let mut src = vec![1usize, 2, 3];", "src.iter().into_con_iter().copied()"),
    "vec": ("", "local(5).into_con_iter()"),
    "array": ("", "[Owned(String::new()), Owned(String::new())].into_con_iter()"),
    "range": ("", "(0..5usize).con_iter()"),
    "wrap": ("", "local(5).into_iter().map(|x| x.0).into_con_iter()"),
}
BORROWING = ["slice", "vecref", "arrayref", "slicecon", "cloned", "copied", "wrapref", "wrapcloned", "wrapcopied"]
REFS = ["slice", "vecref", "arrayref", "slicecon", "wrapref"]
OWNING = ["vec", "array", "wrap"]


def cases():
    """name -> (property clause, program with marked lines)"""
    c = {}

    def add(name, clause, body):
        assert name not in c, name
        c[name] = (clause, PRELUDE + body)

    # ---- elements and wrapped iterators must be able to cross threads
    make = {
        "vec": ("v: Vec<T>", "v.into_con_iter()"),
        "array": ("v: [T; 3]", "v.into_con_iter()"),
        "slice": ("v: &[T]", "v.into_con_iter()"),
        "vecref": ("v: &Vec<T>", "v.con_iter()"),
        "arrayref": ("v: &[T; 3]", "v.con_iter()"),
        "cloned": ("v: &[T]", "v.into_con_iter().cloned()"),
        "copied": ("v: &[T]", "v.into_con_iter().copied()"),
        "wrap": ("v: std::vec::IntoIter<T>", "IterIntoConcurrentIter::into_con_iter(v)"),
        "wrapref": ("v: std::slice::Iter<'_, T>", "IterIntoConcurrentIter::into_con_iter(v)"),
        "wrapcloned": ("v: std::slice::Iter<'_, T>", "IterIntoConcurrentIter::into_con_iter(v).cloned()"),
        "newvec": ("v: Vec<T>", "ConIterOfVec::new(v)"),
        "newarray": ("v: [T; 3]", "ConIterOfArray::new(v)"),
        "newslice": ("v: &[T]", "ConIterOfSlice::new(v)"),
        "newiter": ("v: std::vec::IntoIter<T>", "ConIterOfIter::new(v)"),
        "fromvec": ("v: Vec<T>", "ConIterOfVec::from(v)"),
        "fromarray": ("v: [T; 3]", "ConIterOfArray::from(v)"),
        "fromslice": ("v: &[T]", "ConIterOfSlice::from(v)"),
        "fromiter": ("v: std::vec::IntoIter<T>", "ConIterOfIter::from(v)"),
    }
    for k, (arg, expr) in make.items():
        extra = {"cloned": " + Clone", "copied": " + Copy", "wrapcloned": " + Clone"}.get(k, "")
        # by value: the element moves to another thread; by reference: it is shared with another thread
        byref = k in ("slice", "vecref", "arrayref", "cloned", "copied", "wrapref", "wrapcloned", "newslice", "fromslice")
        missing = ["Sync"] if byref else ["Send"]
        for m in missing:
            other = {"Send": "Sync", "Sync": "Send"}[m]
            add(f"bounds_{k}_without_{m}", "elements must be able to cross threads",
                f"fn client<T: {other}{extra}>({arg}) {{ //~ neg\n"
                f"fn client<T: Send + Sync{extra}>({arg}) {{ //~ pos\n"
                f"    let it = {expr};\n    crosses(&it);\n    std::thread::scope(|s| {{ s.spawn(|| {{ keep(it.next()); }}); }});\n}}\nfn main() {{}}\n")
        # both are missing
        concrete = {"cloned": "Rc<i32>", "copied": "*const i32", "wrapcloned": "Rc<i32>"}.get(k, "Rc<i32>")
        good = {"copied": "usize"}.get(k, "String")
        add(f"bounds_{k}_not_thread_safe", "elements must be able to cross threads",
            f"type T = {concrete}; //~ neg\ntype T = {good}; //~ pos\n"
            f"fn client({arg}) {{\n    let it = {expr};\n    crosses(&it);\n}}\nfn main() {{}}\n")
    # values and chunks of an iterator stay as thread-safe as the elements
    add("bounds_range_index", "elements must be able to cross threads",
        "fn client(r: std::ops::Range<Rc<usize>>) { //~ neg\nfn client(r: std::ops::Range<usize>) { //~ pos\n"
        "    let it = r.con_iter();\n    crosses(&it);\n}\nfn main() {}\n")
    # a wrapped iterator that is tied to its thread, although its elements are not
    add("wrapped_not_send", "a wrapped sequential iterator must be able to cross threads",
        "fn client<I: Iterator<Item = usize>>(i: I) { //~ neg\nfn client<I: Iterator<Item = usize> + Send>(i: I) { //~ pos\n"
        "    let it = i.into_con_iter();\n    crosses(&it);\n}\nfn main() {}\n")
    add("wrapped_rc", "a wrapped sequential iterator must be able to cross threads",
        "fn main() {\n    let n = Rc::new(Cell::new(0usize)); //~ neg\n    let n = std::sync::Arc::new(std::sync::Mutex::new(0usize)); //~ pos\n"
        "    let m = n.clone();\n    let i = (0..9).map(move |x| { let _ = m.clone(); x });\n    let it = i.into_con_iter();\n"
        "    std::thread::scope(|s| { s.spawn(|| keep(it.next())); });\n    keep(n);\n}\n")
    # buffers carry elements
    add("buffer_of_wrapped", "buffers must be able to cross threads only with their elements",
        "fn client<T: Sync>(i: &ConIterOfIter<T, std::vec::IntoIter<T>>) { //~ neg\nfn client<T: Send + Sync>(i: &ConIterOfIter<T, std::vec::IntoIter<T>>) { //~ pos\n"
        "    let mut b = i.buffered_iter(2);\n    sent(&b);\n}\nfn main() {}\n")

    # ---- lifetimes
    for k in BORROWING:
        src, expr = KINDS[k]
        add(f"outlive_source_{k}", "a non-consuming iterator cannot outlive the collection",
            f"fn main() {{\n    {src}\n    let it = {expr};\n    drop(src); //~ neg\n    keep(it.next());\n}}\n")
        add(f"mutate_source_{k}", "the collection cannot be changed while it is iterated over",
            f"fn main() {{\n    {src}\n    let it = {expr};\n    keep(&mut src); //~ neg\n    keep(it.next_id_and_value());\n}}\n")
        add(f"outlive_source_chunk_{k}", "a chunk of references cannot outlive the collection",
            f"fn main() {{\n    {src}\n    let it = {expr};\n    let mut c = it.next_chunk(2).unwrap();\n    drop(src); //~ neg\n    keep(c.values.next());\n}}\n")
        add(f"outlive_source_seq_{k}", "the remainder cannot outlive the collection",
            f"fn main() {{\n    {src}\n    let it = {expr};\n    let mut c = it.into_seq_iter();\n    drop(src); //~ neg\n    keep(c.next());\n}}\n")
    for k in REFS:
        src, expr = KINDS[k]
        for pull, m in (("it.next().unwrap()", "next"), ("it.next_id_and_value().unwrap().value", "id"), ("it.values().next().unwrap()", "values"),
                        ("it.next_chunk(2).unwrap().values.next().unwrap()", "chunk"),
                        ("it.buffered_iter(2).next().unwrap().values.next().unwrap()", "buffered"),
                        ("it.ids_and_values().next().unwrap().1", "ids")):
            add(f"outlive_source_ref_{m}_{k}", "a delivered reference cannot outlive the collection",
                f"fn main() {{\n    {src}\n    let it = {expr};\n    let x = {pull};\n    drop(it);\n    drop(src); //~ neg\n    keep(x);\n}}\n")
    for k, (src, expr) in KINDS.items():
        add(f"buffer_twice_{k}", "a buffered chunk cannot outlive the next pull on its buffer",
            f"fn main() {{\n    {src}\n    let it = {expr};\n    let mut b = it.buffered_iter(2);\n    let mut c = b.next().unwrap();\n"
            f"    keep(b.next()); //~ neg\n    keep(c.values.next());\n}}\n")
        add(f"chunk_outlives_buffer_{k}", "a buffered chunk cannot outlive its buffer",
            f"fn main() {{\n    {src}\n    let it = {expr};\n    let mut b = it.buffered_iter(2);\n    let mut c = b.next().unwrap();\n"
            f"    drop(b); //~ neg\n    keep(c.values.next());\n}}\n")
        add(f"buffer_outlives_iterator_{k}", "a buffered iterator cannot outlive the concurrent iterator",
            f"fn main() {{\n    {src}\n    let it = {expr};\n    let mut b = it.buffered_iter(2);\n    drop(it); //~ neg\n    keep(b.next());\n}}\n")
        add(f"chunk_outlives_iterator_{k}", "a buffered chunk cannot outlive the concurrent iterator",
            f"fn main() {{\n    {src}\n    let it = {expr};\n    let mut b = it.buffered_iter(2);\n    let mut c = b.next().unwrap();\n    drop(it); //~ neg\n    keep(c.values.next());\n}}\n")
        add(f"seq_with_buffer_{k}", "the iterator cannot be converted back while it is being used",
            f"fn main() {{\n    {src}\n    let it = {expr};\n    let mut b = it.buffered_iter(2);\n    keep(it.into_seq_iter()); //~ neg\n    keep(b.next());\n}}\n")
        add(f"seq_then_pull_{k}", "the iterator cannot be used after it is converted back",
            f"fn main() {{\n    {src}\n    let it = {expr};\n    keep(it.into_seq_iter()); //~ neg\n    keep(it.next());\n}}\n")
        add(f"adaptor_outlives_iterator_{k}", "the adaptors cannot outlive the concurrent iterator",
            f"fn main() {{\n    {src}\n    let it = {expr};\n    let mut v = it.values();\n    let mut w = it.ids_and_values();\n    drop(it); //~ neg\n    keep((v.next(), w.next()));\n}}\n")
        add(f"chunk_moves_to_thread_{k}", "a buffered chunk on another thread cannot outlive its buffer",
            f"fn main() {{\n    {src}\n    let it = {expr};\n    let mut b = it.buffered_iter(2);\n    let mut c = b.next().unwrap();\n"
            f"    std::thread::spawn(move || keep(c.values.next())); //~ neg\n    keep(c.values.next()); //~ pos\n}}\n")
    # elements that live in the memory of the iterator
    for k in ("vec", "array"):
        src, expr = KINDS[k]
        for what, use in (("drop", "drop(it);"), ("seq", "keep(it.into_seq_iter());")):
            add(f"chunk_of_{k}_{what}", "a chunk cannot outlive the memory of its elements",
                f"fn main() {{\n    let it = {expr};\n    let mut c = it.next_chunk(2).unwrap();\n    {use} //~ neg\n    keep(c.values.next());\n}}\n")

    # ---- one owner
    for k in OWNING:
        src, expr = KINDS[k]
        add(f"no_clone_{k}", "a consuming iterator cannot be duplicated",
            f"fn main() {{\n    let it = {expr};\n    is_clone(&it); //~ neg\n    keep(it.next());\n}}\n")
        add(f"consumed_{k}", "a consumed collection cannot be used",
            f"fn main() {{\n    let src = {expr.replace('.into_con_iter()', '')};\n    let it = src.into_con_iter();\n    keep(src); //~ neg\n    keep(it.next());\n}}\n")
        add(f"chunk_no_clone_{k}", "a chunk of owned elements cannot be duplicated",
            f"fn main() {{\n    let it = {expr};\n    let c = it.next_chunk(2).unwrap();\n    sent(&c);\n    let a: Box<dyn Iterator<Item = _> + '_> = Box::new(c.values);\n    keep(a);\n"
            f"    let d = it.next_chunk(2).unwrap();\n    let e = d.values.clone(); //~ neg\n}}\n")
    hidden = [
        ("vec", "it.take_one(0)"), ("vec", "it.take_slice(0, 1)"), ("vec", "it.split_off_right(0)"), ("vec", "it.vec"), ("vec", "it.counter"),
        ("array", "it.take_one(0)"), ("array", "it.take_slice(0, 1)"), ("array", "it.split_off_right(0)"), ("array", "it.array"), ("array", "it.counter"),
        ("wrap", "it.mut_iter()"), ("wrap", "it.iter"), ("wrap", "it.progress_yielded_counter(1)"), ("wrap", "it.yielded_counter"),
        ("wrap", "it.reserved_counter"), ("wrap", "it.completed"), ("wrap", "it.complete()"),
        ("cloned", "it.iter"), ("cloned", "it.underlying_iter()"), ("copied", "it.underlying_iter()"),
    ]
    for k, x in hidden:
        src, expr = KINDS[k]
        n = "".join(ch if ch.isalnum() else "_" for ch in x)
        add(f"hidden_{k}_{n}", "internals which could give a second owner are not reachable by safe code",
            f"fn main() {{\n    {src}\n    let it = {expr};\n    keep({x}); //~ neg\n    keep(it.next());\n}}\n")
    # safe public calls which give an element twice
    for k in ("vec", "array"):
        src, expr = KINDS[k]
        add(f"get_twice_{k}", "no sequence of safe public calls produces two owners of one element",
            f"use orx_concurrent_iter::iter::atomic_iter::*; \nfn main() {{\n    let it = {expr};\n"
            f"    keep((AtomicIter::get(&it, 0), AtomicIter::get(&it, 0))); //~ neg\n    keep(it.next());\n}}\n")
        add(f"counter_reset_{k}", "no sequence of safe public calls produces two owners of one element",
            f"use orx_concurrent_iter::iter::atomic_iter::*; \nfn main() {{\n    let it = {expr};\n    keep(it.next());\n"
            f"    AtomicIter::counter(&it).store(0); //~ neg\n    keep(it.next());\n}}\n")
    add("get_wrapped", "no sequence of safe public calls uses the wrapped iterator on two threads",
        "use orx_concurrent_iter::iter::atomic_iter::*; \nfn main() {\n    let it = local(3).into_iter().into_con_iter2();\n"
        "    keep((AtomicIter::get(&it, 0), AtomicIter::get(&it, 0))); //~ neg\n    keep(it.next());\n}\n"
        "trait C2: Iterator + Sized where Self::Item: Send + Sync { fn into_con_iter2(self) -> ConIterOfIter<Self::Item, Self> { ConIterOfIter::new(self) } }\n"
        "impl<I: Iterator> C2 for I where I::Item: Send + Sync {}\n")
    return c


def program(text, variant):
    other = {"neg": "pos", "pos": "neg"}[variant]
    return "\n".join(x for x in text.splitlines() if not x.rstrip().endswith("//~ " + other)) + "\n"
