"""Compile-fail witnesses: small safe programs that the compiler must refuse, each next to a twin it must accept.

Nothing is run: rustc checks types, borrows and visibility against the metadata of the crate as it is now. A witness counts only when
its twin compiles, so a program refused for another reason (a renamed method) decides nothing."""
import concurrent.futures as cf
import os
import subprocess

from . import export as X

PRE = """#![allow(unused, dead_code, unused_mut)]
use xecs::*; use xecs::query::*; use xecs::group::*; use std::any::TypeId;
pub struct A(u8); pub struct B(u8);
pub fn any<T: ?Sized>(_: &T) {}
pub fn is_any<T>() {}
pub fn is_send<T: Send>() {}
pub fn is_sync<T: Sync>() {}
pub fn id() -> EntityId { EntityId::new(1).unwrap() }
pub type Hr = for<'x> fn(&'x u8) -> u8;
pub type St = fn(&'static u8) -> u8;
"""


def W():
    """(property, name, refused program, accepted twin); %s in a program is where the two differ."""
    out = []

    def w(prop, func, name, prog, bad, good):
        out.append((prop, func, name, prog.replace("@@", bad), prog.replace("@@", good)))

    # ---- references and their guards
    def outlive(func, get, use, decl="let g"):
        w("P03", func, "a reference does not outlive the guard (%s)" % use,
          "pub fn f(w: &World) { %s = %s; let r = %s; @@ any(r); }" % (decl, get, use), "drop(g);", "")

    outlive("World::entity_component_read", "w.entity_component_read::<A>(id()).unwrap()", "&*g")
    outlive("World::entity_component_write", "w.entity_component_write::<A>(id()).unwrap()", "&mut *g", "let mut g")
    for use in ("g.get(id()).unwrap()", "g.data()"):
        outlive("World::components_read", "w.components_read::<A>().unwrap()", use)
        outlive("World::components_write", "w.components_write::<A>().unwrap()", use)
    for use in ("g.get_mut(id()).unwrap()", "g.data_mut()"):
        outlive("World::components_write", "w.components_write::<A>().unwrap()", use, "let mut g")
    outlive("World::resource_read", "w.resource_read::<A>().unwrap()", "&*g")
    outlive("World::resource_write", "w.resource_write::<A>().unwrap()", "&mut *g", "let mut g")
    w("P03", "StorageRead::get_unchecked", "a reference does not outlive the guard (unchecked)",
      "pub unsafe fn f(w: &World) { let g = w.components_read::<A>().unwrap(); let r = unsafe { g.get_unchecked(id()) }; @@ any(r); }", "drop(g);", "")
    w("P03", "StorageWrite::get_unchecked_mut", "a reference does not outlive the guard (unchecked)",
      "pub unsafe fn f(w: &World) { let mut g = w.components_write::<A>().unwrap(); let r = unsafe { g.get_unchecked_mut(id()) }; @@ any(r); }", "drop(g);", "")
    # ---- one mutable reference at a time
    for a, b in (("g.get_mut(id())", "g.get_mut(id())"), ("g.get_mut(id())", "g.get(id())"), ("g.data_mut()", "g.data()"), ("g.get(id())", "g.data_mut()"),
                 ("g.data_mut()", "g.get_mut(id())"), ("g.data_mut()", "g.data_mut()")):
        w("P03", "StorageWrite", "no second reference next to a mutable one (%s, %s)" % (a, b),
          "pub fn f(w: &World) { let mut g = w.components_write::<A>().unwrap(); let r = %s; let s = %s; @@ any(&s); }" % (a, b), "any(&r);", "")
    w("P03", "ComponentWrite", "no second reference next to a mutable one",
      "pub fn f(w: &World) { let mut g = w.entity_component_write::<A>(id()).unwrap(); let r = &mut *g; let s = &*g; @@ any(s); }", "any(r);", "")
    w("P03", "ResourceWrite", "no second reference next to a mutable one",
      "pub fn f(w: &World) { let mut g = w.resource_write::<A>().unwrap(); let r = &mut *g; let s = &*g; @@ any(s); }", "any(r);", "")
    for t, e in (("ComponentRead", "w.entity_component_read::<A>(id())"), ("StorageRead", "w.components_read::<A>()"), ("ResourceRead", "w.resource_read::<A>()")):
        w("P03", t, "a shared guard hands out no mutable reference", "pub fn f(w: &World) { let mut g = %s.unwrap(); let r = @@; any(r); }" % e,
          "g.data_mut()" if t == "StorageRead" else "&mut *g", "g.data()" if t == "StorageRead" else "&*g")
    # ---- the world outlives its guards
    takes = {
        "create_entity": "w.create_entity()", "create_entities": "w.create_entities(2)", "entity": "w.entity(id())",
        "components_read": "w.components_read::<A>()", "components_write": "w.components_write::<A>()",
        "entity_component_read": "w.entity_component_read::<A>(id())", "entity_component_write": "w.entity_component_write::<A>(id())",
        "resource_read": "w.resource_read::<A>()", "resource_write": "w.resource_write::<A>()",
        "query": "w.query::<&A>()", "query (mut)": "w.query::<&mut A>()", "query (tuple)": "w.query::<(&A, &mut B)>()", "query (without)": "w.query::<(&A, Without<&B>)>()",
        "query (full)": "w.query::<FullOwning<&A, &mut B>>()", "query (partial)": "w.query::<PartialOwning<&A, &mut B>>()", "query (non)": "w.query::<NonOwning<&A, &mut B>>()",
        "query with_id": "w.query::<&A>().with_id()",
        "Entity::attach": "w.create_entity().attach(A(1))", "Entities::attach": "w.create_entities(1).attach(vec![A(1)])",
    }
    for n, e in takes.items():
        w("P03", "World::" + n, "the world is not dropped while it is borrowed (%s)" % n, "pub fn f(w: World) { let g = %s; @@ any(&g); }" % e, "drop(w);", "")
        w("P03", "World::" + n, "the world is not changed exclusively while it is borrowed (%s)" % n,
          "pub fn f(mut w: World) { let g = %s; @@ any(&g); }" % e, "w.register::<B>();", "")
    for n, e in (("component_read", "e.component_read::<A>()"), ("component_write", "e.component_write::<A>()")):
        w("P03", "Entity::" + n, "the world is not dropped while it is borrowed (%s)" % n,
          "pub fn f(w: World) { let e = w.create_entity(); let g = %s; @@ any(&g); }" % e, "drop(w);", "")
    w("P03", "World::query", "items do not outlive the world", "pub fn f(w: World) { let v: Vec<&A> = w.query::<&A>().collect(); @@ any(&v); }", "drop(w);", "")
    w("P03", "World::query", "mutable items do not outlive the world", "pub fn f(w: World) { let v: Vec<&mut A> = w.query::<&mut A>().collect(); @@ any(&v); }", "drop(w);", "")
    # ---- renaming a type through variance
    for g, e in (("ResourceWrite<'a, @@>", "resource"), ("ComponentWrite<'a, @@>", "component"), ("StorageWrite<'a, @@>", "storage")):
        n = g.replace("@@", "St")
        w("P01", g.split("<")[0], "an exclusive guard keeps its type", "pub fn f<'a>(g: %s) -> %s { g }" % (g, n), "Hr", "St")
    # ---- what may enter a world
    for t, ok in (("std::rc::Rc<u8>", "std::sync::Arc<u8>"), ("std::cell::Cell<u8>", "u8"), ("std::cell::RefCell<u8>", "std::sync::Mutex<u8>"),
                  ("std::sync::MutexGuard<'static, u8>", "u64"), ("*mut u8", "usize"), ("std::sync::mpsc::Receiver<u8>", "std::sync::Mutex<std::sync::mpsc::Receiver<u8>>"),
                  ("&'a str", "&'static str"), ("Box<dyn Fn() + Send + Sync + 'a>", "Box<dyn Fn() + Send + Sync + 'static>")):
        for func, e in (("World::register", "w.register::<@@>();"), ("World::register_resource", "w.register_resource::<@@>(x);"), ("World::attach_component", "w.attach_component::<@@>(id(), x);"),
                        ("Entity::attach", "w.create_entity().attach::<@@>(x);"), ("Entities::attach", "w.create_entities(1).attach::<@@, Vec<@@>>(vec![x]);")):
            w("P21", func, "%s cannot enter a world" % t.split("<")[0], "pub fn f<'a>(w: &mut World, x: @@) { %s }" % e, t, ok)
    for t in ("Entity<'static>", "Entities<'static>", "ComponentRead<'static, u8>", "ComponentWrite<'static, u8>", "StorageRead<'static, u8>", "StorageWrite<'static, u8>",
              "ResourceRead<'static, u8>", "ResourceWrite<'static, u8>", "Box<dyn QueryIterator<Item = &'static u8>>", "IterRef<'static, u8>", "IterMut<'static, u8>"):
        w("P21", t.split("<")[0], "%s stays on the thread that holds its lock" % t, "pub fn f() { @@::<%s>() }" % t, "is_send", "is_any")
    # ---- internal tables
    w("P22", "sparse_set", "the sparse set is not reachable", "use xecs::@@ as X; pub fn f() {}", "sparse_set::SparseSet", "World")
    w("P22", "entity", "the id table is not reachable", "use xecs::@@ as X; pub fn f() {}", "entity::EntityManager", "Entity")
    for c in ("raw_storage_write(TypeId::of::<A>())", "raw_storage_read(TypeId::of::<A>())", "group(full_owning::<A, B>())", "groups(TypeId::of::<A>())"):
        w("P22", "World::" + c.split("(")[0], "internal locks are not handed out", "pub fn f(w: &World) { any(&w.@@); }", c, "has_registered::<A>()")
    for c in ("entity_manager", "components", "groups", "resources"):
        w("P22", "World", "field %s is private" % c, "pub fn f(w: &World) { any(&w.@@); }", c, "has_registered::<A>()")
    for c in ("push(A(1))", "truncate(0)", "clear()", "remove(0)", "swap_remove(0)", "extend(vec![A(1)])"):
        w("P22", "StorageWrite::data_mut", "the length of a storage is fixed (%s)" % c, "pub fn f(w: &World) { let mut g = w.components_write::<A>().unwrap(); any(&g.data_mut().@@); }", c, "len()")
    for c in ("add(id(), A(1))", "remove(id())", "clear()", "swap_by_index(0, 1)", "swap_by_entity(id(), id())", "entities_mut()", "add_batch(&[id()], vec![A(1)])"):
        for t, m in (("StorageWrite", "write"), ("StorageRead", "read")):
            w("P22", t, "the entries of a storage are fixed (%s)" % c, "pub fn f(w: &World) { let mut g = w.components_%s::<A>().unwrap(); any(&g.@@); }" % m, c, "count()")
    return out


def POSITIVE():
    """(property, function, name, program that has to compile, program that shows the names exist)."""
    p = "pub fn f() { @@::<World>() }"
    return [("P21", "World", "the world is Send", p.replace("@@", "is_send"), p.replace("@@", "is_any")),
            ("P21", "World", "the world is Sync", p.replace("@@", "is_sync"), p.replace("@@", "is_any"))]


def compiles(args):
    text, lib, deps, d, n = args
    src = os.path.join(d, "w%d.rs" % n)
    with open(src, "w") as f:
        f.write(PRE + text + "\n")
    r = subprocess.run(["rustc", "+" + X.TC, "--edition", "2021", "--crate-type", "lib", "--crate-name", "w%d" % n, "--emit", "metadata", "--out-dir", d, "--extern", "xecs=" + lib,
                        *[x for p in deps for x in ("-L", "dependency=" + p)], "-Awarnings", src], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    return r.returncode == 0, r.stderr[-1500:]


def check(prog, rep, props=None):
    lib, deps = X.metadata()
    if lib is None:
        rep.add("*", "analysis", "witness", "analysis", "undecided", "no metadata of the crate")
        return
    d = X.scratch("witness")
    ws = [w for w in W() if props is None or w[0] in props]
    ps = [w for w in POSITIVE() if props is None or w[0] in props]
    jobs, memo = [], {}

    def job(t):
        if t not in memo:
            memo[t] = len(jobs)
            jobs.append((t, lib, deps, d, len(jobs)))
        return memo[t]
    plan = [(w, job(w[3]), job(w[4]), False) for w in ws] + [(w, job(w[3]), job(w[4]), True) for w in ps]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compiles, jobs))
    for (prop, func, name, prog_, twin), a, b, positive in plan:
        ok, err = res[a]
        tok, terr = res[b]
        if not tok:
            rep.add(prop, "witness", func, name, "undecided", "the accepted twin does not compile: " + terr.replace("\n", " ")[:200])
        elif ok == positive:
            rep.ok(prop, "witness", func, name)
        elif positive:
            rep.bad(prop, "witness", func, name, "the compiler refuses: %s -- %s" % (prog_, err.replace("\n", " ")[:300]))
        else:
            rep.bad(prop, "witness", func, name, "the compiler accepts: %s" % prog_)
    subprocess.run(["rm", "-rf", d])
