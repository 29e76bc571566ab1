"""Programs that must not compile (C11).

Each probe is a program with some parameters; the same program has to be
accepted (and to run) with right parameters, and to be rejected with each
of the wrong ones.  The only judge is rustc's exit status.
"""

import concurrent.futures as cf
import os
import re
import shutil
import subprocess

HEAD = """#![allow(unused, dead_code)]
use sqrid::*;
use sqrid::postrait::PosT;
use std::collections::*;
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Mine(BoundedU8<0, 4>, BoundedU32<0, 2>);
impl PosT for Mine {
    type Xtype = BoundedU8<0, 4>;
    type Ytype = BoundedU32<0, 2>;
    const WIDTH: usize = 5;
    const HEIGHT: usize = 3;
    fn new_(xy: (Self::Xtype, Self::Ytype)) -> Self { Mine(xy.0, xy.1) }
    fn tuple(&self) -> (Self::Xtype, Self::Ytype) { (self.0, self.1) }
}
impl std::ops::Add<Dir> for Mine {
    type Output = Result<Self, Error>;
    fn add(self, d: Dir) -> Self::Output { let (x, y) = ((self.0, self.1) + d)?; Ok(Mine(x, y)) }
}
// More positions than there are 32-bit numbers
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Vast(BoundedU32<0, 65535>, BoundedU32<0, 65536>);
impl PosT for Vast {
    type Xtype = BoundedU32<0, 65535>;
    type Ytype = BoundedU32<0, 65536>;
    const WIDTH: usize = 65536;
    const HEIGHT: usize = 65537;
    fn new_(xy: (Self::Xtype, Self::Ytype)) -> Self { Vast(xy.0, xy.1) }
    fn tuple(&self) -> (Self::Xtype, Self::Ytype) { (self.0, self.1) }
}
impl std::ops::Add<Dir> for Vast {
    type Output = Result<Self, Error>;
    fn add(self, d: Dir) -> Self::Output { let (x, y) = ((self.0, self.1) + d)?; Ok(Vast(x, y)) }
}
fn use_<T>(t: T) { std::hint::black_box(t); }
"""


def size_probes():
    """Storage of the wrong size"""
    grids = {
        "repeat": "use_(Grid::<u8, {P}, {S}>::repeat(1));",
        "default": "use_(Grid::<u8, {P}, {S}>::default());",
        "default of a struct": "#[derive(Default)] struct Has {{ g: Grid<u8, {P}, {S}> }} use_(Has::default().g.as_array().len());",
        "nested vectors": "use_(Grid::<u8, {P}, {S}>::try_from(vec![vec![1u8]]).is_ok());",
        "values": "use_((0..{S}u64).collect::<Grid<u64, {P}, {S}>>());",
        "references": "let v = [7u8; {S}]; use_(v.iter().collect::<Grid<u8, {P}, {S}>>());",
        "map": "use_(<Grid<u8, {P}, {S}> as MapPos<u8, {P}, 1, {S}>>::new(1));",
        "without a copy": "use_(Grid::<String, {P}, {S}>::default());",
        "no size": "use_(Grid::<(), {P}, {S}>::default());",
    }
    # Position type, right size, wrong sizes
    for p, good, bads in [
        ("Pos<3, 2>", 12, [0, 1, 11, 13, 9, 6, 24]),
        ("Pos<0, 0>", 1, [0, 2]),
        ("Pos<0, 6>", 7, [6, 8, 14]),
        ("Pos<255, 0>", 256, [255, 257, 0]),
        ("(u8, u8)", 65536, [65535, 65025, 256]),
        ("Mine", 15, [14, 16, 8, 3, 5]),
    ]:
        for name, body in grids.items():
            # Some of the wrong sizes for each
            for i, bad in enumerate(bads):
                if i < 3 or name in ("repeat", "default"):
                    yield (f"grid of {p}: {name}, {bad} instead of {good}", body, {"P": p, "S": good}, {"P": p, "S": bad})
    bools = {
        "repeat": "use_(Gridbool::<{P}, {W}>::repeat(true));",
        "repeat false": "use_(Gridbool::<{P}, {W}>::repeat(false));",
        "ALL_TRUE": "use_(Gridbool::<{P}, {W}>::ALL_TRUE);",
        "ALL_FALSE": "use_(Gridbool::<{P}, {W}>::ALL_FALSE);",
        "default": "use_(Gridbool::<{P}, {W}>::default());",
        "const": "const G: Gridbool<{P}, {W}> = Gridbool::repeat(true); use_(G);",
        "values": "use_({P_}::iter().map(|_| true).collect::<Gridbool<{P}, {W}>>());",
        "positions": "use_({P_}::iter().take(1).collect::<Gridbool<{P}, {W}>>());",
    }
    for p, goods, bads in [
        ("Pos<3, 2>", [1], [0, 2, 3]),
        ("Pos<0, 0>", [1], [0, 2]),
        ("Pos<31, 0>", [1, 2], [0, 3]),
        ("Pos<32, 0>", [2], [1, 3]),
        ("Pos<7, 7>", [2, 3], [1, 4]),
        ("Pos<0, 64>", [3], [2, 4]),
        ("Mine", [1], [0, 2]),
        ("(u8, u8)", [2048, 2049], [2047, 2050, 1]),
    ]:
        for name, body in bools.items():
            p_ = f"<{p} as PosT>"
            for bad in bads:
                for good in goods[:1] if name != "repeat" else goods:
                    yield (
                        f"boolean grid of {p}: {name}, {bad} words instead of {good}",
                        body,
                        {"P": p, "P_": p_, "W": good},
                        {"P": p, "P_": p_, "W": bad},
                    )
    # Compiled, not executed
    for name, body in {
        "default": "use_(Grid::<(), Vast, {S}>::default());",
        "repeat": "use_(Grid::<(), Vast, {S}>::repeat(()));",
        "values": "use_(Vast::iter().map(|_| ()).collect::<Grid<(), Vast, {S}>>());",
    }.items():
        for bad in (65536, 1 << 32, (1 << 32) + 65535, (1 << 33) + 65536, 0):
            yield (
                f"grid of Vast: {name}, {bad} instead of {(1 << 32) + 65536}",
                "if std::env::args().count() > 99 {{ " + body + " }}",
                {"S": (1 << 32) + 65536},
                {"S": bad},
            )
    searches = {
        "bf_iter": "use_(Sqrid::<3, 2, true, {W}, {S}>::bf_iter(go, &Pos::FIRST).count());",
        "bf_iter_grid": "use_(bf::bf_iter_grid::<_, P, true, {W}, {S}>(go, &P::FIRST).count());",
        "bfs_path": "use_(Sqrid::<3, 2, true, {W}, {S}>::bfs_path(go, &P::FIRST, |p| p == P::LAST).is_ok());",
        "bfs_path_grid": "use_(bf::search_path_grid::<_, _, P, true, {W}, {S}>(go, &P::FIRST, |p| p == P::LAST).is_ok());",
    }
    for name, body in searches.items():
        pre = "type P = Pos<3, 2>; fn go(p: P, d: Dir) -> Option<P> {{ (p + d).ok() }} "
        yield (f"{name} with 2 words", pre + body, {"W": 1, "S": 12}, {"W": 2, "S": 12})
        yield (f"{name} with no words", pre + body, {"W": 1, "S": 12}, {"W": 0, "S": 12})
    searches = {
        "bfs_path": "use_(Sqrid::<3, 2, true, {W}, {S}>::bfs_path(go, &P::FIRST, |p| p == P::LAST).is_ok());",
        "astar_path": "use_(Sqrid::<3, 2, true, {W}, {S}>::astar_path(go, &P::FIRST, &P::LAST).is_ok());",
        "astar_path_grid": "use_(astar::search_path_grid::<_, P, true, {W}, {S}>(go, &P::FIRST, &P::LAST).is_ok());",
        "ucs_path": "use_(Sqrid::<3, 2, true, {W}, {S}>::ucs_path(|p, d| go(p, d).map(|p| (p, 1)), &P::FIRST, &P::LAST).is_ok());",
        "ucs_path_grid": "use_(ucs::search_path_grid::<_, P, true, {W}, {S}>(|p, d| go(p, d).map(|p| (p, 1)), &P::FIRST, &P::LAST).is_ok());",
    }
    for name, body in searches.items():
        pre = "type P = Pos<3, 2>; fn go(p: P, d: Dir) -> Option<P> {{ (p + d).ok() }} "
        for bad in (11, 13, 6):
            yield (f"{name} with size {bad}", pre + body, {"W": 1, "S": 12}, {"W": 1, "S": bad})


def value_probes():
    """Compile-time values outside of their range"""
    for ctx in ["const C: {T} = {E}; use_(C);", "static C: {T} = {E}; use_(&C);", "use_(const {{ {E} }});", "use_([0u8; {{ const C: {T} = {E}; 3 }}]);"]:
        for how in ["new_static::<{X}, {Y}>()", "new_unwrap({X}, {Y})"]:
            for w, h, x, y in [(3, 2, 4, 0), (3, 2, 0, 3), (3, 2, 4, 3), (0, 0, 1, 0), (0, 0, 0, 1), (255, 7, 256, 7), (7, 255, 7, 256), (3, 2, 65535, 65535)]:
                good = {"T": f"Pos<{w}, {h}>", "X": w, "Y": h}
                bad = {"T": f"Pos<{w}, {h}>", "X": x, "Y": y}
                yield (
                    f"{good['T']}::{how.format(X=x, Y=y)} in `{ctx.split('{')[0].strip()}`",
                    ctx.replace("{E}", "<{T}>::" + how),
                    good,
                    bad,
                )
        for how in ["new_static::<{{ {V} }}>()", "new_unwrap({V})"]:
            for ty, lo, hi, bads in [
                ("U8", 3, 9, [2, 10, 255, 0]),
                ("U16", 0, 9, [10, 65535]),
                ("U32", 3, 70000, [2, 70001]),
                ("U64", 1, 1 << 40, [0, (1 << 40) + 1]),
                ("U128", 5, 1 << 100, [4, (1 << 100) + 1]),
                ("I8", -3, 9, [-4, 10, -128]),
                ("I16", -300, -9, [-301, -8, 0]),
                ("I32", -3, 70000, [-4, 70001]),
                ("I64", -(1 << 40), 0, [-(1 << 40) - 1, 1]),
                ("I128", -(1 << 100), 7, [-(1 << 100) - 1, 8]),
            ]:
                t = f"Bounded{ty}<{{ {lo} }}, {{ {hi} }}>"
                for bad in bads:
                    for good in (lo, hi):
                        yield (
                            f"{t}::{how.format(V=bad)} in `{ctx.split('{')[0].strip()}`",
                            ctx.replace("{E}", "<{T}>::" + how),
                            {"T": t, "V": good},
                            {"T": t, "V": bad},
                        )


def safety_probes():
    """Programs that would be unsound"""
    g = "let mut g = Grid::<{E}, Pos<3, 2>, 12>::default(); let p = Pos::<3, 2>::FIRST; "
    yield ("threads share Rc", g + "std::thread::spawn(move || use_(g)).join().ok();", {"E": "std::sync::Arc<u8>"}, {"E": "std::rc::Rc<u8>"})
    yield ("threads share Cell", g + "std::thread::scope(|s| {{ s.spawn(|| use_(&g)); }});", {"E": "std::sync::atomic::AtomicU8"}, {"E": "std::cell::Cell<u8>"})
    for name, keep in {
        "get": "g.get(&p)",
        "get_mut": "g.get_mut(&p)",
        "index": "&g[p]",
        "index_mut": "&mut g[p]",
        "line": "g.line(p.0 .1)",
        "line_mut": "g.line_mut(p.0 .1)",
        "as_array": "g.as_array()",
        "as_array_mut": "g.as_array_mut()",
        "iter": "g.iter()",
        "iter_mut": "g.iter_mut()",
        "iter_pos": "g.iter_pos()",
    }.items():
        body = g + "let r = " + keep + "; {A} use_(r); {B}"
        yield (f"{name} while the grid is flipped", body, {"E": "u8", "A": "", "B": "g.flip_h();"}, {"E": "u8", "A": "g.flip_h();", "B": ""})
        yield (f"{name} while the grid is moved", body, {"E": "u8", "A": "", "B": "use_(g.into_inner());"}, {"E": "String", "A": "use_(g.into_inner());", "B": ""})
        body = "let r; {{ " + g.replace("let p", "let p") + "{A} r = " + keep + "; {B} }} {C}"
        yield (f"{name} outlives the grid", body, {"E": "u8", "A": "", "B": "use_(r);", "C": ""}, {"E": "u8", "A": "", "B": "", "C": "use_(r);"})
    b = "let mut b = Gridbool::<Pos<3, 2>, 1>::ALL_TRUE; let p = Pos::<3, 2>::FIRST; "
    for name, keep in {"iter": "b.iter()", "iter_pos": "b.iter_pos()", "iter_t": "b.iter_t()", "iter_f": "b.iter_f()", "index": "&b[p]", "as_inner": "b.as_inner()", "as_inner_mut": "b.as_inner_mut()"}.items():
        body = b + "let r = " + keep + "; {A} use_(r); {B}"
        yield (f"boolean {name} while the grid is changed", body, {"A": "", "B": "b.set_f(&p);"}, {"A": "b.set_f(&p);", "B": ""})
    yield (
        "elements are moved out twice",
        "let g = Grid::<String, Pos<3, 2>, 12>::default(); let a = g.into_iter(); {A} use_(a);",
        {"A": ""},
        {"A": "use_(g.into_inner());"},
    )
    yield (
        "elements without Copy are duplicated",
        "use_(Grid::<{E}, Pos<3, 2>, 12>::repeat({V}));",
        {"E": "u8", "V": "1"},
        {"E": "String", "V": "String::new()"},
    )
    yield (
        "grids without Copy are copied",
        "let g = Grid::<{E}, Pos<3, 2>, 12>::default(); let h = g; use_((g, h));",
        {"E": "u8"},
        {"E": "Box<u8>"},
    )


def program(body, params):
    # Large grids need a large stack in builds without optimisations
    return (
        HEAD
        + "fn main() { std::thread::Builder::new().stack_size(1 << 28).spawn(run).unwrap().join().unwrap(); }\n"
        + "fn run() { "
        + body.format(**params)
        + " }\n"
    )


def library(libdir):
    deps = os.path.join(libdir, "deps")
    libs = [f for f in os.listdir(deps) if f.startswith("libsqrid-") and f.endswith(".rlib")]
    return max((os.path.join(deps, f) for f in libs), key=os.path.getmtime) if libs else None


def legal_rejected(err):
    """Whether the compiler failed to evaluate a constant of the library"""
    at = re.search(r"error\[E0080\].*?(?=\n\n|\Z)", err, re.S)
    return at and re.search(r"--> \S*(src/sqrid/|src/lib\.rs)", at.group(0)) and at.group(0)[:1200]


def run(libdirs, target, out, env, prop):
    """`libdirs`: builds of the library, with the flags for programs that use
    it; every probe is tried on each"""
    work = os.path.join(target, "probes")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    libs = [(library(d), flags) for d, flags in libdirs]
    if not all(l for l, _ in libs):
        return None, [], "the library was not found"
    env = dict(env, RUSTUP_TOOLCHAIN="stable")
    todo = {}
    for name, body, good, bad in list(value_probes()) + list(safety_probes()) + list(size_probes()):
        for b in range(len(libs)):
            todo.setdefault((program(body, good), True, b), name)
            todo.setdefault((program(body, bad), False, b), name)

    def one(job):
        i, ((src, good, b), name) = job
        lib, flags = libs[b]
        rlib = os.path.dirname(lib)
        path = os.path.join(work, f"p{i}.rs")
        with open(path, "w") as f:
            f.write(src)
        obj = os.path.join(work, f"p{i}.out")
        # A link isn't necessary to reject a program
        cmd = ["rustc", "--edition", "2021", "--crate-name", f"p{i}", "--extern", f"sqrid={lib}", "-L", f"dependency={rlib}"]
        cmd += flags + ["-C", "debuginfo=0", "-o", obj, "--emit=" + ("link" if good and i % 8 == 0 else "obj"), path]
        try:
            r = subprocess.run(cmd, env=env, capture_output=True, text=True, errors="replace", timeout=120)
            rc, err = r.returncode, r.stderr
            if rc == 0 and good and i % 8 == 0:
                x = subprocess.run([obj], env=env, capture_output=True, text=True, errors="replace", timeout=60)
                if x.returncode != 0:
                    return name, src, good, ("run", x.returncode), x.stderr
            for f in (obj,):
                if os.path.exists(f):
                    os.unlink(f)
            return name, src, good, ("compile", rc), err
        except subprocess.TimeoutExpired:
            return name, src, good, ("compile", None), "timeout"

    violations, problem = [], None
    counters = {"valid programs accepted": 0, "invalid programs rejected": 0}
    samples = []
    with cf.ThreadPoolExecutor(8) as ex:
        for name, src, good, (step, rc), err in ex.map(one, enumerate(todo.items())):
            if rc is None or rc < 0 or "internal compiler error" in err:
                problem = problem or f"rustc: {name}: {err[-300:]}"
            elif good and step == "compile" and rc != 0 and legal_rejected(err):
                path = os.path.join(out, f"{prop}-probe-{len(violations)}.rs")
                with open(path, "w") as f:
                    f.write(f"// This program must be accepted: {name}\n" + src)
                violations.append(
                    {"unit": "probe", "case": name, "what": "a legal type is rejected at compile time", "how": "rustc", "replay": path}
                )
            elif good and rc != 0:
                # Without the positive control, a rejection says nothing
                problem = problem or f"the valid program of the probe `{name}` does not {step}: {err[:1500]}"
            elif not good and rc == 0:
                path = os.path.join(out, f"{prop}-probe-{len(violations)}.rs")
                with open(path, "w") as f:
                    f.write(f"// This program must be rejected: {name}\n" + src)
                violations.append(
                    {"unit": "probe", "case": name, "what": "a program that must be rejected at compile time is accepted", "how": "rustc", "replay": path}
                )
            else:
                counters["valid programs accepted" if good else "invalid programs rejected"] += 1
                if not good and len(samples) < 3 and counters["invalid programs rejected"] % 90 == 1:
                    samples.append(f"[probe] {name}: {src[len(HEAD):].strip().split(chr(10))[-1]}")
    n = sum(counters.values())
    result = {
        "units_finished": len(todo),
        "evaluations": n,
        "distinct_nontrivial": n,
        "rule": "programs",
        "counters": counters,
        "samples": samples,
        "known": {},
    }
    shutil.rmtree(work, ignore_errors=True)
    return result, violations, problem
