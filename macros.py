"""Programs that use the type-creation macros (C23).

Each program names the types only through the macros, asserts what they
have to be, runs the entry points on them, and prints what it observed.
The same program with the types written out by hand is the control: if
that one can't be built or fails, the verdict is inconclusive.
"""

import concurrent.futures as cf
import os
import random
import shutil
import subprocess

BODY = r"""
fn same<A: 'static, B: 'static>(what: &str) {
    assert!(std::any::TypeId::of::<A>() == std::any::TypeId::of::<B>(), "{what}: {} instead of {}", std::any::type_name::<A>(), std::any::type_name::<B>());
}
const W: usize = @X@ + 1;
const H: usize = @Y@ + 1;
const N: usize = W * H;
const DIAG: bool = @D@;
type TheS = @S@;
type TheP = @P@;
type S2 = @S2@;
type GridU = @GU@;
type GridS = @GS@;
type GridV = @GV@;
type Bools = @B@;
fn go(p: TheP, d: @LIB@::Dir) -> Option<TheP> { (p + d).ok() }
fn cost(p: TheP, d: @LIB@::Dir) -> Option<(TheP, @LIB@::ucs::Cost)> { go(p, d).map(|p| (p, 2)) }
fn run() {
    use @LIB@::postrait::PosT as _;
    same::<TheP, @LIB@::Pos<@X@, @Y@>>("position type");
    assert_eq!((TheS::XMAX, TheS::YMAX), (@X@, @Y@), "XMAX and YMAX");
    assert_eq!((S2::XMAX, S2::YMAX), (@X@, @Y@), "XMAX and YMAX from a position type");
    // Grids: one cell for each position
    same::<GridU, @LIB@::Grid<u32, @LIB@::Pos<@X@, @Y@>, N>>("grid");
    same::<GridS, @LIB@::Grid<String, @LIB@::Pos<@X@, @Y@>, N>>("grid of strings");
    same::<GridV, @LIB@::Grid<Vec<(u8, Option<char>)>, @LIB@::Pos<@X@, @Y@>, N>>("grid of vectors");
    assert_eq!(std::mem::size_of::<GridU>(), 4 * N, "size of the grid");
    let mut g = Box::new(GridU::repeat(7));
    assert_eq!(g.as_array().len(), N, "cells");
    for (i, p) in <TheP as @LIB@::postrait::PosT>::iter().enumerate() {
        g[p] = i as u32;
    }
    assert!(g.iter().enumerate().all(|(i, v)| i as u32 == *v), "content");
    let s: Box<GridS> = Box::default();
    assert_eq!(s.iter().count(), N);
    drop(Box::<GridV>::default());
    // Boolean grids: a bit for each position
    let mut b = Bools::repeat(false);
    let last = <TheP as @LIB@::postrait::PosT>::iter().last().unwrap();
    assert_eq!(last.tuple(), (@X@u16.try_into().unwrap(), @Y@u16.try_into().unwrap()));
    for p in <TheP as @LIB@::postrait::PosT>::iter() {
        assert!(!b.get(&p), "{p} is set already");
        b.set(&p, true);
        assert!(b.get(&p), "{p} isn't set");
    }
    assert_eq!(b.iter_t().count(), N, "true positions");
    assert!(b == Bools::repeat(true));
    b.set_f(&last);
    assert_eq!(b.iter_f().collect::<Vec<_>>(), vec![last], "false positions");
    let words = std::mem::size_of::<Bools>() / 4;
    assert!(words == (N + 31) / 32 || words == N / 32 + 1, "{words} words");
    // The entry points
    let first = @LIB@::Pos::<@X@, @Y@>::FIRST;
    let far = if DIAG { W.max(H) - 1 } else { W + H - 2 };
    fn cover(layers: Vec<Vec<(TheP, @LIB@::Dir)>>, far: usize, what: &str) {
        assert_eq!(layers.len(), far, "{what}: layers");
        assert_eq!(layers.iter().map(|l| l.len()).sum::<usize>(), N - 1, "{what}: positions");
        assert!(DIAG || layers.iter().flatten().all(|(_, d)| !d.is_diagonal()), "{what}: diagonal direction");
    }
    cover(TheS::bf_iter(go, &first).collect(), far, "bf_iter");
    cover(S2::bf_iter(go, &first).collect(), far, "bf_iter from a position type");
    cover(TheS::bf_iter_hash(go, &first).collect(), far, "bf_iter_hash");
    let arrive = |path: Result<Vec<@LIB@::Dir>, @LIB@::Error>, steps: usize, what: &str| {
        let path = path.unwrap_or_else(|e| panic!("{what}: {e:?}"));
        assert_eq!(path.len(), steps, "{what}: steps");
        assert_eq!(path.iter().fold(first, |p, d| (p + *d).unwrap()), last, "{what}: end");
    };
    arrive(TheS::bfs_path(go, &first, |p| p == last).map(|r| r.1), far, "bfs_path");
    arrive(S2::bfs_path(go, &first, |p| p == last).map(|r| r.1), far, "bfs_path from a position type");
    arrive(TheS::astar_path(go, &first, &last), far, "astar_path");
    arrive(S2::astar_path(go, &first, &last), far, "astar_path from a position type");
    arrive(TheS::ucs_path(cost, &first, &last), far, "ucs_path");
    arrive(S2::ucs_path(cost, &first, &last), far, "ucs_path from a position type");
    println!("observed cells={} positions={} words={}", 3 * N, 3 * (N - 1), words);
}
fn main() { std::thread::Builder::new().stack_size(1 << 29).spawn(run).unwrap().join().unwrap(); }
"""


def expand(x, y, d, kind):
    """The program, and the same with the types written out"""
    lib = "renamed" if kind == "renamed" else "sqrid"
    n = (x + 1) * (y + 1)
    head = "#![allow(dead_code, unused)]\n"
    p = f"{lib}::pos_create!(TheS)"
    s2 = f"{lib}::sqrid_create!(TheP, {str(d).lower()})"
    s = f"{lib}::sqrid_create!({x}, {y}, {str(d).lower()})"
    if kind == "hygiene":
        # Names that the macros might pick up by accident
        head += "struct Sqrid; struct Pos; struct Grid; struct Gridbool; struct PosT; mod other { pub type XMAX = u8; }\n"
        head += "macro_rules! sqrid_create { ($($t:tt)*) => { u8 } } macro_rules! pos_create { ($($t:tt)*) => { u8 } }\n"
        head += "const XMAX: u16 = 1; const YMAX: u16 = 1; const SIZE: usize = 3; const WORDS: usize = 0;\n"
    if kind == "imported":
        head += f"use {lib}::{{sqrid_create, pos_create, grid_create, gridbool_create}};\n"
        p, s, s2 = (t.replace(f"{lib}::", "") for t in (p, s, s2))
    if kind == "expressions":
        head += f"const LIMIT_X: u16 = {x}; const LIMIT_Y: u16 = {y}; mod inner {{ pub const D: bool = {str(d).lower()}; }}\n"
        s = f"{lib}::sqrid_create!(LIMIT_X + 0, LIMIT_Y | 0, {{ inner::D }})"
        s2 = f"{lib}::sqrid_create!(TheP, {{ inner::D && true }})"
    if kind == "nested":
        p = f"{lib}::pos_create!({s})"
    pre = "" if kind == "imported" else f"{lib}::"
    of = {"nested": s, "position": "TheP"}.get(kind, "TheS")
    if kind == "position":
        # The macros also take the position type itself, under a name:
        # written out in sqrid_create it could also be a comparison
        head += f"type Alias = {lib}::Pos<{x}, {y}>;\n"
        p = f"{lib}::pos_create!({lib}::Pos<{x}, {y}>)"
        s = f"{lib}::sqrid_create!(Alias, {str(d).lower()})"
    macros = dict(
        S=s, P=p, S2=s2,
        GU=f"{pre}grid_create!({of}, u32)",
        GS=f"{pre}grid_create!(S2, String)",
        GV=f"{pre}grid_create!({of}, Vec<(u8, Option<char>)>)",
        B=f"{pre}gridbool_create!({of})",
    )
    pos = f"{lib}::Pos<{x}, {y}>"
    sq = f"{lib}::Sqrid<{x}, {y}, {str(d).lower()}, {n // 32 + 1}, {n}>"
    hand = dict(
        S=sq, P=pos, S2=sq,
        GU=f"{lib}::Grid<u32, {pos}, {n}>",
        GS=f"{lib}::Grid<String, {pos}, {n}>",
        GV=f"{lib}::Grid<Vec<(u8, Option<char>)>, {pos}, {n}>",
        B=f"{lib}::Gridbool<{pos}, {(n + 31) // 32}>",
    )
    out = []
    for types in (macros, hand):
        src = head + BODY
        for k, v in dict(types, X=str(x), Y=str(y), D=str(d).lower(), LIB=lib).items():
            src = src.replace(f"@{k}@", v)
        out.append(src)
    return out


KINDS = ["paths", "hygiene", "imported", "expressions", "nested", "renamed", "position"]


def cases(tier, seed):
    rng = random.Random(seed)
    dims = [(0, 0), (1, 0), (0, 1), (2, 1), (1, 3), (3, 3), (30, 0), (31, 0), (32, 0), (0, 30), (0, 31), (0, 32),
            (7, 7), (7, 3), (62, 0), (0, 63), (64, 0), (15, 15), (4, 6), (5, 12), (99, 0), (0, 255), (256, 1), (254, 3), (63, 63), (299, 99)]
    far = [(65535, 0), (0, 65535), (999, 9)]
    if tier == "thorough":
        dims += [(i, 0) for i in range(2, 70)] + [(i, i) for i in range(2, 24)] + [(i, 2 * i + 1) for i in range(1, 20)]
    dims += [(rng.randrange(40), rng.randrange(40)) for _ in range(40 if tier == "thorough" else 10)]
    out = {}
    for i, (x, y) in enumerate(dims):
        for d in (False, True):
            ks = KINDS if (x, y) in ((2, 1), (0, 31), (7, 7)) else [KINDS[0], KINDS[1 + (2 * i + d) % 6]]
            for k in ks:
                out[(x, y, d, k)] = None
    for x, y in far:
        out[(x, y, True, "paths")] = None
        out[(x, y, False, "position")] = None
    return list(out)


def run(lib, flags, target, out, env, prop, tier, seed):
    work = os.path.join(target, "macros")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    env = dict(env, RUSTUP_TOOLCHAIN="stable")

    def build_and_run(name, src, kind):
        path = os.path.join(work, name + ".rs")
        with open(path, "w") as f:
            f.write(src)
        obj = os.path.join(work, name + ".out")
        cmd = ["rustc", "--edition", "2021", "--crate-name", name, "--extern", f"{'renamed' if kind == 'renamed' else 'sqrid'}={lib}"]
        cmd += ["-L", f"dependency={os.path.dirname(lib)}", "-C", "debuginfo=0", "-C", "opt-level=1", "-o", obj, path] + flags
        try:
            r = subprocess.run(cmd, env=env, capture_output=True, text=True, errors="replace", timeout=200)
            if r.returncode != 0:
                if r.returncode < 0 or "internal compiler error" in r.stderr:
                    return None, r.stderr[-500:]
                return False, "it does not compile: " + r.stderr[:1500]
            r = subprocess.run([obj], env=env, capture_output=True, text=True, errors="replace", timeout=200)
            os.unlink(obj)
            if r.returncode != 0:
                return False, "it fails: " + r.stderr[-1500:]
            return True, r.stdout
        except subprocess.TimeoutExpired:
            return None, "timeout"

    def one(job):
        i, (x, y, d, kind) = job
        src, control = expand(x, y, d, kind)
        ok, text = build_and_run(f"m{i}", src, kind)
        if ok is False:
            cok, ctext = build_and_run(f"c{i}", control, kind)
            if cok is not True:
                return (x, y, d, kind), src, None, f"the control fails: {ctext}"
        return (x, y, d, kind), src, ok, text

    violations, problem, samples = [], None, []
    counters = {"programs with macros": 0}
    todo = cases(tier, seed)
    with cf.ThreadPoolExecutor(8) as ex:
        for (x, y, d, kind), src, ok, text in ex.map(one, enumerate(todo)):
            name = f"macros with XMAX {x}, YMAX {y}, diagonals {d}, {kind}"
            if ok is None:
                problem = problem or f"{name}: {text[:1500]}"
            elif ok is False:
                path = os.path.join(out, f"{prop}-macros-{len(violations)}.rs")
                with open(path, "w") as f:
                    f.write(f"// This program must compile and run: {name}\n" + src)
                violations.append({"unit": "macros", "case": name, "what": text, "how": "rustc", "replay": path})
            else:
                counters["programs with macros"] += 1
                counters[f"programs of kind {kind}"] = counters.get(f"programs of kind {kind}", 0) + 1
                for w in text.split()[1:]:
                    k, _, n = w.partition("=")
                    counters[k + " observed"] = counters.get(k + " observed", 0) + int(n)
                if len(samples) < 6 and counters["programs with macros"] % 17 == 1:
                    samples.append(name)
    n = counters["programs with macros"]
    result = {
        "units_finished": len(todo),
        "evaluations": n,
        "distinct_nontrivial": n,
        "rule": "programs that name their types only through the type-creation macros (by path, imported, under another crate name, with clashing names in scope, with expressions as arguments, nested, from a position type), over grid sizes around the word limits; each is built and run: the types must be the ones described, hold every cell, and the entry points must cover the grid with the diagonals asked for; a case is a distinct (size, diagonals, way of invoking the macros)",
        "counters": counters,
        "samples": samples,
        "known": {},
    }
    shutil.rmtree(work, ignore_errors=True)
    return result, violations, problem
