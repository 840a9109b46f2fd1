"""C18: programs which must not compile, each with a twin which must."""
import glob, json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor

from . import build
from .build import Inconclusive
from .oom import hash_of

PRE = """#![allow(dead_code, unused, deprecated)]
use ser_raw::{*, storage::{*, AlignedVec}, pos::*, ser_traits::*};
use std::borrow::BorrowMut;
"""
I = 2 ** 63 - 1


def amc(a):
    return I - (a - 1)


PROBES = []  # (name, source, must it compile)


def probe(name, ok, src, pre=PRE):
    PROBES.append((name, pre + src, ok))


def pair(name, template, good, bad):
    """Same program, with and without what is invalid"""
    if not isinstance(bad, dict):
        bad = {"": bad}
    probe(name + "/valid", True, template.replace("@@", good))
    for k, b in bad.items():
        probe(name + "/" + (k or "invalid"), False, template.replace("@@", b))


# ---- Storage configuration: invalid ones, via every way of making one ----

ENTRIES = {
    "AlignedVec::new": "fn main() { let s = St::new(); std::hint::black_box(s.pos()); }",
    "AlignedVec::with_capacity": "fn main() { let s = St::with_capacity(std::env::args().count()); std::hint::black_box(s.pos()); }",
    "AlignedVec::with_capacity_unchecked": "fn main() { let s = unsafe { St::with_capacity_unchecked(64) }; std::hint::black_box(s.pos()); }",
}
for _s in ("PureCopySerializer", "PtrOffsetSerializer", "CompleteSerializer"):
    ENTRIES[_s + "::new"] = "fn main() { let s = %s::<SA, MVA, VA, MAX, St>::new(); std::hint::black_box(s.pos()); }" % _s
    ENTRIES[_s + "::with_capacity"] = "fn main() { let s = %s::<SA, MVA, VA, MAX, St>::with_capacity(std::env::args().count()); std::hint::black_box(s.pos()); }" % _s

# Another implementation of `Storage`, which inherits `with_capacity`
CUSTOM = """
struct My(Vec<u8>, usize);
impl Storage for My {
	const STORAGE_ALIGNMENT: usize = SA; const MAX_VALUE_ALIGNMENT: usize = MVA; const VALUE_ALIGNMENT: usize = VA; const MAX_CAPACITY: usize = MAX;
	fn new() -> Self { My(vec![], 0) }
	unsafe fn with_capacity_unchecked(capacity: usize) -> Self { My(Vec::with_capacity(capacity), 0) }
	fn capacity(&self) -> usize { self.0.capacity() }
	fn pos(&self) -> usize { self.1 }
	unsafe fn set_pos(&mut self, p: usize) { self.1 = p }
	unsafe fn push_slice_unchecked<T>(&mut self, s: &[T], size: usize) { self.1 += size }
	fn reserve(&mut self, n: usize) {}
	fn shrink_to_fit(&mut self) {}
}
"""
ENTRIES["Storage::with_capacity (provided)"] = CUSTOM + "fn main() { let s = My::with_capacity(std::env::args().count()); std::hint::black_box(s.pos()); }"

# name: (valid twin, invalid)
CONFIGS = {
    "STORAGE_ALIGNMENT 0": ((1, 1, 1, 64), (0, 1, 1, 64)),
    "STORAGE_ALIGNMENT 0 and others 0": ((1, 1, 1, 64), (0, 0, 0, 64)),
    "STORAGE_ALIGNMENT not a power of 2": ((32, 16, 8, 4800), (24, 8, 8, 4800)),
    "STORAGE_ALIGNMENT 2^63": ((1 << 62, 8, 8, amc(1 << 62)), (1 << 63, 8, 8, 64)),
    "MAX_VALUE_ALIGNMENT 0": ((16, 1, 1, 64), (16, 0, 1, 64)),
    "MAX_VALUE_ALIGNMENT exceeds STORAGE_ALIGNMENT": ((16, 16, 8, 64), (16, 32, 8, 64)),
    "MAX_VALUE_ALIGNMENT not a power of 2": ((32, 16, 8, 4800), (32, 24, 8, 4800)),
    "MAX_VALUE_ALIGNMENT 3": ((32, 4, 1, 4800), (32, 3, 1, 4800)),
    "VALUE_ALIGNMENT 0": ((16, 16, 1, 64), (16, 16, 0, 64)),
    "VALUE_ALIGNMENT exceeds MAX_VALUE_ALIGNMENT": ((16, 8, 8, 64), (16, 8, 16, 64)),
    "VALUE_ALIGNMENT exceeds STORAGE_ALIGNMENT": ((16, 16, 16, 64), (16, 16, 32, 64)),
    "VALUE_ALIGNMENT not a power of 2": ((32, 32, 16, 4800), (32, 32, 24, 4800)),
    "VALUE_ALIGNMENT 6": ((8, 8, 4, 4800), (8, 8, 6, 4800)),
    "MAX_CAPACITY 0": ((16, 16, 8, 16), (16, 16, 8, 0)),
    "MAX_CAPACITY too large": ((16, 16, 8, amc(16)), (16, 16, 8, amc(16) + 16)),
    "MAX_CAPACITY usize::MAX": ((1, 1, 1, I), (1, 1, 1, 2 ** 64 - 1)),
    "MAX_CAPACITY too large by 1": ((1, 1, 1, amc(1)), (1, 1, 1, amc(1) + 1)),
    "MAX_CAPACITY too large for STORAGE_ALIGNMENT": ((64, 8, 8, amc(64)), (64, 8, 8, amc(8))),
    "MAX_CAPACITY too large for STORAGE_ALIGNMENT by 1 step": ((64, 16, 8, amc(64)), (64, 16, 8, amc(64) + 16)),
    "MAX_CAPACITY not a multiple of MAX_VALUE_ALIGNMENT": ((16, 16, 8, 112), (16, 16, 8, 120)),
    "MAX_CAPACITY not a multiple, less than it": ((16, 16, 8, 16), (16, 16, 8, 15)),
    "MAX_CAPACITY odd": ((16, 2, 1, 102), (16, 2, 1, 101)),
}
for _n, (_good, _bad) in CONFIGS.items():
    for _e, _body in ENTRIES.items():
        for _k, _cfg in (("valid", _good), ("invalid", _bad)):
            probe("configuration: %s, via %s/%s" % (_n, _e, _k), _k == "valid",
                  "const SA: usize = %d; const MVA: usize = %d; const VA: usize = %d; const MAX: usize = %d; type St = AlignedVec<SA, MVA, VA, MAX>;\n" % _cfg + _body)

# ---- Alignment of values ----

HIGH = """
#[derive(Clone, Copy, Default, Serialize)] #[repr(align(@@))] struct A(u8);
#[derive(Clone, Copy, Default, Serialize)] #[repr(align(@@))] struct Z;
#[derive(Serialize)] struct HasField { a: u8, b: Option<Box<A>> }
#[derive(Serialize)] struct Plain { a: u8, b: A }
#[derive(Serialize)] enum E { X, Y(Vec<A>) }
struct Hand(Box<A>);
impl<S: Serializer> Serialize<S> for Hand { fn serialize_data(&self, s: &mut S) { s.push(&*self.0, S::Addr::from_ref(&self.0)); } }
struct HandSlice(Box<[A]>);
impl<S: Serializer> Serialize<S> for HandSlice { fn serialize_data(&self, s: &mut S) { s.push_slice(&self.0, S::Addr::from_ref(&self.0)); } }
struct HandProcess(Box<[A]>);
impl<S: Serializer> Serialize<S> for HandProcess { fn serialize_data(&self, s: &mut S) { s.push_and_process_slice(&self.0, S::Addr::from_ref(&self.0), |_| ()); } }
type St = AlignedVec<64, 16, 8, 1024>;
#[derive(Serializer)] #[ser_type(complete)] struct Mine { #[ser_storage(St)] s: St, #[ser_pos_mapping] p: PosMapping, #[ser_ptrs] q: Ptrs }
fn hide<T>(t: T) -> T { std::hint::black_box(t) }
"""
USES = {
    "Storage::push": "let mut s = St::new(); hide(s.push(&A(1)));",
    "Storage::push of zero-size value": "let mut s = St::new(); hide(s.push(&Z));",
    "Storage::push_slice": "let mut s = St::new(); hide(s.push_slice(&[A(1); 3]));",
    "Storage::push_slice, empty": "let mut s = St::new(); hide(s.push_slice::<A>(&[]));",
    "Storage::push_slice of zero-size values": "let mut s = St::new(); hide(s.push_slice(&[Z; 3]));",
    "Storage::push_empty": "let mut s = St::new(); hide(s.push_empty::<A>());",
    "Storage::push_empty of zero-size value": "let mut s = St::new(); hide(s.push_empty::<Z>());",
    "Storage::push_empty_slice": "let mut s = St::new(); hide(s.push_empty_slice::<A>(hide(0)));",
}
for _s, _t in (("pure copy", "PureCopySerializer::<64, 16, 8, 1024, St>::new()"), ("pointer offset", "PtrOffsetSerializer::<64, 16, 8, 1024, St>::new()"),
               ("complete", "CompleteSerializer::<64, 16, 8, 1024, St>::new()"), ("custom", "Mine { s: St::new(), p: PosMapping::dummy(), q: Ptrs::new() }")):
    for _n, _v in (("value", "A(1)"), ("zero-size value", "Z"), ("box", "Box::new(A(1))"), ("box of zero-size value", "Box::new(Z)"), ("vec", "vec![A(1)]"), ("empty vec", "Vec::<A>::new()"),
                   ("vec of zero-size values", "vec![Z]"), ("field", "HasField { a: 1, b: None }"), ("inline field", "Plain { a: 1, b: A(2) }"), ("variant", "E::X"),
                   ("hand-written push", "Hand(Box::new(A(1)))"), ("hand-written push_slice", "HandSlice(Box::new([A(1)]))"),
                   ("hand-written push_and_process_slice", "HandProcess(Box::new([A(1)]))"), ("deep", "vec![Some((1u8, [Box::new(vec![A(1)])]))]")):
        USES["serialize_value of %s, %s serializer" % (_n, _s)] = "let mut s = %s; hide(s.serialize_value(&%s)); hide(s.finalize().pos());" % (_t, _v)
    USES["serialize, %s serializer" % _s] = "let mut s = %s; hide(s.serialize(&A(1)).0);" % _t
    USES["serialize of zero-size value, %s serializer" % _s] = "let mut s = %s; hide(s.serialize(&Z).0);" % _t
    for _m in ("push_raw(&A(1))", "push_raw(&Z)", "push_raw_slice(&[A(1)])", "push_raw_slice::<A>(&[])", "push_empty::<A>()", "push_empty_slice::<A>(1)"):
        USES["%s, %s serializer" % (_m, _s)] = "let mut s = %s; hide(s.%s); hide(s.finalize().pos());" % (_t, _m)
for _n, _u in USES.items():
    pair("alignment: " + _n, HIGH + "fn main() { %s }" % _u, "16", {"invalid": "32"})
# Pointers themselves are values too
for _v in ("Box::new(1u8)", "vec![1u8]", "String::new()", "num_bigint::BigUint::from(1u8)", "1u64", "None::<Box<u8>>"):
    for _s in ("PureCopySerializer", "PtrOffsetSerializer", "CompleteSerializer"):
        pair("alignment: %s in storage for lesser alignment, %s" % (_v, _s),
             "type St = AlignedVec<16, @@, 4, 1024>; fn main() { let mut s = %s::<16, @@, 4, 1024, St>::new(); std::hint::black_box(s.serialize_value(&%s)); }" % (_s, _v), "8", "4")

# ---- Types which cannot be serialized ----

TYPES = {
    "reference": ("Box<u8>", "&'static u8"), "mutable reference": ("Box<u8>", "&'static mut u8"), "str": ("String", "&'static str"), "slice": ("Vec<u8>", "&'static [u8]"),
    "Rc": ("Box<u8>", "std::rc::Rc<u8>"), "Arc": ("Box<u8>", "std::sync::Arc<u8>"), "Cow": ("String", "std::borrow::Cow<'static, str>"),
    "pointer": ("usize", "*const u8"), "mutable pointer": ("usize", "*mut u8"), "NonNull": ("usize", "std::ptr::NonNull<u8>"),
    "function": ("usize", "fn(u8) -> u8"), "trait object": ("Box<u8>", "Box<dyn std::any::Any>"),
    "HashMap": ("Vec<(u8, u8)>", "std::collections::HashMap<u8, u8>"), "BTreeMap": ("Vec<(u8, u8)>", "std::collections::BTreeMap<u8, u8>"),
    "VecDeque": ("Vec<u8>", "std::collections::VecDeque<u8>"), "Rc in a Vec": ("Vec<Box<u8>>", "Vec<std::rc::Rc<u8>>"),
    "reference in a Box": ("Box<Box<u8>>", "Box<&'static u8>"), "reference in an Option": ("Option<u8>", "Option<&'static u8>"),
    "reference in an array": ("[u8; 2]", "[&'static u8; 2]"), "reference in a tuple": ("(u8, u16)", "(u8, &'static u16)"),
    "reference in last of 12": ("(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16)", "(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, &'static u16)"),
    "struct without an implementation": ("With", "Without"), "struct without an implementation, in a Vec": ("Vec<With>", "Vec<Without>"),
    "OsString": ("String", "std::ffi::OsString"), "File": ("u32", "std::fs::File"),
}
for _n, (_good, _bad) in TYPES.items():
    for _s in ("PureCopySerializer", "PtrOffsetSerializer", "CompleteSerializer"):
        pair("type: %s, %s" % (_n, _s), "#[derive(Serialize)] struct With(u8); struct Without(u8);\nfn f(v: &@@) { let mut s = %s::<16, 16, 8, 1024, AlignedVec<16, 16, 8, 1024>>::new(); s.serialize_value(v); } fn main() { f as fn(&_); }" % _s, _good, _bad)
    for _n2, _t in (("named field", "struct X { a: u8, b: @@ }"), ("tuple field", "struct X(@@, u8);"), ("variant", "enum X { A, B(u8, @@), C { x: u8 } }"), ("named variant", "enum X { A, C { y: @@ } }")):
        pair("type: %s, derive %s" % (_n, _n2), "#[derive(Serialize)] struct With(u8); struct Without(u8);\n#[derive(Serialize)] %s fn main() {}" % _t, _good, _bad)

# ---- Derive macros ----

PROXY = """
struct Foreign(u8); struct Proxy; struct NotProxy;
impl<S: Serializer> SerializeWith<Foreign, S> for Proxy { fn serialize_data_with(v: &Foreign, s: &mut S) {} }
"""
pair("derive(Serialize): on union", "#[derive(Clone, Copy, Serialize)] @@ X { a: u8, b: i8 } fn main() {}", "struct", "union")
for _n, (_good, _bads) in {
    "ser_bound": ("#[ser_bound(PosTracking)]", {"twice": "#[ser_bound(PosTracking)] #[ser_bound(PosTracking)]", "missing": "#[ser_bound]", "empty": "#[ser_bound()]", "literal": "#[ser_bound(1)]", "=": "#[ser_bound = \"PosTracking\"]", "unknown": "#[ser_bound(NoSuchTrait)]", "two": "#[ser_bound(PosTracking, Serializer)]"}),
}.items():
    pair("derive(Serialize): " + _n, "#[derive(Serialize)] @@ struct X { a: Box<u8> } fn main() {}", _good, _bads)
    pair("derive(Serialize): %s on enum" % _n, "#[derive(Serialize)] @@ enum X { A(u8), B } fn main() {}", _good, _bads)
WITH = {"twice": "#[ser_with(Proxy)] #[ser_with(Proxy)]", "missing": "#[ser_with]", "empty": "#[ser_with()]", "literal": "#[ser_with(1)]", "=": "#[ser_with = \"Proxy\"]",
        "two": "#[ser_with(Proxy, Proxy)]", "not a proxy": "#[ser_with(NotProxy)]", "unknown": "#[ser_with(NoSuch)]", "none": ""}
for _n, _t in {"named field": "struct X { a: u8, @@ f: Foreign }", "tuple field": "struct X(@@ Foreign, u8);", "variant": "enum X { A, B(u8, @@ Foreign) }", "named variant": "enum X { A { @@ f: Foreign }, B }"}.items():
    pair("derive(Serialize): ser_with on " + _n, PROXY + "#[derive(Serialize)] %s fn main() {}" % _t, "#[ser_with(Proxy)]", WITH)
pair("derive(Serialize): proxy for another type", PROXY + "#[derive(Serialize)] struct X { #[ser_with(Proxy)] f: @@ } fn main() {}", "Foreign", "u8")
for _good in ("CompleteSerializer", "PtrOffsetSerializer"):
    pair("derive(Serialize): ser_bound not satisfied, or by " + _good, "#[derive(Serialize)] #[ser_bound(PosTracking)] struct X(Box<u8>); fn main() { let mut s = @@::<16, 16, 8, 1024, AlignedVec<16, 16, 8, 1024>>::new(); s.serialize_value(&X(Box::new(1))); }",
         _good, {"pure copy": "PureCopySerializer"})

KINDS = {
    "pure_copy": "#[ser_storage(AlignedVec)] s: B",
    "pos_tracking": "#[ser_storage(AlignedVec)] s: B, #[ser_pos_mapping] p: PosMapping",
    "ptr_offset": "#[ser_storage(AlignedVec)] s: B, #[ser_pos_mapping] p: PosMapping",
    "complete": "#[ser_storage(AlignedVec)] s: B, #[ser_pos_mapping] p: PosMapping, #[ser_ptrs] q: Ptrs",
}
for _k, _f in KINDS.items():
    W = "#[derive(Serializer)] %s struct X<B: BorrowMut<AlignedVec>> { %s } fn main() {}"
    t = "#[ser_type(%s)]" % _k
    n = "derive(Serializer), %s: " % _k
    pair(n + "ser_type", W % ("@@", _f), t, {
        "none": "", "twice": t + t, "unknown": "#[ser_type(no_such)]", "bare": "#[ser_type]", "empty": "#[ser_type()]", "string": "#[ser_type(\"%s\")]" % _k, "two": "#[ser_type(%s, %s)]" % (_k, _k),
        "=": "#[ser_type = \"%s\"]" % _k, "path": "#[ser_type(x::%s)]" % _k, "case": "#[ser_type(%s)]" % _k.title()})
    pair(n + "storage", W % (t, "@@" + _f[len("#[ser_storage(AlignedVec)]"):]), "#[ser_storage(AlignedVec)]", {
        "none": "", "twice": "#[ser_storage(AlignedVec)] #[ser_storage(AlignedVec)]", "bare": "#[ser_storage]", "empty": "#[ser_storage()]", "not storage": "#[ser_storage(Vec<u8>)]", "another storage": "#[ser_storage(AlignedVec<32, 16, 8, 1024>)]",
        "=": "#[ser_storage = \"AlignedVec\"]"})
    pair(n + "number of storages", W % (t, _f + ", @@ r: B"), "", "#[ser_storage(AlignedVec)]")
    pair(n + "type of storage", W.replace("<B: BorrowMut<AlignedVec>>", "") % (t, _f.replace("s: B", "s: @@")), "AlignedVec", {"u8": "u8", "shared reference": "&'static AlignedVec", "Vec": "Vec<u8>"})
    pair(n + "on", "#[derive(Serializer)] %s @@ fn main() {}" % t, "struct X<B: BorrowMut<AlignedVec>> { %s }" % _f, {
        "enum": "enum X<B: BorrowMut<AlignedVec>> { A { %s } }" % _f, "tuple struct": "struct X<B: BorrowMut<AlignedVec>>(%s);" % re.sub(r"\b[spq]: ", "", _f), "unit struct": "struct X;", "empty struct": "struct X {}",
        "union": "union X { %s }" % _f.replace("s: B", "s: std::mem::ManuallyDrop<AlignedVec>")})
    if "pos_mapping" in _f:
        pair(n + "position mapping", W % (t, _f.replace("#[ser_pos_mapping]", "@@")), "#[ser_pos_mapping]", {"none": "", "twice": "#[ser_pos_mapping] #[ser_pos_mapping]"})
        pair(n + "type of position mapping", W % (t, _f.replace("PosMapping", "@@")), "PosMapping", {"usize": "usize", "Ptrs": "Ptrs", "boxed": "Box<PosMapping>"})
        pair(n + "number of position mappings", W % (t, _f + ", @@ r: PosMapping"), "", "#[ser_pos_mapping]")
    if "ptrs" in _f:
        pair(n + "pointers", W % (t, _f.replace("#[ser_ptrs]", "@@")), "#[ser_ptrs]", {"none": "", "twice": "#[ser_ptrs] #[ser_ptrs]"})
        pair(n + "type of pointers", W % (t, _f.replace(": Ptrs", ": @@")), "Ptrs", {"usize": "usize", "Vec": "Vec<usize>"})
        pair(n + "number of pointers", W % (t, _f + ", @@ r: Ptrs"), "", "#[ser_ptrs]")
# Storage without random access can be copied to, but not corrected
BARE = "const SA: usize = 16; const MVA: usize = 16; const VA: usize = 8; const MAX: usize = 1024;" + CUSTOM + "@@ fn main() {}"
_ra = """
impl RandomAccessStorage for My {
	unsafe fn write_slice<T>(&mut self, p: usize, s: &[T]) {} unsafe fn read<T>(&self, p: usize) -> &T { loop {} } unsafe fn read_mut<T>(&mut self, p: usize) -> &mut T { loop {} }
	unsafe fn ptr(&self, p: usize) -> *const u8 { loop {} } unsafe fn mut_ptr(&mut self, p: usize) -> *mut u8 { loop {} }
}
"""
_cs = "impl ContiguousStorage for My { fn as_ptr(&self) -> *const u8 { loop {} } fn as_mut_ptr(&mut self) -> *mut u8 { loop {} } }"
for _k, _needs in (("pure_copy", ""), ("pos_tracking", ""), ("ptr_offset", _ra), ("complete", _ra + _cs)):
    _d = "#[derive(Serializer)] #[ser_type(%s)] struct X<B: BorrowMut<My>> { %s }" % (_k, KINDS[_k].replace("AlignedVec", "My"))
    if _needs:
        pair("derive(Serializer), %s: what storage can do" % _k, BARE, _needs + _d, {"neither": _d})
    else:
        probe("derive(Serializer), %s: minimal storage/valid" % _k, True, BARE.replace("@@", _d))

# ---- Borrows ----

pair("borrow: reference read from storage", "fn main() { let mut s: AlignedVec = AlignedVec::new(); s.push(&1u32); let r: &u32 = unsafe { s.read(0) }; @@ std::hint::black_box(r); }", "", {"then pushed to": "s.push(&2u32);", "then dropped": "drop(s);", "then shrunk": "s.shrink_to_fit();"})
pair("borrow: mutable reference read from storage", "fn main() { let mut s: AlignedVec = AlignedVec::new(); s.push(&1u32); let r: &mut u32 = unsafe { s.read_mut(0) }; @@ *r += 1; }", "", {"then read again": "let q: &u32 = unsafe { s.read(0) };", "then dropped": "drop(s);"})
pair("borrow: storage lent to serializer", "fn main() { let mut s: AlignedVec = AlignedVec::new(); let mut ser = CompleteSerializer::<16, 16, 8, { AlignedVec::<16, 16, 8>::MAX_CAPACITY }, _>::from_storage(&mut s); @@ ser.serialize_value(&1u8); ser.finalize(); }", "", {"used meanwhile": "s.push(&1u8);", "dropped meanwhile": "drop(s);"})
pair("borrow: storage of a serializer", "fn main() { let mut ser = CompleteSerializer::<16, 16, 8, 1024, AlignedVec<16, 16, 8, 1024>>::new(); let s = ser.storage(); @@ std::hint::black_box(s.pos()); }", "", {"then serialized to": "ser.serialize_value(&1u8);", "then finalized": "ser.finalize();"})
pair("move: serializer finalized", "fn main() { let mut ser = CompleteSerializer::<16, 16, 8, 1024, AlignedVec<16, 16, 8, 1024>>::new(); @@ ser.serialize_value(&1u8); }", "", "ser.finalize();")
pair("move: serializer used up", "fn main() { let mut ser = CompleteSerializer::<16, 16, 8, 1024, AlignedVec<16, 16, 8, 1024>>::new(); @@ ser.serialize_value(&1u8); }", "", "ser.serialize(&1u8);")


# ---- Running them ----

PROFILES = {"debug": ([], ["-C", "debug-assertions=on"]), "release": (["--release"], ["-C", "opt-level=3"])}


def externs(profile):
    """Build ser_raw. Returns arguments for rustc."""
    env = build.pinned_env()
    tdir = os.path.join(build.TARGET, "probes")
    cmd = ["cargo", "build", "--offline", "-q", "--message-format=json", "--manifest-path", os.path.join(build.VERIF, "probes", "Cargo.toml"), "--target-dir", tdir] + PROFILES[profile][0]
    p = subprocess.run(cmd, env=env, cwd=build.VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    if p.returncode != 0:
        raise Inconclusive("ser_raw does not build (%s):\n%s" % (profile, p.stderr.decode(errors="replace")[-3000:]))
    libs = {}
    for line in p.stdout.decode().splitlines():
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    libs[m["target"]["name"].replace("-", "_")] = f
    deps = os.path.join(tdir, profile, "deps")
    return ["-L", "dependency=" + deps, "--extern", "ser_raw=" + libs["ser_raw"], "--extern", "num_bigint=" + libs["num_bigint"]]


def compile_one(args):
    name, src, profile, ext, path = args
    with open(path, "w") as f:
        f.write(src)
    cmd = [build.PINNED + "/bin/rustc", "--edition", "2021", "--crate-name", "probe", "--crate-type", "bin", "--emit=obj", "-o", path[:-3] + ".o", "--cap-lints", "allow", path] + ext + PROFILES[profile][1]
    try:
        p = subprocess.run(cmd, env=build.pinned_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240)
    except subprocess.TimeoutExpired:
        return None, ""
    for f in glob.glob(path[:-3] + "*.o"):
        os.unlink(f)
    return p.returncode, p.stdout.decode(errors="replace")


def probes(ctx):
    d = ctx.scratch("p", "x").rsplit("/", 1)[0]
    for f in glob.glob(d + "/*"):
        os.unlink(f)
    names = [p[0] for p in PROBES]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1][:3]
    jobs = []
    for profile in PROFILES:
        ext = externs(profile)
        for i, (name, src, ok) in enumerate(PROBES):
            # Whether a valid program compiles does not depend much on profile
            if profile == "release" and ctx.tier == "quick" and ok and not name.startswith(("configuration", "alignment")):
                continue
            jobs.append((name, ok, (name, src, profile, ext, os.path.join(d, "%s_%d.rs" % (profile, i)))))
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(compile_one, [j[2] for j in jobs]))
    first = None
    for (name, ok, (_, src, profile, _, path)), (rc, out) in zip(jobs, results):
        if rc is None or rc < 0 or "internal compiler error" in out or "error: linking" in out or "No space left" in out:
            raise Inconclusive("compiler failed on probe '%s' (%s): %s" % (name, profile, out[-1500:]))
        ctx.evaluations += 1
        ctx.count("accepted" if rc == 0 else "rejected", 1)
        ctx.count("probes_of_" + name.split(":")[0].split(",")[0].replace(" ", "_"), 1)
        codes = sorted(set(re.findall(r"error\[(E\d+)\]", out)))
        if rc != 0:
            for c in codes or ["macro or syntax"]:
                ctx.count("rejected_by_" + c.replace(" ", "_"), 1)
        ctx.sigs.add(hash_of(src))
        if (rc == 0) != ok and first is None:
            first = ("'%s' (%s build) %s" % (name, profile, "must compile, but does not:\n" + out[-2500:] if ok else "compiles, but must not:\n" + src),
                     {"name": "%s-%d" % (profile, names.index(name)), "func": "probes", "probe": name, "profile": profile, "source": src})
    for k in (0, len(PROBES) // 3, len(PROBES) // 2, len(PROBES) - 1):
        ctx.samples.append("%s: %s" % (PROBES[k][0], "compiles" if PROBES[k][2] else "rejected"))
    for f in glob.glob(d + "/*"):
        os.unlink(f)
    if first:
        ctx.violate(*first)
