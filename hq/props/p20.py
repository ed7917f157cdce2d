"""P20: the root attribute imports exactly the listed traits, next to the annotated item, and selects the flavor."""
from ..common import *
from .. import exe

BOUNDS = {
    "quick": "all sequences to length 3 of 14 root attribute arguments (4 spellings of trait lists, 7 of flavors) x 4 carriers; 13 path forms x 9 item kinds x 4 flavors; both trailing-comma forms; at run time, trait methods callable "
             "exactly in the scope of the item",
    "thorough": "as quick with sequences to length 4",
}
TOML = """[default]
method = ".d($nth)"
[fl]
method = ".h1($nth)"
trait_uses = ["crate::p::Tr2", "::std::fmt::Write"]
[fl.sub]
method = ".h2($nth)"
[fl.none]
method = ".h3($nth)"
trait_uses = []
"""
D = Flavor(method=Method(".d($nth)"))
FLV = Flavor(method=Method(".h1($nth)"), trait_uses=("crate::p::Tr2", "::std::fmt::Write"))
FL = {"default": D, "fl": FLV, "fl::sub": FLV.copy(method=Method(".h2($nth)")), "fl::none": FLV.copy(method=Method(".h3($nth)"), trait_uses=()), "empty": EMPTY}
# argument -> (traits, flavor or None)
ARGS = {"trait_use(Tr)": (["Tr"], None), "trait_use(crate::p::Tr, ::std::io::Read)": (["crate::p::Tr", "::std::io::Read"], None), "trait_use()": ([], None), "trait_uses(Tr2)": (["Tr2"], None),
        "trait_uses(crate::p::Tr2, Tr,)": (["crate::p::Tr2", "Tr"], None), "trait_use(r::Tr, r::Tr)": (["r::Tr", "r::Tr"], None), "trait_use(crate::p::Tr2, crate::p::Tr2)": (["crate::p::Tr2"] * 2, None),
        "fl": ([], "fl"), "fl::sub": ([], "fl::sub"), 'flavor = "fl"': ([], "fl"), 'flavor = "fl.sub"': ([], "fl::sub"), 'flavor = "fl::none"': ([], "fl::none"), "empty": ([], "empty"), "default": ([], "default")}
PATHS = ["Tr", "crate::p::Tr", "self::Tr", "super::p::Tr", "r::Tr", "::std::fmt::Write", "std::fmt::Write", "::core::iter::Iterator", "r::r::Tr", "crate::p::r::Tr2", "::std::ops::Add", "std::any::Any", "self::r::Tr"]


def q(N):
    return Q(N.x())


ITEMS = {"fn": lambda N: Fn(blk(stmt(q(N)), tail=call("Err", q(N))), name="f"),
         "pubfn": lambda N: Fn(blk(tail=q(N)), name="f", quals="pub async "),
         "impl": lambda N: Group("impl Q", [Fn(blk(stmt(q(N))), name="m", params="&self")]),
         "implfor": lambda N: Group("impl Tr for Q", [Fn(blk(stmt(q(N))), name="m", params="&self")]),
         "trait": lambda N: Group("pub trait Zz", [Fn(blk(stmt(q(N))), name="m", params="&self"), Fn(None, name="n")]),
         "mod": lambda N: Group("mod inner", [Raw("use crate::p::*;"), Fn(blk(stmt(q(N))), name="m")]),
         "const": lambda N: ItemX("const CC: i32 = ", q(N), ";", label="const"),
         "static": lambda N: ItemX("pub static CC: i32 = ", q(N), ";", label="static"),
         "struct": lambda N: Raw("pub struct Zz { x: i32 }")}


def case(key, args, item="fn"):
    uses, fl = [], "default"
    for u, f in args:
        uses += u
        fl = f or fl

    def b():
        N = Names()
        return [(key.split(" @ ")[0], ITEMS[item](N))]
    return Case(key, b, FL[fl], trait_use=uses, errors_ok=True)


def cases(c):
    for n in range(0, 5 if c.thorough else 4):
        for s in itertools.product(ARGS, repeat=n):
            for item in ("fn", "impl", "trait", "mod") if n < 3 else ("fn",):
                yield case(", ".join(s) + " @ " + item, [ARGS[x] for x in s], item)
    for p in PATHS:
        for item in ITEMS:
            for fl in ("", "fl", "fl::none", "empty"):
                a = f"trait_use({p})"
                yield case((a + (", " + fl if fl else "")) + " @ " + item, [([p], None), ([], fl or None)], item)
                yield case((fl + ", " if fl else "") + f"trait_uses({p},), @ {item}",
                           [([], fl or None), ([p], None)], item)


def runtime(c):
    """the imported trait's method is callable inside the item and only where the item is; hooks may rely on it"""
    prog = """#![allow(warnings)]
mod tr { pub trait A { fn a(self) -> Self; } impl<T, E> A for Result<T, E> { fn a(self) -> Self { println!("a"); self } }
  pub trait B { fn b(&self) -> i32; } impl B for i32 { fn b(&self) -> i32 { *self + 1 } } }
mod one { #[hooq::hooq(trait_use(crate::tr::A, crate::tr::B))] #[hooq::method(.a())] pub fn f() -> Result<i32, ()> { Ok::<i32, ()>(1)?; Ok(4i32.b()) } }
mod two { #[hooq::hooq(trait_uses(super::tr::A))] #[hooq::method(.a())] impl crate::Z { pub fn f(&self) -> Result<i32, ()> { Err::<i32, ()>(()) } }
  trait A {} struct B; }
mod three { pub fn g() -> bool { trait P { fn a(&self) -> bool { true } } impl P for Result<i32, ()> {} Ok::<i32, ()>(1).a() }
  fn inner() { #[hooq::hooq(trait_use(crate::tr::A))] #[hooq::method(.a())] fn f() -> Result<i32, ()> { Ok::<i32, ()>(1)?; Err(()) } println!("{:?}", f()); }
  pub fn h() { inner() } }
pub struct Z;
fn main() { println!("{:?} {:?} {:?}", one::f(), Z.f(), three::g()); three::h(); }
"""
    ok, diag, rc, out, err = exe.build_and_run(c.hooq(), prog, project())
    want = "a\na\nOk(5) Err(()) true\na\na\nErr(())\n"
    c.record("imports at run time", 1, [] if ok and out == want else [Failure("runtime", "imports at run time", prog, "", out + diag[:2000], want)])


def check(c):
    c.expand("root attributes", cases(c), FL, project(TOML))
    runtime(c)
