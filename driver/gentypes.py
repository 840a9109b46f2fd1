"""Random definitions of types, with derived `Serialize`."""
import random

PRIMS = "u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64 bool char () NonZeroU8 NonZeroU64 NonZeroI16".split()
# Names which may collide with what macros generate, with each other, or be read wrongly
FIELDS = (
    "a b c d x y z self_ serializer ser value val val_0 val_1 val_a val_x val_val_x val__x _val __val _0 _1 __0 field index tag len ptr capacity "
    "storage pos addr __s __S S T Self_ A_B r#type r#fn r#match r#struct r#enum r#impl r#ref r#where r#dyn r#async r#await r#yield r#try r#box "
    "serialize_data serialize_data_with data Some_ None_ Ok_ std core ser_raw Serialize Serializer SerializeWith Vec_ a1 a10 a2 zz aa Aa aA "
    "é ñame 数 αβ".split()
)
VARIANTS = (
    "A B C D E X Y Z Some None Ok Err Self_ Vec Box String S T __S Serialize Serializer SerializeWith Data r#Type r#type r#fn r#match V0 V1 V10 V2 "
    "val_0 val_a serializer a b Zz zZ É Option Default _Under __Under std".split()
)
# Types which own something (`srv::zoo::odd`)
ODD = "f32 i16 char i64 f64 i32 i8 NonZeroU8 NonZeroU64".split()
REPRS = {"u8": 256, "i8": 128, "u16": 65536, "i16": 32768, "u32": 1 << 32, "i64": 1 << 63, "usize": 1 << 63, "isize": 1 << 62}


class Maker:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.out = []
        # Types which may be used as fields: (text, number of fields within)
        self.made = []
        self.uses = []

    def prim(self):
        return self.r.choice(PRIMS)

    def ty(self, me, depth=0):
        r = self.r
        k = r.random()
        if depth > 3 or k < 0.22:
            return self.prim()
        inner = lambda: self.ty(me, depth + 1)
        if k < 0.30:
            return "String"
        if k < 0.46:
            return "Vec<%s>" % inner()
        if k < 0.60:
            return "Box<%s>" % inner()
        if k < 0.68:
            return "Option<%s>" % inner()
        if k < 0.72:
            return "[%s; %d]" % (inner(), r.choice([0, 1, 2, 3, 5]))
        if k < 0.78:
            n = r.randint(1, 5)
            return "(%s,)" % ", ".join(inner() for _ in range(n))
        if k < 0.82:
            return r.choice(["BigUint", "BigInt", "std::string::String", "::std::boxed::Box<u16>", "(u8)", "std::vec::Vec<Box<u8>>"])
        if k < 0.86:
            return r.choice(["Option<Box<%s>>", "Vec<%s>"]) % me
        small = [t for t, n in self.made if n < 60]
        return r.choice(small) if small else self.prim()

    def attrs(self):
        r = self.r
        out = ""
        while r.random() < 0.12:
            out += r.choice(["#[allow(unused)] ", "/// Documented\n\t", "#[cfg(all())] ", "#[doc(hidden)] ", "#[cfg_attr(all(), allow(unused))] ", "#[rustfmt::skip] "])
        return out

    def vis(self):
        return self.r.choice(["", "", "pub ", "pub(crate) ", "pub(self) "])

    def field(self, me, named, enum, extra=None):
        """Attributes and type"""
        r = self.r
        k = r.random()
        a = self.attrs()
        if extra:
            t = extra
        elif k < 0.03:
            a += r.choice(["#[ser_with(SkipProxy)] ", "#[ser_with(srv::zoo::SkipProxy)] ", "#[ser_with(::srv::zoo::SkipProxy)] "])
            t = "Skipped"
        elif k < 0.06:
            a += r.choice(["#[ser_with(FatProxy)] ", "#[ser_with(GenericProxy<Fat, 3>)] ", "#[ser_with(srv::zoo::GenericProxy::<Fat, { 2 + 2 }>)] "])
            t = "Fat"
        else:
            t = self.ty(me)
        return a, ("" if enum else self.vis()), t

    def count(self):
        r = self.r
        return r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, r.randint(7, 14), r.randint(10, 40)])

    def fields(self, me, enum, n=None, first=None):
        """(definition, number of fields)"""
        r = self.r
        n = self.count() if n is None else n
        if n == 0 and not first and r.random() < 0.6:
            return "", 0, False
        named = r.random() < 0.6
        names = r.sample(FIELDS, min(n, len(FIELDS)))
        defs = []
        for i in range(n):
            a, v, t = self.field(me, named, enum, first if i == 0 else None)
            if named:
                defs.append("%s%s%s: %s" % (a, v, names[i % len(names)], t))
            else:
                defs.append("%s%s%s" % (a, v, t))
            # Not there at all
            if r.random() < 0.02:
                defs.append("#[cfg(any())] %s%s" % ("nothing_%d: " % i if named else "", "NoSuchType"))
        comma = "," if defs and r.random() < 0.5 else ""
        sep = ", " if r.random() < 0.5 else ",\n\t\t"
        body = sep.join(defs) + comma
        return (" { %s }" if named else "(%s)") % body, n, not named

    def make(self, k):
        r = self.r
        name = "G%d" % k
        bare = r.random() < 0.12
        generics, where, use, first = "", "", name, None
        if bare:
            generics = r.choice(["<const N: usize>", "<const N: usize = 2>", "<const N: usize, const M: u8>"])
            where = r.choice(["", " where [u8; N]: Sized", " where [u8; N]: Sized, u8: Copy,"])
            use = name + ("<%d, %d>" % (r.choice([0, 1, 2, 3]), 7) if "M" in generics else "<%d>" % r.choice([0, 1, 2, 3]))
            me = name + ("<N, M>" if "M" in generics else "<N>")
            first = r.choice(["[Vec<u8>; N]", "Vec<[u16; N]>", "Box<[Box<u8>; N]>", "([String; N], u8)"])
        else:
            me = r.choice([name, "Self"])
        bounds, marked = "", False
        if r.random() < 0.06:
            bounds, marked = "#[ser_bound(Marker)]\n", True
            first = first or "Marked"
        attrs = bounds + "".join(self.attrs() for _ in range(2)).replace("#[rustfmt::skip] ", "")
        total = 0
        if r.random() < 0.5 or bare:
            body, total, tuple_ = self.fields(me, False, first=first, n=max(1, self.count()) if first else None)
            kind = r.random()
            if kind < 0.15:
                attrs += "#[repr(C)] "
            elif kind < 0.22:
                attrs += "#[repr(align(%d))] " % r.choice([1, 2, 4, 8])
            elif kind < 0.28 and total == 1:
                attrs += "#[repr(transparent)] "
            if body.startswith("(") or not body:
                text = "pub struct %s%s%s%s;" % (name, generics, body, where)
            else:
                text = "pub struct %s%s%s%s" % (name, generics, where, body)
        else:
            nv = r.choice([1, 1, 2, 2, 3, 4, 5, 6, r.randint(7, 20), r.randint(20, 40)])
            names = r.sample(VARIANTS, nv) if nv <= len(VARIANTS) else VARIANTS + ["W%d" % i for i in range(nv - len(VARIANTS))]
            # `r#type` and `type` are the same name, as are those which differ by case for nobody but readers
            repr_ = r.choice([None, None, None, "C", "C, u8", "C, i16"] + list(REPRS))
            values = None
            if repr_ in REPRS and r.random() < 0.6:
                lo = -min(REPRS[repr_], 1 << 40) if repr_[0] == "i" else 0
                hi = min(REPRS[repr_] - 1, 1 << 40)
                values = r.sample(range(lo, hi), nv) if hi - lo > nv else None
            vs = []
            sizes = r.choice([None, "few", "units"])
            for i in range(nv):
                n = self.count() if sizes is None or i == 0 else r.choice([0, 0, 1, 2]) if sizes == "units" else r.choice([0, 1, 1, 2, 3])
                body, n, _ = self.fields(me, True, max(n, 1) if i == 0 and first else n, first=first if i == 0 else None)
                total += n
                # Not every variant has to have a value: the rest count on from the last
                vs.append(self.attrs() + names[i] + body + (" = %d" % values[i] if values and r.random() < 1.1 else ""))
                if r.random() < 0.02:
                    vs.append("#[cfg(any())] Nothing%d(NoSuchType)" % i)
            if repr_ and "," in repr_ and not total:
                # Conflicting for enums without fields
                repr_ = "C"
            if repr_:
                attrs += "#[repr(%s)] " % repr_
            text = "pub enum %s%s%s {\n\t%s%s\n}" % (name, generics, where, ",\n\t".join(vs), r.choice([",", ""]))
        also = ""
        if not bare and r.random() < 0.15:
            # Methods of its own, which aren't those to call
            also = "\nimpl %s {\n\t%s\n}" % (name, "\n\t".join(
                "pub fn %s<S>(&self, _: &mut S) { panic!(\"inherent method called\") }" % n for n in r.sample(["serialize_data", "serialize_data_with", "serialize"], r.randint(1, 3))))
        derive = "#[derive(Serialize, Probe)]"
        how = r.random()
        if how < 0.5:
            text = "%s\n%s%s%s" % (derive, attrs, text, also)
        elif how < 0.8:
            text = "ty! {\n%s%s\n}%s" % (attrs, text, also)
        else:
            # In a module of its own, where names may stand for other types
            odd = "".join("use srv::zoo::odd::%s;\n" % n for n in r.sample(ODD, r.choice([0, 1, 2, 4])))
            text = "pub use m%d::*;\npub mod m%d { use super::*;\n%s%s\n%s%s%s\n}" % (k, k, odd, r.choice([derive, "#[derive(Probe)] #[derive(::ser_raw::Serialize)]"]), attrs, text, also)
        self.out.append(text)
        if not marked:
            self.made.append((use, total))
        self.uses.append(use)
        if r.random() < 0.4:
            self.uses.append(r.choice(["Vec<%s>", "Box<%s>", "Option<%s>", "[%s; 2]", "(u8, %s)"]) % use)


def generate(seed, n):
    m = Maker(seed)
    for k in range(n):
        m.make(k)
    return (
        "// Generated from seed %d\nmacro_rules! ty { ($i:item) => { #[derive(Serialize, Probe)] $i }; }\n" % seed
        + "\n".join(m.out)
        + "\n\n#[inline(never)]\nfn table() -> Vec<(&'static str, Runner)> {\n\tlet mut v: Vec<(&'static str, Runner)> = vec![];\n\tsrv::runners!(v, Std, %s);\n\tv\n}\n" % ", ".join(m.uses)
    )


if __name__ == "__main__":
    import sys
    print(generate(int(sys.argv[1]), int(sys.argv[2])))
