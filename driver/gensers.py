"""Random definitions of custom serializers, with derived `Serializer`."""
import random

STORES = {"Std16": "AlignedVec<16, 16, 8, { amc(16) }>", "Wide64": "AlignedVec<64, 64, 16, { amc(64) }>",
          "Small2": "AlignedVec<32, 16, 2, { 1 << 20 }>", "MonS": "Mon<16, 16, 8, { 1 << 24 }>"}
# Names which may be those which the macro, or the traits, use
NAMES = (
    "storage storage_mut pos_mapping ptrs pos addr value r#type r#fn r#struct r#impl self_ Self_ S B T serializer ser a b c x y pos_mapping_mut pos_map "
    "capacity into_storage borrow borrow_mut _ser_raw ser_raw ser_traits Serializer Storage BorrowedStorage Addr set_pos_mapping get_pos_mapping "
    "_storage _ptrs __ ptr ptr_group current std core map items é data storage2 storage_ ptrs_ pos_mapping_".split()
)
MODES = {"Pure": "pure_copy", "Track": "pos_tracking", "Offset": "ptr_offset", "Complete": "complete"}


class Maker:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.out = []
        self.forms = []

    def attrs(self, p=0.15):
        r = self.r
        out = ""
        while r.random() < p:
            out += r.choice(["#[allow(unused)] ", "/// Documented\n\t", "#[cfg(all())] ", "#[doc(hidden)] ", "#[cfg_attr(all(), allow(dead_code))] "])
        return out

    def struct(self, name, mode, sname):
        r = self.r
        store = STORES[sname]
        params, args, where, fields = [], [], [], []
        phantom = []
        # How storage is held
        how = r.choice(["own", "own", "box", "mut", "mut_a", "lent", "B", "SB", "S", "Sbox"])
        text = r.choice([sname, store])
        bound = {"Pure": "Storage", "Track": "Storage", "Offset": "Storage + RandomAccessStorage", "Complete": "Storage + RandomAccessStorage + ContiguousStorage"}[mode]
        held = r.choice([sname, "Box<%s>" % sname, "&'static mut %s" % sname, "Lent<%s>" % sname])
        if how == "own":
            ty, st = text, r.choice([sname, store])
        elif how == "box":
            ty, st = "Box<%s>" % text, text
        elif how == "lent":
            ty, st = "Lent<%s>" % text, text
        elif how == "mut":
            ty, st = "&'static mut %s" % text, text
        elif how == "mut_a":
            params.append(("l", "'a", "", "'static"))
            ty, st = "&'a mut %s" % text, text
        elif how == "B":
            params.append(("t", "B", "BorrowMut<%s>" % text, held))
            ty, st = "B", text
        elif how == "SB":
            params.append(("t", "S", bound, sname))
            params.append(("t", "B", "BorrowMut<S>", held))
            ty, st = "B", "S"
            phantom.append("S")
        elif how == "S":
            params.append(("t", "S", bound, sname))
            ty, st = "S", "S"
        else:
            params.append(("t", "S", bound, sname))
            ty, st = "Box<S>", "S"
        # Others, which have nothing to do with it
        if r.random() < 0.25:
            params.append(("l", "'x", "", "'static"))
            phantom.append("&'x u8")
        if r.random() < 0.3:
            params.append(("t", "T", r.choice(["Clone", "Default", "Default + 'static", "?Sized", ""]), r.choice(["u16", "String"])))
            phantom.append("Box<T>")
        n_const = r.random() < 0.3
        if n_const:
            params.append(("c", "N", "usize", str(r.choice([0, 1, 3]))))
        names = r.sample(NAMES, len(NAMES))
        # (name, attributes, type, initial value, still intact)
        own = [("#[ser_storage(%s)]" % st, ty, "STORE", None)]
        if mode != "Pure":
            own.append(("#[ser_pos_mapping]", r.choice(["PosMapping", "ser_raw::pos::PosMapping", "::ser_raw::pos::PosMapping"]), "PosMapping::dummy()", None))
        if mode == "Complete":
            own.append(("#[ser_ptrs]", r.choice(["Ptrs", "ser_raw::pos::Ptrs"]), "Ptrs::new()", None))
        other = []
        for _ in range(r.choice([0, 0, 1, 2, 3, 5])):
            other.append(r.choice([
                ("", "u64", "77", "== 77"),
                ("", "String", "String::from(\"kept\")", "== \"kept\""),
                ("", "(u8, Vec<u8>)", "(1, vec![2])", "== (1, vec![2])"),
                ("", "Option<Ptrs>", "None", ".is_none()"),
                ("", "PosMapping", "odd_mapping()", "MAPPING"),
                ("", "PosMapping", "odd_mapping()", "MAPPING"),
                ("", "Ptrs", "Ptrs::new()", None),
                ("", "Wide64", "odd_storage()", "STORAGE"),
                ("", "Box<Wide64>", "Box::new(odd_storage())", "STORAGE"),
            ]))
        if n_const:
            other.append(("", "[u8; N]", "[9; %s]" % params[-1][3], "== [9; %s]" % params[-1][3]))
        if phantom:
            other.append(("", "PhantomData<(%s,)>" % ", ".join(phantom), "PhantomData", None))
        allf = own + other
        r.shuffle(allf)
        defs, inits, checks = [], [], []
        for f, n in zip(allf, names):
            tag = f[0] + " " if f[0] else ""
            a = self.attrs() + tag + self.attrs()
            defs.append("%s%s%s: %s" % (a, r.choice(["", "", "pub ", "pub(crate) "]), n, f[1]))
            inits.append("%s: %s" % (n, f[2] if f[2] != "STORE" else "st"))
            if f[3] == "MAPPING":
                checks.append("same_mapping(&this.%s)" % n)
            elif f[3] == "STORAGE":
                checks.append("same_storage(&this.%s)" % n)
            elif f[3]:
                checks.append("this.%s %s" % (n, f[3]) if f[3].startswith("=") else "this.%s%s" % (n, f[3]))
            if r.random() < 0.05:
                defs.append("#[cfg(any())] gone_%s: NoSuchType" % n.replace("r#", ""))
        r.shuffle(inits)
        # Lifetimes go first, defaults last
        params.sort(key=lambda p: p[0] != "l")
        ps, tail = [], False
        for i, (kind, n, b, arg) in enumerate(params):
            args.append(arg)
            if kind == "c":
                ps.append("const %s: %s" % (n, b))
            elif kind == "l":
                ps.append(n)
            elif b and b != "?Sized" and r.random() < 0.4:
                where.append("%s: %s" % (n, b))
                ps.append(n)
            else:
                ps.append(n + (": " + b if b else ""))
        if params and r.random() < 0.2:
            kind, n, b, arg = params[-1]
            if kind != "l":
                ps[-1] += " = " + arg
        if r.random() < 0.1:
            where.append("u8: Copy")
        gen = "<%s>" % ", ".join(ps) if ps else ""
        wh = " where %s%s" % (", ".join(where), r.choice(["", ","])) if where else ""
        use = name + ("<%s>" % ", ".join(args) if args else "")
        head = ["#[derive(%s)]" % r.choice(["Serializer", "::ser_raw::Serializer", "ser_raw::Serializer"])]
        rest = ["#[ser_type(%s%s)]" % (MODES[mode], r.choice(["", "", ","]))]
        rest += [a for a in [self.attrs(0.4).strip()] if a]
        if r.random() < 0.15:
            rest.append("#[repr(C)]")
        r.shuffle(rest)
        text = "%s\npub struct %s%s%s {\n\t%s%s\n}\n" % ("\n".join(head + rest), name, gen, wh, ",\n\t".join(defs), r.choice([",", ""]))
        if r.random() < 0.2:
            text = "made! {\n%s}\n" % text
        text += "mk!(%s, %s, |st| %s { %s }, |this| %s);\n" % (use, mode, name, ", ".join(inits), " && ".join(checks) or "{ let _ = this; true }")
        self.out.append(text)
        return use

    def form(self, k):
        sname = self.r.choice(["Std16", "Std16", "Wide64", "Small2", "MonS", "MonS"])
        ts = {m: self.struct("%s%d" % (m, k), m, sname) for m in MODES}
        self.out.append("config!(F%d, %s, %s, %s, %s);\nconfig!(F%dT, %s, %s, %s, %s);\n" % (
            k, sname, ts["Pure"], ts["Offset"], ts["Complete"], k, sname, ts["Track"], ts["Offset"], ts["Complete"]))
        self.forms += ["F%d" % k, "F%dT" % k]


def generate(seed, n):
    m = Maker(seed)
    for k in range(n):
        m.form(k)
    return "// Generated from seed %d\nmacro_rules! made { ($($t:tt)*) => { $($t)* }; }\n%s\nmacro_rules! forms { ($m:ident) => { $m!(%s) }; }\n" % (
        seed, "\n".join(m.out), ", ".join(m.forms))


if __name__ == "__main__":
    import sys
    print(generate(int(sys.argv[1]), int(sys.argv[2])))
