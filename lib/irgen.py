"""LLVM-17-flavoured textual IR, as rustc nightly-2023-11-13 prints it."""
import re

INTS = ["i1", "i8", "i16", "i32", "i64", "i128"]
WIDE = ["i24", "i33", "i48", "i65", "i96", "i129", "i256", "i264", "i320", "i512"]
SCALARS = INTS + ["ptr", "ptr", "float", "double"]


def rtype(rng, depth=0):
    x = rng.random()
    if x < 0.03:
        return rng.choice(WIDE)
    if depth > (1 if x < 0.95 else 7) or x < 0.72:
        return rng.choice(SCALARS)
    if x < 0.80:
        n = rng.randint(0, 16) if rng.random() < 0.85 else rng.choice([64, 255, 256, 257, 512, 1024, 4096, 65536, 65537, 1 << 20, 1 << 32])
        return f"[{n} x {rtype(rng, depth + 1)}]"
    if x < 0.90:
        n = rng.randint(0, 3)
        return "{ " + ", ".join(rtype(rng, depth + 1) for _ in range(n)) + " }" if n else "{}"
    if x < 0.94:
        n = rng.randint(1, 3)
        return "<{ " + ", ".join(rtype(rng, depth + 1) for _ in range(n)) + " }>"
    if x < 0.97:
        return f"<{rng.choice([2, 4, 8, 16])} x {rng.choice(INTS[1:5])}>"
    return '%"' + rng.choice(["core::fmt::Formatter<'_>", "app::Foo", "app::Foo.1", "app::Foo.12", "alloc::vec::Vec<u8>"]) + '"'


def rsig(rng, maxargs=4):
    ret = "void" if rng.random() < 0.35 else rtype(rng)
    if rng.random() < 0.06:
        maxargs = rng.choice([16, 16, 70])
    return (ret, tuple(rtype(rng) for _ in range(rng.randint(0, maxargs))))


def typed_pointer(rng):
    """a pointer type as compilers before LLVM 15 print them"""
    return rng.choice(["i8*", "i8*", "{}*", "[0 x i8]*", "i32*", "i64*", '%"app::Foo"*', '%"app::fmt::Void"*', "[3 x i32]*", "{ i32, i8 }*", "<{ [4 x i8] }>*",
                       "i8**", "{}**", "void (i8*)*", "i1 ({}*, i32)*", "void ()*", "i32 ()*", "i8* (i32, i8*)*", "{ i8*, i32 }*"])


def typed(rng, ty):
    return re.sub(r"\bptr\b", lambda m: typed_pointer(rng), ty)


def near(rng, ty):
    """another type, as similar as possible"""
    if ty.endswith("*"):
        k = rng.random()
        if k < 0.3:
            return ty + "*"
        if ty.endswith(")*"):
            return re.sub(r"\((.*)\)\*$", lambda m: "(" + (m[1] + ", " if m[1] else "") + "i32)*", ty) if k < 0.6 else \
                re.sub(r"^\S+ \(", "i64 (", ty) if not ty.startswith("i64 (") else "void ()*"
        if k < 0.5 and ty.endswith("**"):
            return ty[:-1]
        return near(rng, ty[:-1]) + "*"
    if ty[0] == "i" and ty[1:].isdigit() and (ty in WIDE or rng.random() < 0.2):
        n = int(ty[1:])
        return f"i{rng.choice([x for x in (n * 2, n + 1, n + 256, n + 64, n - 1, n - 64, n - 256, n // 2) if x > 0 and x != n])}"
    if ty in SCALARS:
        return rng.choice([x for x in SCALARS if x != ty])
    if ty[0] == "%":
        return rng.choice([ty[:-1] + 's"', ty[:-2] + '"', ty[:-1] + '.3"', ty[:-1] + '.3"', re.sub(r"[.\d]+\"$", "", ty).rstrip('"') + 'X"', '%"core::fmt::Formatter"', "ptr"])
    packed = ty.startswith("<{")
    m = None if packed else re.fullmatch(r"([\[<])(\d+) x (.*)[\]>]", ty)
    if m:
        n, b = int(m[2]), m[1] == "["
        k = rng.random()
        if k < 0.6:
            n = rng.choice([n + 1, abs(n - 1), n * 2 + (not n), n + 256, n + 65536, n + (1 << 32)]) if b else rng.choice([x for x in (2, 4, 8, 16) if x != n])
            return f"[{n} x {m[3]}]" if b else f"<{n} x {m[3]}>"
        if not b:
            return f"<{n} x {rng.choice([x for x in INTS[1:5] if x != m[3]])}>"
        return f"[{n} x {near(rng, m[3])}]"
    inner = split(ty[2:-2] if packed else ty[1:-1])
    old = list(inner)
    k = rng.random()
    if k < 0.2 and inner:
        packed = not packed
    elif k < 0.4 or not inner:
        inner.append(rng.choice(SCALARS))
    elif k < 0.55 and len(inner) > 1:
        inner.pop()
    elif k < 0.65 and inner[::-1] != inner:
        inner.reverse()
    else:
        j = rng.randrange(len(inner))
        inner[j] = near(rng, inner[j])
    body = ", ".join(inner)
    return ("<{ " + body + " }>" if packed else "{ " + body + " }") if inner else "{}"


RET_ATTR = ["noundef", "zeroext", "signext", "nonnull", "align 4", "dereferenceable(8)", "noalias"]
PARAM_ATTR = ["noundef", "nonnull", "readonly", "writeonly", "nocapture", "noalias", "zeroext",
              "signext", "align 1", "align 4", "dereferenceable(16)", "dereferenceable_or_null(4)",
              "immarg", "returned", "swiftself", "sret([8 x i8])", "byval([4 x i32])", "captures"]
PARAM_ATTR = [a for a in PARAM_ATTR if a not in ("captures", "immarg", "swiftself")]
TYPED = False  # the program being generated has typed pointers
DEF_ATTR = ["dso_local", "internal", "hidden", "fastcc", "coldcc", "protected", "weak", "linkonce_odr",
            "local_unnamed_addr", "unnamed_addr"]


def attrs(rng, pool, p=0.5, maxn=3):
    if rng.random() > p:
        return ""
    return " ".join(rng.sample(pool, rng.randint(1, maxn))) + " "


def retattrs(rng):
    return attrs(rng, RET_ATTR, 0.4, 2)


def pointer(ty):
    return ty == "ptr" or ty.endswith("*")


LOCALS = ["%0", "%12", "%_5", "%x.i", "%_3.0.i.i", "%.sroa.0", "%self", "%f.1", "%.", "%_17.0.i.i.i.i.i"]


def split(s):
    """the comma-separated parts of a list of types"""
    out, depth, cur = [], 0, ""
    for c in s:
        depth += c in "{[(<"
        depth -= c in "}])>"
        if c == "," and not depth:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + ([cur.strip()] if cur.strip() else [])


def constant(rng, ty, depth=0):
    """a constant of the type"""
    if rng.random() < 0.15 or depth > 3:
        return rng.choice(["undef", "poison"] + (["zeroinitializer"] if ty[0] in "{[<" else []))
    if ty == "i1":
        return rng.choice(["true", "false"])
    if ty[0] == "i" and ty[1:].isdigit():
        return rng.choice([str(rng.randint(0, 300)), str(-rng.randint(1, 300)), "170141183460469231731687303715884105727" if ty == "i128" else "0",
                           f"ptrtoint (ptr @alloc_9 to {ty})"])
    if ty in ("float", "double"):
        return rng.choice(["0.000000e+00", "-1.500000e+00", "1.000000e-05", "0x7FF8000000000000", "0x3FB99999A0000000", "2.550000e+02"])
    if ty.endswith("*"):
        return rng.choice(["null", "@alloc_0123456789abcdef", f"bitcast (<{{ [11 x i8] }}>* @anon.0.llvm.42 to {ty})", "undef", f"inttoptr (i32 1073741824 to {ty})",
                           f"bitcast (void (i8*)* @f.7 to {ty})", f"bitcast (i8* getelementptr inbounds (<{{ [22 x i8] }}>, <{{ [22 x i8] }}>* @alloc_9, i32 0, i32 0, i32 4) to {ty})",
                           "getelementptr inbounds (<{ [4 x i8] }>, <{ [4 x i8] }>* @alloc_9, i32 0, i32 0)"])
    if ty == "ptr":
        return rng.choice(["null", "@alloc_0123456789abcdef", "@anon.0.llvm.42", "@vtable.3", '@"weird name.7"',
                           "getelementptr inbounds (<{ [4 x i8] }>, ptr @alloc_9, i32 0, i32 0)",
                           "getelementptr (i8, ptr @alloc_9, i32 -4)",
                           "getelementptr inbounds ({ ptr, [8 x i8] }, ptr @vtable.3, i64 0, i32 1, i64 3)",
                           "inttoptr (i32 1073741824 to ptr)", "inttoptr (i64 -1 to ptr)",
                           "inttoptr (i32 add (i32 ptrtoint (ptr @alloc_9 to i32), i32 4) to ptr)"])
    if ty[0] in "{[<":
        packed = ty.startswith("<{")
        inner = ty[2:-2] if packed else ty[1:-1]
        inner = inner.strip()
        m = None if packed or ty[0] == "{" else re.fullmatch(r"(\d+) x (.*)", inner)
        if m and int(m[1]) > 64:
            return rng.choice(["undef", "poison", "zeroinitializer"])
        if m:
            if m[2] == "i8" and ty[0] == "[" and rng.random() < 0.5:
                return 'c"' + "".join(rng.choice(["a", "(", ")", ",", "@", "{", " ", "\\00", "\\22", "\\5C"]) for _ in range(int(m[1]))) + '"'
            elems = [m[2]] * int(m[1])
        else:
            elems = split(inner)
        body = ", ".join(f"{t} {constant(rng, t, depth + 1)}" for t in elems)
        if packed:
            return "<{ " + body + " }>" if body else "<{}>"
        if ty[0] == "{":
            return "{ " + body + " }" if body else "{}"
        return ty[0] + body + {"[": "]", "<": ">"}[ty[0]]
    return rng.choice(["undef", "poison", "zeroinitializer"])


def value(rng, ty, consts=True):
    opts = [rng.choice(LOCALS)] * 3
    if consts and rng.random() < 0.4:
        return constant(rng, ty)
    if consts:
        if ty == "i1":
            opts += ["true", "false"]
        elif ty.startswith("i"):
            opts += [str(rng.randint(0, 300)), str(-rng.randint(1, 300))]
        elif ty == "ptr":
            opts += ["null", "@alloc_0123456789abcdef", "@anon.0.llvm.42", "@vtable.3",
                     "getelementptr inbounds (<{ [4 x i8] }>, ptr @alloc_9, i32 0, i32 0)"]
        opts += ["undef"]
    return rng.choice(opts)


def args(rng, types, consts=True):
    out = []
    for t in types:
        a = attrs(rng, PARAM_ATTR if pointer(t) else ["noundef", "zeroext", "signext"], 0.5, 4 if pointer(t) else 2)
        out.append(f"{t} {a}{value(rng, t, consts)}")
    return ", ".join(out)


def suffix(rng):
    s = ""
    if rng.random() < 0.4:
        s += f" #{rng.randint(0, 40)}"
    if rng.random() < 0.4:
        s += f", !dbg !{rng.randint(1, 9999)}"
    if rng.random() < 0.15:
        s += f", !noalias !{rng.randint(1, 99)}"
    if rng.random() < 0.05:
        s += f", !range !{rng.randint(1, 99)}"
    return s


def quote(name):
    if re.fullmatch(r"[-a-zA-Z$._][-a-zA-Z$._0-9]*", name):
        return name
    return '"' + name + '"'


def call(rng, ret, callee, types, indirect=False, consts=True, form=None):
    """one call statement; callee is a symbol name (direct) or None (indirect)"""
    tail = rng.choice(["", "", "tail "])
    cc = rng.choice(["", "", "", "fastcc ", "coldcc "])
    isvoid = ret == "void"
    ra = "" if isvoid else retattrs(rng)
    tgt = rng.choice(LOCALS) if callee is None else "@" + quote(callee)
    if types[-1:] == ("...",):
        # the callee is variadic: its full type, and any further arguments
        ret = f"{ret} ({', '.join(types)})"
        types = types[:-1] + tuple(rng.choice(["i32", "i64", "double", "i8*" if TYPED else "ptr"]) for _ in range(rng.choice([0, 1, 1, 2, 3])))
        if form in ("fnty", "bitcast"):
            form = None
    if form == "bitcast":
        lhs = "" if isvoid else f"%r{rng.randint(0, 99)} = "
        return (f"  {lhs}{tail}call {cc}{ra}{ret} bitcast ({'i8*' if TYPED else 'ptr'} {tgt} to {ret + ' (' + ', '.join(types) + ')*' if TYPED else 'ptr'})"
                f"({args(rng, types)}){suffix(rng)}")
    if form == "fnty":  # full function type, as for variadic callees
        ft = f"{ret} ({', '.join(types + ('...',))})"
        lhs = "" if isvoid else f"%r{rng.randint(0, 99)} = "
        return f"  {lhs}{tail}call {cc}{ra}{ft} {tgt}({args(rng, types)}){suffix(rng)}"
    if form == "invoke":
        lhs = "" if isvoid else f"%r{rng.randint(0, 99)} = "
        return (f"  {lhs}invoke {cc}{ra}{ret} {tgt}({args(rng, types, consts)}){suffix(rng)}\n"
                f"          to label %bb{rng.randint(1, 9)} unwind label %cleanup")
    lhs = "" if isvoid or rng.random() < 0.1 and form == "drop" else \
        rng.choice([f"%r{rng.randint(0, 99)} = ", f"%_{rng.randint(0, 9)}.i.i = ", f"%{rng.randint(0, 50)} = "])
    return f"  {lhs}{tail}call {cc}{ra}{ret} {tgt}({args(rng, types, consts)}){suffix(rng)}"


NOISE = [
    "  %x = load i32, ptr %p, align 4, !noundef !2",
    "  store i32 %x, ptr %p, align 4",
    "  %y = add nuw nsw i32 %x, 1",
    "  %c = icmp eq i32 %x, 0",
    "  br i1 %c, label %bb1, label %bb2, !prof !3",
    "  %g = getelementptr inbounds i8, ptr %p, i32 4",
    "  %z = select i1 %c, i32 %x, i32 0",
    "  %f = phi i32 [ %x, %start ], [ %y, %bb1 ]",
    "  %a = alloca [16 x i8], align 4",
    "  switch i32 %x, label %bb3 [\n    i32 0, label %bb1\n    i32 1, label %bb2\n  ]",
    "  %e = extractvalue { i32, i1 } %v, 0",
    "  fence seq_cst",
    "  %t = trunc i64 %w to i32",
    "  %u = zext i1 %c to i8",
    "  %at = atomicrmw add ptr %p, i32 1 monotonic, align 4",
    "  %fa = fadd double %d, 1.000000e+00",
    "  %s = insertvalue { ptr, i32 } poison, ptr %p, 0",
]
LABELS = ["start:", "bb1:                                              ; preds = %start",
          "bb2.i.i:                                          ; preds = %bb1, %start", "\"_ZN3foo.exit\":",
          "12:                                               ; preds = %3",
          "1234:                                             ; preds = %3, %999", "70001:"]


def asm(rng, text):
    ret = rng.choice(["void", "void", "void", "i32", "i32", "i64", "{ i32, i32 }", "{ i32, i32, i64 }", "ptr", "i1"])
    if TYPED:
        ret = ret.replace("ptr", "i8*")
    flags = [x for x in ("sideeffect", "alignstack", "inteldialect", "unwind") if rng.random() < (0.7 if x == "sideeffect" else 0.2)]
    outs = {"void": 0, "{ i32, i32 }": 2, "{ i32, i32, i64 }": 3}.get(ret, 1)
    ins = rng.choice([[], [], ["i32"], ["i32", "i32"]])
    cons = ["=r", "=&r", "={r0}"][:outs] + ["r"] * len(ins) + rng.choice([[], ["~{cc}", "~{memory}"], ["~{memory}"], ["~{dirflag}", "~{fpsr}", "~{flags}", "~{memory}"]])
    args = ", ".join(rng.choice(["i32 %x", "i32 7", "i32 noundef %_5"]) for _ in ins)
    lhs = "" if ret == "void" else f"%{rng.choice(['0', '123', '_4.i', 'r'])} = "
    return (f'  {lhs}{rng.choice(["", "tail "])}call {ret} asm {"".join(x + " " for x in flags)}"{text}", "{",".join(cons)}"({args})'
            + rng.choice(["", " #9", " #9, !srcloc !77", ", !srcloc !77", " #1, !dbg !12, !srcloc !77"]))


def noise(rng, n=None):
    k = rng.randint(0, 3) if n is None else n
    return [rng.choice(NOISE) for _ in range(k)]


def define(rng, name, ret, params, body, attr_group=True, comments=True):
    ra = "" if ret == "void" else retattrs(rng)
    ps = []
    for i, t in enumerate(params):
        if t == "...":
            ps.append(t)
            continue
        a = attrs(rng, PARAM_ATTR if pointer(t) else ["noundef", "zeroext", "signext"], 0.5, 3 if pointer(t) else 1)
        ps.append(f"{t} {a}%{rng.choice(['', 'a', '_x.', 'self.'])}{i}")
    out = []
    if comments and rng.random() < 0.5:
        out.append(f"; {name}")
        if rng.random() < 0.5:
            out.append("; Function Attrs: nounwind")
    da = attrs(rng, DEF_ATTR[:8], 0.6, 2)
    ua = rng.choice(["", " unnamed_addr", " local_unnamed_addr"])
    tail = ua + (f" #{rng.randint(0, 20)}" if rng.random() < 0.6 else "")
    if rng.random() < 0.2:
        tail += f' section ".text.{rng.randint(0, 99)}"'
    if rng.random() < 0.5:
        tail += f" !dbg !{rng.randint(1, 9999)}"
    out.append(f"define {da}{ra}{ret} @{quote(name)}({', '.join(ps)}){tail} {{")
    if rng.random() < 0.8:
        out.append(rng.choice(LABELS[:1] + LABELS[3:4]))
    lines = list(body)
    for l in lines:
        out.append(l)
        if rng.random() < 0.12:
            out.append("")
            out.append(rng.choice(LABELS))
    out.append(rng.choice(["  ret void", "  unreachable", f"  ret i32 %x"]))
    out.append("}")
    return "\n".join(out)


def declare(rng, name, ret, params, variadic=False):
    ra = "" if ret == "void" else retattrs(rng)
    ps = []
    for t in params:
        if t == "...":
            ps.append(t)
            continue
        a = attrs(rng, PARAM_ATTR if pointer(t) else ["noundef", "zeroext"], 0.4, 2 if pointer(t) else 1).strip()
        ps.append(f"{t} {a}" if a else t)
    if variadic:
        ps.append("...")
    tail = rng.choice(["", " unnamed_addr", " local_unnamed_addr"]) + (f" #{rng.randint(0, 9)}" if rng.random() < 0.5 else "")
    return f"declare {rng.choice(['', 'dso_local ', 'fastcc '])}{ra}{ret} @{quote(name)}({', '.join(ps)}){tail}"


def module(rng, items, rich=True):
    head = ["; ModuleID = 'app.7rcbfp3g-cgu.0'", 'source_filename = "app.7rcbfp3g-cgu.0"',
            'target datalayout = "e-m:e-p:32:32-Fi8-i64:64-v128:64:128-a:0:32-n32-S64"',
            'target triple = "thumbv7m-none-unknown-eabi"', ""]
    if rich:
        head += ['%"core::fmt::Formatter<\'_>" = type { i32, ptr, [2 x i32] }',
                 '%Alias.1 = type opaque', "",
                 '@alloc_0123456789abcdef = private unnamed_addr constant <{ [7 x i8] }> <{ [7 x i8] c"call v\\0A" }>, align 1',
                 '@vtable.3 = private unnamed_addr constant <{ ptr, [8 x i8], ptr }> <{ ptr null, [8 x i8] zeroinitializer, ptr null }>, align 4, !dbg !7',
                 '@anon.0.llvm.42 = internal global i32 0, align 4',
                 '@__sbss = external global i32', ""]
    tail = ["", 'attributes #0 = { nofree norecurse nounwind memory(argmem: readwrite) "target-cpu"="generic" }', "",
            '!llvm.module.flags = !{!0, !1}', '!0 = !{i32 8, !"PIC Level", i32 2}',
            '!1 = !DILocation(line: 3, column: 5, scope: !0)', ""]
    return "\n".join(head) + "\n" + "\n\n".join(items) + "\n" + "\n".join(tail)
