"""Symbol-name generator: every name comes with the demangled text a correct
demangler must show for it (so no demangler is needed in the oracle)."""

SEG = ["app", "core", "alloc", "fmt", "panicking", "drv", "uart", "spi", "i2c", "dma", "timer",
       "hal", "util", "queue", "heap", "task", "exec", "irq", "buf", "codec", "net", "fs"]
LEAF = ["init", "run", "poll", "read", "write", "flush", "step", "next", "push", "pop", "send",
        "recv", "open", "close", "lock", "tick", "parse", "emit", "hash", "drop_in_place",
        "helper_routine01", "handle_interrupt", "h0123456789abcdef", "f", "h"]
ESC = [("$LT$", "<"), ("$GT$", ">"), ("$RF$", "&"), ("$u20$", " "), ("$C$", ","),
       ("$LP$", "("), ("$RP$", ")"), ("$BP$", "*"), ("$u7b$", "{"), ("$u7d$", "}"), ("$u27$", "'")]
# ordinary functions whose names look special
SPECIAL = ["__rust_alloc", "__rust_alloc_error_handler", "__rg_oom", "rust_begin_unwind", "rust_eh_personality", "llvm_gcov_init", "llvmx", "my.llvm.memcpy.p0",
           "dbg.value", "_llvm.trap", "lifetime.end", "__aeabi_memcpy16", "memcpy_fast", "xmemcpy", "memset_s", "my_memmove", "__aeabi_unwind_cpp_pr0", "__llvm_memcpy_element",
           "bitcast", "asm", "call", "invoke", "define", "declare", "void", "ptr", "label", "OUTLINED", "outlined_function", "_OUTLINED_FUNCTION_", "__cargo", "ret", "tail",
           "metadata", "global", "alias", "undef", "null", "i32", "x.y", "a-b.c", "_", "$", ".", "-a", "_$LT$x", "main", "_start", "Reset", "__", "_R", "_ZN", "_ZN4"]


class Namer:
    def __init__(self, rng):
        self.rng = rng
        self.used = set()
        self.shown = set()
        self.n = 0

    def plain(self, base=None):
        r = self.rng
        while True:
            self.n += 1
            b = base or r.choice(LEAF)
            if not base and r.random() < 0.04:
                # begins like a mapping symbol
                b = r.choice(["$x", "$a", "$t", "$d"]) + b
            if not base and r.random() < 0.04:
                b = r.choice(SPECIAL)
            if not base and r.random() < 0.01:
                b = "".join(r.choice(LEAF) + "_" for _ in range(r.choice([20, 60, 500])))
            s = b + r.choice(["", "_" + str(self.n), str(self.n)])
            if not base and r.random() < 0.03:
                s = s + r.choice([".llvm.x12", ".lifetime.end", ".vector.reduce.add", ".cold", ".isra.0", ".part.1.constprop.0", "$plt", "$hot"])
            d = s
            if not base and ".llvm." not in s and r.random() < 0.02:
                # a local symbol that LLVM made global; demanglers leave the suffix out
                s += r.choice([".llvm.1234567890", ".llvm.7", ".llvm.A0FF"])
            if s not in self.used and d not in self.shown:
                self.used.add(s)
                self.shown.add(d)
                return Name(s, d, None)

    def v0(self):
        """symbol of the new mangling scheme; its demangled name has no trailing hash"""
        r = self.rng
        while True:
            self.n += 1
            d = r.randrange(1 << r.choice([4, 40, 62]))
            n, b62 = d, ""
            while n:
                n, k = divmod(n, 62)
                b62 = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[k] + b62
            # an omitted digit stands for zero, `0` for one
            value = d + 2 if b62 else 1
            if not b62 and d == 0 and r.random() < 0.5:
                b62, value = "0", 2
            ident = lambda s: f"{len(s)}{'_' if s[0].isdigit() or s[0] == '_' else ''}{s}"
            crate = r.choice(SEG)
            sym, dem = f"Cs{b62}_{ident(crate)}", f"{crate}[{value:x}]"
            for m in r.sample(SEG, r.randint(0, 2)):
                sym, dem = f"Nt{sym}{ident(m)}", f"{dem}::{m}"
            leaf = r.choice(LEAF) + str(self.n)
            sym, dem = f"Nv{sym}{ident(leaf)}", f"{dem}::{leaf}"
            if r.random() < 0.2:
                k = r.randrange(3)
                sym, dem = f"NC{sym}{['', 's_', 's0_'][k]}0", f"{dem}::{{closure#{k}}}"
            sym = "_R" + sym
            if sym not in self.used and dem not in self.shown:
                self.used.add(sym)
                self.shown.add(dem)
                return Name(sym, dem, None)

    def nearhash(self):
        """names that end in something like a hash"""
        r = self.rng
        while True:
            self.n += 1
            h = [r.choice("0123456789abcdef") for _ in range(16)]
            k = r.random()
            if k < 0.15:
                s = "::h" + "".join(h)
                sym = dem = s
            else:
                if k < 0.7:
                    for i in r.sample(range(16), r.choice([1, 1, 2, 16])):
                        h[i] = r.choice("ghijxyz_")
                else:
                    h = h[:r.choice([8, 14, 15])] if k < 0.85 else h + [r.choice("0123456789abcdef") for _ in range(r.choice([1, 2, 4]))]
                comps = r.sample(SEG, r.randint(1, 2)) + ["h" + "".join(h)]
                sym, dem = "_ZN" + "".join(f"{len(c)}{c}" for c in comps) + "E", "::".join(comps)
            if sym not in self.used and dem not in self.shown:
                self.used.add(sym)
                self.shown.add(dem)
                return Name(sym, dem, None)

    def rust(self, path=None, hash_=None):
        """legacy-mangled symbol: demangled `a::b::h<hash>`; dehashed `a::b`"""
        r = self.rng
        while True:
            self.n += 1
            if path is None:
                comps = [(c, c) for c in r.sample(SEG, r.randint(1, 3))]
                kind = r.random()
                if kind < 0.2:
                    a, b = r.choice(SEG), r.choice(SEG)
                    if r.random() < 0.6:
                        comps = []
                    comps.append((f"_$LT${a}..T{self.n}$u20$as$u20${b}..Tr$GT$",
                                  f"<{a}::T{self.n} as {b}::Tr>"))
                elif kind < 0.3:
                    comps.append(("_$u7b$$u7b$closure$u7d$$u7d$", "{{closure}}"))
                if r.random() < 0.015:
                    # names of generic functions can be very long
                    ty = [f"{r.choice(SEG)}..{r.choice(SEG).title()}{k}" for k in range(r.choice([12, 40, 300]))]
                    comps.append(("_$LT$" + "$C$".join(ty) + "$GT$", "<" + ",".join(t.replace("..", "::") for t in ty) + ">"))
                leaf = r.choice(LEAF) + str(self.n)
                comps.append((leaf, leaf))
            else:
                comps = path
            h = hash_ or "".join(r.choice("0123456789abcdef") for _ in range(16))
            sym = "_ZN" + "".join(f"{len(m)}{m}" for m, _ in comps) + f"17h{h}E"
            dem = "::".join(d for _, d in comps)
            if sym in self.used or dem in self.shown and path is None:
                continue
            k = r.random()
            if k < 0.03:
                sym += r.choice([".llvm.1234567890123456789", ".llvm.42", ".llvm.0AF"])
            elif k < 0.05 and path is None:
                # parts that LLVM split off
                suf = r.choice([".cold", ".cold.1", ".part.0", ".isra.0.cold", ".specialized.2"])
                self.used.add(sym + suf)
                self.shown.add(f"{dem}::h{h}{suf}")
                return Name(sym + suf, f"{dem}::h{h}{suf}", None)
            self.used.add(sym)
            self.shown.add(dem)
            self.shown.add(dem + "::h" + h)
            return Name(sym, dem + "::h" + h, dem, comps)

    def weird(self, ir=False):
        """ir: restrict to what LLVM prints unescaped in quoted identifiers"""
        r = self.rng
        chars = list(" <>{}[]()|&*,;:=?@!~^+-/#%'`.$") + ([] if ir else list('\\"\\"') + ["é", "→", "\\n", "日"])
        while True:
            self.n += 1
            s = r.choice("abcxyz_<") + "".join(r.choice(chars + list("abc")) for _ in range(r.randint(1, 12) if r.random() < 0.97 else r.choice([100, 300, 1500]))) + str(self.n)
            if s not in self.used and s not in self.shown:
                self.used.add(s)
                self.shown.add(s)
                return Name(s, s, None)

    def any(self):
        k = self.rng.random()
        if k < 0.03:
            return self.v0()
        if k < 0.06:
            return self.nearhash()
        return self.rust() if k < 0.5 else self.plain()


class Name:
    __slots__ = ("sym", "dem", "dehashed", "comps")

    def __init__(self, sym, dem, dehashed, comps=None):
        self.sym, self.dem, self.dehashed, self.comps = sym, dem, dehashed, comps

    def __repr__(self):
        return f"Name({self.sym})"
