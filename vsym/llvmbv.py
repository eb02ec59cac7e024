"""Symbolic execution of LLVM IR (clang, unoptimised, inlined) over machine integers as bit-vectors."""
import os, re, subprocess, tempfile, shutil
import z3

class Unsupported(Exception): pass

def compile_ir(source, include, names):
    """IR text of the wrapper functions with everything they call inlined where possible, or None"""
    d = tempfile.mkdtemp(prefix="vir.")
    try:
        c, l, o = (os.path.join(d, x) for x in ("w.cpp", "w.ll", "o.ll"))
        open(c, "w").write(source)
        r = subprocess.run(["clang++-18", "-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-w", "-S", "-emit-llvm", "-I/usr/include/eigen3", "-I" + include, c, "-o", l], capture_output=True, text=True)
        if r.returncode: return None, r.stderr
        r = subprocess.run(["opt-18", "-S", "-passes=internalize,globaldce,inline,sroa,mem2reg,globaldce", "--internalize-public-api-list=" + ",".join(names), l, "-o", o], capture_output=True, text=True)
        if r.returncode: return None, r.stderr
        return open(o).read(), ""
    finally: shutil.rmtree(d, ignore_errors=True)

def parse(ir):
    """functions: name -> (parameters, {block: [instructions]}, entry)"""
    fs = {}
    for m in re.finditer(r"^define [^@\n]*@(\"[^\"]+\"|[\w.$]+)\((.*?)\)[^\n{]*\{\n(.*?)^\}", ir, re.S | re.M):
        name, params, body = m[1].strip('"'), m[2], m[3]
        ps = []
        for p in split(params):
            if not p or p == "...": continue
            ps.append((p.split()[0], p.split()[-1]))
        blocks, cur = {}, "0entry"
        entry = cur; blocks[cur] = []
        for line in body.split("\n"):
            line = line.split("; preds")[0].rstrip()
            if not line.strip() or line.strip().startswith(";"): continue
            b = re.match(r"^(\"[^\"]+\"|[\w.$-]+):\s*(;.*)?$", line)
            if b:
                cur = b[1].strip('"')
                if entry == "0entry" and not blocks["0entry"]: entry = cur
                blocks[cur] = []
                continue
            blocks[cur].append(re.sub(r", ![\w.]+ !\d+|, !\w+ !\d+", "", line.strip()))
        fs[name] = (ps, blocks, entry)
    return fs

def split(s):
    """split at commas outside brackets"""
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "([{<": depth += 1
        elif ch in ")]}>": depth -= 1
        if ch == "," and depth == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def width(t):
    m = re.fullmatch(r"i(\d+)", t)
    if not m: raise Unsupported("type " + t)
    return int(m[1])

class Path(Exception): pass

class Exec:
    """all paths of one function; every result is (path condition, obligations, value)"""
    def __init__(self, fs, check, max_steps=4000, max_paths=600):
        self.fs, self.check, self.max_steps, self.max_paths = fs, check, max_steps, max_paths
        self.visited = set()

    def run(self, name, args, pre):
        """yields (condition, [(what, formula that must hold, condition at that point)], value)"""
        stack = [[]]; n = 0
        while stack:
            self.prefix = stack.pop(); self.dec = []; self.pending = []; self.steps = 0
            self.pc = list(pre); self.obl = []; self.nobj = 0; self.mem = {}
            n += 1
            if n > self.max_paths: raise Unsupported("too many paths")
            try: v = self.call(name, args, 0)
            except Path: stack.extend(self.pending); continue
            stack.extend(self.pending)
            yield list(self.pc), list(self.obl), v

    def decide(self, c):
        """the truth of a condition on this path"""
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = len(self.dec)
        if i < len(self.prefix): t = self.prefix[i]
        else:
            can_t, can_f = self.check(self.pc + [c]) != z3.unsat, self.check(self.pc + [z3.Not(c)]) != z3.unsat
            if not can_t and not can_f: raise Path()
            t = can_t
            if can_t and can_f: self.pending.append(self.dec + [False])
        self.dec.append(t); self.pc.append(c if t else z3.Not(c))
        return t

    def must(self, what, f): self.obl.append((what, f, list(self.pc)))

    def val(self, env, t, x):
        if x.startswith("%"): return env[x]
        if t == "ptr":
            if x == "null": return (None, 0)
            raise Unsupported("global " + x)
        w = width(t)
        if x in ("true", "false"): return z3.BitVecVal(1 if x == "true" else 0, 1)
        if x in ("undef", "poison"): raise Unsupported(x)
        return z3.BitVecVal(int(x), w)

    def call(self, name, args, depth):
        if name not in self.fs: raise Unsupported("call of " + name)
        if depth > 20: raise Unsupported("recursion")
        self.visited.add(name)
        ps, blocks, cur = self.fs[name]
        env = {p: a for (_, p), a in zip(ps, args)}
        prev = None
        while True:
            ins = blocks[cur]
            # phis take their values together
            k, new = 0, {}
            while k < len(ins) and " = phi " in ins[k]:
                m = re.match(r"(%\S+) = phi (\S+) (.*)", ins[k])
                for a, b in re.findall(r"\[ (\S+), %(\"[^\"]+\"|\S+) \]", m[3]):
                    if b.strip('"') == prev or (prev == "0entry" and not re.search(r"^%s$" % re.escape(b), "") and b.isdigit() and b not in blocks): new[m[1]] = self.val(env, m[2], a)
                if m[1] not in new: raise Unsupported("phi")
                k += 1
            env.update(new)
            nxt = None
            for line in ins[k:]:
                self.steps += 1
                if self.steps > self.max_steps: raise Unsupported("step limit")
                r = self.step(env, line, depth)
                if r is None: continue
                if r[0] == "ret": return r[1]
                nxt = r[1]; break
            if nxt is None: raise Unsupported("block without end")
            prev, cur = cur, nxt

    def step(self, env, line, depth):
        m = re.match(r"(%\S+) = (.*)", line)
        dst, body = (m[1], m[2]) if m else (None, line)
        w = body.split()
        op = w[0]
        if op in ("tail", "musttail", "notail"): body = body[len(op) + 1:]; w = body.split(); op = w[0]
        if op == "ret":
            return ("ret", None) if w[1] == "void" else ("ret", self.val(env, w[1], w[2]))
        if op == "br":
            if w[1] == "label": return ("br", w[2].lstrip("%").strip('"'))
            m = re.match(r"br i1 (\S+), label %(\S+), label %(\S+)", body)
            c = self.val(env, "i1", m[1])
            return ("br", (m[2] if self.decide(c == 1) else m[3]).strip('"'))
        if op == "switch":
            m = re.match(r"switch (\S+) (\S+), label %(\S+) \[(.*)\]?", body)
            raise Unsupported("switch")
        if op == "unreachable":
            self.must("unreachable code is not reached", z3.BoolVal(False)); raise Path()
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            m = re.match(r"\w+ ((?:nsw |nuw |exact |disjoint )*)(\S+) (\S+), (\S+)", body)
            fl, t = m[1].split(), m[2]
            a, b = self.val(env, t, m[3]), self.val(env, t, m[4]); n = width(t)
            if op in ("sdiv", "srem", "udiv", "urem"):
                self.must("division by zero", b != 0)
                if op[0] == "s": self.must("overflow in a division", z3.Not(z3.And(a == z3.BitVecVal(1 << (n - 1), n), b == z3.BitVecVal(-1, n))))
            if "nsw" in fl:
                x, y = z3.SignExt(n, a), z3.SignExt(n, b)
                if op in ("add", "sub", "mul"):
                    wide = {"add": x + y, "sub": x - y, "mul": x * y}[op]
                    self.must(f"signed overflow in {op}", wide == z3.SignExt(n, {"add": a + b, "sub": a - b, "mul": a * b}[op]))
            if op in ("shl", "lshr", "ashr"): self.must("shift out of range", z3.ULT(b, n))
            env[dst] = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "sdiv": lambda: a / b, "udiv": lambda: z3.UDiv(a, b), "srem": lambda: z3.SRem(a, b), "urem": lambda: z3.URem(a, b),
                        "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b}[op]()
            return None
        if op == "icmp":
            m = re.match(r"icmp (?:samesign )?(\w+) (\S+) (\S+), (\S+)", body)
            t = m[2]; a, b = self.val(env, t, m[3]), self.val(env, t, m[4])
            if t == "ptr": env[dst] = z3.BitVecVal(int((a == b) == (m[1] == "eq")), 1); return None
            c = {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b, "sge": lambda: a >= b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b)}[m[1]]()
            env[dst] = z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)); return None
        if op in ("trunc", "sext", "zext"):
            m = re.match(r"\w+ (?:nneg |nsw |nuw )*(\S+) (\S+) to (\S+)", body)
            a = self.val(env, m[1], m[2]); n, k = width(m[1]), width(m[3])
            env[dst] = z3.Extract(k - 1, 0, a) if op == "trunc" else z3.SignExt(k - n, a) if op == "sext" else z3.ZeroExt(k - n, a)
            return None
        if op == "freeze": env[dst] = self.val(env, w[1], w[2]); return None
        if op == "select":
            m = re.match(r"select i1 (\S+), (\S+) (\S+), (\S+) (\S+)", body)
            c = self.val(env, "i1", m[1]); t = m[2]
            if t == "ptr": env[dst] = self.val(env, t, m[3] if self.decide(c == 1) else m[5])
            else: env[dst] = z3.If(c == 1, self.val(env, t, m[3]), self.val(env, t, m[5]))
            return None
        if op == "alloca":
            self.nobj += 1; env[dst] = (self.nobj, 0); return None
        if op == "getelementptr":
            m = re.match(r"getelementptr (?:inbounds |nuw |nusw )*(.+?), ptr (\S+), (.*)", body)
            t, idx = m[1], [x.split() for x in split(m[3])]
            obj, off = self.val(env, "ptr", m[2])
            ks = [int(x[1]) if not x[1].startswith("%") else self.conc(env[x[1]]) for x in idx]
            if t == "i8" and len(ks) == 1: env[dst] = (obj, off + ks[0])
            elif re.fullmatch(r"i\d+", t) and len(ks) == 1: env[dst] = (obj, off + ks[0] * (width(t) // 8))
            elif "pair" in t and len(ks) == 2 and ks[0] == 0: env[dst] = (obj, off + 8 * ks[1])
            else: raise Unsupported(body)
            return None
        if op == "store":
            m = re.match(r"store (\S+) (\S+), ptr ([^,\s]+)", body)
            self.mem[self.val(env, "ptr", m[3])] = (m[1], self.val(env, m[1], m[2])); return None
        if op == "load":
            m = re.match(r"load (\S+), ptr ([^,\s]+)", body)
            a = self.val(env, "ptr", m[2])
            if a not in self.mem or self.mem[a][0] != m[1]: raise Unsupported("load " + body)
            env[dst] = self.mem[a][1]; return None
        if op in ("call", "invoke"):
            m = re.search(r"@(\"[^\"]+\"|[\w.$]+)\((.*)\)", body)
            if not m: raise Unsupported(body)
            f = m[1].strip('"')
            if re.match(r"llvm\.(lifetime|assume|experimental|dbg|invariant)", f): return None
            args = []
            for x in split(m[2]): args.append(self.val(env, x.split()[0], x.split()[-1]))
            i = re.match(r"llvm\.([a-z]+)(?:\.with\.overflow)?\.i(\d+)$", f)
            if i and i[1] in ("smax", "smin", "umax", "umin", "abs"):
                if i[1] == "abs":
                    n = int(i[2]); self.must("abs of the least integer", args[0] != z3.BitVecVal(1 << (n - 1), n))
                    env[dst] = z3.If(args[0] < 0, -args[0], args[0]); return None
                a, b = args
                env[dst] = z3.If({"smax": a > b, "smin": a < b, "umax": z3.UGT(a, b), "umin": z3.ULT(a, b)}[i[1]], a, b); return None
            r = self.call(f, args, depth + 1)
            if dst: env[dst] = r
            if op == "invoke":
                t = re.search(r"to label %(\S+) unwind", body)
                return ("br", t[1].strip('"'))
            return None
        raise Unsupported(op)

    def conc(self, x):
        x = z3.simplify(x)
        if z3.is_bv_value(x): return x.as_signed_long()
        raise Unsupported("symbolic offset")
