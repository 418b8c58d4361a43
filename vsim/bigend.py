#!/usr/bin/env python3
"""C09: a simulated big-endian machine. Rewrites the LLVM IR clang made for a 64-bit big-endian target so that it runs
on this little-endian host: every scalar of more than one byte is byte-swapped on its way to and from memory, and so are
the initial values of globals. Pointers keep the host's order (no program can tell without inspecting them bytewise).

usage: bigend.py IN.ll OUT.ll          exit 3: something in the module this does not handle (no verdict)
"""
import re, struct, sys

class Unsupported(Exception): pass
SC = {"half": 16, "float": 32, "double": 64}

def bits(t):
    """width in bits of a scalar that must be swapped, 0 if it needs no swap"""
    if t == "ptr" or t in ("i1", "i8"): return 0
    if t in SC: return SC[t]
    m = re.fullmatch(r"i(\d+)", t)
    if m and int(m.group(1)) in (16, 32, 64, 128): return int(m.group(1))
    raise Unsupported("type " + t)

widths = set()
LOAD = re.compile(r"^  (%\S+) = load (volatile )?(.*)$")
STORE = re.compile(r"^  store (volatile )?(.*)$")
counter = [0]

def split_type(s):
    """the leading type of s and the rest"""
    if s[0] in "[{<":
        depth = 0
        for k, c in enumerate(s):
            depth += c in "[{<"; depth -= c in "]}>"
            if depth == 0: return s[:k + 1], s[k + 1:].lstrip()
    m = re.match(r'(%"[^"]*"|[%\w.:$-]+)\s*', s)
    return m.group(1), s[m.end():]

def load(name, vol, rest):
    if rest.startswith("atomic "): rest2 = rest[7:]
    else: rest2 = rest
    t, tail = split_type(rest2)
    w = bits(t)
    if not w: return None
    if rest2 is not rest: raise Unsupported("atomic load of " + t)
    tail = re.sub(r", ![^,]*", "", tail)                # metadata describes the value, not what lies in memory
    counter[0] += 1; widths.add(w); raw = "%vsim.l" + str(counter[0])
    out = ["  %s = load %si%d%s" % (raw, vol or "", w, tail)]
    if t in SC:
        out.append("  %s.s = call i%d @llvm.bswap.i%d(i%d %s)" % (raw, w, w, w, raw))
        out.append("  %s = bitcast i%d %s.s to %s" % (name, w, raw, t))
    else:
        out.append("  %s = call i%d @llvm.bswap.i%d(i%d %s)" % (name, w, w, w, raw))
    return out

def store(vol, rest):
    if rest.startswith("atomic "): 
        t, _ = split_type(rest[7:])
        if bits(t): raise Unsupported("atomic store")
        return None
    t, tail = split_type(rest)
    w = bits(t)
    if not w: return None
    depth = 0; k = 0
    for k, c in enumerate(tail):                        # the value ends at the first comma outside brackets
        depth += c in "([{<"; depth -= c in ")]}>"
        if c == "," and depth == 0: break
    value, tail = tail[:k], re.sub(r", ![^,]*", "", tail[k:])
    counter[0] += 1; widths.add(w); n = "%vsim.s" + str(counter[0]); out = []
    if t in SC: out.append("  %s.b = bitcast %s %s to i%d" % (n, t, value, w)); value = n + ".b"
    out.append("  %s = call i%d @llvm.bswap.i%d(i%d %s)" % (n, w, w, w, value))
    out.append("  store %si%d %s%s" % (vol or "", w, n, tail))
    return out

TOK = re.compile(r'c"(?:[^"])*"|%"[^"]*"|@"[^"]*"|[@%][\w.$-]+|-?\d+\b|0x[KLMHR]?[0-9A-Fa-f]+|[\w.+-]+|[\[\]{}<>(),]|\S')
def swap(v, w):
    v &= (1 << w) - 1
    return int.from_bytes(v.to_bytes(w // 8, "little"), "big")

class Init:
    """rewrites 'TYPE VALUE' of a global"""
    def __init__(self, text): self.t = TOK.findall(text); self.i = 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else ""
    def next(self): self.i += 1; return self.t[self.i - 1]
    def type(self):
        x = self.next()
        if x in "[{<":
            if x == "<" and self.peek() == "{": self.next(); s = ["<{"]; close = "}"
            elif x == "<": raise Unsupported("vector constant")
            else: s = [x]; close = "]" if x == "[" else "}"
            while self.peek() != close:
                if self.peek() == ",": s.append(self.next()); continue
                if re.fullmatch(r"\d+", self.peek()): s.append(self.next()); s.append(self.next()); continue      # N x
                s.append(self.type())
            s.append(self.next())
            if s[0] == "<{": s.append(self.next())
            return " ".join(s)
        return x
    def value(self, t):
        x = self.peek()
        if x in ("zeroinitializer", "undef", "poison", "null", "none"): return self.next()
        if x.startswith('c"'): return self.next()
        if x in ("[", "{", "<"):
            s = [self.next()]
            if s[0] == "<": s.append(self.next())
            while self.peek() not in ("]", "}"):
                if self.peek() == ",": s.append(self.next()); continue
                et = self.type(); s.append(et); s.append(self.value(et))
            s.append(self.next())
            if s[0] == "<": s.append(self.next())
            return " ".join(s)
        if t == "ptr":                                   # a symbol or a constant expression
            s = [self.next()]
            if s[0].startswith("@"): return s[0]
            depth = 0
            while True:
                y = self.next(); s.append(y); depth += y == "("; depth -= y == ")"
                if depth == 0 and y == ")": return " ".join(s)
        x = self.next(); w = bits(t)
        if not w: return x
        if t in SC:
            if x.startswith("0x"):
                d = struct.unpack(">d", int(x, 16).to_bytes(8, "big"))[0]
            else: d = float(x)
            b = struct.pack(">f" if t == "float" else ">d", d)
            if b != b[::-1]: raise Unsupported("global %s %s" % (t, x))
            return x
        if not re.fullmatch(r"-?\d+", x): raise Unsupported("global %s %s" % (t, x))
        return str(swap(int(x), w))

GLOBAL = re.compile(r'^(@(?:"[^"]*"|[\w.$-]+) = .*?\b(?:global|constant) )(.*)$')
def glob(line):
    m = GLOBAL.match(line)
    if not m or re.search(r"\bexternal\b", m.group(1)): return line
    if line.startswith("@llvm."): return line
    body = m.group(2); tail = ""
    depth = 0; inq = False
    for k, c in enumerate(body):
        if c == '"': inq = not inq
        if inq: continue
        depth += c in "([{<"; depth -= c in ")]}>"
        if c == "," and depth == 0: body, tail = body[:k], body[k:]; break
    p = Init(body); t = p.type(); v = p.value(t)
    if p.i != len(p.t): raise Unsupported("global: " + line[:200])
    return m.group(1) + t + " " + v + tail

def main():
    src = open(sys.argv[1]).read().split("\n"); out = []; has_layout = False
    for line in src:
        if line.startswith("target datalayout"):
            has_layout = '"E-' in line; out.append('target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"'); continue
        if line.startswith("target triple"): out.append('target triple = "x86_64-pc-linux-gnu"'); continue
        if line.startswith("attributes #"): out.append(re.sub(r' "(target-cpu|target-features|tune-cpu)"="[^"]*"', "", line)); continue
        if line.startswith("@"): out.append(glob(line)); continue
        if re.match(r'^%\S+ = type .*\b(i128|fp128|x86_fp80)\b', line): raise Unsupported("layout: " + line)
        if line.startswith("  "):
            if re.search(r" = (cmpxchg|atomicrmw) |\bcall [^@]*\basm\b| = va_arg ", line): raise Unsupported(line.strip())
            m = LOAD.match(line); r = None
            if m: r = load(m.group(1), m.group(2), m.group(3))
            else:
                m = STORE.match(line)
                if m: r = store(m.group(1), m.group(2))
            if r is not None: out.extend(r); continue
        out.append(line)
    if not has_layout: raise Unsupported("not a big-endian module")
    text = "\n".join(out)
    for w in sorted(widths):
        if "declare i%d @llvm.bswap.i%d(" % (w, w) not in text: text += "\ndeclare i%d @llvm.bswap.i%d(i%d)\n" % (w, w, w)
    open(sys.argv[2], "w").write(text)

if __name__ == "__main__":
    try: main()
    except Unsupported as e:
        print("bigend: " + str(e), file=sys.stderr); sys.exit(3)
