#!/usr/bin/env python3
"""Generates the build inputs of the symbolic binary into /verif/.gen:
   big/      math/big's Int files with a hook on every method (symbolic operand -> solver term)
   math/     a copy of the pinned cosmossdk.io/math with three-way comparisons turned into two-way ones
   go.mod    /repo's go.mod plus the replace directive for math/
   overlay.sym.json / overlay.nat.json   go build overlays (harness packages, hooked math/big)
Everything is derived from GOROOT, the module cache and /repo on each run."""
import json, os, re, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.23.12"
GEN = os.path.join(VERIF, ".gen")
MOD = "/root/go/pkg/mod"

def wr(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path + ".tmp", "w") as f:
        f.write(text)
    os.replace(path + ".tmp", path)

# ---------------------------------------------------------------- math/big
un = {"Abs": 1, "Neg": 2, "Not": 3, "Sqrt": 4}
bi = {"Add": 1, "Sub": 2, "Mul": 3, "Quo": 4, "Rem": 5, "Div": 6, "Mod": 7, "And": 8, "AndNot": 9, "Or": 10, "Xor": 11}
body = {
    "Sign": "if x.sym != nil { return Sym.Sign(x.sym) }",
    "Set": "if x.sym != nil { return symSet(z, x.sym) }; z.sym = nil",
    "QuoRem": "if x.sym != nil || y.sym != nil { return symQR(z, x, y, r, 4, 5) }; z.sym = nil; r.sym = nil",
    "DivMod": "if x.sym != nil || y.sym != nil { return symQR(z, x, y, m, 6, 7) }; z.sym = nil; m.sym = nil",
    "Cmp": "if x.sym != nil || y.sym != nil { return Sym.Cmp(sv(x), sv(y)) }",
    "CmpAbs": "if x.sym != nil || y.sym != nil { return new(Int).Abs(x).Cmp(new(Int).Abs(y)) }",
    "Int64": "if x.sym != nil { return Sym.Conc(x.sym).Int64() }",
    "Uint64": "if x.sym != nil { return Sym.Conc(x.sym).Uint64() }",
    "IsInt64": "if x.sym != nil { return !symBitLenGT(x, 63) }",
    "IsUint64": "if x.sym != nil { return x.Sign() >= 0 && !symBitLenGT(x, 64) }",
    "BitLen": "if x.sym != nil { return Sym.BitLen(x.sym) }",
    "Bit": "if x.sym != nil { return Sym.Bit(x.sym, i) }",
    "Text": "if x != nil && x.sym != nil { if base == 10 { return Sym.Digits(x.sym) }; Sym.Unsup(\"Text\") }",
    "Append": "if x != nil && x.sym != nil { return append(buf, Sym.Token(x.sym)...) }",
    "String": "if x != nil && x.sym != nil { return Sym.Token(x.sym) }",
    "Format": "if x != nil && x.sym != nil { s.Write([]byte(Sym.Token(x.sym))); return }",
    "MarshalText": "if x != nil && x.sym != nil { return []byte(Sym.Token(x.sym)), nil }",
    "MarshalJSON": "if x != nil && x.sym != nil { return []byte(Sym.Token(x.sym)), nil }",
    "SetString": "if v := symParse(s); v != nil { return symSet(z, v), true }; z.sym = nil",
    "UnmarshalText": "if v := symParse(string(text)); v != nil { symSet(z, v); return nil }; z.sym = nil",
    "UnmarshalJSON": "if v := symParse(string(text)); v != nil { symSet(z, v); return nil }; z.sym = nil",
    "Lsh": "if x.sym != nil { p := new(Int).Lsh(NewInt(1), n); return z.Mul(x, p) }; z.sym = nil",
    "Rsh": "if x.sym != nil { p := new(Int).Lsh(NewInt(1), n); return z.Div(x, p) }; z.sym = nil",
}
hook_go = r'''
package big

// SymHooks are installed by the symbolic runtime.
type SymHooks struct {
	Sign   func(x any) int
	Cmp    func(x, y any) int
	CmpOp  func(op int, x, y any) bool
	Un     func(op int, x any) any
	Bin    func(op int, x, y any) any
	Conc   func(x any) *Int
	BitLen func(x any) int
	BitGT  func(x any, n int) bool
	Bit    func(x any, i int) uint
	Digits func(x any) string
	Token  func(x any) string
	Parse  func(s string) any
	Unsup  func(what string)
	RoundDiv func(mode int, x any, d *Int) any
	MinMax func(max bool, x, y any) any
}

var Sym SymHooks

const SymTokenPrefix = "71718281828459045235360287"
const SymTokenLen = 40

func symSet(z *Int, v any) *Int {
	if c, ok := v.(*Int); ok {
		z.sym = nil
		return z.Set(c)
	}
	z.sym, z.neg, z.abs = v, false, nil
	return z
}
func sv(x *Int) any {
	if x.sym != nil {
		return x.sym
	}
	return x
}
func symGuard(what string, xs ...*Int) {
	for _, x := range xs {
		if x != nil && x.sym != nil {
			Sym.Unsup(what)
		}
	}
}
func symQR(z, x, y, r *Int, q, m int) (*Int, *Int) {
	a, b := Sym.Bin(q, sv(x), sv(y)), Sym.Bin(m, sv(x), sv(y))
	symSet(z, a)
	symSet(r, b)
	return z, r
}
func symBitLenGT(x *Int, n int) bool { return Sym.BitGT(x.sym, n) }
func symParse(s string) any {
	if len(s) < SymTokenLen || Sym.Parse == nil {
		return nil
	}
	for i := 0; i+SymTokenLen <= len(s); i++ {
		if s[i] == '7' && s[i:i+len(SymTokenPrefix)] == SymTokenPrefix {
			for j := 0; j < i; j++ {
				if s[j] != '0' {
					return nil
				}
			}
			if i+SymTokenLen != len(s) {
				return symScale(Sym.Parse(s[i:i+SymTokenLen]), s[i+SymTokenLen:])
			}
			return Sym.Parse(s[i:])
		}
	}
	return nil
}
// a token followed by n zeros is the value times 10^n (decimal strings padded by parsers)
func symScale(v any, zeros string) any {
	p := NewInt(1)
	for i := 0; i < len(zeros); i++ {
		if zeros[i] != '0' {
			return nil
		}
		p.Mul(p, NewInt(10))
	}
	return Sym.Bin(3, v, p)
}

// SymVal returns the term of a symbolic Int, or nil.
func (x *Int) SymVal() any { return x.sym }

// NewSym returns an Int holding a term.
func NewSym(v any) *Int { return symSet(new(Int), v) }

func (x *Int) CmpLT(y *Int) bool { return symCmpOp(0, x, y) }
func (x *Int) CmpLE(y *Int) bool { return symCmpOp(1, x, y) }
func (x *Int) CmpGT(y *Int) bool { return symCmpOp(0, y, x) }
func (x *Int) CmpGE(y *Int) bool { return symCmpOp(1, y, x) }
func (x *Int) CmpEQ(y *Int) bool { return symCmpOp(2, x, y) }
func symCmpOp(op int, x, y *Int) bool {
	if x.sym != nil || y.sym != nil {
		return Sym.CmpOp(op, sv(x), sv(y))
	}
	c := x.Cmp(y)
	switch op {
	case 0:
		return c < 0
	case 1:
		return c <= 0
	}
	return c == 0
}

var symZero = NewInt(0)

func (x *Int) SignLT0() bool { if x.sym == nil { return x.Sign() < 0 }; return Sym.CmpOp(0, x.sym, symZero) }
func (x *Int) SignGT0() bool { if x.sym == nil { return x.Sign() > 0 }; return Sym.CmpOp(0, symZero, x.sym) }
func (x *Int) SignEQ0() bool { if x.sym == nil { return x.Sign() == 0 }; return Sym.CmpOp(2, x.sym, symZero) }
func (x *Int) BitLenGT(n int) bool { if x.sym == nil { return x.BitLen() > n }; return Sym.BitGT(x.sym, n) }

// SymRoundDiv sets d to d/p rounded (mode 0: half to even, 1: towards +infinity) when d is symbolic.
func (d *Int) SymRoundDiv(mode int, p *Int) bool {
	if d.sym == nil {
		return false
	}
	symSet(d, Sym.RoundDiv(mode, d.sym, p))
	return true
}
func SymMinMax(max bool, x, y *Int) *Int {
	if x.sym == nil && y.sym == nil {
		return nil
	}
	return symSet(new(Int), Sym.MinMax(max, sv(x), sv(y)))
}
'''

def patch_big(src):
    out = []
    lines = src.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r"^func \((\w) \*Int\) (\w+)\((.*?)\)(.*)\{(.*)$", l)
        if m and l.rstrip().endswith("{"):
            r, name, params = m.group(1), m.group(2), m.group(3)
            out.append(l)
            # names of *Int params
            names = []
            grp = []
            for p in params.split(","):
                p = p.strip()
                if not p: continue
                parts = p.split()
                grp.append(parts[0])
                if len(parts) > 1:
                    if parts[1] == "*Int": names += grp
                    grp = []
            if name in body: ins = body[name]
            elif name in un: ins = "if x.sym != nil { return symSet(z, Sym.Un(%d, x.sym)) }; z.sym = nil" % un[name]
            elif name in bi: ins = "if x.sym != nil || y.sym != nil { return symSet(z, Sym.Bin(%d, sv(x), sv(y))) }; z.sym = nil" % bi[name]
            else:
                a = names + ([r] if r == "x" else [])
                ins = ""
                if a: ins = 'symGuard("%s", %s)' % (name, ", ".join(a))
                if r == "z": ins += ("; " if ins else "") + "z.sym = nil"
            out.append("\t" + ins + " // sym hook")
        else:
            out.append(l)
        i += 1
    s = "\n".join(out)
    s = s.replace("type Int struct {\n\tneg bool // sign\n\tabs nat  // absolute value of the integer\n}",
                  "type Int struct {\n\tneg bool // sign\n\tabs nat  // absolute value of the integer\n\tsym any  // symbolic term\n}")
    s = s.replace("&Int{false, natOne}", "&Int{abs: natOne}")
    return s

BIG = GOROOT + "/src/math/big/"
ov = {}
for f in ("int.go", "intconv.go", "intmarsh.go", "prime.go", "rat.go", "float.go"):
    s = open(BIG + f).read()
    if f in ("rat.go", "float.go"):
        s = re.sub(r"(func \(z \*(?:Rat|Float)\) (SetInt|SetFrac)\((.*?) \*Int\) .*\{\n)",
                   lambda m: m.group(1) + '\tsymGuard("%s", %s)\n' % (m.group(2), m.group(3)), s)
    else:
        s = patch_big(s)
    wr(GEN + "/big/" + f, s)
    ov[BIG + f] = GEN + "/big/" + f
wr(GEN + "/big/symhook.go", hook_go)
ov[BIG + "symhook.go"] = GEN + "/big/symhook.go"
# deterministic (selectable) map iteration order per goroutine
RT = GOROOT + "/src/runtime/"
s = open(RT + "map.go").read()
n = s.count("\tr := uintptr(rand())\n\tit.startBucket")
assert n == 1
s = s.replace("\tr := uintptr(rand())\n\tit.startBucket",
 "\tr := uintptr(rand())\n\tif k := getg().vfmapoff; k != 0 {\n\t\tr = uintptr(k-1) << h.B\n\t}\n\tit.startBucket")
s += "\n// VfMapOff fixes the map iteration offset of the calling goroutine (0: random).\nfunc VfMapOff(k uint32) { getg().vfmapoff = k }\n\n// VfStackSize is the size of the calling goroutine's stack.\nfunc VfStackSize() uintptr { g := getg(); return g.stack.hi - g.stack.lo }\n"
wr(GEN + "/runtime/map.go", s); ov[RT + "map.go"] = GEN + "/runtime/map.go"
s = open(RT + "runtime2.go").read()
assert s.count("\tgcAssistBytes int64\n") == 1
s = s.replace("\tgcAssistBytes int64\n", "\tgcAssistBytes int64\n\tvfmapoff uint32\n")
wr(GEN + "/runtime/runtime2.go", s); ov[RT + "runtime2.go"] = GEN + "/runtime/runtime2.go"
assert "sym any" in open(GEN + "/big/int.go").read()

# ---------------------------------------------------------------- cosmossdk.io/math
gomod = open(REPO + "/go.mod").read()
ver = re.search(r"^\s*cosmossdk.io/math (v\S+)", gomod, re.M).group(1)
src = "%s/cosmossdk.io/math@%s" % (MOD, ver)
def patch_math(s):
    A = r"((?:\((?:\w+\.)*\w+\)|(?:\w+\.)*\w+))"
    for pat, meth in ((r" == 0", "EQ"), (r" == 1", "GT"), (r" == -1", "LT"), (r" > 0", "GT"), (r" >= 0", "GE"), (r" < 0", "LT"), (r" <= 0", "LE")):
        s = re.sub(A + r"\.Cmp\(([\w.]+)\)" + pat + r"\b", r"\1.Cmp%s(\2)" % meth, s)
    for pat, meth in ((r" == 0", "EQ0"), (r" == 1", "GT0"), (r" == -1", "LT0")):
        s = re.sub(r"((?:\w+\.)+i|rem|d|i\.i|i2\.i|\(d\.i\))\.Sign\(\)" + pat + r"\b", r"\1.Sign%s()" % meth, s)
    s = re.sub(r"([\w.]+)\.BitLen\(\) > (MaxBitLen|maxDecBitLen)", r"\1.BitLenGT(\2)", s)
    s = re.sub(r"([\w.]+)\.BitLen\(\) >= (MaxBitLen|maxDecBitLen)", r"\1.BitLenGT(\2-1)", s)
    # MarshalTo writes the byte Marshal would write for zero: no need to ask whether a term is zero
    s = s.replace("if i.i.BitLen() == 0 { // The value 0", "if i.i.SymVal() == nil && i.i.BitLen() == 0 { // The value 0")
    s = re.sub(r"(func bigIntOverflows\(i \*big.Int\) bool \{\n)", r"\1\tif i.SymVal() != nil {\n\t\treturn i.BitLenGT(MaxBitLen)\n\t}\n", s)
    s = re.sub(r"(func chopPrecisionAndRound\(d \*big.Int\) \*big.Int \{\n)", r"\1\tif d.SymRoundDiv(0, precisionReuse) {\n\t\treturn d\n\t}\n", s)
    s = re.sub(r"(func chopPrecisionAndRoundUp\(d \*big.Int\) \*big.Int \{\n)", r"\1\tif d.SymRoundDiv(1, precisionReuse) {\n\t\treturn d\n\t}\n", s)
    s = re.sub(r"(func \(d LegacyDec\) Ceil\(\) LegacyDec \{\n\ttmp := new\(big.Int\).Set\(d.i\)\n)", r"\1\tif tmp.SymRoundDiv(1, precisionReuse) {\n\t\treturn LegacyNewDecFromBigInt(tmp)\n\t}\n", s)
    s = re.sub(r"(func min\(i, i2 \*big.Int\) \*big.Int \{\n)", r"\1\tif r := big.SymMinMax(false, i, i2); r != nil {\n\t\treturn r\n\t}\n", s)
    s = re.sub(r"(func max\(i, i2 \*big.Int\) \*big.Int \{\n)", r"\1\tif r := big.SymMinMax(true, i, i2); r != nil {\n\t\treturn r\n\t}\n", s)
    for nm, b in (("Min", "false"), ("Max", "true")):
        s = re.sub(r"(func Legacy%sDec\(d1, d2 LegacyDec\) LegacyDec \{\n)" % nm, r"\1\tif r := big.SymMinMax(%s, d1.i, d2.i); r != nil {\n\t\treturn LegacyDec{r}\n\t}\n" % b, s)
    return s
for root, _, files in os.walk(src):
    rel = os.path.relpath(root, src)
    if "testdata" in rel: continue
    for f in files:
        if f.endswith("_test.go") or not (f.endswith(".go") or f in ("go.mod", "go.sum")): continue
        t = open(os.path.join(root, f)).read()
        if f in ("int.go", "dec.go"):
            t = patch_math(t)
        wr(os.path.join(GEN, "math", rel, f) if rel != "." else os.path.join(GEN, "math", f), t)
wr(GEN + "/go.mod", gomod + "\nreplace cosmossdk.io/math => %s/math\n" % GEN)
wr(GEN + "/go.sum", open(REPO + "/go.sum").read())
wr(GEN + "/nat.mod", gomod)
wr(GEN + "/nat.sum", open(REPO + "/go.sum").read())

# ---------------------------------------------------------------- overlays
nat = {}
for pk in ("vf", "hamm", "happ"):
    d = VERIF + "/sym/" + pk
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith(".go"):
                nat[REPO + "/x/verif/" + pk + "/" + f] = d + "/" + f
wr(GEN + "/overlay.nat.json", json.dumps({"Replace": nat}, indent=1))
wr(GEN + "/overlay.sym.json", json.dumps({"Replace": {**nat, **ov}}, indent=1))
