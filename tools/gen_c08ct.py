#!/usr/bin/env python3
"""Writes c08ct.h and c08ct.cpp: a table of format strings with what the
compile-time check says about them.  usage: gen_c08ct.py SEED DIR [N]"""
import random, sys
seed, out = int(sys.argv[1]), sys.argv[2]
N = int(sys.argv[3]) if len(sys.argv) > 3 else 900
R = random.Random(seed * 7919 + 11)
INTS = ["signed char", "short", "int", "long", "long long", "unsigned char", "unsigned short", "unsigned", "unsigned long", "unsigned long long"]
FLT = ["float", "double", "long double"]
SINGLE = INTS + FLT + ["S", "bool", "char", "wchar_t", "char32_t", "void*", "X", "V"]
LISTS = [["int", "S"], ["S", "S"], ["double", "char32_t", "int"], ["S", "bool"], ["unsigned"] * 3,
         ["S", "double", "S", "signed char"], ["void*", "long long"], ["wchar_t", "X"], []] + [[t] for t in SINGLE]

def types(t):
    if t in INTS: return "diubBoOxX"
    if t in FLT: return "aAeEfFgG"
    return {"bool": "sidubBoOxX", "char": "cdiubBoOxX", "wchar_t": "cdiubBoOxX", "char32_t": "c", "void*": "p"}.get(t, "s")

def cset():
    s = "[" + R.choice(["", "", "^", "^]"])
    for _ in range(R.randint(1, 3)):
        a = R.choice("abcxyzABC0123456789 _+äö漢")
        if R.random() < .5:
            b = R.choice("abcxyzABC0123456789 _+äö漢")
            if a > b and R.random() < .9: a, b = b, a
            s += a + "-" + b
        else:
            s += a
    return s + "]"

def spec(t):
    s = ""
    if R.random() < .4:
        s += R.choice(["", "*", "x", "0", "ä", "漢", " ", ":", "_"]) + R.choice("<>^")
    w, p = 0, 0
    if R.random() < .3:
        w = R.randint(1, 20); s += str(w)
    if R.random() < .3:
        p = w + R.randint(1, 9); s += "." + str(p)
    if R.random() < .1 and t in INTS + FLT + ["bool"]: s += "L"
    if t in ("S", "X", "V"):
        k = R.random()
        if k < .3: s += cset()
        elif k < .5: s += "c" if p or R.random() < .2 else "s"
    elif R.random() < .6:
        s += R.choice(types(t))
    return s

def lits():
    return "".join(R.choice(["a", " ", "{{", "}}", "%", "\n", "ä", "-", "1", "漢"]) for _ in range(R.choice([0, 0, 1, 2])))

def fmt(ts):
    ids = list(range(len(ts)))
    expl = R.random() < .35
    if expl: R.shuffle(ids)
    s = lits()
    for i in ids:
        sp = spec(ts[i]) if R.random() < .8 else None
        s += "{" + (str(i) if expl else "") + ("" if sp is None else ":" + sp) + "}" + lits()
    return s

AB = "{}:.0129L<>^[]-dxbiuoOBXscaefgpr?* /_qz!"
def mutate(s):
    k = R.randrange(4)
    i = R.randint(0, len(s))
    if k == 0 and s: return s[:max(i - 1, 0)] + s[max(i, 1):]
    if k == 1: return s[:i] + R.choice(AB) + s[i:]
    if k == 2 and i < len(s): return s[:i] + R.choice(AB) + s[i + 1:]
    j = R.randint(0, len(s))
    return s[:i] + s[j:j + R.randint(1, 4)] + s[i:]

# every type with every specifier on its own, then random formats
rows = [(LISTS.index([t]), "{:" + x + "}") for t in SINGLE
        for x in list("cdiubBoOxXaAeEfFgGsp?L50[") + ["[a]", ".5", "5.3", "3.5", ".0", "*<", ">5", "Ld", "dL", "Lc", ".3c", "dd"]]
seen = set(rows)
N += len(rows)
while len(rows) < N:
    l = R.randrange(len(LISTS))
    f = fmt(LISTS[l])
    for _ in range(R.choice([0, 0, 1, 1, 1, 2, 3])):
        f = mutate(f)
    if (l, f) in seen: continue
    seen.add((l, f)); rows.append((l, f))

def lit(f, pre):
    o = ""
    for ch in f:
        n = ord(ch)
        if ch in '"\\?': o += "\\" + ch
        elif ch == "\n": o += "\\n"
        elif n < 127: o += ch
        elif pre: o += "\\u%04x" % n
        else: o += "".join("\\%03o" % b for b in ch.encode())
    return pre + '"' + o + '"'

open(f"{out}/c08ct.h", "w").write("""#pragma once
namespace c08 {
struct Entry { int list; const char* fmt; bool narrow, wide; };
constexpr unsigned n_entries = %d;
extern const Entry entries[n_entries];
}
""" % N)
with open(f"{out}/c08ct.cpp", "w") as o:
    o.write("""#include <scn/scan.h>
#include <scn/xchar.h>
#include "c08ct.h"
template <typename C, unsigned long N> struct fs {
    C d[N]{};
    constexpr fs(const C (&s)[N]) { for (unsigned long i = 0; i < N; ++i) d[i] = s[i]; }
    constexpr std::basic_string_view<C> sv() const { return {d, N - 1}; }
};
template <bool> struct B {};
template <typename... A> struct L {
    template <fs F> static constexpr bool n = requires { typename B<(scn::scan_format_string<std::string_view&, A...>(F.sv()), true)>; };
    template <fs F> static constexpr bool w = requires { typename B<(scn::wscan_format_string<std::wstring_view&, A...>(F.sv()), true)>; };
};
""")
    for i, ts in enumerate(LISTS):
        a = ",".join({"S": "std::string", "X": "std::wstring", "V": "std::string_view"}.get(t, t) for t in ts)
        b = ",".join({"S": "std::wstring", "X": "std::string", "V": "std::wstring_view", "char": "wchar_t"}.get(t, t) for t in ts)
        o.write(f"using N{i} = L<{a}>;\nusing W{i} = L<{b}>;\n")
    o.write("const c08::Entry c08::entries[c08::n_entries] = {\n")
    for l, f in rows:
        o.write(f"{{{l}, {lit(f, '')}, N{l}::n<{lit(f, '')}>, W{l}::w<{lit(f, 'L')}>}},\n")
    o.write("};\n")
