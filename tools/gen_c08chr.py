#!/usr/bin/env python3
"""Writes c08chr.h and c08chr.cpp: a table of chrono format strings with what
the compile-time check says about them.  usage: gen_c08chr.py SEED DIR N"""
import random
import sys

seed, out = int(sys.argv[1]), sys.argv[2]
N = int(sys.argv[3])
R = random.Random(seed * 104729 + 5)
TYPES = ["std::tm", "scn::tm_with_tz", "scn::datetime_components", "scn::weekday", "scn::day", "scn::month", "scn::year",
         "scn::year_month", "scn::month_day", "scn::year_month_day", "std::chrono::system_clock::time_point",
         "std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>"]
WEIGHTS = [6, 4, 6, 2, 2, 2, 2, 2, 2, 2, 2, 2]
SPECS = ["%" + c for c in "YyCGgbBhmUWVjdeaAwuHkIlMSzZcxXDFrRTpPsQqnt%"] + ["%.S", "%.ES", "%.OS"] + \
        ["%E" + c for c in "cCxXyYz"] + ["%O" + c for c in "deHkIlmMSUwWyz"]
# fields that go together, so that longer formats are often valid
PARTS = ["%Y", "%m", "%d", "%H", "%M", "%S", "%a", "%j", "%z", "%Z", "%I", "%p", "%y", "%C", "%b", "%F", "%T", "%R", "%.S", "%u"]
LITS = ["", "", " ", "-", ":", "/", "T", "ä", "漢", "\u2028", "}}", "{{", "x", "\n"]
AB = "%.EOLYmdHMSzZpIyCjaQk{}: x"


def fmt():
    s = R.choice(["", "", "", "L"])
    if R.random() < .5:
        parts = R.sample(PARTS, R.randint(1, 5))
    else:
        parts = [R.choice(SPECS) for _ in range(R.choice([1, 1, 2, 2, 3]))]
    if R.random() < .15:
        parts.append(R.choice(parts))
    for i, p in enumerate(parts):
        if R.random() < .12:
            p = R.choice(SPECS)
        s += p + (R.choice(LITS[:10]) if i + 1 < len(parts) or R.random() < .2 else "")
    k = R.random()
    while k < .3:
        i = R.randint(0, len(s))
        s = s[:i] + R.choice(["", R.choice(AB)]) + s[i + R.choice([0, 1]):]
        k = R.random()
    return R.choice(["", "", "", "", "a", " "]) + "{" + R.choice(["", "", "", "0"]) + ":" + s + "}" + R.choice(["", "", "", " ", "x", "{{"])


def lit(f, pre):
    o = ""
    for ch in f:
        n = ord(ch)
        if ch in '"\\?':
            o += "\\" + ch
        elif ch == "\n":
            o += "\\n"
        elif n < 127:
            o += ch
        elif pre:
            o += "\\u%04x" % n
        else:
            o += "".join("\\%03o" % b for b in ch.encode())
    return pre + '"' + o + '"'


seen, rows = set(), []
# every specifier alone, for every type
for t in range(len(TYPES)):
    for s in SPECS:
        rows.append((t, "{:%s}" % s))
        seen.add(rows[-1])
R.shuffle(rows)
rows = rows[:N // 2]
while len(rows) < N:
    r = (R.choices(range(len(TYPES)), WEIGHTS)[0], fmt())
    if r not in seen:
        seen.add(r)
        rows.append(r)

open(f"{out}/c08chr.h", "w").write("""#pragma once
namespace c08 {
struct ChrEntry { int type; const char* fmt; const wchar_t* wfmt; bool narrow, wide; };
constexpr unsigned n_chr = %d;
extern const ChrEntry chr_entries[n_chr];
}
""" % len(rows))
with open(f"{out}/c08chr.cpp", "w") as o:
    o.write("""#include <scn/scan.h>
#include <scn/chrono.h>
#include <scn/xchar.h>
#include "c08chr.h"
template <typename C, unsigned long N> struct fs {
    C d[N]{};
    constexpr fs(const C (&s)[N]) { for (unsigned long i = 0; i < N; ++i) d[i] = s[i]; }
    constexpr std::basic_string_view<C> sv() const { return {d, N - 1}; }
};
template <bool> struct B {};
template <typename... A> struct L {
    template <fs F> static constexpr bool n = requires { typename B<(scn::scan_format_string<std::string_view&, A...>(F.sv()), true)>; };
    template <fs F> static constexpr bool w = requires { typename B<(scn::wscan_format_string<std::wstring_view&, A...>(F.sv()), true)>; };
};
""")
    for i, t in enumerate(TYPES):
        o.write(f"using T{i} = L<{t}>;\n")
    o.write("const c08::ChrEntry c08::chr_entries[c08::n_chr] = {\n")
    for t, f in rows:
        o.write(f"{{{t}, {lit(f, '')}, {lit(f, 'L')}, T{t}::n<{lit(f, '')}>, T{t}::w<{lit(f, 'L')}>}},\n")
    o.write("};\n")
