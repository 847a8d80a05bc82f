"""Inserts, before every hardware division of an AT&T assembly file, code that xors the smeared operands
into a per-site cell (its V bits then tell memcheck whether an operand depended on undefined data)."""
import re, sys

R64 = {}
for b in ("a", "b", "c", "d"):
    for n in ("%%r%sx" % b, "%%e%sx" % b, "%%%sx" % b, "%%%sl" % b, "%%%sh" % b):
        R64[n] = "%%r%sx" % b
for b in ("si", "di", "bp", "sp"):
    for n in ("%%r%s" % b, "%%e%s" % b, "%%%s" % b, "%%%sl" % b):
        R64[n] = "%%r%s" % b
for i in range(8, 16):
    for s in ("", "d", "w", "b"):
        R64["%%r%d%s" % (i, s)] = "%%r%d" % i

INT = re.compile(r"^\s*(?:\S+:\s*)?(i?div)([bwlq]?)\s+([^#;]+?)\s*(?:#.*)?$")
FP = re.compile(r"^\s*(?:\S+:\s*)?(v?(?:div|sqrt)[sp][sd])\s+([^#;]+?)\s*(?:#.*)?$")


def load(size, op):
    """operand -> %r11, zero-extended, no flags touched"""
    op = op.strip()
    if op.startswith("%"):
        if size == "q":
            return "movq %s, %%r11" % R64[op]
        if size == "l":
            return "movl %s, %%r11d" % (op if op in R64 else op)
        if size == "w":
            return "movzwl %s, %%r11d" % op
        if op in ("%ah", "%bh", "%ch", "%dh"):
            return "movzwl %%%sx, %%r11d" % op[1]
        return "movzbl %s, %%r11d" % op
    return {"q": "movq %s, %%r11", "l": "movl %s, %%r11d", "w": "movzwl %s, %%r11d", "b": "movzbl %s, %%r11d"}[size] % op


def smear(n):
    return ["\timulq $0x55555555, %r11, %r11", "\tshrq $63, %r11", "\txorq %%r11, .Lvp_site_%d(%%rip)" % n]


def instrument(text, fname, base=0):
    out, n, func = [], base, "?"
    for ln, l in enumerate(text.splitlines(), 1):
        m = re.match(r"^([A-Za-z_][\w.$]*):", l)
        if m and not m.group(1).startswith(".L"):
            func = m.group(1)
        mi, mf = INT.match(l), FP.match(l)
        if not mi and not mf:
            out.append(l)
            continue
        lab = re.match(r"^\s*(\S+:)", l)
        if lab:
            out.append(lab.group(1))
            l = l.replace(lab.group(1), "", 1)
        out.append("\tmovq %r11, vp_r11(%rip)")
        if mi:
            kind, size, op = mi.group(1), mi.group(2), mi.group(3)
            if not size:
                size = "q" if op.startswith("%r") and not op[-1] in "dwb" else "l"
            out.append("\t" + load(size, op))
            out += smear(n)
            # the dividend (r11 still holds garbage, the registers do not)
            for part in {"b": ["%ax"], "w": ["%ax", "%dx"], "l": ["%eax", "%edx"], "q": ["%rax", "%rdx"]}[size]:
                out.append("\t" + load({"b": "w"}.get(size, size), part))
                out += smear(n)
        else:
            for op in re.split(r",\s*(?![^()]*\))", mf.group(2)):
                if op.startswith("%xmm") or op.startswith("%ymm"):
                    x = op.replace("ymm", "xmm")
                    out.append("\tvmovq %s, %%r11" % x)
                else:
                    out.append("\tmovq vp_r11(%rip), %r11")
                    out.append("\tmovl %s, %%r11d" % op)
                out += smear(n)
        out.append("\tincq .Lvp_site_%d+8(%%rip)" % n)
        out.append("\tmovq vp_r11(%rip), %r11")
        out.append(l)
        out.append('\t.pushsection .rodata.vpn,"a",@progbits')
        out.append('.Lvp_name_%d: .asciz "%s:%s"' % (n, fname, func))
        out.append("\t.popsection")
        out.append('\t.pushsection vp_sites,"aw",@progbits')
        out.append("\t.balign 8")
        out.append(".Lvp_site_%d: .quad 0, 0, .Lvp_name_%d" % (n, n))
        out.append("\t.popsection")
        n += 1
    return "\n".join(out) + "\n", n - base


if __name__ == "__main__":
    t, n = instrument(open(sys.argv[1]).read(), sys.argv[1])
    sys.stdout.write(t)
