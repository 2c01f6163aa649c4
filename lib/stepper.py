"""x86_64 programs executed one instruction at a time (src/stepper.c, ptrace)."""
import os
import re
import struct
import subprocess

import real
import thumbemu
import tool

HERE = os.path.dirname(os.path.abspath(__file__))


def binary():
    out = os.path.join(tool.BUILD, "stepper")
    src = os.path.join(HERE, "..", "src", "stepper.c")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        os.makedirs(tool.BUILD, exist_ok=True)
        tmp = f"{out}.{os.getpid()}"
        subprocess.run(["gcc", "-O2", "-o", tmp, src], check=True)
        os.replace(tmp, out)
    return out


LINE = re.compile(r"^\s*([0-9a-f]+):\s+((?:[0-9a-f]{2} )+)\s*(\S+)?")


def disassemble(path):
    """address -> (length, kind)"""
    t = subprocess.run(["llvm-objdump-18", "-d", "--no-print-imm-hex", path], capture_output=True, text=True, check=True).stdout
    code, last = {}, None
    for l in t.split("\n"):
        m = LINE.match(l)
        if not m:
            continue
        a, n, mn = int(m.group(1), 16), len(m.group(2).split()), m.group(3)
        if mn is None:      # the bytes of a long instruction go on
            code[last] = (code[last][0] + n, code[last][1])
            continue
        kind = "call" if mn.startswith("call") else "ret" if mn.startswith("ret") else "jump" if mn.startswith("jmp") or mn[0] == "j" else ""
        code[a] = (n, kind)
        last = a
    return code


def run(im, path, seed, runs, limit):
    code = disassemble(path)
    mon = real.Monitor(im, 8)
    ends, steps = {}, 0
    for r in range(runs):
        p = subprocess.run([binary(), path, str(limit), str((seed * 7919 + r * 104729 + 1) & 0xFFFFFFFF)], capture_output=True, timeout=300)
        if p.returncode:
            raise RuntimeError(p.stderr.decode())
        why = p.stderr.decode().strip()
        n = len(p.stdout) // 16
        steps += n
        log = struct.unpack(f"<{2 * n}Q", p.stdout[:16 * n])
        if n:
            mon.start(log[0], log[1])
            try:
                for k in range(0, 2 * n - 2, 2):
                    pc, sp, nxt, sp2 = log[k:k + 4]
                    ln, kind = code[pc]
                    if kind == "call":
                        mon.call(pc, pc + ln, nxt, sp2)
                    elif kind == "ret":
                        mon.jump(pc, nxt, sp2)
                    elif kind == "jump":
                        if nxt != pc + ln or nxt in im.functions:
                            mon.jump(pc, nxt, sp2)
                        else:
                            mon.step(pc, nxt, sp2)
                    else:
                        mon.step(pc, nxt, sp2)
            except thumbemu.Stop as e:
                why = "stop: " + str(e)
            mon.finish()
        ends[why] = ends.get(why, 0) + 1
    return mon, ends, steps
