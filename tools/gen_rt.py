#!/usr/bin/env python3
"""Assembles the units of the broker, the client and the packet stream from contracts/*.vrs."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))
C = os.path.join(HERE, "..", "contracts")
STRUCTURAL = "#[derive(Copy, Clone, PartialEq, Eq, Structural, Debug)]"
HEAD = ["#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, non_snake_case, non_upper_case_globals)]",
        "use vstd::prelude::*;", "verus! {", "global size_of usize == 8;"]
def text(f):
    """a contracts file; `//@include F` is replaced by F, `//@spec F NAMES` by those spec functions of F"""
    out = []
    for l in open(os.path.join(C, f)).read().split("\n"):
        w = l.split()
        if l.startswith("//@include "): out.append(text(w[1]))
        elif l.startswith("//@spec "):
            src = open(os.path.join(C, w[1])).read()
            for n in w[2:]: out.append(re.search(r"^pub open spec fn %s\((?:[^\n]*\}$|.*?^\}$)" % n, src, re.M | re.S).group(0))
        else: out.append(l)
    return "\n".join(out)
def unit(mods, enums, broadcast="string_ext", pre=""):
    o = list(HEAD) + ([pre] if pre else [])
    for n in mods: o.append(f"pub use {n}::*;")
    for s, n in enums: o.append(f"//@item {s} {n} | {STRUCTURAL}")
    for n in mods:
        o.append(f"pub mod {n} {{\nuse vstd::prelude::*;\nuse super::*;")
        if n != "rt": o.append(f"broadcast use {{{broadcast}}};")
        o.append(text(n + ".vrs"))
        o.append("}")
    o.append("fn main() { }\n}")
    return "\n".join(o)
def topic(): return unit(["rt", "topic"], [("mqtt", "QoSLevel")])
ENUMS = [("mqtt", "QoSLevel"), ("mqtt", "PacketType"), ("mqtt", "PayloadFormat"), ("mqtt", "Reason")]
HEAPED = "//@heap m:add m:activate m:deactivate route_publish publish_will initiate_will release_session deactivate_session handle_takeover handle_connect handle_pre_connect handle_packet serve_client handle_client"
def session(): return unit(["rt", "message", "session"], ENUMS, pre=HEAPED)
def broker(): return unit(["rt", "message", "topic", "session", "broker", "conn"], ENUMS, pre=HEAPED)
def message(): return unit(["rt", "message"], ENUMS)
CENUMS = [("client", "QoSPacket")]
LOGGED = "//@flat\n//@log m:try_send m:send m:recv m:handle_packet m:write_next m:handle_keep_alive m:connect m:start m:stop m:ping m:subscribe sleep keep_alive_timer forward_pending vx_start_task"
def client(): return unit(["rt", "message", "client", "capp"], ENUMS + CENUMS, pre=LOGGED)
def stream(): return unit(["rt", "stream"], [])
if __name__ == "__main__":
    import sys
    print(globals()[sys.argv[1]]())
