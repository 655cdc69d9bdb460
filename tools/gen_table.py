"""Writes falsify/codec/src/table.rs from codec_table.py."""
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from codec_table import *
o = ["// Generated by tools/gen_table.py from tools/codec_table.py", "#![allow(dead_code)]"]
for n, t in (("PACKET_TYPES", PACKET_TYPES), ("REASONS", REASONS), ("QOS", QOS), ("PAYLOAD_FORMAT", PAYLOAD_FORMAT), ("RETAIN", RETAIN), ("PROPERTIES", PROPERTIES)):
    o.append(f"pub const {n}: &[(&str, u8)] = &[{', '.join('(%s, %d)' % (chr(34)+a+chr(34), b) for a, b in t)}];")
o.append("#[derive(Clone, Copy, PartialEq, Eq, Debug)]\npub enum K { U16, U32, Bool, Qos, Pf, Str, Str1, Bin, Vbi, Up }")
KN = {"u16": "U16", "u32": "U32", "bool": "Bool", "qos": "Qos", "pf": "Pf", "str": "Str", "str1": "Str1", "bin": "Bin", "vbi": "Vbi", "up": "Up"}
for p, d in PACKETS.items():
    o.append(f"pub const P_{p.upper()}: &[(&str, K, u8)] = &[{', '.join('(%s, K::%s, %d)' % (chr(34)+f+chr(34), KN[k], i) for f, k, i in d['props'])}];")
open(os.path.join(os.path.dirname(__file__), "..", "falsify/codec/src/table.rs"), "w").write("\n".join(o) + "\n")
