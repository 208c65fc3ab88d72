#!/usr/bin/env python3
"""Names of synchronisation primitives replaced by the controlled scheduler's
(in the copies only): std::sync, core::sync, parking_lot, std::thread, also when
imported through a group such as `use std::{collections::HashMap, sync::Mutex};`."""
import os, re, sys

def split(body):
    out, depth, cur = [], 0, ''
    for ch in body:
        if ch == ',' and depth == 0:
            out.append(cur); cur = ''; continue
        depth += (ch == '{') - (ch == '}')
        cur += ch
    out.append(cur)
    return [x.strip() for x in out if x.strip()]

def group(m):
    """use std::{a, sync::{..}, b}  ->  use std::{a, b}; use mcrt::sync::{..}"""
    pre, root, body = m.group(1), m.group(2), m.group(3)
    keep, out = [], []
    for item in split(body):
        if re.match(r'sync\b', item):
            out.append(f'{pre}use mcrt::{item};')
        else:
            keep.append(item)
    if not out:
        return m.group(0)
    return f'{pre}use {root}::{{{", ".join(keep)}}}; ' + ' '.join(out)

def change(s):
    s = re.sub(r'((?:pub(?:\([a-z]+\))? )?)use\s+(?:::)?(std|core)::\{((?:[^{}]|\{(?:[^{}]|\{[^{}]*\})*\})*)\}\s*;', group, s)
    s = re.sub(r'(?<![\w:])(?:::)?(?:std|core)::sync\b', 'mcrt::sync', s)
    s = re.sub(r'(?<![\w:])(?:::)?parking_lot\b(?=\s*(?:::|;|\sas\b))', 'mcrt::parking_lot', s)
    return s

for root in sys.argv[1:]:
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.rs'):
                p = os.path.join(d, f); s = open(p).read(); t = change(s)
                if t != s: open(p, 'w').write(t)
