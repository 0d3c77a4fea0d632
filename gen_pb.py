#!/usr/bin/env python3
"""Generates plain C++ classes with protobuf's accessor API from a .proto file:  gen_pb.py in.proto out.pb.h
The protobuf runtime exists only as machine code here, so symbolic execution needs a source form of its messages."""
import re, sys
src = open(sys.argv[1]).read()
src = re.sub(r'//[^\n]*', '', src); src = re.sub(r'/\*.*?\*/', '', src, flags=re.S)
tok = re.findall(r'"[^"]*"|[A-Za-z_][\w.]*|-?\d[\w.]*|[{}=;\[\],<>()]', src)
pos = 0; pkg = ''; syntax = 'proto2'
SC = {'uint32': 'uint32_t', 'int32': 'int32_t', 'sint32': 'int32_t', 'uint64': 'uint64_t', 'int64': 'int64_t', 'sint64': 'int64_t', 'fixed64': 'uint64_t', 'fixed32': 'uint32_t', 'bool': 'bool', 'string': 'std::string', 'bytes': 'std::string', 'double': 'double', 'float': 'float'}
class M: pass
def nxt():
    global pos; pos += 1; return tok[pos - 1]
def expect(t):
    x = nxt(); assert x == t, (x, t, tok[pos-5:pos+5])
def skip_stmt():
    while nxt() != ';': pass
def enum(outer):
    e = M(); e.name = nxt(); e.full = (outer + '_' if outer else '') + e.name; e.vals = []; expect('{')
    while tok[pos] != '}':
        if tok[pos] in ('option', 'reserved'): skip_stmt(); continue
        n = nxt(); expect('='); v = nxt(); e.vals.append((n, int(v, 0)))
        while nxt() != ';': pass
    nxt(); return e
def message(outer):
    m = M(); m.name = nxt(); m.full = (outer + '_' if outer else '') + m.name; m.fields, m.msgs, m.enums, m.oneof = [], [], [], []
    expect('{'); body(m); return m
def body(m):
    while True:
        t = nxt()
        if t == '}': return
        if t == ';': continue
        if t == 'message': m.msgs.append(message(m.full))
        elif t == 'enum': m.enums.append(enum(m.full))
        elif t in ('reserved', 'option', 'extensions'): skip_stmt()
        elif t == 'oneof':
            nxt(); expect('{'); body(m)
        else:
            f = M(); f.label = 'optional'
            if t in ('optional', 'repeated', 'required'): f.label = t; t = nxt()
            f.type = t; f.name = nxt(); expect('='); nxt(); f.default = None
            if tok[pos] == '[':
                while nxt() != ']':
                    if tok[pos - 1] == 'default': expect('='); f.default = nxt()
            expect(';'); m.fields.append(f)
top = M(); top.full = ''; top.msgs, top.enums = [], []
while pos < len(tok):
    t = nxt()
    if t == 'syntax': expect('='); syntax = nxt().strip('"'); expect(';')
    elif t == 'package': pkg = nxt(); expect(';')
    elif t in ('import', 'option'): skip_stmt()
    elif t == 'message': top.msgs.append(message(''))
    elif t == 'enum': top.enums.append(enum(''))
out = ['// generated by gen_pb.py', '#pragma once', '#include <cstdint>', '#include <string>', '#include <memory>', '#include <vector>', '#include "google/protobuf/repeated_field.h"', f'namespace {pkg.replace(".", "::")} {{']
allm, alle = {}, {}
def walk(x):
    for e in x.enums: alle[e.full] = e
    for m in x.msgs: allm[m.full] = m; walk(m)
walk(top)
def resolve(t, m):
    t = t.split('.')[-1] if '.' not in t else t.replace('.', '_')
    s = m.full
    while True:
        c = (s + '_' if s else '') + t
        if c in allm or c in alle: return c
        if not s: raise Exception('unknown type ' + t)
        s = s.rsplit('_', 1)[0] if '_' in s else ''
for e in alle.values():
    pre = '' if e in top.enums else e.full.rsplit('_', 1)[0] + '_'
    out.append(f'enum {e.full} : int {{ ' + ', '.join(f'{pre}{n} = {v}' for n, v in e.vals) + ' };')
    out.append(f'inline const std::string& {e.full}_Name(int v) {{ static const std::string u; ' + ''.join(f'if (v == {v}) {{ static const std::string s("{n}"); return s; }} ' for n, v in {v: (n, v) for n, v in reversed(e.vals)}.values()) + 'return u; }')
    out.append(f'inline bool {e.full}_IsValid(int v) {{ return ' + ' || '.join(f'v == {v}' for n, v in e.vals) + '; }')
done = set()
def emit(m):
    if m.full in done: return
    done.add(m.full)
    for f in m.fields:
        if f.type not in SC and resolve(f.type, m) in allm: emit(allm[resolve(f.type, m)])
    o = [f'class {m.full} {{']; pub, priv, cp, cl = [], [], [], []
    for s in m.msgs: pub.append(f'using {s.name} = {s.full};'); emit(s)
    for e in m.enums:
        pub.append(f'using {e.name} = {e.full};')
        for n, v in e.vals: pub.append(f'static constexpr {e.full} {n} = {m.full}_{n};')
    for f in m.fields:
        n = f.name; isM = f.type not in SC and resolve(f.type, m) in allm; isE = f.type not in SC and not isM
        T = SC.get(f.type) or resolve(f.type, m); isS = T == 'std::string'
        if f.label == 'repeated':
            C = f'google::protobuf::RepeatedPtrField<{T}>' if (isM or isS) else f'google::protobuf::RepeatedField<{T}>'
            priv.append(f'{C} {n}_;')
            pub.append(f'int {n}_size() const {{ return (int){n}_.size(); }} const {C}& {n}() const {{ return {n}_; }} {C}* mutable_{n}() {{ return &{n}_; }} void clear_{n}() {{ {n}_ = {C}(); }}')
            if isM: pub.append(f'const {T}& {n}(int i) const {{ return {n}_.Get(i); }} {T}* add_{n}() {{ return {n}_.Add(); }} {T}* mutable_{n}(int i) {{ return {n}_.Mutable(i); }}')
            elif isS: pub.append(f'const {T}& {n}(int i) const {{ return {n}_.Get(i); }} template <class V> void add_{n}(V&& v) {{ *{n}_.Add() = std::string(std::forward<V>(v)); }} std::string* add_{n}() {{ return {n}_.Add(); }} template <class V> void set_{n}(int i, V&& v) {{ *{n}_.Mutable(i) = std::string(std::forward<V>(v)); }}')
            else: pub.append(f'{T} {n}(int i) const {{ return {n}_[i]; }} void add_{n}({T} v) {{ {n}_.push_back(v); }} void set_{n}(int i, {T} v) {{ {n}_[i] = v; }}')
            continue
        priv.append(f'bool has_{n}_ = false;')
        if isM:
            priv.append(f'std::unique_ptr<{T}> {n}_;'); cp.append(f'has_{n}_ = o.has_{n}_; {n}_.reset(o.{n}_ ? new {T}(*o.{n}_) : nullptr);')
            pub.append(f'bool has_{n}() const {{ return has_{n}_; }} const {T}& {n}() const {{ static const {T} dflt; return {n}_ ? *{n}_ : dflt; }} {T}* mutable_{n}() {{ has_{n}_ = true; if (!{n}_) {n}_ = std::make_unique<{T}>(); return {n}_.get(); }} void clear_{n}() {{ has_{n}_ = false; {n}_.reset(); }}')
            continue
        d = f.default
        if isE:
            e = alle[T]; pre = '' if e in top.enums else T.rsplit('_', 1)[0] + '_'; d = pre + (d or e.vals[0][0])
        elif isS: d = d or '""'
        else: d = d or ('false' if T == 'bool' else '0')
        priv.append(f'{T} {n}_ = {d};')
        if isS: pub.append(f'bool has_{n}() const {{ return has_{n}_; }} const std::string& {n}() const {{ return {n}_; }} template <class V> void set_{n}(V&& v) {{ has_{n}_ = true; {n}_ = std::string(std::forward<V>(v)); }} std::string* mutable_{n}() {{ has_{n}_ = true; return &{n}_; }} void clear_{n}() {{ has_{n}_ = false; {n}_ = {d}; }}')
        else: pub.append(f'bool has_{n}() const {{ return has_{n}_; }} {T} {n}() const {{ return {n}_; }} void set_{n}({T} v) {{ has_{n}_ = true; {n}_ = v; }} void clear_{n}() {{ has_{n}_ = false; {n}_ = {d}; }}')
    names = [f.name for f in m.fields]
    plain = [x for x in m.fields if not (x.label != 'repeated' and x.type not in SC and resolve(x.type, m) in allm)]
    asg = ' '.join(cp) + ' ' + ' '.join((f'has_{f.name}_ = o.has_{f.name}_; ' if f.label != 'repeated' else '') + f'{f.name}_ = o.{f.name}_;' for f in plain)
    o.append(' public:'); o += ['  ' + x for x in pub]
    o.append(f'  {m.full}() = default; {m.full}(const {m.full}& o) {{ *this = o; }} {m.full}& operator=(const {m.full}& o) {{ if (this == &o) return *this; {asg} return *this; }} {m.full}({m.full}&&) = default; {m.full}& operator=({m.full}&&) = default;')
    o.append(f'  static const {m.full}& default_instance() {{ static const {m.full} d; return d; }} void Clear() {{ *this = {m.full}(); }} void CopyFrom(const {m.full}& o) {{ *this = o; }}')
    o.append(' private:'); o += ['  ' + x for x in priv]; o.append('};')
    out.extend(o)
for m in list(allm.values()): emit(m)
out.append('}')
open(sys.argv[2], 'w').write('\n'.join(out) + '\n')
