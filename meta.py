#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 meta.py"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
PROPS = []
# P(id, title, statement, over, text, why, files, mech)
def P(id, title, statement, over, text, why, files, mech, note='', claim=True, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, claim=claim, observe=observe))
SYM = 'util/symbolize/'

P('D01', 'Binary field decoding is exact in both byte orders',
  'Every fixed-width integer, variable-length (LEB128) integer, address, offset and unit-length field read from a debug section is the value the format defines, for either byte order and 4- or 8-byte addresses. The reported encoded length is exactly the number of bytes the field occupies, and 32-bit versus 64-bit DWARF is told apart by the 0xffffffff escape.',
  ['inputs', 'configurations'], 'all byte strings, byte orders, address sizes and DWARF formats',
  'The only stable test opens one little-endian binary; other byte orders, widths and multi-byte LEB values are never decoded.',
  [SYM + 'bytereader.cc', SYM + 'bytereader.h', SYM + 'bytereader-inl.h'],
  [('ByteReader::ReadUnsignedLEB128/ReadSignedLEB128/ReadInitialLength', SYM + 'bytereader.cc')])
P('D02', 'A DWARF line program yields exactly the rows the standard defines',
  'Running any line-number program of DWARF versions 2 to 5 reports the directories, files and rows (address, file, line, column, discriminator, end-of-sequence) that the standard\'s state machine defines for its header and opcodes, in order. Unknown standard or extended opcodes are skipped by their declared length and do not disturb later rows, and the program ends exactly at the unit\'s declared length.',
  ['inputs', 'programs', 'configurations'], 'all headers, opcode sequences and operands; all versions, formats, byte orders and address sizes',
  'Tests only open a binary; no test compares a row, and the space of opcode sequences and operands is unbounded.',
  [SYM + 'dwarf2reader.cc', SYM + 'dwarf2reader.h'], [('LineInfo::ReadHeader/ReadLines/ProcessOneOpcode', SYM + 'dwarf2reader.cc')])
P('D03', 'Compilation-unit entries are decoded per their abbreviations, sibling-exact',
  'For every unit of DWARF versions 2 to 5, each debug entry is reported once with its tag, its parent nesting, and every attribute with the value its form encodes (including indexed strings and addresses, block, string, reference and flag forms), in order. Entries a client declines have their attributes skipped without misreading what follows (their children are still visited), and unit headers and lengths are honoured so that the next unit starts where this one ends.',
  ['inputs', 'programs', 'configurations'], 'all abbreviation tables, attribute forms and values, entry trees, versions, formats, byte orders, address sizes',
  'The tests never inspect a decoded attribute; forms, versions and skip decisions combine multiplicatively.',
  [SYM + 'dwarf2reader.cc', SYM + 'dwarf2reader.h'], [('CompilationUnit::Start/ReadAbbrevs/ProcessDIEs/ProcessAttribute/SkipAttribute', SYM + 'dwarf2reader.cc')])
P('D04', 'Address range lists decode to exactly the ranges they denote',
  'Reading a .debug_ranges or .debug_rnglists list from any offset yields exactly the address ranges it denotes, in order, with base-address selection and indexed addresses resolved as the standard says. Reading stops at the end-of-list entry.',
  ['inputs', 'configurations'], 'all entry sequences and operand values, byte orders, address sizes',
  'No test reads a range list.',
  [SYM + 'dwarf3ranges.cc', SYM + 'dwarf3ranges.h'], [('AddressRangeList::ReadRangeList/ReadDwarf3RangeList/ReadDwarf5RangeLists', SYM + 'dwarf3ranges.cc')])
P('D05', 'Nested address ranges map each address to its innermost range',
  'After any sequence of nested range insertions, looking up any address finds the value of the innermost inserted range containing it, and nothing when no inserted range contains it. Whatever is inserted, stored pieces are non-empty and disjoint and cover exactly the inserted addresses (or the insertion is refused).',
  ['inputs', 'histories'], 'all endpoint values and insertion orders, all query addresses',
  'No test; the interesting cases are coinciding endpoints and insertion orders.',
  [SYM + 'nonoverlapping_range_map.h'], [('NonOverlappingRangeMap::InsertRange/SplitRange/Find', SYM + 'nonoverlapping_range_map.h')])

P('D06', 'Every address symbolizes to its exact inline stack',
  'For any well-formed debug information, looking up an address returns the chain of inlined calls at that address, innermost first, each frame with its function\'s name (through abstract origins and specifications), declaration line, full source directory and file, and the line and discriminator of the line row or call site. Addresses without a line row, or on line 0, have no stack, and stale entries (functions below the loaded image, spanning another function, duplicated, or inline entries outside their parent) never contribute frames; with line tables alone, each address has its bare position.',
  ['inputs', 'configurations'], 'all address extents, line rows, call sites, units and query addresses',
  'The stable test only opens a binary; which frame owns an address depends on arbitrary nesting and coincidences of ranges.',
  ['legacy_addr2line.cc', SYM + 'addr2line_inlinestack.cc', SYM + 'functioninfo.cc', SYM + 'functioninfo.h'],
  [('Google3Addr2line::GetInlineStack', 'legacy_addr2line.cc'), ('InlineStackHandler', SYM + 'addr2line_inlinestack.cc')])


exec(open(os.path.join(V, 'props_sym.py')).read())

NA = []   # (id, reason) for properties not claimed

def design():
    import checks, oracles, glob
    out = []
    for p in PROPS:
        if not p['claim']: continue
        c = checks.PROPS[p['id']]; a, b = oracles.O[p['id']]
        out.append(f"\n### {p['id']} {p['title']}\n{p['statement']}\n* Code: {a}. Sources: {', '.join(sorted({s for j in c['jobs'] for s in j.get('srcs', [])}))}.\n* Oracle: {b}.\n* Bounds: {c.get('bounds', '')}." + (f" Outside: {c['outside']}." if c.get('outside') else '') + f"\n* Harness: {', '.join(sorted({'harness/' + j['harness'] for j in c['jobs']}))} ({', '.join(j['name'] for j in c['jobs'])}).\n* Why tests cannot settle it: {p['why']}")
    rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
    for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
        x = json.load(open(d)); rows.append(f"| {os.path.basename(os.path.dirname(d))} | {x['property']} | {x['needs']} | {x.get('caught_by', x['property'])} |")
    s = open(V + '/DESIGN.md').read()
    for tag, body in (('props', '\n'.join(out)), ('bugs', '\n'.join(rows))):
        i, j = s.index(f'<!-- {tag} -->'), s.index(f'<!-- /{tag} -->'); s = s[:i] + f'<!-- {tag} -->\n' + body + '\n' + s[j:]
    open(V + '/DESIGN.md', 'w').write(s)

def main():
    import checks
    with open(f'{V}/properties.jsonl', 'w') as f:
        for p in PROPS:
            an = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['observe']: an['observe_at'] = p['observe']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': an}) + '\n')
    cl = []
    for p in PROPS:
        if not p['claim']: continue
        c = checks.PROPS[p['id']]
        note = f"Bounds: {c.get('bounds', '')}." + (f" Outside: {c['outside']}." if c.get('outside') else '') + (' ' + p['note'] if p['note'] else '')
        cl.append({'property': p['id'], 'quick_cmd': f"python3 driver.py {p['id']} --tier quick", 'thorough_cmd': f"python3 driver.py {p['id']} --tier thorough",
                   'technique': 'symbolic execution of the LLVM bitcode of the real sources; SMT (Z3 QF_BV + difference logic) decides every branch and assertion',
                   'level': 'model_checking', 'level_note': note})
    m = {'version': 1, 'setup_cmd': 'python3 driver.py --engine', 'checks': cl,
         'not_applicable': [{'property': p['id'], 'reason': p['claim_reason']} for p in PROPS if p.get('claim_reason')] + [{'property': a, 'reason': b} for a, b in NA]}
    json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
    for p in PROPS: assert len(p['title']) <= 80, p['id']
    print(len(PROPS), 'properties', len(cl), 'checks')
main()
design()
