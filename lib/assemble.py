"""Splices contracts (contracts/*.vc) into the functions extracted from /repo and writes one Verus file."""
import json, os, re, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)

class Lost(Exception): pass

def norm_owner(o):
    return re.sub(r"\s*<.*$", "", o).strip()

class Contract:
    def __init__(s, key, opts): s.key = key; s.opts = opts; s.parts = {}; s.file = ''; s.line = 0
    def has(s, k): return k in s.parts

def expand(lines):
    """@each A,B=x,y|z,w ... @end : the enclosed lines once per alternative, {A} {B} replaced; nests"""
    out = []; it = iter(list(lines))
    for l in it:
        m = re.match(r'@each\s+(\S+?)=(\S+)\s*$', l)
        if not m: out.append(l); continue
        blk = []; depth = 0
        for x in it:
            if x.startswith('@each '): depth += 1
            if x.strip() == '@end':
                if depth == 0: break
                depth -= 1
            blk.append(x)
        for alt in m.group(2).split('|'):
            b2 = []
            for x in blk:
                for a, b in zip(m.group(1).split(','), alt.split(',')): x = x.replace('{%s}' % a, b)
                b2.append(x)
            out += expand(b2)
    return out

IMPLS = []   # (trait, type, opts, text): items of a trait impl that the source does not have (specification functions, proofs)
def load_contracts(names=None):
    """-> ordered dict key -> Contract ; plus list of raw ghost files"""
    cs = {}; del IMPLS[:]
    for fn in sorted(glob.glob(os.path.join(ROOT, 'contracts', '*.vc'))):
        cur = None; sec = None
        for n, l in enumerate(expand(open(fn)), 1):
            m = re.match(r'@impl\s+(\S+)\s+for\s+(\S+)(.*)$', l)
            if m:
                IMPLS.append([m.group(1), m.group(2), dict(kv.split('=', 1) for kv in m.group(3).split()), '']); cur = None; sec = 'impl'; continue
            if sec == 'impl' and not l.startswith('@'):
                if not l.startswith('##'): IMPLS[-1][3] += l
                continue
            m = re.match(r'@fn\s+(\S+)\s+(\S+)(.*)$', l)
            if m:
                opts = dict(kv.split('=', 1) for kv in m.group(3).split() if '=' in kv)
                flags = [kv for kv in m.group(3).split() if '=' not in kv]
                for f in flags: opts[f] = '1'
                key = m.group(1) + ' ' + m.group(2)
                if 'trait' in opts: key += ' ' + opts['trait']
                if 'inst' in opts: key += ' ' + opts['inst']
                cur = Contract(key, opts); cur.modname = m.group(1); cur.path = m.group(2); cur.file = os.path.basename(fn); cur.line = n
                if key in cs: raise SystemExit('duplicate contract ' + key)
                cs[key] = cur; sec = None; continue
            m = re.match(r'@(spec|at\s+.*|sub\s+.*|panics\??\s+.*)$', l)
            if m:
                sec = ' '.join(m.group(1).split()); cur.parts.setdefault(sec, ''); continue
            if l.startswith('##'): continue
            if cur is not None and sec is not None: cur.parts[sec] += l
    return cs

def find(ext, c):
    owner, name = c.path.rsplit('::', 1) if '::' in c.path else ('', c.path)
    r = []
    for f in ext['fns']:
        if f['file'] != c.modname or f['name'] != name: continue
        if 'test' in f['cfg'] or 'pgnumeric_verif' in f['cfg']: continue
        if norm_owner(f['owner']).replace(' ', '') != owner: continue
        if 'trait' in c.opts:
            if f['trait'].replace(' ', '') != c.opts['trait']: continue
        elif f['trait'] and 'anytrait' not in c.opts: continue
        if 'inst' in c.opts and c.opts['inst'] not in f['inst'].replace(' ', ''): continue
        if 'owner' in c.opts and f['owner'].replace(' ', '') != c.opts['owner']: continue
        r.append(f)
    if not r: raise Lost('function %s not found in /repo/src/%s.rs' % (c.path, c.modname))
    if len(r) > 1: raise Lost('function %s is ambiguous' % c.path)
    return r[0]

def splice(f, c, body_only_stub=False):
    """body text of f with contract parts in place of markers"""
    used = {'spec'}
    out = []
    for l in f['body'].split('\n'):
        if l.startswith('//@ '):
            k = 'at ' + l[4:].strip()
            if c is not None and k in c.parts:
                used.add(k); out.append(c.parts[k].rstrip('\n'))
            elif k.startswith('at inv') and c is not None:
                pass
            continue
        if l.strip(): out.append(l)
    body = '\n'.join(out)
    pre = []
    if c is not None:
        for k, v in c.parts.items():
            if k.startswith('panics ') or k.startswith('panics? '):
                # a documented panic: allowed exactly where the stated condition on the inputs holds
                r = k.split(' ', 1)[1]
                msg, cond = (r[:r.index('"', 1) + 1], r[r.index('"', 1) + 1:].strip()) if r[0] == '"' else r.split(' ', 1)
                used.add(k)
                n0 = body; g = 'pc__%d' % len(pre); pre.append('let ghost %s = %s;' % (g, cond))
                body = re.sub(r'__PANIC__\(%s\)' % re.escape(msg), lambda m: '{ proof { assert(%s); } __PANIC_DOC__() }' % g, body)
                body = re.sub(r'vassert_msg\((.*), %s\)' % re.escape(msg), lambda m: 'if !(%s) { proof { assert(%s); } __PANIC_DOC__::<()>() }' % (m.group(1), g), body)
                body = re.sub(r'__EXPECT__\((.*), %s\)' % re.escape(msg), lambda m: '(match %s { Some(x__) => x__, None => { proof { assert(%s); } __PANIC_DOC__() } })' % (m.group(1), g), body)
                if body == n0 and k.startswith('panics '): raise Lost('%s: documented panic %s not found' % (c.path, msg))
            if k.startswith('sub '):
                used.add(k)
                pat = k[4:]
                a, b = pat.split(' ==> ')
                if a not in body: raise Lost('%s: text `%s` not found' % (c.path, a))
                body = body.replace(a, b)
        miss = [k for k in c.parts if k not in used]
        if pre: body = body.replace('{\n', '{\n' + '\n'.join(pre) + '\n', 1)
        if miss: raise Lost('%s: anchors lost: %s' % (c.path, ', '.join(miss)))
    return body

STORE_FILES = ('binary', 'data')
def is_store(c): return c.modname in STORE_FILES or 'store' in c.opts
def ptr_types(x):
    """raw pointers in signatures and fields: the memory model of contracts/store_def.rs"""
    return re.sub(r'\* (const|mut) u8\b', 'PtrB', re.sub(r'\* (const|mut) NumericDigit\b', 'Ptr', x))

def fn_text(f, c, stub=False, newname=None):
    name = newname or f['name']
    gen = f['generics']
    if gen in ('', '< >'): gen = ''
    args = ', '.join(f['args'])
    ret = f['ret']
    args = ptr_types(args); ret = ptr_types(ret)
    selfty = None
    if c is not None and 'free' in c.opts and f['owner']:
        selfty = f['owner']; ig = f['impl_generics'].strip()
        gen = '< %s, %s >' % (ig[1:-1].strip(), gen[1:-1].strip()) if gen and ig not in ('', '< >') else gen or ig
        if gen in ('', '< >'): gen = ''
        rs = lambda x: re.sub(r'\bSelf\b', selfty, x.replace('Self :: Error', 'NumericTryFromError'))
        args = rs(args); ret = rs(ret)
    ret = ret.replace('Self :: Err ', 'NumericParseError ').replace('Self :: Err>', 'NumericParseError>')
    s = 'pub fn %s%s(%s)' % (name, gen, args)
    if ret: s += ' -> (ret: %s)' % ret
    if f['where']: s += ' ' + f['where']
    spec = c.parts.get('spec', '') if c else ''
    attrs = ''
    if stub: attrs = '#[verifier::external_body]\n'
    elif c is not None and 'rlimit' in c.opts: attrs = '#[verifier::rlimit(%s)]\n' % c.opts['rlimit']
    if c is not None and 'nodecreases' in c.opts: attrs += '#[verifier::exec_allows_no_decreases_clause]\n'
    if c is not None and 'spinoff' in c.opts: attrs += '#[verifier::spinoff_prover]\n'
    body = '{ unimplemented!() }\n' if stub else splice(f, c)
    if selfty: body = rs(body)
    if c is not None and 'vtrait' in c.opts:
        # operators of std::ops / std::cmp: the traits of contracts/traits.rs stand in for them
        s = s.replace('Self :: Output', 'NumericBuf'); body = re.sub(r'\b(Add|Sub|Mul|Div|Rem|Neg|Ord|PartialEq|PartialOrd|Hash) ::', r'V\1 ::', body)
        # `a == b` on references to numerics: core's blanket impl forwards to the referents
        if c.opts['vtrait'] == 'VPartialEq': body = re.sub(r'let ret__ = ([^;]*?) == ((?!Ordering)[^;]*);', r'let ret__ = VPartialEq :: eq(\1, \2);', body)
    # core::fmt: the types of contracts/text.rs stand in
    fmt = lambda x: re.sub(r"\bfmt :: Formatter(\s*<\s*'\w+\s*>)?", 'Formatter', re.sub(r'\bfmt :: Error\b', 'FmtError', re.sub(r'\bfmt :: Write\b', 'FmtWrite', re.sub(r'\bfmt :: Result\b', 'Result<(), FmtError>', x))))
    s = fmt(s); body = fmt(body)
    # associated functions of the integer types taking arrays: the target is little-endian
    body = re.sub(r'\b(u16|u32|i16|NumericDigit) :: from_[nl]e_bytes\b', lambda m: 'vne_' + m.group(1).replace('NumericDigit', 'i16'), body)
    # serde: the traits of contracts/serde.rs stand in
    srd = lambda x: re.sub(r'serde :: (?:de :: )?(?=Error|Deserialize\b)', 'De', re.sub(r'serde :: (?:ser|de) :: (?=Serializer|Deserializer)', 'V', x))
    s = srd(s); body = srd(body)
    if c is not None and 'value' in c.opts: s = s.replace('Self :: Value', c.opts['value'].replace('_', ' ')); body = body.replace('Self :: Value', c.opts['value'].replace('_', ' '))
    return attrs + s + '\n' + spec.rstrip('\n') + '\n' + body

def const_text(ext, names):
    out = []; done = set(); todo = list(names)
    while todo:
        n = todo.pop()
        if n in done or n not in ext['consts']: continue
        done.add(n); c = ext['consts'][n]
        for i in re.findall(r'\b[A-Z][A-Z0-9_]+\b', c['expr']): todo.append(i)
        ty = re.sub(r'^& ?str$', "&'static str", c['ty'].replace('NumericDigit', 'i16'))
        ex = re.sub(r'(?:(?:std|core) :: mem :: )?size_of :: < (\w+) >\(\)', lambda m: {'i32': '4', 'u32': '4', 'u16': '2', 'i16': '2', 'NumericDigit': '2', 'i64': '8', 'u8': '1'}.get(m.group(1), m.group(0)), c['expr'])
        out.append('pub const %s: %s = %s;' % (n, ty, ex))
    return '\n'.join(sorted(out))

def gh_items(gh):
    """[(lemma name or None, text)] : `pub proof fn` items by name, everything else as is"""
    items = []; attr = ''
    for l in gh.splitlines(True):
        if re.match(r'#\[.*\]\s*$', l): attr += l; continue
        m = re.match(r'(?:#\[[^\]]*\]\s*)*pub proof fn (\w+)', l)
        if m: items.append([m.group(1), attr + l]); attr = ''
        elif re.match(r'(pub|impl|//|global|uninterp|broadcast|mod|use)\b|//|#\[', l) or attr: items.append([None, attr + l]); attr = ''
        elif items: items[-1][1] += l
        else: items.append([None, l])
    return items

def reach(items, alltext):
    """lemmas that alltext (or a specification) reaches"""
    lem = {n: t for n, t in items if n}
    todo = [w for w in re.findall(r'\w+', alltext + ''.join(t for n, t in items if n is None)) if w in lem]; keep = set()
    while todo:
        n = todo.pop()
        if n in keep: continue
        keep.add(n); todo += [w for w in re.findall(r'\w+', lem[n]) if w in lem and w not in keep]
    return keep

def statement(t):
    """a lemma without its proof (proved in another chunk of the same run)"""
    e = t.rstrip()
    if not e.endswith('}'): raise SystemExit('lemma text does not end with its body: ' + t[:80])
    d = 0
    for i in range(len(e) - 1, -1, -1):
        if e[i] == '}': d += 1
        elif e[i] == '{':
            d -= 1
            if d == 0: return '#[verifier::external_body]\n' + re.sub(r'^(#\[[^\n]*\n)+', '', e[:i]) + '{ unimplemented!() }\n'
    raise SystemExit('unbalanced lemma ' + t[:80])

KEEP = []   # lemmas that state a property-level consequence (props.py `lemmas`)
class Assembly:
    """fns: list of (contract, stub?)"""
    def __init__(s, ext, contracts, keys, stubs=(), mode='abs', ghost=('math.rs', 'types.rs', 'layout.rs', 'store_%s.rs', 'lemmas.rs', 'lemmas_div.rs', 'lemmas_fact.rs', 'traits.rs', 'hash.rs', 'text.rs', 'parse.rs', 'serde.rs', 'lemmas_fast.rs', 'lemmas_pow.rs', 'lemmas_ln.rs'), extra_ghost=(), lemmas=None):
        # mode: 'def' = the memory behind the storage types is defined and storage functions can be proved; 'abs' = it is uninterpreted
        # lemmas: None = every reached lemma is proved here; a set = these are proved here, the others appear as statements
        s.ext = ext; s.text = ''; s.ranges = []; s.lost = []; s.info = {}
        groups = {}; order = []
        for k in list(keys) + [x for x in stubs if x not in keys]:
            c = contracts[k]; stub = k not in keys
            if mode == 'abs' and 'int' in c.opts:
                if not stub: s.lost.append((k, 'storage function in an upper chunk'))
                continue
            try: f = find(ext, c)
            except Lost as e: s.lost.append((k, str(e))); continue
            owner = c.opts.get('into', f['owner'])
            ig = f['impl_generics'] if 'into' not in c.opts else ''
            tr = f['trait']
            if 'vtrait' in c.opts: tr = re.sub(r'^\w+( :: \w+)*', c.opts['vtrait'], tr)
            if f['trait'] and 'asimpl' in c.opts: g = ('impl%s %s for %s' % (ig, tr, owner))
            elif f['owner'] and 'free' not in c.opts: g = 'impl%s %s' % (ig, owner)
            else: g = ''
            try: t = fn_text(f, c, stub, c.opts.get('as'))
            except Lost as e:
                s.lost.append((k, str(e)))
                try: t = fn_text(f, c, True, c.opts.get('as'))
                except Lost: continue
            if g.startswith('impl') and ' for ' in g: t = t.replace('pub fn', 'fn', 1)
            if g not in groups: groups[g] = []; order.append(g)
            groups[g].append((k, t, stub)); s.info[k] = f
        active = set(contracts[k].opts.get('group') for k in list(keys) + list(stubs))
        for tr, ty, o, text in IMPLS:
            if o.get('group') not in active: continue
            g = 'impl %s for %s' % (tr, ty)
            g = ([x for x in order if re.sub(r'^impl\s*(<[^>]*>)?|\s', '', x) == re.sub(r'^impl|\s', '', g)] or [g])[0]
            if g not in groups: groups[g] = []; order.append(g)
            t = ''
            for n, c in sorted(ext['consts'].items()):
                q = n.split('::')
                if len(q) == 3 and q[0] == tr and q[1] == ty: t += 'const %s: %s = %s;\n' % (q[2], c['ty'], c['expr'].replace('Self :: min_value ()', 'Self :: MIN').replace('Self :: min_value()', 'Self :: MIN'))
            for d in filter(None, o.get('defaults', '').split(',')):
                # a default method of the trait, instantiated for this type (unless the impl overrides it)
                own = [f for f in ext['fns'] if f['name'] == d and f['trait'] == tr and norm_owner(f['owner']) == ty]
                f = (own or [f for f in ext['fns'] if f['name'] == d and f['owner'] == 'trait ' + tr])[0]
                t += fn_text(f, None).replace('pub fn', 'fn', 1) + '\n'
            groups[g].insert(0, ('%s for %s' % (tr, ty), t + text, False))
        body = []
        for g in order:
            if g: body.append((None, g + ' {\n'))
            for k, t, st in groups[g]: body.append((k, t + '\n'))
            if g: body.append((None, '}\n'))
        alltext = ''.join(t for _, t in body)
        gh = ''.join(open(os.path.join(ROOT, 'contracts', g % mode if '%' in g else g)).read() for g in list(ghost) + list(extra_ghost))
        items = gh_items(gh)
        s.lemma_text = {n: t for n, t in items if n}
        if lemmas is None:
            keep = s.lemmas = reach(items, alltext + ' ' + ' '.join(KEEP))
            gh = ''.join(t for n, t in items if n is None or n in keep)
        else:
            # what the proofs in this chunk mention
            base = alltext + ''.join(t for n, t in items if n is None or n in lemmas)
            need = set(re.findall(r'\w+', base)) & set(s.lemma_text) | set(lemmas)
            grow = True
            stmt = {n: statement(s.lemma_text[n]) for n in need}
            while grow:
                more = (set(w for n in need if n not in lemmas for w in re.findall(r'\w+', stmt[n])) & set(s.lemma_text)) - need
                need |= more; grow = bool(more); stmt.update({n: statement(s.lemma_text[n]) for n in more})
            gh = ''.join(t if n is None or n in lemmas else stmt[n] for n, t in items if n is None or n in need)
        # floating point only where it is used
        if re.search(r'\brv\(|\bf64\b', alltext + gh): gh = open(os.path.join(ROOT, 'contracts', 'float.rs')).read() + gh
        st = ''
        for x in ext['structs']:
            if x['name'] == 'Typmod': st += '#[derive(Copy, Clone)] pub struct Typmod(%s);\n' % ', '.join('pub ' + t for n, t in x['fields'])
            if x['name'] == 'NumericVar':
                st += 'pub struct NumericVar%s { %s }\n' % (x['generics'], ', '.join('pub %s: %s' % (n, t) for n, t in x['fields']))
            if x['name'] in ('Decimal', 'NumericParseError'):
                st += 'pub struct %s%s { %s }\n' % (x['name'], x['generics'], ', '.join('pub %s: %s' % (n, t) for n, t in x['fields']))
            if mode == 'def' and x['name'] in ('NumericData', 'NumericBuf', 'NumericShort', 'NumericLong', 'NumericBinary'):
                st += 'pub struct %s { %s }\n' % (x['name'], ', '.join('%s%s: %s' % ('' if x['name'] == 'NumericBuf' else 'pub ', n, ptr_types(t)) for n, t in x['fields']))
            if x['name'] == 'NumericChoice' and [(n, t.replace(' ', '')) for n, t in x['fields']] != [('n_header', 'UnionField<u16>'), ('n_long', 'UnionField<NumericLong>'), ('n_short', 'UnionField<NumericShort>'), ('_data', '[u16;2]')]:
                s.lost.append(('binary NumericChoice', 'fields of NumericChoice changed'))
        for x in ext.get('enums', []):
            if x['name'] in ('Sign', 'ParseErrorKind'):
                st += 'pub enum %s { %s }\n' % (x['name'], ', '.join(n + (' = ' + d if d else '') for n, d, plain in x['variants'] if plain))
        ids = set(re.findall(r'\b[A-Z][A-Z0-9_]+\b', alltext + gh + st))
        head = '#![allow(warnings)]\nuse vstd::prelude::*;\n#[allow(unused_imports)] use vstd::string::*;\n#[allow(unused_imports)] use std::cmp::Ordering;\n#[allow(unused_imports)] use std::convert::{TryFrom, TryInto};\nverus! {\npub type NumericDigit = i16;\n'
        head += const_text(ext, sorted(ids)) + '\n' + st
        s.text = head
        s.mark('ghost', gh)
        for k, t in body:
            if k is None: s.text += t
            else: s.mark(k, t)
        s.text += '} // verus!\nfn main() {}\n'
    def mark(s, k, t):
        a = s.text.count('\n') + 1
        s.text += t
        s.ranges.append((a, s.text.count('\n') + 1, k))
    def owner_of_line(s, n):
        for a, b, k in s.ranges:
            if a <= n < b: return k
        return None

if __name__ == '__main__':
    ext = json.load(open(sys.argv[1])); cs = load_contracts()
    keys = [k for k in cs if 'off' not in cs[k].opts and 'trusted' not in cs[k].opts and (len(sys.argv) < 4 or any(a in k for a in sys.argv[3:]))]
    mode = os.environ.get('MODE', 'abs')
    keys = [k for k in keys if is_store(cs[k]) == (mode == 'def')]
    stubs = [k for k in cs if k not in keys and 'off' not in cs[k].opts]
    if mode == 'def': stubs = [k for k in stubs if cs[k].modname == 'var' or is_store(cs[k]) or k in os.environ.get('STUBS', '').split(',')]
    KEEP[:] = re.findall(r'pub proof fn (\w+)', ''.join(open(x).read() for x in glob.glob(os.path.join(ROOT, 'contracts', '*.rs')))) if os.environ.get('ALL_LEMMAS') else os.environ.get('KEEP_LEM', '').split()
    a = Assembly(ext, cs, keys, stubs, mode=mode)
    for k, e in a.lost: print('LOST', k, e, file=sys.stderr)
    open(sys.argv[2], 'w').write(a.text)
