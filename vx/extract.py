"""Mechanical extraction of /repo's real modules into one Verus crate.

What is inserted: contracts between a signature and its body, a name for the
return value, loop invariants, closure contracts, proof blocks (ghost code),
`use` lines and ghost prelude text.  What is dropped is listed in DESIGN.md
(comments, attributes other than a few derives, #[cfg(test)] items, items the
annotation file lists with @drop).  What is rewritten: only the @rewrite rules of
the annotation file, which are applied as token-sequence substitutions and
counted in the evidence.
"""
import os
import re
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rustlex import File, find_loops, find_closures, norm, lex, Tok, match_table  # noqa


class SpecError(Exception):
    pass


# --------------------------------------------------------------------------
# annotation files
# --------------------------------------------------------------------------
class FnSpec:
    def __init__(self, key):
        self.key = key
        self.ret = 'r'
        self.spec = ''
        self.attrs = ''
        self.start = ''
        self.loops = {}
        self.loopattrs = {}
        self.loopstart = {}
        self.loopend = {}
        self.afterloop = {}
        self.beforeloop = {}
        self.closures = {}
        self.before = []       # (pattern, nth, text)
        self.after = []
        self.rewrites = []     # (pattern, replacement)
        self.sigrewrites = []
        self.must = []
        self.loopcount = None
        self.external = False
        self.bytelits = False
        self.hoist = False     # types defined inside the body move in front of the item
        self.cancel = ''       # asserted before every statement that awaits
        self.props = []
        self.sig = None


class Spec:
    def __init__(self):
        self.fns = {}
        self.drops = []
        self.keeps = []
        self.modrewrites = []   # (module regex, pattern, replacement): anywhere in the module's text
        self.modprelude = {}
        self.prelude = []
        self.rewrites = []
        self.typeattrs = {}
        self.keep_derives = {}
        self.expand = {}
        self.crateattrs = ''
        self.tail = []
        self.expr_macros = []   # (name, file of its single-arm definition): expanded where it is used
        self.strip_macros = []  # statements of this macro are left out
        self.trace_macros = []  # of this one, what it shows is kept: traced(&x) for each value
        self.lower_write = []   # modules (regex) in which write!(..) is lowered to its parts

    def load(self, path, subst=None):
        self.load_text(open(path).read(), subst)

    def load_text(self, text, subst=None):
        for k, v in (subst or {}).items():
            text = text.replace(k, v)
        cur = None
        lines = text.split('\n')
        i = 0
        blocks = []
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('@'):
                body = []
                i += 1
                while i < len(lines) and not lines[i].startswith('@'):
                    body.append(lines[i])
                    i += 1
                blocks.append((ln[1:].strip(), '\n'.join(body).strip('\n')))
            else:
                i += 1
        for head, body in blocks:
            w = head.split(None, 1)
            cmd = w[0]
            arg = w[1] if len(w) > 1 else ''
            if cmd == 'fn':
                cur = self.fns.get(arg.strip())
                if cur is None or body.strip():
                    cur = FnSpec(arg.strip())
                self.fns[cur.key] = cur
                if body.strip():
                    cur.spec = body
            elif cmd == 'ret':
                cur.ret = arg
            elif cmd == 'props':
                cur.props = arg.split()
            elif cmd == 'sig':
                cur.sig = body
            elif cmd == 'external_body':
                cur.external = True
            elif cmd == 'hoist':
                cur.hoist = True
            elif cmd == 'bytelits':
                cur.bytelits = True
            elif cmd == 'attrs':
                cur.attrs = (arg + '\n' + body).strip()
            elif cmd == 'cancel':
                cur.cancel = body
            elif cmd == 'start':
                cur.start = body
            elif cmd in ('loop', 'loopstart', 'loopend', 'afterloop', 'beforeloop', 'loopattrs'):
                {'loop': cur.loops, 'loopstart': cur.loopstart, 'loopend': cur.loopend,
                 'afterloop': cur.afterloop, 'beforeloop': cur.beforeloop, 'loopattrs': cur.loopattrs}[cmd][int(arg)] = body
            elif cmd == 'closure':
                n, sig = arg.split(None, 1)
                cur.closures[int(n)] = (sig, body)
            elif cmd in ('before', 'after'):
                m = re.match(r'(?:#(\d+)\s+)?(.*)', arg)
                getattr(cur, cmd).append((m.group(2), int(m.group(1) or 0), body))
            elif cmd == 'fnrewrite':
                a, b = body.split('\n=>\n') if '\n=>\n' in body else body.split('=>>')
                cur.rewrites.append((a.strip(), b.strip()))
                if arg == 'must':
                    cur.must.append(a.strip())
            elif cmd == 'sigrewrite':
                a, b = body.split('=>>')
                cur.sigrewrites.append((a.strip(), b.strip()))
            elif cmd == 'rewrite':
                a, b = body.split('\n=>\n') if '\n=>\n' in body else body.split('=>>')
                self.rewrites.append((arg, a.strip(), b.strip()))
            elif cmd == 'drop':
                self.drops.append(arg)
            elif cmd == 'modrewrite':
                a, b = body.split('=>>')
                self.modrewrites.append((arg, a.strip(), b.strip()))
            elif cmd == 'keep':
                self.keeps.append(arg)
            elif cmd == 'module':
                self.modprelude[arg] = self.modprelude.get(arg, '') + body + '\n'
            elif cmd == 'exprmacro':
                self.expr_macros.append(tuple(arg.split()))
            elif cmd == 'stripmacro':
                self.strip_macros.append(arg)
            elif cmd == 'tracemacro':
                self.trace_macros.append(arg)
            elif cmd == 'lowerwrite':
                self.lower_write.append(arg)
            elif cmd == 'prelude':
                self.prelude.append(body)
            elif cmd == 'tail':
                self.tail.append(body)
            elif cmd == 'typeattr':
                self.typeattrs[arg] = body
            elif cmd == 'crateattrs':
                self.crateattrs += body + '\n'
            elif cmd == 'include':
                self.load(os.path.join(os.path.dirname(path), arg), subst)
            elif cmd == 'note':
                pass
            else:
                raise SpecError('unknown @' + cmd)


# --------------------------------------------------------------------------
# token-sequence matching  (pattern tokens; $x matches one balanced expression
# chunk up to the next pattern token; $i an identifier)
# --------------------------------------------------------------------------
def pat_toks(p):
    out = []
    i = 0
    for m in re.finditer(r'\$\w+', p):
        out += [('t', t.t) for t in lex(p[i:m.start()])]
        out.append(('v', m.group(0)))
        i = m.end()
    out += [('t', t.t) for t in lex(p[i:])]
    return out


def match_at(f, pat, i, end):
    T, mt = f.toks, f.mt
    binds = {}
    j = i
    for n, (k, v) in enumerate(pat):
        if k == 't':
            if j >= end or T[j].t != v:
                return None
            j += 1
        else:
            if v.startswith('$i_'):
                if T[j].k != 'id':
                    return None
                if v in binds and norm(T[j:j + 1]) != norm(T[binds[v][0]:binds[v][1]]):
                    return None
                binds.setdefault(v, (j, j + 1))
                j += 1
                continue
            stop = pat[n + 1][1] if n + 1 < len(pat) else None
            s = j
            while j < end:
                if T[j].t == stop and T[j].k != 'str':
                    break
                if T[j].k == 'p' and T[j].t in '([{':
                    j = mt[j] + 1
                    continue
                if T[j].k == 'p' and T[j].t in ')]}':
                    break
                if T[j].t == ';' and not v.startswith('$s_'):
                    break
                j += 1
            if j == s and not v.startswith('$o_'):
                return None
            if v in binds and norm(T[s:j]) != norm(T[binds[v][0]:binds[v][1]]):
                return None
            binds.setdefault(v, (s, j))
    return j, binds


class Unit:
    """Extraction of a set of real modules for one build configuration."""

    def __init__(self, repo, modules, spec, features, target_features=(), arch='x86_64', overrides=None):
        # modules: dict module path -> source file (relative), '' is lib.rs
        self.repo = repo
        self.modules = modules
        self.spec = spec
        self.features = set(features)
        self.tf = set(target_features)
        self.arch = arch
        self.lost = []          # annotation anchors not found
        self.fn_lines = []      # (line0, line1, key) in the output
        self.rewrite_count = {}
        self.used_specs = set()
        self.fn_keys = []
        self.overrides = overrides or {}
        self.dropped = []
        self.hoisted = []
        self.force_external = set()
        self.can_externalize = set()   # extracted functions with a body
        self.unannotated = set()       # ... that carry no annotation of ours
        self.loop_kinds = {}   # annotated function -> the kinds of its loops, in order
        self.opaque = set()            # ... that contain a closure without a contract
        self.probe = False             # vacuity probing: assert(false) at every entry and loop start

    def probe_lines(self):
        return [(n, self.fn_at(n)) for n, l in enumerate(self.text.split('\n'), 1) if 'vp_probe_' in l]

    # ---- cfg evaluation
    def cfg_eval(self, toks):
        pos = [0]

        def ev():
            t = toks[pos[0]]
            pos[0] += 1
            name = t.t
            if pos[0] < len(toks) and toks[pos[0]].t == '(':
                pos[0] += 1
                vals = []
                while toks[pos[0]].t != ')':
                    vals.append(ev())
                    if toks[pos[0]].t == ',':
                        pos[0] += 1
                pos[0] += 1
                return {'all': all, 'any': any}[name](vals) if name != 'not' else not vals[0]
            if pos[0] < len(toks) and toks[pos[0]].t == '=':
                val = toks[pos[0] + 1].t.strip('"')
                pos[0] += 2
                if name == 'feature':
                    return val in self.features
                if name == 'target_arch':
                    return val == self.arch
                if name == 'target_feature':
                    return val in self.tf
                return False
            return name in ('debug_assertions',)
        return ev()

    def cfg_ok(self, attrs_norm):
        for a in attrs_norm:
            m = re.match(r'#!?\[cfg\((.*)\)\]$', a, re.S)
            if m and not self.cfg_eval(lex(m.group(1))):
                return False
        return True

    # ---- macro expansion of listed item macros through rustc itself
    def expand_macro_items(self, modpath, f):
        inv = [it for it in f.items if it.kind == 'macro' and it.name in ('tags_def', 'generate_getters')]
        if not inv:
            return f
        texts = {}
        defs = ''
        for it in f.items:
            if it.kind == 'macro_rules':
                defs += f.src[it.start:it.end] + '\n'
        if any(i.name == 'generate_getters' for i in inv):
            mf = File(open(os.path.join(self.repo, 'src/msg/macros.rs')).read())
            for it in mf.items:
                if it.kind == 'macro_rules' and it.name == 'generate_getters':
                    defs += mf.src[it.start:it.end] + '\n'
        out = f.src
        for it in sorted(inv, key=lambda x: -x.start):
            body = '#![feature(no_core)]\n#![no_core]\n' + defs + f.src[it.start:it.end] + '\n'
            body = re.sub(r'#\[derive\([^)]*\)\]', '', body)
            env = dict(os.environ, RUSTC_BOOTSTRAP='1')
            env.pop('RUSTUP_TOOLCHAIN', None)
            p = subprocess.run(['rustc', '-Zunpretty=expanded', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'x', '-'], input=body, capture_output=True, text=True, env=env)
            exp = p.stdout
            if 'impl' not in exp:
                raise SpecError('macro expansion failed: ' + p.stderr[:500])
            # drop the macro definitions and crate attributes that come first
            ef = File(exp)
            keep = ''
            for e in ef.items:
                if e.kind in ('macro_rules', 'use', 'extern'):
                    continue
                keep += exp[e.start:e.end] + '\n'
            texts[it.start] = keep
            out = out[:it.start] + keep + out[it.end:]
        # and drop the macro_rules definitions
        nf = File(out)
        for it in sorted(nf.items, key=lambda x: -x.start):
            if it.kind == 'macro_rules':
                out = out[:it.start] + out[it.end:]
        return File(out)

    def expand_cfg_if(self, f):
        out = f.src
        changed = False
        for it in sorted(f.items, key=lambda x: -x.start):
            if it.kind == 'macro' and it.name == 'cfg_if::cfg_if':
                T, mt = f.toks, f.mt
                a, b = it.args_tok
                i = a + 1
                chosen = ''
                while i < b:
                    if T[i].t == 'else':
                        i += 1
                        continue
                    if T[i].t == 'if':
                        j = i + 1  # '#'
                        close = mt[j + 1]
                        cond = norm(T[j:close + 1])
                        blk = close + 1
                        if self.cfg_ok([cond]):
                            chosen = f.src[T[blk].e:T[mt[blk]].s]
                            break
                        i = mt[blk] + 1
                        continue
                    if T[i].t == '{':
                        chosen = f.src[T[i].e:T[mt[i]].s]
                        break
                    i += 1
                out = out[:it.start] + chosen + out[it.end:]
                changed = True
        return File(out) if changed else f

    def load(self, modpath):
        path = os.path.join(self.repo, self.modules[modpath])
        src = self.overrides.get(self.modules[modpath]) or open(path).read()
        f = File(src)
        f = self.expand_cfg_if(f)
        f = self.expand_macro_items(modpath, f)
        f = self.expand_expr_macros(modpath, f)
        return f

    # ---- macros in expression position
    def expand_expr_macros(self, modpath, f):
        sp = self.spec
        src = f.src
        for d, pat, rep in sp.modrewrites:
            if not re.fullmatch(d, modpath):
                continue
            pt = pat_toks(pat)
            g = File(src)
            eds, i = [], 0
            while i < len(g.toks):
                r = match_at(g, pt, i, len(g.toks))
                if r:
                    txt = rep
                    for v, (x, y) in r[1].items():
                        txt = txt.replace(v, src[g.toks[x].s:g.toks[y - 1].e] if y > x else '')
                    eds.append((g.toks[i].s, g.toks[r[0] - 1].e, txt))
                    i = r[0]
                else:
                    i += 1
            if eds:
                src = apply_edits(src, 0, len(src), eds)
                self.rewrite_count[pat] = self.rewrite_count.get(pat, 0) + len(eds)
        if not (sp.expr_macros or sp.strip_macros or sp.trace_macros or sp.lower_write):
            return File(src) if src != f.src else f
        defs = {n: macro_arm(open(os.path.join(self.repo, p)).read(), n) for n, p in sp.expr_macros}
        lower = any(re.fullmatch(d, modpath) for d in sp.lower_write)
        for _ in range(500):
            T = lex(src)
            mt = match_table(T)
            done = True
            for i in range(len(T) - 2, -1, -1):      # innermost (last) first
                if T[i].k != 'id' or T[i + 1].t != '!' or T[i + 2].t not in ('(', '{', '['):
                    continue
                n = T[i].t
                a, b = i + 2, mt[i + 2]
                if n in sp.strip_macros:
                    e = b
                    rep = '()'
                    if b + 1 < len(T) and T[b + 1].t == ';':
                        e, rep = b + 1, ''
                    elif T[b + 1].t == '}' and T[i - 1].t in (';', '{', '}'):
                        rep = ''
                    what = f'{n}!(..) left out'
                elif n in sp.trace_macros and T[i - 1].t != '::':
                    xs = trace_args(src, T, mt, a, b)
                    if xs is None:
                        continue
                    e = b
                    stmt = b + 1 < len(T) and T[b + 1].t == ';'
                    rep = ' '.join(f'crate::vc::traced(&({x}));' for x in xs)
                    if stmt:
                        e = b + 1
                    elif not (T[b + 1].t == '}' and T[i - 1].t in (';', '{', '}')):
                        rep = '{ ' + rep + ' }' if xs else '()'
                    what = f'{n}!(..): of each value it shows, that it may be shown'
                elif n in defs:
                    e, rep, what = b, expand_arm(defs[n], src, T, mt, a, b), f'{n}!(..) expanded from its definition'
                elif n in ('write', 'writeln', 'format') and lower:
                    r = lower_write(src, T, mt, a, b, n)
                    if r is None:
                        continue
                    e, rep, what = b, r, n + '!(..) lowered to its literal pieces and arguments'
                else:
                    continue
                src = src[:T[i].s] + rep + src[T[e].e:]
                self.rewrite_count[what] = self.rewrite_count.get(what, 0) + 1
                done = False
                break
            if done:
                break
        return File(src) if src != f.src else f

    # ---- emission
    def build(self):
        sp = self.spec
        out = ['#![allow(unused, non_upper_case_globals, non_snake_case, dead_code)]', sp.crateattrs]
        out.append('use vstd::prelude::*;')
        out += [p for p in sp.prelude]
        roots = [m for m in self.modules if '::' not in m]
        for m in roots:
            if m == '':
                continue
            out.append(self.emit_module(m, 0))
        if '' in self.modules:
            f = self.load('')
            out.append('verus! {\n' + sp.modprelude.get('', '') + self.emit_items(f, f.items, '') + '\n}')
        out += sp.tail
        out.append('fn main() {}')
        text = '\n'.join(out)
        for key in sp.fns:
            if key not in self.used_specs:
                self.lost.append(('fn', key))
        self.text = text
        self.index(text)
        return text

    def emit_module(self, m, depth, vis='pub'):
        f = self.load(m)
        s = f'{vis} mod {m.split("::")[-1]} {{\nuse vstd::prelude::*;\n'
        subs = []
        body = self.emit_items(f, f.items, m, subs)
        s += 'verus! {\n' + self.spec.modprelude.get(m, '') + body + '\n}\n'
        for sub, v in subs:
            s += self.emit_module(sub, depth + 1, v)
        s += '}\n'
        return s

    def dropped_by_rule(self, key):
        if any(re.fullmatch(d, key) for d in self.spec.keeps):
            return False
        for d in self.spec.drops:
            if re.fullmatch(d, key):
                return True
        return False

    def emit_items(self, f, items, m, subs=None, impl=None):
        s = ''
        for it in items:
            attrs = [a[2] for a in it.attrs]
            if not self.cfg_ok(attrs):
                continue
            key = m + '|' + (impl.name + '|' if impl else '') + (it.name if it.kind != 'use' else 'use ' + it.name)
            if self.dropped_by_rule(key):
                self.dropped.append(key)
                continue
            if it.kind == 'mod':
                sub = (m + '::' if m else '') + it.name
                pre = self.spec.modprelude.get(sub, '')
                if sub in self.modules:
                    vis = f.src[it.vis_start:it.start + 0] if False else 'pub'
                    if subs is not None:
                        subs.append((sub, vis))
                elif it.body is not None and subs is not None:
                    # inline module
                    s += f'pub mod {it.name} {{ use vstd::prelude::*;\n' + pre + self.emit_items(f, it.children, sub) + '}\n'
                else:
                    self.dropped.append(key)
                continue
            if it.kind == 'macro_rules' or (it.kind == 'macro'):
                self.dropped.append(key)
                continue
            if it.kind == 'fn':
                it.force_pub = not (impl is not None and (impl.kind == 'trait' or impl.is_trait_impl))
                s += self.emit_fn(f, it, key) + '\n'
            elif it.kind in ('impl', 'trait'):
                vis = f.src[it.vis_start:it.header[0]]
                inner = self.emit_items(f, it.children, m, None, it)
                extra = self.spec.modprelude.get(key, '')
                s += ''.join(self.hoisted)
                self.hoisted = []
                s += vis + f.src[it.header[0]:it.header[1]] + ' {\n' + extra + inner + '}\n'
            elif it.kind in ('struct', 'enum', 'union'):
                s += self.type_attrs(attrs, key) + self.emit_type(f, it) + '\n'
                al = re.search(r'repr\((?:.*,)?align\((\d+)\)', ' '.join(attrs).replace(' ', ''))
                if al:
                    s += f'/// from its repr attribute\npub open spec fn align_of_{it.name}() -> int {{ {al.group(1)} }}\n'
            elif it.kind == 'use':
                s += f.src[it.vis_start:it.end] + '\n'
            elif it.kind in ('const', 'static') and impl is None:
                # a reference in the type of a const is 'static
                s += 'pub ' + re.sub(r'&(?=\s*(?!\')[\w\[])(?=[^=]*=)', "&'static ", re.sub(r'^pub(\s*\([^)]*\))?\s*', '', strip_comments(f.src[it.vis_start:it.end]))) + '\n'
            else:
                s += strip_comments(f.src[it.vis_start:it.end]) + '\n'
        return s

    def emit_type(self, f, it):
        """the type definition, attributes and comments dropped, everything made pub"""
        T, mt = f.toks, f.mt
        edits = []
        # item visibility
        k = it.tok_start
        while T[k].s < it.vis_start:
            k += 1
        kw = k
        while T[kw].t not in ('struct', 'enum', 'union'):
            kw += 1
        edits.append((it.vis_start, T[kw].s, 'pub '))
        if T[kw].t == 'struct':
            j = kw + 2
            while T[j].t not in ('{', '(', ';'):
                if T[j].t == 'where':
                    pass
                j += 1
            if T[j].t in ('{', '('):
                a, b = j, mt[j]
                q = a + 1
                fresh = True
                depth = 0
                while q < b:
                    if fresh:
                        while T[q].t == '#':
                            q = mt[q + 1] + 1
                        if T[q].t == 'pub':
                            e = q + 1
                            if T[e].t == '(':
                                e = mt[e] + 1
                            edits.append((T[q].s, T[e].s, 'pub '))
                            q = e
                        else:
                            edits.append((T[q].s, T[q].s, 'pub '))
                        fresh = False
                        continue
                    if T[q].t in ('(', '[', '{') and T[q].k == 'p':
                        q = mt[q] + 1
                        continue
                    if T[q].t == '<':
                        depth += 1
                    elif T[q].t == '>':
                        depth -= 1
                    elif T[q].t == ',' and depth == 0:
                        fresh = True
                    q += 1
        i = it.tok_start
        while i < it.tok_end:
            t = T[i]
            if t.t == '#' and T[i + 1].t == '[' and t.s >= it.vis_start:
                edits.append((t.s, T[mt[i + 1]].e, ''))
                i = mt[i + 1] + 1
                continue
            i += 1
        return strip_comments(apply_edits(f.src, it.vis_start, it.end, edits))

    def type_attrs(self, attrs, key):
        ds = set()
        for a in attrs:
            mm = re.match(r'#\[derive\((.*)\)\]', a)
            if mm:
                ds |= {x.strip() for x in mm.group(1).split(',')}
        if key in self.spec.typeattrs:
            return self.spec.typeattrs[key] + '\n'
        keep = [d for d in ('Clone', 'Copy') if d in ds]
        if keep == ['Clone']:
            keep = []      # derive(Clone) on non-Copy types carries no contract; specs opt in with @typeattr
        return ('#[derive(%s)]\n' % ', '.join(keep)) if keep else ''

    def emit_fn(self, f, it, key):
        sp = self.spec.fns.get(key)
        if sp is not None:
            self.used_specs.add(key)
        self.fn_keys.append(key)
        if it.body is not None:
            self.can_externalize.add(key)
            if sp is None:
                self.unannotated.add(key)
        src = f.src
        edits = []
        attrs = ''
        if sp and sp.attrs:
            attrs = sp.attrs + '\n'
        external = (sp and sp.external) or key in self.force_external
        if external:
            attrs += '#[verifier::external_body]\n'
        if sp and it.ret is not None and sp.spec.strip():
            edits.append((it.ret[0], it.ret[1], f'({sp.ret}: {src[it.ret[0]:it.ret[1]]})'))
        if sp and sp.spec.strip():
            edits.append((it.sig_end, it.sig_end, '\n' + sp.spec + '\n'))
        if it.body is not None:
            T, mt = f.toks, f.mt
            if external:
                edits.append((it.body[0], it.body[1], '{ unimplemented!() }'))
            else:
                edits += self.body_edits(f, it, sp, key)
        if it.force_pub:
            T = f.toks
            k = it.tok_start
            while T[k].s < it.vis_start:
                k += 1
            e = k
            if T[e].t == 'pub':
                e += 1
                if T[e].t == '(':
                    e = f.mt[e] + 1
            edits.append((it.vis_start, T[e].s, 'pub '))
        text = apply_edits(src, it.vis_start, it.end, edits)
        text = strip_comments(text)
        if it.body is not None and not external and opaque_closures(text):
            self.opaque.add(key)
        for p, r in (sp.sigrewrites if sp else ()):
            # desugaring of the signature (`impl Trait` argument -> named generic)
            m = re.search(r'\s*'.join(re.escape(x[1]) for x in pat_toks(p)), text)
            if m is None:
                self.lost.append(('sig', f'{key}: {p}'))
            else:
                text = text[:m.start()] + r + text[m.end():]
                self.rewrite_count['signature: ' + p] = self.rewrite_count.get('signature: ' + p, 0) + 1
        return f'/*FN {key}*/ ' + attrs + text + f' /*END {key}*/'

    def body_edits(self, f, it, sp, key):
        T, mt = f.toks, f.mt
        edits = []
        a, b = it.body_tok
        # rewrites
        hits = set()

        def rew(i, end, outer=None):
            """edits for the tokens i..end, the text bound to a metavariable rewritten as well"""
            eds = []
            while i < end:
                hit = False
                for (pt, rep, name) in rules:
                    r = match_at(f, pt, i, end)
                    if r and outer != (name, i):
                        j, binds = r
                        txt = rep
                        for v in sorted(binds, key=len, reverse=True):
                            s, e = binds[v]
                            txt = txt.replace(v, apply_edits(f.src, T[s].s, T[e - 1].e, rew(s, e, (name, i))) if e > s else '')
                        eds.append((T[i].s, T[j - 1].e, txt))
                        hits.add(name)
                        self.rewrite_count[name] = self.rewrite_count.get(name, 0) + 1
                        i = j
                        hit = True
                        break
                if not hit:
                    i += 1
            return eds
        if sp and sp.hoist:
            for k in range(a + 1, b):
                if T[k].k == 'id' and T[k].t in ('struct', 'enum') and T[k + 1].k == 'id' and T[k - 1].t in ('{', '}', ';', ']'):
                    st = k
                    while T[st - 1].t == ']' and T[mt[st - 1] - 1].t == '#':
                        st = mt[st - 1] - 1
                    e = k
                    while T[e].t not in ('{', ';'):
                        e += 1
                    e = mt.get(e, e)
                    body = File(f.src[T[k].s:T[e].e])
                    self.hoisted.append(self.emit_type(body, body.items[0]) + '\n')
                    edits.append((T[st].s, T[e].e, ''))
                    self.rewrite_count['type defined in a function body moved in front of it'] = self.rewrite_count.get('type defined in a function body moved in front of it', 0) + 1
        rules = []
        if sp:
            rules += [(pat_toks(p), r, f'{key}: {p}') for p, r in sp.rewrites]
        rules += [(pat_toks(p), r, p) for scope, p, r in self.spec.rewrites if scope == '' or re.match(scope, key)]
        if rules:
            edits += rew(a, b + 1)
        if not sp:
            return edits
        for p in sp.must:
            if f'{key}: {p}' not in hits:
                self.lost.append(('rewrite', f'{key}: {p}'))
        if sp.bytelits:
            for i in range(a, b):
                if T[i].k == 'str' and T[i].t.startswith('b"'):
                    edits.append((T[i].s, T[i].e, T[i].t[1:]))
                    self.rewrite_count['byte string literal pattern -> str literal pattern'] = self.rewrite_count.get('byte string literal pattern -> str literal pattern', 0) + 1
        loops = find_loops(f, it.body_tok)
        if need_loops(sp) or loops:
            self.loop_kinds[key] = [loop_shape(T, kw, kt, bt) for kw, kt, bt in loops]
        if self.probe:
            edits.append((it.body[0] + 1, it.body[0] + 1, '\nproof { let vp_probe_ = 0int; assert(false); }\n'))
            for n, (kw, kt, bt) in enumerate(loops):
                edits.append((T[bt].e, T[bt].e, '\nproof { let vp_probe_ = 0int; assert(false); }\n'))
        if sp.start:
            edits.append((it.body[0] + 1, it.body[0] + 1, '\n' + sp.start + '\n'))
        need = need_loops(sp)
        for n in need:
            if n >= len(loops):
                self.lost.append(('loop', f'{key}#{n}'))
        for n, (kw, kt, bt) in enumerate(loops):
            if n in sp.loopattrs:
                edits.append((T[kt].s, T[kt].s, sp.loopattrs[n] + ' '))
            if n in sp.beforeloop:
                edits.append((T[kt].s, T[kt].s, sp.beforeloop[n] + '\n'))
            if n in sp.loops:
                edits.append((T[bt].s, T[bt].s, '\n' + sp.loops[n] + '\n'))
                if kw == 'for' and re.search(r'\bit\d*\b', sp.loops[n]):
                    # name the ghost iterator of a for loop
                    j = kt + 1
                    while j < bt and T[j].t != 'in':
                        j = mt[j] + 1 if j in mt and mt[j] > j else j + 1
                    if j < bt:
                        edits.append((T[j].e, T[j].e, ' it:'))
            if n in sp.loopstart:
                edits.append((T[bt].e, T[bt].e, '\n' + sp.loopstart[n] + '\n'))
            if n in sp.loopend:
                edits.append((T[mt[bt]].s, T[mt[bt]].s, '\n' + sp.loopend[n] + '\n'))
            if n in sp.afterloop:
                edits.append((T[mt[bt]].e, T[mt[bt]].e, '\n' + sp.afterloop[n] + '\n'))
        if sp.closures:
            cl = find_closures(f, it.body_tok)
            for n, (sig, body) in sp.closures.items():
                if n >= len(cl):
                    self.lost.append(('closure', f'{key}#{n}'))
                    continue
                st, pe, bs, be = cl[n]
                edits.append((T[st].s, T[pe].e, sig + '\n' + body + ' '))
                if T[bs].t != '{' or mt[bs] != be - 1:
                    edits.append((T[bs].s, T[bs].s, '{ '))
                    edits.append((T[be - 1].e, T[be - 1].e, ' }'))
        if sp.cancel:
            for i in range(a, b):
                if T[i].t == '.' and T[i + 1].t == 'await':
                    j = i - 1
                    while j > a and T[j].t not in (';', '{'):
                        if T[j].t in (')', ']', '}') and T[j].k == 'p':
                            if T[j].t == '}' and T[j + 1].t not in ('.', '?'):
                                break
                            j = [x for x, y in mt.items() if y == j and x < j][0]
                            if T[j].t in ('(', '[', '{'):
                                j -= 1
                                continue
                        if T[j].t == '(' and T[j - 1].k == 'id' and T[j - 2].t != '.':
                            j -= 1      # the first argument of a function: nothing is evaluated before it
                            continue
                        if T[j].t in (',', '=>', '('):
                            self.lost.append(('cancel', f'{key}: an await inside an expression'))
                            break
                        j -= 1
                    else:
                        edits.append((T[j].e, T[j].e, '\nproof { ' + sp.cancel + ' }\n'))
                        continue
                    if T[j].t == '}':
                        edits.append((T[j].e, T[j].e, '\nproof { ' + sp.cancel + ' }\n'))
        for which, lst in (('before', sp.before), ('after', sp.after)):
            for p, nth, text in lst:
                pt = pat_toks(p)
                cnt = 0
                found = False
                for i in range(a, b):
                    r = match_at(f, pt, i, b + 1)
                    if r:
                        if cnt == nth:
                            off = T[i].s if which == 'before' else T[r[0] - 1].e
                            edits.append((off, off, '\n' + text + '\n'))
                            found = True
                            break
                        cnt += 1
                if not found:
                    self.lost.append((which, f'{key}: {p}'))
        return edits

    def index(self, text):
        """line ranges of each extracted function in the generated file"""
        self.fn_lines = []
        stack = []
        for n, ln in enumerate(text.split('\n'), 1):
            for m in re.finditer(r'/\*(FN|END) (.*?)\*/', ln):
                if m.group(1) == 'FN':
                    stack.append((m.group(2), n))
                else:
                    k, s = stack.pop()
                    self.fn_lines.append((s, n, k))

    def calls(self, key, other):
        """does extracted function `key` mention the function `other`?"""
        name = other.split('|')[-1]
        lines = self.text.split('\n')
        for s, e, k in self.fn_lines:
            if k == key:
                return re.search(r'\b' + re.escape(name) + r'\s*(::\s*<|\()', '\n'.join(lines[s - 1:e])) is not None
        return False

    def fn_at(self, line):
        best = None
        for s, e, k in self.fn_lines:
            if s <= line <= e and (best is None or e - s < best[1] - best[0]):
                best = (s, e, k)
        return best[2] if best else None


def macro_arm(text, name):
    """(pattern tokens, body text) of the only arm of a macro_rules definition"""
    T = lex(text)
    mt = match_table(T)
    for i in range(len(T) - 3):
        if T[i].t == 'macro_rules' and T[i + 1].t == '!' and T[i + 2].t == name:
            o = i + 3
            a = o + 1
            if T[mt[a] + 1].t != '=>':
                raise SpecError('macro ' + name)
            body = mt[a] + 2
            rest = mt[body] + 1
            if T[rest].t == ';':
                rest += 1
            if rest != mt[o]:
                raise SpecError('macro ' + name + ' has more than one arm')
            return [t.t for t in T[a + 1:mt[a]]], text[T[body].e:T[mt[body]].s]
    raise SpecError('macro ' + name + ' not found')


def expand_arm(d, src, T, mt, a, b):
    pat, body = d
    binds = {}
    i, k = a + 1, 0
    while k < len(pat):
        if pat[k] == '$' and k + 3 < len(pat) and pat[k + 2] == ':':
            n, kind = pat[k + 1], pat[k + 3]
            if kind in ('ident', 'tt', 'block', 'literal'):
                e = mt[i] if T[i].k == 'p' and T[i].t in '([{' else i
            elif kind == 'expr':
                stop = pat[k + 4] if k + 4 < len(pat) else None
                e = i
                while e < b and T[e].t != stop:
                    e = (mt[e] if T[e].k == 'p' and T[e].t in '([{' else e) + 1
                e -= 1
            else:
                raise SpecError('macro fragment ' + kind)
            binds[n] = src[T[i].s:T[e].e]
            i = e + 1
            k += 4
            continue
        if T[i].t != pat[k]:
            raise SpecError(f'macro call does not fit: {T[i].t} for {pat[k]}')
        i += 1
        k += 1
    if i != b:
        raise SpecError('macro call does not fit')
    B = lex(body)
    local = set()       # names the macro itself binds are hygienic
    for j in range(len(B) - 1):
        if B[j].t == 'let':
            n = B[j + 1] if B[j + 1].t != 'mut' else B[j + 2]
            if n.k == 'id':
                local.add(n.t)
    out, pos, j = '', 0, 0
    while j < len(B):
        t = B[j]
        out += body[pos:t.s]
        if t.t == '$' and j + 1 < len(B) and B[j + 1].t in binds:
            out += binds[B[j + 1].t]
            pos = B[j + 1].e
            j += 2
            continue
        out += t.t + ('__m' if t.k == 'id' and t.t in local and (j == 0 or B[j - 1].t != '.') else '')
        pos = t.e
        j += 1
    return '{' + out + body[pos:] + '}'


def lower_write(src, T, mt, a, b, which='write'):
    """write!(dst, "lit{x}lit", ..) -> the writes std performs for it, in order, stopping at the first error"""
    args, s, i = [], a + 1, a + 1
    while i <= b:
        if i == b or T[i].t == ',':
            if i > s:
                args.append((s, i))
            s = i + 1
        if i < b and T[i].k == 'p' and T[i].t in '([{':
            i = mt[i]
        i += 1
    if which == 'format':
        args.insert(0, None)
    if len(args) < 2 or args[1][1] - args[1][0] != 1 or T[args[1][0]].k != 'str' or not T[args[1][0]].t.startswith('"'):
        return None
    dst = '&mut fmt__m' if which == 'format' else src[T[args[0][0]].s:T[args[0][1] - 1].e]
    lit = T[args[1][0]].t[1:-1] + ('\\n' if which == 'writeln' else '')
    pos, named = [], {}
    for x, y in args[2:]:
        if y - x > 2 and T[x].k == 'id' and T[x + 1].t == '=':
            named[T[x].t] = src[T[x + 2].s:T[y - 1].e]
        else:
            pos.append(src[T[x].s:T[y - 1].e])
    pieces, cur, j, nxt = [], '', 0, 0
    while j < len(lit):
        c = lit[j]
        if lit.startswith('{{', j) or lit.startswith('}}', j):
            cur += c
            j += 2
        elif lit.startswith('\\u{', j):
            e = lit.index('}', j)
            cur += lit[j:e + 1]
            j = e + 1
        elif c == '{':
            e = lit.index('}', j)
            x = lit[j + 1:e].strip()
            if x == '':
                x, nxt = (pos[nxt] if nxt < len(pos) else None), nxt + 1
            elif x.isdigit():
                x = pos[int(x)] if int(x) < len(pos) else None
            elif re.fullmatch(r'[A-Za-z_]\w*', x):
                x = named.get(x, x)
            else:
                x = None
            if x is None:
                return None
            if cur:
                pieces.append(('lit', cur))
                cur = ''
            pieces.append(('arg', x))
            j = e + 1
        elif c == '\\':
            if lit[j + 1] == '\n':     # line continuation: as rustc reads it
                j += 1
                while j < len(lit) and lit[j].isspace():
                    j += 1
                continue
            cur += lit[j:j + 2]
            j += 2
        else:
            cur += c
            j += 1
    if cur:
        pieces.append(('lit', cur))
    # a CR LF within a literal is written on its own (appending is associative)
    pieces = [(k, y) for k, x in pieces for y in ([x] if k == 'arg' else [z for z in re.split(r'(\\r\\n)', x) if z])]
    out = 'Ok(())'
    for k, (kind, x) in reversed(list(enumerate(pieces))):
        call = f'crate::vf::put({dst}, "{x}")' if kind == 'lit' else f'crate::vf::Disp::fmt(&{x}, {dst})'
        out = call if k == len(pieces) - 1 else f'(match {call} {{ Ok(_) => {out}, Err(e) => Err(e) }})'
    if which == 'format':      # an error of a Display implementation makes format! panic
        out = f'{{ let mut fmt__m = String::new(); {out}.unwrap(); fmt__m }}'
    return out


def trace_args(src, T, mt, a, b):
    """the values that tracing's trace!(..) shows (fields, and arguments of the message); None: not understood"""
    args, s, i = [], a + 1, a + 1
    while i <= b:
        if i == b or T[i].t == ',':
            if i > s:
                args.append((s, i))
            s = i + 1
        if i < b and T[i].k == 'p' and T[i].t in '([{':
            i = mt[i]
        i += 1
    out = []
    for x, y in args:
        if y - x > 2 and T[x].k == 'id' and T[x + 1].t == ':' and T[x].t in ('target', 'parent', 'name'):
            continue
        if y - x == 1 and T[x].k == 'str':
            if not T[x].t.startswith('"'):
                return None
            for m in re.finditer(r'\{\{|\}\}|\{(\w*)(?::[^}]*)?\}', re.sub(r'\\u\{[^}]*\}', '', T[x].t)):
                if m.group(1) and not m.group(1).isdigit():
                    out.append(m.group(1))
            continue
        k = x
        while k < y and (T[k].k == 'id' or T[k].t == '.'):
            k += 1
        if k < y - 1 and k > x and T[k].t == '=':
            x = k + 1
        if T[x].t in ('?', '%'):
            x += 1
        if x >= y:
            return None
        if y - x == 1 and T[x].k not in ('id', 'p'):
            continue
        out.append(src[T[x].s:T[y - 1].e])
    named = {T[x].t for x, y in args if y - x > 2 and T[x].k == 'id' and T[x + 1].t == '='}
    return [x for x in dict.fromkeys(out) if x not in named and not re.fullmatch(r'[A-Z][A-Z0-9_]*', x)]


def loop_shape(T, kw, kt, bt):
    """what sort of loop it is; for a `for`, also whether it takes its items apart, and the adaptors it goes through"""
    if kw != 'for':
        return kw
    head = [t.t for t in T[kt + 1:bt]]
    return ' '.join(['for'] + (['(..)'] if head[:1] == ['('] else []) + [b for a, b in zip(head, head[1:]) if a == '.'])


def need_loops(sp):
    return set(sp.loops) | set(sp.loopstart) | set(sp.loopend) | set(sp.afterloop)


def opaque_closures(text):
    """closures in the emitted text of a function that carry no contract"""
    class F:
        pass
    g = F()
    g.toks = lex(text)
    g.mt = match_table(g.toks)
    return [c for c in find_closures(g, (0, len(g.toks) - 1)) if g.toks[c[2]].t != '->' and not re.match(r'(forall|exists|choose)$', g.toks[c[0] - 1].t)]


def apply_edits(src, s, e, edits):
    out = []
    pos = s
    # stable order: by start, then insertion order; insertions before replacements at same start
    ed = sorted(enumerate(edits), key=lambda x: (x[1][0], x[1][1] != x[1][0], x[0]))
    for _, (a, b, t) in ed:
        if a < pos:
            # nested inside an already replaced range: drop
            continue
        out.append(src[pos:a])
        out.append(t)
        pos = max(pos, b)
    out.append(src[pos:e])
    return ''.join(out)


def strip_comments(text):
    """remove // and /* */ comments (doc comments included), keep strings"""
    toks = lex(text)
    out = ''
    pos = 0
    for t in toks:
        gap = text[pos:t.s]
        out += re.sub(r'//[^\n]*|/\*(?!@props).*?\*/', '', gap, flags=re.S)   # the contracts' own labels stay
        out += t.t
        pos = t.e
    return out
