"""Which contracts decide which property."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vx'))
sys.path.insert(0, os.path.join(V, 'specs'))
from extract import Spec, Unit  # noqa
import tables  # noqa
import msgspec  # noqa
import serdegen  # noqa
import kani  # noqa

REPO = '/repo'

IRC = {'common': 'src/common.rs', 'irc': 'src/irc.rs', 'irc::prefix': 'src/irc/prefix.rs',
       'irc::command': 'src/irc/command.rs', 'irc::channel': 'src/irc/channel.rs', 'irc::params': 'src/irc/params.rs',
       'irc::tags': 'src/irc/tags.rs'}


def S(name):
    return os.path.join(V, 'specs', name)


def parser_unit(cfg, repo=REPO):
    sp = Spec()
    sp.load(S('parser.vspec'), tables.SUBST)
    mods = dict(IRC)
    tf = ['sse2']
    feats = []
    if cfg == 'scalar':
        mods['irc::tags::scalar'] = 'src/irc/tags/scalar.rs'
    else:
        feats = ['simd']
        if cfg == 'avx2':
            tf.append('avx2')
        sp.load_text(tables.simd(32 if cfg == 'avx2' else 16))
        for k in [k for k in sp.fns if k.startswith('irc::tags::scalar')]:
            del sp.fns[k]
        mods.update({'irc::tags::simd': 'src/irc/tags/simd.rs', 'irc::wide': 'src/irc/wide.rs', 'irc::wide::x86_64': 'src/irc/wide/x86_64.rs',
                     'irc::wide::x86_64::' + cfg: f'src/irc/wide/x86_64/{cfg}.rs'})
    sp.prelude.insert(0, open(S('base.rs')).read() + open(S('fmt.rs')).read())
    return Unit(repo, mods, sp, feats, tf)


MSGS = ['privmsg', 'whisper', 'clear_msg', 'clear_chat', 'room_state', 'user_state', 'global_user_state', 'notice', 'join', 'part', 'ping', 'pong', 'user_notice']


def msg_unit(repo=REPO):
    sp = Spec()
    sp.load(S('parser.vspec'), tables.SUBST)
    sp.load_text(msgspec.text(), tables.SUBST)
    mods = dict(IRC)
    mods['irc::tags::scalar'] = 'src/irc/tags/scalar.rs'
    mods['msg'] = 'src/msg.rs'
    for m in MSGS:
        mods['msg::' + m] = f'src/msg/{m}.rs'
    mods[''] = 'src/lib.rs'
    sp.prelude.insert(0, open(S('base.rs')).read() + open(S('fmt.rs')).read() + open(S('text.rs')).read())
    return Unit(repo, mods, sp, ['message-types'], ['sse2'])


def serde_unit(repo=REPO):
    u = msg_unit(repo)
    body, inner = serdegen.text(repo, msgspec)
    sp = u.spec
    sp.load(S('serde.vspec'))
    sp.modprelude['msg::_serde'] += inner
    # nobody makes a badge whose number of months is not the one its text stands for
    for k, own, wf in (('msg|Badge as From<BadgeData>|from', 'P14', 'crate::vser::wf_Badge(r.v())'),
                       ('msg|Badge|into_owned', 'P16', 'crate::vser::wf_Badge(self.v()) ==> crate::vser::wf_Badge(r.v())'),
                       ('msg|Subscriber|into_owned', 'P16', 'crate::vser::wf_Subscriber(self.v()) ==> crate::vser::wf_Subscriber(r.v())')):
        f = sp.fns[k]
        f.spec = f.spec.rstrip().rstrip(',') + f', /*@props {own}*/\n    {wf}, /*@props P23*/'
        f.start += '\n  proof { crate::vser::ax_one(); }'
    sp.prelude.append(open(S('serde.rs')).read().replace('/*GENERATED*/', body))
    return Unit(repo, u.modules, sp, ['message-types', 'serde'], ['sse2'])


def client_unit(repo=REPO):
    sp = Spec()
    sp.load(S('parser.vspec'), tables.SUBST)
    sp.load(S('client.vspec'), tables.SUBST)
    mods = dict(IRC)
    mods['irc::tags::scalar'] = 'src/irc/tags/scalar.rs'
    mods.update({'msg': 'src/msg.rs', 'msg::ping': 'src/msg/ping.rs', 'client': 'src/client.rs',
                 'client::conn': 'src/client/conn.rs', 'client::read': 'src/client/read.rs', 'client::write': 'src/client/write.rs'})
    sp.prelude.insert(0, open(S('base.rs')).read() + open(S('fmt.rs')).read() + open(S('text.rs')).read() + open(S('client.rs')).read())
    return Unit(repo, mods, sp, ['message-types', 'client'], ['sse2'])


UNITS = {
    'scalar': lambda repo=REPO: parser_unit('scalar', repo),
    'sse2': lambda repo=REPO: parser_unit('sse2', repo),
    'avx2': lambda repo=REPO: parser_unit('avx2', repo),
    'msg': msg_unit,
    'serde': serde_unit,
    'client': client_unit,
}

PARSE_CFGS = ['scalar', 'sse2', 'avx2']
SPLIT = ['vf', 'common', 'irc', 'irc::prefix', 'irc::command', 'irc::channel', 'irc::params']


def lex_mods(cfg):
    return ['irc::tags'] + (['irc::tags::scalar'] if cfg == 'scalar' else ['irc::tags::simd', 'irc::wide::x86_64::' + cfg])


ANY = r'.*'
LEX = r'irc::(tags::|wide).*|irc::tags\|(TagPair|Array|RawTags).*|common\|.*'
# property -> [(unit, modules verified, functions whose obligations count for it)], sweep configurations
PROPS = {
    'P01': dict(units=[('scalar', SPLIT, r'common\|.*|irc\|IrcMessage(Ref)?\|(parse|parse_inner|raw|prefix|command|params|channel)|irc::(prefix|command|channel|params)\|.*')],
                sweep=['scalar', 'avx2']),
    'P02': dict(units=[(c, lex_mods(c) + ['common', 'irc'], LEX + r'|irc\|IrcMessage(Ref)?\|(parse|parse_inner|tags)') for c in PARSE_CFGS],
                sweep=PARSE_CFGS, extra={'kani': kani.run}),
    'P03': dict(units=[(c, lex_mods(c) + SPLIT, ANY) for c in PARSE_CFGS], sweep=PARSE_CFGS, extra={'kani': kani.run}),
    'P04': dict(units=[('scalar', ['vf', 'irc::tags', 'irc::command'], r'irc::tags\|(Tag|RawTag).*|irc::command\|(Command|RawCommand|parse).*')], sweep=['scalar']),
    'P05': dict(units=[('scalar', ['irc', 'irc::tags', 'common'], r'irc\|IrcMessage(Ref)?\|tag|irc::tags\|.*|common\|.*')], sweep=['scalar', 'avx2']),
    'P06': dict(units=[('scalar', ['irc', 'common'], r'irc\|.*|common\|.*')], sweep=['scalar', 'avx2']),
    'P08': dict(units=[('scalar', ['irc', 'common'], r'irc\|IrcMessage(Ref)?\|(text|channel|params|command)|common\|.*')], sweep=['scalar']),
    'P09': dict(units=[(c, lex_mods(c) + SPLIT, ANY) for c in PARSE_CFGS], sweep=PARSE_CFGS + ['asan', 'asan-avx2'], extra={'kani': kani.run}),
}

IRCM = ['irc', 'irc::tags']
IRCF = r'irc\|IrcMessage(Ref)?\|(tag|text|channel|prefix|params|command)|irc::tags\|(Tag|RawTag)\|.*'
MAIN = dict(P11=['privmsg', 'whisper', 'clear_msg'], P12=['clear_chat', 'room_state', 'user_state', 'global_user_state', 'notice', 'join', 'part', 'ping', 'pong'], P13=['user_notice'])


def about(mods, rest=''):
    """functions of these modules except the conversions to owned form (P16) and the badge lists (P14)"""
    return r'(?!.*\|(into_owned|badges|num_badges)$)(' + '|'.join(f'msg::{m}' for m in mods) + r')\|.*|msg\|(User|Message.*text|parse_message_text|is_not_empty)(\|(?!into_owned).*)?|' + IRCF + rest


PROPS['P07'] = dict(units=[('msg', ['', 'irc'], r'\|(maybe_unescape|actually_unescape)|irc\|unescape')], sweep=['scalar', 'typed'])
PROPS['P10'] = dict(units=[('msg', IRCM + ['msg'] + ['msg::' + m for m in MSGS], r'msg(::\w+)?\|(.*\|(parse|from_irc|from|as_typed|into_typed|Message as TryFromMessage.try_from)|parse_\w+)|' + IRCF)], sweep=['typed'])
for _p, _m in MAIN.items():
    PROPS[_p] = dict(units=[('msg', IRCM + ['msg'] + ['msg::' + m for m in _m], about(_m))], sweep=['typed'])
PROPS['P14'] = dict(units=[('msg', IRCM + ['msg'] + ['msg::' + m for m in MSGS if m in ('privmsg', 'whisper', 'user_state', 'global_user_state', 'user_notice')],
                           r'msg\|(parse_badges|split_comma|(Badge|BadgeData|Subscriber)\|(?!into_owned).*)|msg::\w+\|.*\|(badges|num_badges)|' + IRCF)], sweep=['typed'])
PROPS['P15'] = dict(units=[('msg', IRCM + ['msg'] + ['msg::' + m for m in ('privmsg', 'clear_msg', 'clear_chat', 'room_state', 'user_notice')],
                           r'msg\|(parse_timestamp|parse_bool)|msg::privmsg\|.*PinnedChatLevel.*|' + IRCF)], sweep=['typed'])
PROPS['P16'] = dict(units=[('msg', ['msg'] + ['msg::' + m for m in MSGS], r'msg(::\w+)?\|.*\|into_owned|msg\|maybe_clone')], sweep=['typed'])
CL = ['client', 'client::read', 'client::write', 'vw']
PROPS['P18'] = dict(units=[('client', ['vf', 'vc', 'common', 'client::write', 'msg::ping'], r'common\|.*|client::write\|(?!SameMessageBypass).*|msg::ping\|.*')], sweep=['client'])
PROPS['P19'] = dict(units=[('client', ['client', 'vw'], r'client\|(?!Client\|reconnect$|ReconnectError).*')], sweep=['client'])
PROPS['P20'] = dict(units=[('client', ['client', 'client::conn', 'vw'], r'client\|(Client\|(reconnect|split)|ReconnectError.*|ConnectError.*|ClientBuilder.*)|client::conn\|.*')], sweep=['client'])
PROPS['P21'] = dict(units=[('client', ['client::write'], r'client::write\|SameMessageBypass.*')], sweep=['client'])
PROPS['P22'] = dict(units=[('client', ['client::read'], r'client::read\|.*|irc\|IrcMessage\|parse')], sweep=['client'])
PROPS['P24'] = dict(units=[('client', CL, r'client(::read|::write)?\|Client\|.*|client::write\|Privmsg\|send')], sweep=['client'], labelled=True)
PROPS['P25'] = dict(units=[('client', ['vc'] + CL, r'client(::read|::write)?\|(Client|ClientBuilder|Privmsg|Credentials).*')], sweep=['client'], labelled=True)
PROPS['P26'] = dict(units=[('client', ['vc', 'client', 'client::conn', 'vw'], r'client::conn\|.*|client\|(Client|ClientBuilder|split).*')], sweep=['tls'], labelled=True)
PROPS['P23'] = dict(units=[('serde', ['vser', 'msg::_serde', 'msg'], r'vser\|.*|msg::_serde\|.*|msg\|(Badge as From<BadgeData>\|from|(Badge|Subscriber)\|into_owned)')], sweep=['serde'])
VERUS_ARGS = {'msg': ['--smt-option', 'smt.phase_selection=1'], 'serde': ['--smt-option', 'smt.phase_selection=1']}


def known_plain():
    try:
        return set(open(S('known_plain.txt')).read().split('\n'))
    except OSError:
        return set()


# extracted functions that carry no contract of ours on the pinned tree (trait methods whose contract is the
# trait's, constants, functions nothing under contract calls): a function not listed here is new
KNOWN_PLAIN = known_plain()
# the kinds of loops in the functions under contract on the pinned tree: an invariant written for a `for` says too
# little for the `while` that replaces it
KNOWN_LOOPS = json.load(open(S('known_loops.json'))) if os.path.exists(S('known_loops.json')) else {}

NOTE = ('Every obligation of the named functions, generated from /repo\'s current source by a mechanical extraction, is discharged by Verus/Z3 for all '
        'inputs; assumed: the contracts on std listed in evidence coverage.trusted_base and the rewrites listed there. A bounded search on the real '
        'crate accompanies it (replays failures, tests the assumptions) and stands in, labelled, for anything the verifier leaves undecided.')
HOOKS = {'guard': 'tmi_verif (a cfg)', 'enable': "RUSTFLAGS='--cfg tmi_verif'", 'source_commits': ['8de47d0']}

ASSUMPTIONS = [
    'Verus 0.2026.09.13 and its bundled Z3 are sound; rustc compiles the extracted text and the crate alike',
    'the extraction (vx/extract.py) changes nothing beyond the rewrites listed in coverage.rewrites_applied',
    'inputs are shorter than 2^32 bytes (Span holds u32 offsets) and usize has 64 bits',
    'vstd\'s model of core (str as a sequence of characters with a UTF-8 byte view, slices, Option, Vec) is faithful',
]

if __name__ == '__main__' and sys.argv[1:] == ['snapshot']:
    out, loops = set(), {}
    for n in UNITS:
        u = UNITS[n]()
        u.build()
        out |= u.unannotated
        loops[n] = {k: v for k, v in sorted(u.loop_kinds.items()) if v}
        print(n, len(u.fn_keys), 'functions', len(u.unannotated), 'plain', 'lost', u.lost)
    open(S('known_plain.txt'), 'w').write('\n'.join(sorted(out)) + '\n')
    json.dump(loops, open(S('known_loops.json'), 'w'), indent=1)
