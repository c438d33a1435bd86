"""Contracts of the typed messages, generated from one table per message type.

Each type T of /repo/src/msg gets a mathematical view TV (strings as byte sequences, whether borrowed
or owned) and, for the message types, a function `t_of(m)` that says which TV an IRC message stands
for, if any.  `parse` must return exactly that, getters must return the component of the view they are
named after, and `into_owned` must leave the view alone.
"""
# kind of a field: c = Cow<str>, oc = Option<Cow<str>>, bv = Vec<Badge>, cv = Vec<Cow<str>>,
# s:T = plain T, n:T = nested type T, on:T = Option<nested T>
VIEWK = {'c': 'Seq<u8>', 'oc': 'Option<Seq<u8>>', 'bv': 'Seq<crate::msg::BadgeV>', 'cv': 'Seq<Seq<u8>>'}


def vtype(k):
    if k in VIEWK:
        return VIEWK[k]
    a, t = k.split(':', 1)
    if a == 's':
        return t
    return {'n': '%sV', 'on': 'Option<%sV>'}[a] % t


def vexpr(k, x):
    if k == 'c':
        return f'cb({x})'
    if k == 'oc':
        return f'ocb({x})'
    if k == 'bv':
        return f'crate::msg::badge_views({x}@)'
    if k == 'cv':
        return f'cow_views({x}@)'
    a, t = k.split(':', 1)
    if a == 's':
        return x
    if a == 'n':
        return f'{x}.v()'
    return f'(match {x} {{ Some(x) => Some(x.v()), None => None }})'


def getter(k, ret, x):
    """what a getter returning `ret` (as written in the source) must satisfy, for the view component x"""
    return {'c': f'bs(r) == {x}', 'oc': f'obs(r) == {x}'}.get(k)


DT = 'chrono::DateTime<chrono::Utc>'
DUR = 'std::time::Duration'

# module -> [(type, has lifetime, [(field, kind)], [(getter, kind or custom clause)])]
TYPES = {
    'msg': [
        ('Subscriber', 1, [('version', 'c'), ('months', 'c'), ('months_n', 's:u64')],
         [('version', 'c'), ('months', 'r == self.v().months_n')]),
        ('BadgeData', 1, [('name', 'c'), ('version', 'c'), ('extra', 'oc')], [('name', 'c'), ('version', 'c'), ('extra', 'oc')]),
        ('User', 1, [('id', 'c'), ('login', 'c'), ('name', 'c')], [('id', 'c'), ('login', 'c'), ('name', 'cb(r) == unescaped(self.v().name)')]),
    ],
    'msg::privmsg': [
        ('Privmsg', 1, [('channel', 'c'), ('channel_id', 'c'), ('msg_id', 'oc'), ('id', 'c'), ('sender', 'n:User'), ('reply_to', 'on:Reply'),
                        ('pinned_chat', 'on:PinnedChat'), ('text', 'c'), ('is_action', 's:bool'), ('badges', 'bv'), ('color', 'oc'),
                        ('custom_reward_id', 'oc'), ('bits', 's:Option<u64>'), ('emotes', 'c'), ('timestamp', 's:' + DT)],
         [('id', 'c'), ('channel', 'c'), ('channel_id', 'c'), ('msg_id', 'oc'), ('sender', 'r.v() == self.v().sender'),
          ('reply_to', 'orv'), ('pinned_chat', 'orv'), ('text', 'c'), ('is_action', 's'), ('num_badges', 'r == self.v().badges.len()'),
          ('color', 'oc'), ('custom_reward_id', 'oc'), ('bits', 's'), ('raw_emotes', 'bs(r) == self.v().emotes'), ('timestamp', 's')]),
        ('Reply', 1, [('thread_parent_message_id', 'c'), ('thread_parent_user_login', 'c'), ('message_id', 'c'), ('sender', 'n:User'), ('text', 'c')],
         [('thread_parent_message_id', 'c'), ('thread_parent_user_login', 'c'), ('message_id', 'c'), ('sender', 'r.v() == self.v().sender'),
          ('text', 'cb(r) == unescaped(self.v().text)')]),
        ('PinnedChat', 1, [('paid_amount', 's:i64'), ('paid_currency', 'c'), ('paid_exponent', 's:i64'), ('paid_level', 's:PinnedChatLevel'), ('is_system_message', 's:bool')],
         [('paid_amount', 's'), ('paid_currency', 'c'), ('paid_exponent', 's'), ('paid_level', 's'), ('is_system_message', 's')]),
    ],
    'msg::whisper': [
        ('Whisper', 1, [('recipient', 'c'), ('sender', 'n:User'), ('text', 'c'), ('badges', 'bv'), ('emotes', 'c'), ('color', 'oc')],
         [('recipient', 'c'), ('sender', 'r.v() == self.v().sender'), ('text', 'c'), ('num_badges', 'r == self.v().badges.len()'), ('raw_emotes', 'bs(r) == self.v().emotes'), ('color', 'oc')]),
    ],
    'msg::clear_msg': [
        ('ClearMsg', 1, [('channel', 'c'), ('channel_id', 'c'), ('sender', 'c'), ('target_message_id', 'c'), ('text', 'c'), ('is_action', 's:bool'), ('timestamp', 's:' + DT)],
         [('channel', 'c'), ('channel_id', 'c'), ('sender', 'c'), ('target_message_id', 'c'), ('text', 'c'), ('is_action', 's'), ('timestamp', 's')]),
    ],
    'msg::clear_chat': [
        ('ClearChat', 1, [('channel', 'c'), ('channel_id', 'c'), ('action', 'n:Action'), ('timestamp', 's:' + DT)],
         [('channel', 'c'), ('channel_id', 'c'), ('action', 'r.v() == self.v().action'), ('timestamp', 's')]),
        ('Ban', 1, [('user', 'c'), ('id', 'c')], [('user', 'c'), ('id', 'c')]),
        ('TimeOut', 1, [('user', 'c'), ('id', 'c'), ('duration', 's:' + DUR)], [('user', 'c'), ('id', 'c'), ('duration', 's')]),
    ],
    'msg::room_state': [
        ('RoomState', 1, [('channel', 'c'), ('channel_id', 'c'), ('emote_only', 's:Option<bool>'), ('followers_only', 's:Option<FollowersOnly>'), ('r9k', 's:Option<bool>'),
                          ('slow', f's:Option<{DUR}>'), ('subs_only', 's:Option<bool>')],
         [('channel', 'c'), ('channel_id', 'c'), ('emote_only', 's'), ('followers_only', 's'), ('r9k', 's'), ('slow', 's'), ('subs_only', 's')]),
    ],
    'msg::user_state': [
        ('UserState', 1, [('channel', 'c'), ('user_name', 'c'), ('badges', 'bv'), ('emote_sets', 'cv'), ('color', 'oc')],
         [('channel', 'c'), ('user_name', 'c'), ('num_badges', 'r == self.v().badges.len()'), ('num_emote_sets', 'r == self.v().emote_sets.len()'), ('color', 'oc')]),
    ],
    'msg::global_user_state': [
        ('GlobalUserState', 1, [('id', 'c'), ('name', 'c'), ('badges', 'bv'), ('emote_sets', 'cv'), ('color', 'oc')],
         [('id', 'c'), ('name', 'cb(r) == unescaped(self.v().name)'), ('num_badges', 'r == self.v().badges.len()'), ('num_emote_sets', 'r == self.v().emote_sets.len()'), ('color', 'oc')]),
    ],
    'msg::notice': [('Notice', 1, [('channel', 'oc'), ('text', 'c'), ('id', 'oc')], [('channel', 'oc'), ('text', 'c'), ('id', 'oc')])],
    'msg::join': [('Join', 1, [('channel', 'c'), ('user', 'c')], [('channel', 'c'), ('user', 'c')])],
    'msg::part': [('Part', 1, [('channel', 'c'), ('user', 'c')], [('channel', 'c'), ('user', 'c')])],
    'msg::ping': [('Ping', 1, [('nonce', 'oc')], [('nonce', 'oc')])],
    'msg::pong': [('Pong', 1, [('nonce', 'oc')], [('nonce', 'oc')])],
    'msg::user_notice': [
        ('UserNotice', 1, [('channel', 'c'), ('channel_id', 'c'), ('sender', 'on:User'), ('text', 'oc'), ('system_message', 'oc'), ('event', 'n:Event'), ('event_id', 'c'),
                           ('badges', 'bv'), ('emotes', 'c'), ('color', 'oc'), ('message_id', 'c'), ('timestamp', 's:' + DT)],
         [('channel', 'c'), ('channel_id', 'c'), ('sender', 'orv'), ('text', 'oc'),
          ('system_message', '(r is Some) == (self.v().system_message is Some), r is Some ==> cb(r->0) == unescaped(self.v().system_message->0)'),
          ('event', 'r.v() == self.v().event'), ('event_id', 'c'), ('num_badges', 'r == self.v().badges.len()'), ('raw_emotes', 'bs(r) == self.v().emotes'),
          ('color', 'oc'), ('message_id', 'c'), ('timestamp', 's')]),
        ('SubOrResub', 1, [('is_resub', 's:bool'), ('cumulative_months', 's:u64'), ('streak_months', 's:Option<u64>'), ('sub_plan', 'c'), ('sub_plan_name', 'c')],
         [('is_resub', 's'), ('cumulative_months', 's'), ('streak_months', 's'), ('sub_plan', 'c'), ('sub_plan_name', 'cb(r) == unescaped(self.v().sub_plan_name)')]),
        ('Raid', 1, [('viewer_count', 's:u64'), ('profile_image_url', 'c')], [('viewer_count', 's'), ('profile_image_url', 'c')]),
        ('SubGift', 1, [('cumulative_months', 's:u64'), ('recipient', 'n:User'), ('sub_plan', 'c'), ('sub_plan_name', 'c'), ('num_gifted_months', 's:u64')],
         [('cumulative_months', 's'), ('recipient', 'r.v() == self.v().recipient'), ('sub_plan', 'c'), ('sub_plan_name', 'cb(r) == unescaped(self.v().sub_plan_name)'), ('num_gifted_months', 's')]),
        ('SubMysteryGift', 1, [('count', 's:u64'), ('sender_total_gifts', 's:u64'), ('sub_plan', 'c')], [('count', 's'), ('sender_total_gifts', 's'), ('sub_plan', 'c')]),
        ('AnonSubMysteryGift', 1, [('count', 's:u64'), ('sub_plan', 'c')], [('count', 's'), ('sub_plan', 'c')]),
        ('GiftPaidUpgrade', 1, [('gifter_login', 'c'), ('gifter_name', 'c'), ('promotion', 'on:SubGiftPromo')], [('gifter_login', 'c'), ('gifter_name', 'c'), ('promotion', 'orv')]),
        ('AnonGiftPaidUpgrade', 1, [('promotion', 'on:SubGiftPromo')], [('promotion', 'orv')]),
        ('Ritual', 1, [('name', 'c')], [('name', 'c')]),
        ('BitsBadgeTier', 0, [('tier', 's:u64')], [('tier', 's')]),
        ('Announcement', 1, [('highlight_color', 'c')], [('highlight_color', 'c')]),
        ('SubGiftPromo', 1, [('total_gifts', 's:u64'), ('promo_name', 'c')], [('total_gifts', 's'), ('promo_name', 'c')]),
    ],
}
ENUMS = {
    'msg': [('Badge', ['Staff', 'Turbo', 'Broadcaster', 'Moderator', ('Subscriber', 'Subscriber'), ('Other', 'BadgeData')])],
    'msg::clear_chat': [('Action', ['Clear', ('Ban', 'Ban'), ('TimeOut', 'TimeOut')])],
    'msg::user_notice': [('Event', [(x, x) for x in ('SubOrResub Raid SubGift SubMysteryGift AnonSubMysteryGift GiftPaidUpgrade AnonGiftPaidUpgrade Ritual BitsBadgeTier Announcement').split()] + ['Unknown'])],
}
NO_OWNED = {'SubOrResub', 'Raid', 'SubGift', 'SubMysteryGift', 'AnonSubMysteryGift', 'GiftPaidUpgrade', 'AnonGiftPaidUpgrade', 'Ritual', 'BitsBadgeTier', 'Announcement', 'Ban', 'TimeOut'}
CLONED = {'User', 'Subscriber', 'BadgeData'}      # types whose derived Clone the code under contract calls

USE = '''use crate::vp::*;
broadcast use {crate::vp::group_str, crate::vt::group_textEXTRA};
use vstd::utf8::*;
use vstd::string::StringSliceAdditionalSpecFns;
use crate::irc::*;
use crate::irc::command::*;
use crate::irc::tags::*;
use crate::vt::*;
use crate::common::*;
'''

# what each message type stands for: command kind, required (let-bound) parts, fields
BADGES = 'badges_or_none(tg(m, Tag::Badges), tg(m, Tag::BadgeInfo))'
U = 'UserV { id: %s, login: %s, name: %s }'
MSG = {
    'msg::privmsg|Privmsg': ('Privmsg', [('text', 'msg_text(m)'), ('ch', 'chan(m)'), ('room', 'tg(m, Tag::RoomId)'), ('id', 'tg(m, Tag::Id)'), ('uid', 'tg(m, Tag::UserId)'),
                                         ('nick', 'nick(m)'), ('dn', 'tg(m, Tag::DisplayName)'), ('ts', 'time(tg(m, Tag::TmiSentTs))')],
                             dict(channel='ch', channel_id='room', msg_id='tg(m, Tag::MsgId)', id='id', sender=U % ('uid', 'nick', 'dn'), reply_to='reply_of(m)', pinned_chat='pinned_of(m)',
                                  text='action_text(text).0', is_action='action_text(text).1', badges=BADGES, color='non_empty(tg(m, Tag::Color))', custom_reward_id='non_empty(tg(m, Tag::CustomRewardId))',
                                  bits='num_u64(tg(m, Tag::Bits))', emotes='or_empty(tg(m, Tag::Emotes))', timestamp='ts')),
    'msg::whisper|Whisper': ('Whisper', [('rt', 'split_at_text(params(m))'), ('uid', 'tg(m, Tag::UserId)'), ('nick', 'nick(m)'), ('dn', 'tg(m, Tag::DisplayName)')],
                             dict(recipient='rt.0', sender=U % ('uid', 'nick', 'dn'), text='rt.1', badges=BADGES, emotes='or_empty(tg(m, Tag::Emotes))', color='non_empty(tg(m, Tag::Color))')),
    'msg::clear_msg|ClearMsg': ('ClearMsg', [('text', 'msg_text(m)'), ('ch', 'chan(m)'), ('room', 'tg(m, Tag::RoomId)'), ('login', 'tg(m, Tag::Login)'), ('tid', 'tg(m, Tag::TargetMsgId)'), ('ts', 'time(tg(m, Tag::TmiSentTs))')],
                                dict(channel='ch', channel_id='room', sender='login', target_message_id='tid', text='action_text(text).0', is_action='action_text(text).1', timestamp='ts')),
    'msg::clear_chat|ClearChat': ('ClearChat', [('ch', 'chan(m)'), ('room', 'tg(m, Tag::RoomId)'), ('act', 'action_of(m)'), ('ts', 'time(tg(m, Tag::TmiSentTs))')],
                                  dict(channel='ch', channel_id='room', action='act', timestamp='ts')),
    'msg::room_state|RoomState': ('RoomState', [('ch', 'chan(m)'), ('room', 'tg(m, Tag::RoomId)')],
                                  dict(channel='ch', channel_id='room', emote_only='flag(tg(m, Tag::EmoteOnly))', followers_only='followers(num_i64(tg(m, Tag::FollowersOnly)))', r9k='flag(tg(m, Tag::R9K))',
                                       slow='seconds(num_u64(tg(m, Tag::Slow)))', subs_only='flag(tg(m, Tag::SubsOnly))')),
    'msg::user_state|UserState': ('UserState', [('ch', 'chan(m)'), ('dn', 'tg(m, Tag::DisplayName)')],
                                  dict(channel='ch', user_name='dn', badges=BADGES, emote_sets='comma_list(tg(m, Tag::EmoteSets))', color='non_empty(tg(m, Tag::Color))')),
    'msg::global_user_state|GlobalUserState': ('GlobalUserState', [('uid', 'tg(m, Tag::UserId)'), ('dn', 'tg(m, Tag::DisplayName)')],
                                               dict(id='uid', name='dn', badges=BADGES, emote_sets='comma_list(tg(m, Tag::EmoteSets))', color='non_empty(tg(m, Tag::Color))')),
    'msg::notice|Notice': ('Notice', [('text', 'msg_text(m)')], dict(channel='chan(m)', text='text', id='tg(m, Tag::MsgId)')),
    'msg::join|Join': ('Join', [('ch', 'chan(m)'), ('nick', 'nick(m)')], dict(channel='ch', user='nick')),
    'msg::part|Part': ('Part', [('ch', 'chan(m)'), ('nick', 'nick(m)')], dict(channel='ch', user='nick')),
    'msg::ping|Ping': ('Ping', [], dict(nonce='msg_text(m)')),
    'msg::pong|Pong': ('Pong', [], dict(nonce='msg_text(m)')),
    'msg::user_notice|UserNotice': ('UserNotice', [('eid', 'tg(m, Tag::MsgId)'), ('ev', 'event_of(m, eid)'), ('snd', 'sender_of(m, ev.1)'), ('ch', 'chan(m)'), ('room', 'tg(m, Tag::RoomId)'),
                                                   ('id', 'tg(m, Tag::Id)'), ('ts', 'time(tg(m, Tag::TmiSentTs))')],
                                    dict(channel='ch', channel_id='room', sender='snd', text='msg_text(m)', system_message='non_empty(tg(m, Tag::SystemMsg))', event='ev.0', event_id='eid',
                                         badges=BADGES, emotes='or_empty(tg(m, Tag::Emotes))', color='non_empty(tg(m, Tag::Color))', message_id='id', timestamp='ts')),
}


def field_class(k):
    """which property a field of kind k belongs to: badges to P14, numbers, times and flags also to P15"""
    if k == 'bv':
        return 'badges'
    if k in ('n:Action', 'n:Event', 'on:PinnedChat') or (k.startswith('s:') and k != 's:bool'):
        return 'number'
    return 'text'


def snake(t):
    import re
    return re.sub(r'(?<!^)([A-Z])', r'_\1', t).lower()


def nest(req, final):
    """match-chain over required parts"""
    s = final
    for n, e in reversed(req):
        s = f'match {e} {{ None => None, Some({n}) => {s} }}'
    return s


def view_text(mod):
    s = ''
    for t, lt, fields, _ in TYPES.get(mod, []):
        L = "<'_>" if lt else ''
        s += f'pub ghost struct {t}V {{ ' + ', '.join(f'pub {n}: {vtype(k)}' for n, k in fields) + ' }\n'
        s += f'impl {t}{L} {{\n  pub open spec fn v(&self) -> {t}V {{ {t}V {{ ' + ', '.join(f'{n}: {vexpr(k, "self." + n)}' for n, k in fields) + ' } }\n}\n'
        if t in CLONED:
            LL = "<'src>" if lt else ''
            s += f'impl{LL} Clone for {t}{LL} {{\n  fn clone(&self) -> (r: Self) ensures r.v() == self.v() {{ {t} {{ ' + ', '.join(f'{n}: self.{n}.clone()' for n, k in fields) + ' } }\n}\n'
    for t, vs in ENUMS.get(mod, []):
        s += f'pub ghost enum {t}V {{ ' + ', '.join(v if isinstance(v, str) else f'{v[0]}({v[1]}V)' for v in vs) + ' }\n'
        s += f"impl {t}<'_> {{\n  pub open spec fn v(&self) -> {t}V {{ match *self {{ " + ', '.join(f'{t}::{v} => {t}V::{v}' if isinstance(v, str) else f'{t}::{v[0]}(x) => {t}V::{v[0]}(x.v())' for v in vs) + ' } }\n}\n'
        if t == 'Badge':
            s += f"impl<'src> Clone for {t}<'src> {{\n  fn clone(&self) -> (r: Self) ensures r.v() == self.v() {{ match self {{ " + ', '.join(f'{t}::{v} => {t}::{v}' if isinstance(v, str) else f'{t}::{v[0]}(x) => {t}::{v[0]}(x.clone())' for v in vs) + ' } }\n}\n'
    return s


def of_text(key):
    mod, t = key.split('|')
    kind, req, fields = MSG[key]
    f = dict(fields)
    order = [n for n, _ in [x for x in TYPES[mod] if x[0] == t][0][2]]
    assert set(order) == set(f), (key, set(order) ^ set(f))
    v = f'Some({t}V {{ ' + ', '.join(f'{n}: {f[n]}' for n in order) + ' })'
    return (f"/// the {t} a message stands for, if it is one\n#[verifier::opaque]\npub open spec fn {snake(t)}_of(m: IrcMessageRef<'_>) -> Option<{t}V> {{\n"
            f'  if kind(m) != CmdKind::{kind} {{ None }} else {{ {nest(req, v)} }}\n}}\n')


def text():
    out = []
    mods = ['msg'] + [m for m in TYPES if m != 'msg']
    for mod in mods:
        s = USE.replace('EXTRA', '' if mod == 'msg' else ', crate::msg::lemmas::group_msg' + (', crate::msg::privmsg::lemmas::ax_transmute, crate::msg::privmsg::lemmas::ax_transmute_ok' if mod == 'msg::privmsg' else ''))
        if mod != 'msg':
            s += 'use crate::msg::*;\n'
        s += view_text(mod)
        for key in MSG:
            if key.startswith(mod + '|'):
                s += of_text(key)
        out.append(f'@module {mod}\n{s}')
        for t, lt, fields, getters in TYPES[mod]:
            kinds = dict(fields)
            for g, k in getters:
                if k == 's':
                    c = f'r == self.v().{g}'
                elif k == 'orv':
                    c = f'(match r {{ Some(x) => Some(x.v()), None => None }}) == self.v().{g}'
                elif k in ('c', 'oc'):
                    c = getter(k, '', f'self.v().{g}')
                else:
                    c = k
                out.append(f'@fn {mod}|{t}|{g}\n  ensures {c}')
            if kinds.get('badges') == 'bv':
                out.append(f"@fn {mod}|{t}|badges\n  ensures r.0@.len() == self.badges@.len(), forall|i: int| 0 <= i < r.0@.len() ==> *(#[trigger] r.0@[i]) == self.badges@[i]\n"
                           "@sigrewrite\nimpl DoubleEndedIterator<Item = &Badge<'src>> + ExactSizeIterator =>> crate::vt::L<&Badge<'src>>")
            if kinds.get('emote_sets') == 'cv':
                out.append(f"@fn {mod}|{t}|emote_sets\n  ensures str_views(r.0@) == self.v().emote_sets\n"
                           "@sigrewrite\nimpl DoubleEndedIterator<Item = &str> + ExactSizeIterator =>> crate::vt::L<&str>\n"
                           "@fnrewrite\n.map(|$i_v| $body) =>> .map(|$i_v: &Cow<'src, str>| -> (q: &str) ensures bs(q) == cb(*$i_v) { $body })")
            if t not in NO_OWNED:
                out.append(f'@fn {mod}|{t}|into_owned\n  ensures r.v() == self.v()')
        for t, vs in ENUMS.get(mod, []):
            out.append(f'@fn {mod}|{t}|into_owned\n  ensures r.v() == self.v()')
        for key in MSG:
            if key.startswith(mod + '|'):
                t = key.split('|')[1]
                sn = snake(t)
                main = {'Privmsg': 'P11', 'Whisper': 'P11', 'ClearMsg': 'P11', 'UserNotice': 'P13'}.get(t, 'P12')
                ens = [(f'({sn}_of(message) is Some) == (r is Some)', 'P10')]
                for cls, props in (('text', main), ('number', main + ' P15'), ('badges', 'P14')):
                    own = [x for x in TYPES[mod] if x[0] == t][0][2]
                    fs = [f for f, k in own if field_class(k) == cls]
                    if fs:
                        ens.append((f'(r is Some && {sn}_of(message) is Some) ==> ' + ' && '.join(f'(r->0).v().{f} == {sn}_of(message)->0.{f}' for f in fs), props))
                clauses = '\n'.join(f'    {c}, /*@props {p}*/' for c, p in ens)
                out.append(f'@fn {mod}|{t}|parse\n  requires message.wf()\n  ensures\n{clauses}\n@start\n  proof {{ reveal({sn}_of); }}')
                out.append(f'@fn {mod}|{t} as super::FromIrc|from_irc\n  ensures ({sn}_of(message) is Some) == (r is Ok), r is Ok ==> (r->Ok_0).v() == {sn}_of(message)->0')
                out.append(f'@fn {mod}|super::Message as From<{t}>|from\n  ensures r == crate::msg::Message::{t}(msg)')
    # Message
    kinds = [(MSG[k][0], k.split('|')[1], k.split('|')[0]) for k in MSG]
    s = ''
    for kd, t, mod in kinds:
        s += f"impl<'src> vstd::std_specs::convert::FromSpecImpl<{t}<'src>> for Message<'src> {{\n  open spec fn obeys_from_spec() -> bool {{ true }}\n  open spec fn from_spec(v: {t}<'src>) -> Self {{ Message::{t}(v) }}\n}}\n"
    for a, b in (('BadgeData', 'Badge'), ('Badge', 'BadgeData')):
        s += f"impl<'src> vstd::std_specs::convert::FromSpecImpl<{a}<'src>> for {b}<'src> {{\n  open spec fn obeys_from_spec() -> bool {{ false }}\n  open spec fn from_spec(v: {a}<'src>) -> Self {{ arbitrary() }}\n}}\n"
    s += "/// what interpreting m in general must give\npub open spec fn message_is(r: Option<Message<'_>>, m: IrcMessageRef<'_>) -> bool {\n  match kind(m) {\n"
    for kd, t, mod in kinds:
        f = f'crate::{mod}::{snake(t)}_of(m)'
        s += f'    CmdKind::{kd} => match r {{ Some(Message::{t}(x)) => {f} == Some(x.v()), None => {f} is None, _ => false }},\n'
    s += '    CmdKind::Reconnect => r is Some && r->0 is Reconnect,\n    _ => r == Some(Message::Other(m)),\n  }\n}\n'
    out.append('@module msg\n' + s)
    import os
    import tables
    v = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'msg.vspec')).read()
    v = v.replace('LEVEL_LITS', tables.lits_lemma('lemma_level_lits', 'ONE TWO THREE FOUR FIVE SIX SEVEN EIGHT NINE TEN'.split()))
    v = v.replace('EVENT_LITS', tables.lits_lemma('lemma_event_lits', 'sub resub raid subgift anonsubgift anonsubmysterygift submysterygift giftpaidupgrade anongiftpaidupgrade ritual bitsbadgetier announcement'.split()))
    out.append(v)
    return '\n'.join(out)


if __name__ == '__main__':
    print(text())
