"""The two fixed vocabularies of the protocol, as the specification states them.

Written from the Twitch IRC documentation and the crate's public enums; these
lists are part of the specification and are never read from /repo at check time.
"""
# (public variant, internal variant, wire name)
COMMANDS = [
    ('Ping', 'Ping', 'PING'), ('Pong', 'Pong', 'PONG'), ('Join', 'Join', 'JOIN'), ('Part', 'Part', 'PART'),
    ('Privmsg', 'Privmsg', 'PRIVMSG'), ('Whisper', 'Whisper', 'WHISPER'), ('ClearChat', 'Clearchat', 'CLEARCHAT'),
    ('ClearMsg', 'Clearmsg', 'CLEARMSG'), ('GlobalUserState', 'GlobalUserState', 'GLOBALUSERSTATE'),
    ('Notice', 'Notice', 'NOTICE'), ('Reconnect', 'Reconnect', 'RECONNECT'), ('RoomState', 'RoomState', 'ROOMSTATE'),
    ('UserNotice', 'UserNotice', 'USERNOTICE'), ('UserState', 'UserState', 'USERSTATE'), ('Capability', 'Capability', 'CAP'),
    ('RplWelcome', 'RplWelcome', '001'), ('RplYourHost', 'RplYourHost', '002'), ('RplCreated', 'RplCreated', '003'),
    ('RplMyInfo', 'RplMyInfo', '004'), ('RplNames', 'RplNamReply', '353'), ('RplEndOfNames', 'RplEndOfNames', '366'),
    ('RplMotd', 'RplMotd', '372'), ('RplMotdStart', 'RplMotdStart', '375'), ('RplEndOfMotd', 'RplEndOfMotd', '376'),
]

TAGS = '''MsgId msg-id|Badges badges|BadgeInfo badge-info|DisplayName display-name|EmoteOnly emote-only|Emotes emotes|Flags flags|Id id|Mod mod|RoomId room-id|Subscriber subscriber|TmiSentTs tmi-sent-ts|Turbo turbo|UserId user-id|UserType user-type|ClientNonce client-nonce|FirstMsg first-msg|ReplyParentDisplayName reply-parent-display-name|ReplyParentMsgBody reply-parent-msg-body|ReplyParentMsgId reply-parent-msg-id|ReplyParentUserId reply-parent-user-id|ReplyParentUserLogin reply-parent-user-login|ReplyThreadParentMsgId reply-thread-parent-msg-id|ReplyThreadParentUserLogin reply-thread-parent-user-login|FollowersOnly followers-only|R9K r9k|Rituals rituals|Slow slow|SubsOnly subs-only|MsgParamCumulativeMonths msg-param-cumulative-months|MsgParamDisplayName msg-param-displayName|MsgParamLogin msg-param-login|MsgParamMonths msg-param-months|MsgParamPromoGiftTotal msg-param-promo-gift-total|MsgParamPromoName msg-param-promo-name|MsgParamRecipientDisplayName msg-param-recipient-display-name|MsgParamRecipientId msg-param-recipient-id|MsgParamRecipientUserName msg-param-recipient-user-name|MsgParamSenderLogin msg-param-sender-login|MsgParamSenderName msg-param-sender-name|MsgParamShouldShareStreak msg-param-should-share-streak|MsgParamStreakMonths msg-param-streak-months|MsgParamSubPlan msg-param-sub-plan|MsgParamSubPlanName msg-param-sub-plan-name|MsgParamViewerCount msg-param-viewerCount|MsgParamRitualName msg-param-ritual-name|MsgParamThreshold msg-param-threshold|MsgParamGiftMonths msg-param-gift-months|MsgParamColor msg-param-color|Login login|Bits bits|SystemMsg system-msg|EmoteSets emote-sets|ThreadId thread-id|MessageId message-id|ReturningChatter returning-chatter|Color color|Vip vip|TargetUserId target-user-id|TargetMsgId target-msg-id|BanDuration ban-duration|MsgParamMultimonthDuration msg-param-multimonth-duration|MsgParamWasGifted msg-param-was-gifted|MsgParamMultimonthTenure msg-param-multimonth-tenure|SentTs sent-ts|MsgParamOriginId msg-param-origin-id|MsgParamFunString msg-param-fun-string|MsgParamSenderCount msg-param-sender-count|MsgParamProfileImageUrl msg-param-profileImageURL|MsgParamMassGiftCount msg-param-mass-gift-count|MsgParamGiftMonthBeingRedeemed msg-param-gift-month-being-redeemed|MsgParamAnonGift msg-param-anon-gift|CustomRewardId custom-reward-id|PinnedChatPaidAmount pinned-chat-paid-amount|PinnedChatPaidCanonicalAmount pinned-chat-paid-canonical-amount|PinnedChatPaidCurrency pinned-chat-paid-currency|PinnedChatPaidExponent pinned-chat-paid-exponent|PinnedChatPaidLevel pinned-chat-paid-level|PinnedChatPaidIsSystemMessage pinned-chat-paid-is-system-message'''
TAGS = [tuple(x.split()) for x in TAGS.split('|')]


def lits_lemma(name, words):
    """ground facts about string literals: length and every character"""
    facts = []
    for w in words:
        facts.append(f'"{w}"@.len() == {len(w)}')
        facts += [f'"{w}"@[{i}] == {ch(c)}' for i, c in enumerate(w)]
    return (f'pub proof fn {name}()\n  ensures\n    ' + ',\n    '.join(facts) + '\n{\n' +
            '\n'.join(f'  reveal_strlit("{w}");' for w in words) + '\n}\n')


def ch(c):
    return {'\\': "'\\\\'", "'": "'\\''"}.get(c, f"'{c}'")


def chain(pairs, default, var='s'):
    return ' else '.join(f'if {var} == "{w}"@ {{ {v} }}' for w, v in pairs) + f' else {{ {default} }}'


def cmd_tables():
    ks = [c[0] for c in COMMANDS]
    s = '#[allow(inconsistent_fields)]\npub ghost enum CmdKind { ' + ', '.join(ks) + ', Other }\n'
    s = s.replace('#[allow(inconsistent_fields)]\n', '').replace('pub ghost enum', 'pub enum')
    s += '/// wire name -> command (the whole table)\npub open spec fn kind_of_name(s: Seq<char>) -> CmdKind {\n  ' + chain([(w, f'CmdKind::{v}') for v, r, w in COMMANDS], 'CmdKind::Other') + '\n}\n'
    s += 'pub open spec fn raw_kind(c: RawCommand) -> CmdKind {\n  match c {\n' + ''.join(f'    RawCommand::{r} => CmdKind::{v},\n' for v, r, w in COMMANDS) + '    RawCommand::Other(_) => CmdKind::Other,\n  }\n}\n'
    s += "pub open spec fn cmd_kind(c: Command<'_>) -> CmdKind {\n  match c {\n" + ''.join(f'    Command::{v} => CmdKind::{v},\n' for v, r, w in COMMANDS) + '    Command::Other(_) => CmdKind::Other,\n  }\n}\n'
    s += "pub open spec fn command_name(c: Command<'_>) -> Seq<char> {\n  match c {\n" + ''.join(f'    Command::{v} => "{w}"@,\n' for v, r, w in COMMANDS) + '    Command::Other(s) => s@,\n  }\n}\n'
    s += lits_lemma('lemma_command_lits', [w for _, _, w in COMMANDS])
    return s


def tag_tables():
    ks = [t[0] for t in TAGS]
    s = 'pub enum TagKind { ' + ', '.join(ks) + ', Unknown }\n'
    s += 'pub open spec fn tag_of_name(s: Seq<char>) -> TagKind {\n  ' + chain([(w, f'TagKind::{v}') for v, w in TAGS], 'TagKind::Unknown') + '\n}\n'
    s += "pub open spec fn tag_kind(t: Tag<'_>) -> TagKind {\n  match t {\n" + ''.join(f'    Tag::{v} => TagKind::{v},\n' for v, w in TAGS) + '    Tag::Unknown(_) => TagKind::Unknown,\n  }\n}\n'
    s += "/// the name of a tag\npub open spec fn tag_name(t: Tag<'_>) -> Seq<char> {\n  match t {\n" + ''.join(f'    Tag::{v} => "{w}"@,\n' for v, w in TAGS) + '    Tag::Unknown(s) => s@,\n  }\n}\n'
    s += "/// tag names as bytes, for the typed-message contracts\n"
    s += lits_lemma('lemma_tag_lits', [w for _, w in TAGS])
    return s


SUBST = {'%%CMD_TABLES%%': cmd_tables(), '%%TAG_TABLES%%': tag_tables()}


def simd(width):
    """annotations for the vector path, for one vector width"""
    import os
    s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'simd.vspec.in')).read()
    bits = [f'bit(m, {i})' for i in range(32)]
    s = s.replace('BITLIST', '\n    '.join(f'assert(!{b});' for b in bits))
    s = s.replace('BITREQ', ', '.join(f'(m >> {i}u32) & 1 != 1' for i in range(32)))
    import re
    s = s.replace('x86_64::W', 'x86_64::' + {32: 'avx2', 16: 'sse2'}[width]).replace('REG', {32: '__m256i', 16: '__m128i'}[width])
    pre, reg = {16: ('_mm', 'si128'), 32: ('_mm256', 'si256')}[width]
    for a, b in (('CMPEQ', f'{pre}_cmpeq_epi8'), ('MOVEMASK', f'{pre}_movemask_epi8'), ('LOADU', f'{pre}_loadu_{reg}'), ('LOADA', f'{pre}_load_{reg}'), ('ALIGNT', f'Align{width}')):
        s = s.replace(a, b)
    return re.sub(r'\bSZ\b', str(width), s)
