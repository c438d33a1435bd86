#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vx'))
import plan  # noqa

I, C, H, F = 'inputs', 'configurations', 'histories', 'fault_sequences'


def P(id, title, statement, over, text, why, files, mech, **kw):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **kw))


PROPS = [
    P('P01', 'Parsing a message is total and splits it into exactly its parts',
      'Parsing any text as an IRC message never panics and fails only if the part after the optional tags and prefix has no command. '
      'Otherwise the reported prefix (nick, user, host), command, channel and parameters are exactly the substrings the IRC grammar assigns: '
      'prefix from ":" to the first space, split at "!" and "@"; command up to the next space; channel only if what follows starts with "#", up to the next space; parameters everything after that; and the raw message is the input itself. Printing a prefix gives back its text unless a "!" follows its last "@".',
      [I], 'every UTF-8 text of any length below 4 GiB, including empty, truncated and malformed ones',
      'Tests and snapshots parse a few dozen well-formed Twitch lines; the positions depend on every combination of missing parts, empty parts, repeated separators and non-ASCII text.',
      ['src/irc.rs', 'src/irc/prefix.rs', 'src/irc/command.rs', 'src/irc/channel.rs', 'src/irc/params.rs', 'src/common.rs'],
      [('parse_inner and the part parsers advance one shared position', 'src/irc.rs parse_inner; src/irc/*.rs parse'), ('spans into the source text', 'src/common.rs Span')],
      observe_at=['IrcMessageRef::parse', 'IrcMessage::parse', 'prefix/command/channel/params/raw']),
    P('P02', 'Every tag is reported once, in order, with its exact key and value',
      'If a message starts with "@" and contains a space, its tags are exactly the "key=value" pairs written between them, separated by ";", in order, with the raw bytes of each key and value, whatever their number and length. '
      'A message without such a section has no tags, and nothing outside the section influences them.',
      [I], 'every number of tags, every key and value length including empty ones, every position relative to the vector width and the end of the buffer',
      'Behaviour changes at 16/32-byte chunk borders, at 64 and 128 tags and at 64 KiB lengths; the existing tests use a handful of short tag lists.',
      ['src/irc/tags.rs', 'src/irc/tags/scalar.rs', 'src/irc/tags/simd.rs', 'src/irc/wide/x86_64/sse2.rs', 'src/irc/wide/x86_64/avx2.rs'],
      [('delimiter state machine', 'src/irc/tags/simd.rs, scalar.rs'), ('inline array with spill', 'src/irc/tags/simd.rs Array'), ('key/value offsets', 'src/irc/tags.rs TagPair')],
      observe_at=['IrcMessageRef::tags', 'IrcMessageRef::tag']),
    P('P03', 'Every build configuration parses every message identically',
      'The scalar tag parser and the SSE2 and AVX2 vector parsers give the same result (the same acceptance, tags, prefix, command, channel and parameters) for the same text.',
      [I, C], 'every text, under the portable build and under the SIMD builds for each x86-64 vector width',
      'The test suite is compiled for one configuration at a time and compares none of them with another.',
      ['src/irc/tags.rs', 'src/irc/tags/scalar.rs', 'src/irc/tags/simd.rs', 'src/irc/wide.rs'],
      [('one functional contract for all implementations of tags::parse', 'src/irc/tags/*.rs'), ('cfg selection', 'src/irc/tags.rs, src/irc/wide.rs')],
      observe_at=['IrcMessageRef::parse under each configuration']),
    P('P04', 'Tag and command names are recognised exactly and round-trip',
      'Converting any text to a tag key or a command and back, by name or by printing it, yields the same text. '
      'Exactly the documented Twitch names map to their named variants, each to its own one; every other text is kept verbatim as unknown.',
      [I], 'every text as tag key or command, in particular near-misses of the 60 known tags and 30 known commands',
      'Each name needs two literals to agree; tests touch only the names that occur in recorded messages.',
      ['src/irc/tags.rs', 'src/irc/command.rs'], [('tags_def! table', 'src/irc/tags.rs'), ('command match and as_str', 'src/irc/command.rs')],
      observe_at=['Tag::parse / Tag::as_str', 'Command::as_str', 'IrcMessageRef::command']),
    P('P05', 'Looking up a tag gives the value of its first occurrence',
      'Asking a message for a tag, by name or by variant, returns the raw value of the first tag with that key and nothing if there is none; a known name given as text and its variant give the same answer.',
      [I], 'every message and every key, known or not, with duplicates and keys that are prefixes of each other',
      'Tests look up a few well-known keys in messages without duplicates.',
      ['src/irc.rs', 'src/irc/tags.rs'], [('IrcMessageRef::tag / IrcMessage::tag', 'src/irc.rs'), ('Tag equality through RawTag', 'src/irc/tags.rs')],
      observe_at=['IrcMessageRef::tag', 'IrcMessage::tag']),
    P('P06', 'Owned and borrowed messages agree',
      'For every text, parsing into an owned message and parsing into a borrowed message accept the same inputs and every accessor of both gives the same answer; converting between them changes nothing.',
      [I], 'every text, every accessor',
      'The two types have separately written accessors; tests exercise mostly the borrowed one.',
      ['src/irc.rs'], [('IrcMessage and IrcMessageRef accessors over the same parts', 'src/irc.rs')],
      observe_at=['IrcMessage', 'IrcMessageRef', 'as_ref', 'as_owned/into_owned']),
    P('P07', 'Unescaping a tag value decodes every escape and nothing else',
      'Unescaping replaces \\s, \\:, \\r, \\n and \\\\ by space, ";", CR, LF and "\\", drops the backslash before any other character and a trailing one, turns "⸝" into ",", and keeps every other character in order. '
      'A text without escapes is returned unchanged without copying, and an owned and a borrowed argument give the same result.',
      [I], 'every text, with escapes at any position and in any sequence, next to multi-byte characters',
      'Tests cover a few values with one escape each.',
      ['src/lib.rs', 'src/irc.rs'], [('maybe_unescape / actually_unescape', 'src/lib.rs'), ('unescape', 'src/irc.rs')], observe_at=['tmi::maybe_unescape', 'tmi::unescape', 'User::name', 'Reply::text', 'system_message']),
    P('P08', 'Text and channel accessors follow the parameters',
      'The text of a message is what follows the first ":" of its parameters, or all of its parameters if they contain none. '
      'The channel is the one after the command if present; for numerics 353 and 366, whose channel stands among the parameters, it is the third and second word.',
      [I], 'every message, with and without channel, parameters, colons and numerics',
      'Only a few messages with trailing text are tested.',
      ['src/irc.rs'], [('text(), channel()', 'src/irc.rs')], observe_at=['IrcMessageRef::text', 'IrcMessageRef::channel']),
    P('P09', 'Parsing reads only its input and returns slices of it',
      'Parsing a message, in every build configuration, reads no byte outside the given text, never leaves memory uninitialised that is later read, and every text it returns is a UTF-8 slice of the input.',
      [I, C], 'every text at every alignment and distance from the end of an allocation',
      'The vector code uses unaligned 16/32-byte loads, unchecked indexing and uninitialised arrays; a test that reads beyond a buffer usually passes.',
      ['src/irc/tags/simd.rs', 'src/irc/wide/x86_64/sse2.rs', 'src/irc/wide/x86_64/avx2.rs', 'src/irc/tags.rs', 'src/common.rs'],
      [('chunked loads and padded tail', 'src/irc/wide/x86_64'), ('MaybeUninit array', 'src/irc/tags/simd.rs Array')], observe_at=['IrcMessageRef::parse']),
    P('P10', 'Each message is interpreted as its own type, exactly when it is complete',
      'Interpreting a message selects the type its command names, and succeeds exactly if every field that type requires is present and well-formed; commands without a type are returned unchanged. '
      'It never panics, and interpreting as one specific type agrees with interpreting in general.',
      [I], 'every message text, with any subset of tags missing or malformed',
      'Snapshots cover complete messages; the failure of each single missing or malformed field is not exercised.',
      ['src/msg.rs', 'src/msg/*.rs'], [('Message::from_irc dispatch', 'src/msg.rs'), ('parse functions and their `?`', 'src/msg/*.rs')],
      observe_at=['Message::parse', 'IrcMessage::as_typed', 'FromIrc::from_irc']),
    P('P11', 'Chat messages and whispers carry exactly what was sent',
      'The fields of a chat message, whisper and deleted-message notice (ids, channel, sender, reply parent, pinned chat, text, /me flag, colour, reward, bits, emotes, time) equal the values of their tags, prefix and text in the message, and optional ones are absent exactly if the tag is absent, empty or malformed.',
      [I], 'every message of these types with any tag values',
      'Snapshots fix about twenty recorded messages; swapped or dropped fields show only for values that differ.',
      ['src/msg/privmsg.rs', 'src/msg/whisper.rs', 'src/msg/clear_msg.rs', 'src/msg.rs'], [('parse', 'src/msg/privmsg.rs, whisper.rs, clear_msg.rs'), ('parse_message_text', 'src/msg.rs')],
      observe_at=['Privmsg', 'Whisper', 'ClearMsg getters']),
    P('P12', 'Room, user, moderation and connection messages carry exactly what was sent',
      'The fields of room state, user state, global user state, clear-chat, notice, join, part, ping and pong equal the values in the message: each setting from its own tag, the clear action by presence of target and duration, followers-only as disabled, enabled or enabled with a duration in minutes.',
      [I], 'every message of these types with any tag values, any number in numeric tags',
      'Snapshots fix a few recorded messages.',
      ['src/msg/room_state.rs', 'src/msg/user_state.rs', 'src/msg/global_user_state.rs', 'src/msg/clear_chat.rs', 'src/msg/notice.rs', 'src/msg/join.rs', 'src/msg/part.rs', 'src/msg/ping.rs', 'src/msg/pong.rs'],
      [('parse', 'src/msg/*.rs')], observe_at=['getters of these types']),
    P('P13', 'User notices report the right event with its own data',
      'A user notice yields the event its type tag names, with every field taken from the tag of that event, and an unrecognised type yields the generic event rather than a failure. '
      'A gift is anonymous exactly if the event is the anonymous kind or the sender is the anonymous gifter account, and an anonymous event reveals no sender.',
      [I], 'every user notice of every event type with any tag values',
      'Each of the event types has one or two recorded examples.',
      ['src/msg/user_notice.rs'], [('event dispatch', 'src/msg/user_notice.rs parse')], observe_at=['UserNotice getters', 'Event']),
    P('P14', 'Badge lists are parsed completely and in order',
      'Each "name/version" of the badges tag gives one badge in order, with the extra value of the first entry of the same name in the badge-info tag; the known names map to their variants and the subscriber months are that extra value or 1. '
      'Entries without "/" are skipped, and no count or length of badges changes this.',
      [I], 'every pair of badges and badge-info texts', 'Recorded messages carry one to three well-formed badges.',
      ['src/msg.rs'], [('parse_badges, Badge::from', 'src/msg.rs')], observe_at=['badges() of every message', 'Badge', 'BadgeData']),
    P('P15', 'Numbers, times, flags and levels convert exactly or are absent',
      'Numeric, time, duration and flag tags convert to exactly the value written; out-of-range or malformed values make an optional field absent and a required one reject the message, and never panic or wrap. '
      'Hype-chat levels convert between name, number and variant without ever producing an invalid variant.',
      [I], 'every text in a numeric, time, flag or level tag; every 8-bit level number', 'Tests use a few in-range values.',
      ['src/msg.rs', 'src/msg/privmsg.rs', 'src/msg/room_state.rs', 'src/msg/clear_chat.rs'],
      [('parse_bool, parse_timestamp, parse_duration', 'src/msg.rs'), ('PinnedChatLevel conversions', 'src/msg/privmsg.rs')], observe_at=['getters returning numbers, times, flags']),
    P('P16', 'Detaching a message from its input changes nothing',
      'Turning any interpreted message, or any part of one, into its owned form yields a value equal to the original in every field.',
      [I], 'every interpreted message, every nested part', 'No test compares the owned form of most types with the original.',
      ['src/msg/*.rs', 'src/msg.rs'], [('into_owned', 'src/msg/*.rs')], observe_at=['into_owned of every type']),
    P('P18', 'Every sending call writes exactly its own command',
      'Each sending call that succeeds has written to the connection, and flushed, exactly the bytes its arguments describe, ending in CR LF, and nothing of any earlier call, also after calls that failed or were dropped; one that fails has written nothing but a part of them. '
      'Raw messages are written verbatim if they end in CR LF and rejected otherwise without writing anything.',
      [I, H, F], 'every argument, every sequence of sends, joins, pings and failed or cancelled calls before it',
      'There is no test of the sending side beyond the examples.',
      ['src/client/write.rs', 'src/client/macros.rs', 'src/common.rs'], [('with_scratch!', 'src/client/macros.rs'), ('send, ping, pong, join, join_all, send_raw', 'src/client/write.rs'), ('Join', 'src/common.rs')],
      observe_at=['bytes written to the stream'], hook_needed='in-memory stream in place of TLS'),
    P('P19', 'The handshake sends the credentials and accepts only a welcome',
      'Connecting writes the capability request, the token (prefixed with "oauth:" exactly once, or the anonymous one) and the login, and succeeds only if the server acknowledges the capabilities and then welcomes the client; every other reply yields the error that names it, and nothing is left over for later calls.',
      [I, H, F], 'every credential and every sequence of server replies, closes and delays',
      'The handshake has no tests: it needs a server.',
      ['src/client.rs'], [('handshake', 'src/client.rs')], observe_at=['bytes written', 'result of connect'], hook_needed='in-memory stream in place of TLS'),
    P('P20', 'Reconnecting follows the configured backoff',
      'Reconnecting waits the initial delay before the first attempt and multiplies the delay after each failed attempt up to the maximum, makes at most the configured number of attempts, stops at the first success, retries only after I/O errors and reports the last error.',
      [C, F, H], 'every backoff configuration and every sequence of connection and handshake failures',
      'Reconnection has no tests: it needs failing servers and time.',
      ['src/client.rs'], [('reconnect loop', 'src/client.rs')], observe_at=['attempts and their times', 'result of reconnect'], hook_needed='in-memory stream in place of TLS'),
    P('P21', 'The same-message bypass makes consecutive messages differ',
      'The suffix alternates strictly between empty and a fixed non-empty one, starting with the empty one.',
      [H], 'every number of uses', 'Not tested.', ['src/client/write.rs'], [('SameMessageBypass::get', 'src/client/write.rs')], observe_at=['SameMessageBypass::get']),
    P('P22', 'Received lines are delivered one by one, unchanged or as an error',
      'Each line from the server yields exactly the message parsed from it, or a parse error carrying that line; the end of the stream and read failures are reported as such, and an end of stream as a disconnect.',
      [I, H, F], 'every sequence of lines, chunk boundaries, malformed lines and ends of stream',
      'Receiving has no tests: it needs a server.', ['src/client/read.rs'], [('recv', 'src/client/read.rs'), ('is_disconnect', 'src/client/read.rs')], observe_at=['Client::recv'], hook_needed='in-memory stream in place of TLS'),
    P('P23', 'Serialising a message and reading it back changes nothing',
      'Every interpreted message that is serialised with serde deserialises to an equal value.',
      [I], 'every interpreted message', 'Round trips are tested for recorded messages only.',
      ['src/msg.rs', 'src/msg/*.rs'], [('serde derives and attributes', 'src/msg.rs, src/msg/*.rs'), ('Subscriber::deserialize', 'src/msg.rs')], observe_at=['serde_json round trip']),
    P('P24', 'Cancelled client calls leave the client as it was',
      'Dropping the future of any client call wherever it waits leaves the client\'s own state as if the call had not been made: nothing in the buffer the next command is put together in, no received line lost or half consumed, credentials and configuration unchanged; only what was already handed to the connection (bytes written, the connection a reconnect opened) remains.',
      ['schedules', H], 'every call and every suspension point', 'Tests do not cancel futures.',
      ['src/client.rs', 'src/client/write.rs', 'src/client/read.rs'], [('scratch is taken during a call', 'src/client/macros.rs'), ('handshake', 'src/client.rs'), ('recv', 'src/client/read.rs')], observe_at=['calls after a cancelled one'], hook_needed='in-memory stream in place of TLS'),
    P('P25', 'The token is shown to nobody but the server',
      'The token given with the credentials appears in no text that the client shows to anyone but the server: not in the Debug text of credentials or configuration, not in any trace event at any level, and not in any error that connecting, reconnecting, sending or receiving returns. (What the caller itself sends, or the server says, is shown as it is.)',
      [I, H, F], 'every token and login, every history of calls and every failure of the connection',
      'No test looks at what is traced or at the Debug text; leaving a secret out has to hold on every path.',
      ['src/client.rs', 'src/client/write.rs', 'src/client/read.rs', 'src/client/conn.rs'], [('Debug of Credentials leaves the token out', 'src/client.rs'), ('handshake traces PASS ***', 'src/client.rs handshake'), ('send_raw traces what it sends', 'src/client/write.rs')],
      observe_at=['trace events', 'Debug of Credentials and Config', 'Display and Debug of errors'], hook_needed='in-memory stream in place of TLS'),
    P('P26', 'The client talks to the authenticated Twitch server only',
      'Every connection the client opens is a TLS connection to irc.chat.twitch.tv port 6697 on which the server has proved to be irc.chat.twitch.tv with a certificate that leads to a root the system trusts, to no other root. '
      'Otherwise connecting fails, and so does that attempt to reconnect: such a server is sent nothing of the handshake, the token least of all, and nothing it says is taken for a message.',
      [I, H, F], 'every server that may answer and every history of connections, failures and reconnections',
      'No test opens a connection: it needs servers with wrong certificates.',
      ['src/client.rs', 'src/client/conn.rs'], [('open', 'src/client/conn.rs'), ('TlsConfig::load', 'src/client/conn.rs'), ('connect, reconnect', 'src/client.rs')],
      observe_at=['what servers receive', 'result of connect and reconnect']),
]

NA = {}

LEVEL = {}


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks = []
    na = []
    for p in PROPS:
        if p['id'] in plan.PROPS:
            q = plan.PROPS[p['id']]
            checks.append(dict(property=p['id'], quick_cmd=f'python3 check.py {p["id"]} quick', thorough_cmd=f'python3 check.py {p["id"]} thorough',
                               technique='contract-based deductive verification (Verus) of functions extracted from /repo on every run; failed obligations replayed against the real crate',
                               level=q.get('level', 'proof'),
                               level_note=q.get('note', plan.NOTE)))
        else:
            na.append(dict(property=p['id'], reason=NA.get(p['id'], 'not built yet')))
    m = dict(version=1, setup_cmd='python3 -m py_compile check.py vx/plan.py vx/extract.py vx/verify.py vx/sweep.py', checks=checks, not_applicable=na,
             notes='See DESIGN.md. Checks build from /repo\'s working tree into /verif/work (ignored by git).')
    if plan.HOOKS:
        m['hooks'] = plan.HOOKS
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)


if __name__ == '__main__':
    main()
