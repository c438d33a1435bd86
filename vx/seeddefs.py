"""The planted bugs (development only)."""
import os
import re

TLS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'tls')
AVX = '-C target-cpu=x86-64 -C target-feature=+avx2'
DEFS = []


def bug(**k):
    DEFS.append(k)


bug(id='prefix-first-bang', property='P01',
    edits=[('src/irc/prefix.rs', "        nick = Some(Span::from(start..i));\n        nick_end = Some(i);\n",
            "        let end = nick_end.unwrap_or(i);\n        nick = Some(Span::from(start..end));\n        nick_end = Some(end);\n")],
    needs='a prefix with two exclamation marks before the @',
    breaks='the nick ends at the first ! instead of the last, and the user starts there',
    main='''
fn main() {
    let p = tmi::IrcMessageRef::parse(":a!b!c@host PING").unwrap().prefix().unwrap();
    assert_eq!((p.nick, p.user, p.host), (Some("a!b"), Some("c"), "host"));
    let p = tmi::IrcMessageRef::parse(":a!b@c@host PING").unwrap().prefix().unwrap();
    assert_eq!((p.nick, p.user, p.host), (Some("a"), Some("b@c"), "host"));
}
''')

bug(id='channel-ends-at-tab', property='P01',
    edits=[('src/irc/channel.rs', "match src[start..].find(' ') {", "match src[start..].find([' ', '\\t']) {")],
    needs='a tab inside the channel word', breaks='the channel ends at a tab, the rest of the word becomes parameters',
    main='''
fn main() {
    let m = tmi::IrcMessageRef::parse("PRIVMSG #a\\tb :hi").unwrap();
    assert_eq!(m.channel(), Some("#a\\tb"));
    assert_eq!(m.params(), Some(":hi"));
    let m = tmi::IrcMessageRef::parse("PRIVMSG #ab :hi").unwrap();
    assert_eq!(m.channel(), Some("#ab"));
}
''')

bug(id='scalar-semicolon-restarts-key', property='P02', feats=[],
    edits=[('src/irc/tags/scalar.rs', "          state = State::Key {\n            key_start: offset + 1,\n          };\n        }\n      }\n",
            "        }\n        state = State::Key {\n          key_start: offset + 1,\n        };\n      }\n")],
    needs='the portable parser and a tag without "=" before one with it',
    breaks='in the portable parser a key no longer extends over a ";" in front of its "="',
    main='''
fn main() {
    let m = tmi::IrcMessageRef::parse("@vip;color=red;x=y PING").unwrap();
    let t: Vec<_> = m.tags().collect();
    assert_eq!(t, [("vip;color", "red"), ("x", "y")]);
}
''')

bug(id='simd-key-keeps-semicolon', property='P03', feats=['simd'],
    edits=[('src/irc/tags/simd.rs', "        let m = vector_eq.first_match();\n        vector_eq.clear_to(m);\n        vector_semi.clear_to(m);\n",
            "        let m = vector_eq.first_match();\n        vector_eq.clear_to(m);\n        if key_start <= offset {\n          vector_semi.clear_to(m);\n        }\n")],
    needs='the vector parser, and a ";" inside a key that starts after the beginning of its chunk',
    breaks='the vector parser finds the end of a value in front of its "="',
    main='''
fn main() {
    let ok = std::panic::catch_unwind(|| {
        let m = tmi::IrcMessageRef::parse("@a=b;c;d=e;f=g PING").unwrap();
        let t: Vec<_> = m.tags().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        let w = [("a", "b"), ("c;d", "e"), ("f", "g")].map(|(a, b)| (a.to_string(), b.to_string()));
        t == w
    });
    assert!(matches!(ok, Ok(true)));
}
''')

bug(id='remainder-direct-load', property='P09', feats=['simd'],
    edits=[('src/irc/wide/x86_64/sse2.rs', "    unsafe {\n      let mut buf = Align16([0; 16]);\n      buf.0[..data.len() - offset].copy_from_slice(&data[offset..]);\n",
            "    unsafe {\n      let src = data.as_ptr().add(offset);\n      let mut buf = Align16([0; 16]);\n      // a direct load is cheaper where it cannot touch the next page\n      if src as usize % 4096 <= 4096 - 16 && data.len() > 64 {\n        let chunk = _mm_loadu_si128(src as *const __m128i);\n        _mm_store_si128(buf.0.as_mut_ptr() as *mut __m128i, chunk);\n        for i in data.len() - offset..16 {\n          buf.0[i] = 0;\n        }\n        return Self(_mm_load_si128(buf.0.as_ptr() as *const __m128i));\n      }\n      buf.0[..data.len() - offset].copy_from_slice(&data[offset..]);\n"),
           ('src/irc/wide/x86_64/sse2.rs', "_mm_loadu_si128, _mm_movemask_epi8,\n", "_mm_loadu_si128, _mm_movemask_epi8, _mm_store_si128,\n")],
    needs='the SSE2 parser and a message whose tags end less than 16 bytes before the end of its buffer',
    breaks='up to 15 bytes after the end of the message are read',
    deps='', main='''
use std::process::Command;
fn main() {
    // two pages, the second one inaccessible: but the shortcut avoids page ends, so ask valgrind instead
    if std::env::args().nth(1).is_some() {
        let s: String = format!("@{}=x {}", "k".repeat(70), "P");
        let b = s.into_boxed_str();
        assert!(tmi::IrcMessageRef::parse(&b).is_some());
        return;
    }
    let me = std::env::current_exe().unwrap();
    let o = Command::new("valgrind").args(["-q", "--error-exitcode=9"]).arg(me).arg("x").status().unwrap();
    assert!(o.success());
}
''')

bug(id='owned-tag-last', property='P05',
    edits=[('src/irc.rs', "      .find(|pair| &self.src.as_str()[pair.key()] == tag.as_str())\n", "      .rev()\n      .find(|pair| &self.src.as_str()[pair.key()] == tag.as_str())\n")],
    needs='an owned message in which a key occurs twice', breaks='the owned message returns the last value of a repeated key',
    main='''
fn main() {
    let s = "@id=1;x=2;id=3 PING";
    assert_eq!(tmi::IrcMessageRef::parse(s).unwrap().tag("id"), Some("1"));
    assert_eq!(tmi::IrcMessage::parse(s).unwrap().tag("id"), Some("1"));
}
''')

bug(id='owned-text-last-colon', property='P06',
    edits=[('src/irc.rs', "      Some(params) => match params.find(':') {", "      Some(params) => match params.rfind(':') {")],
    needs='an owned message whose text contains a colon', breaks='the text of an owned message starts after the last colon',
    main='''
fn main() {
    let s = "PRIVMSG #a :look: this";
    assert_eq!(tmi::IrcMessageRef::parse(s).unwrap().text(), Some("look: this"));
    assert_eq!(tmi::IrcMessage::parse(s).unwrap().text(), Some("look: this"));
}
''')

bug(id='owned-trims-line', property='P06',
    edits=[('src/irc.rs', "    let src = src.to_string();\n", "    let mut src = src.to_string();\n    src.truncate(src.trim_end_matches(['\\r', '\\n']).len());\n")],
    needs='an owned message parsed from a line with its line ending', breaks='owned messages drop a trailing line ending that borrowed ones keep',
    main='''
fn main() {
    let s = "PING :a\\r\\n";
    let a = tmi::IrcMessageRef::parse(s).unwrap();
    let b = tmi::IrcMessage::parse(s).unwrap();
    assert_eq!(a.raw(), b.raw());
    assert_eq!(a.params(), b.params());
}
''')

bug(id='tag-name-typo', property='P04',
    edits=[('src/irc/tags.rs', '"msg-param-profileImageURL" = MsgParamProfileImageUrl', '"msg-param-profileImageUrl" = MsgParamProfileImageUrl')],
    needs='the tag msg-param-profileImageURL', breaks='the name of this tag does not come back from its variant',
    main='''
fn main() {
    for t in ["msg-param-profileImageURL", "msg-param-sub-plan", "vip"] {
        assert_eq!(tmi::Tag::parse(t).as_str(), t);
        assert!(!matches!(tmi::Tag::parse(t), tmi::Tag::Unknown(_)));
    }
}
''')

bug(id='command-numeric-swap', property='P04',
    edits=[('src/irc/command.rs', '      RawCommand::RplMotdStart => Command::RplMotdStart,\n      RawCommand::RplEndOfMotd => Command::RplEndOfMotd,',
            '      RawCommand::RplMotdStart => Command::RplEndOfMotd,\n      RawCommand::RplEndOfMotd => Command::RplMotdStart,')],
    needs='the numerics 375 or 376', breaks='375 and 376 are exchanged',
    main='''
fn main() {
    for t in ["375", "376", "372", "PING", "XYZ"] {
        assert_eq!(tmi::IrcMessageRef::parse(t).unwrap().command().as_str(), t);
    }
}
''')

bug(id='names-channel-single-space', property='P08',
    edits=[('src/irc.rs', ".and_then(|params| params.split_whitespace().nth(1)),", ".and_then(|params| params.split(' ').nth(1)),")],
    count=2, needs='a 366 reply with two spaces between its words', breaks='the channel of a 366 reply is empty if its words are separated by two spaces',
    main='''
fn main() {
    let m = tmi::IrcMessageRef::parse(":tmi 366 justinfan  #jerma985 :End of /NAMES list").unwrap();
    assert_eq!(m.channel(), Some("#jerma985"));
    let m = tmi::IrcMessageRef::parse(":tmi 366 justinfan #jerma985 :End of /NAMES list").unwrap();
    assert_eq!(m.channel(), Some("#jerma985"));
}
''')

bug(id='find-first-last-byte', property='P02', feats=['simd'],
    edits=[('src/irc/tags/simd.rs', "  if offset < data.len() {\n    let offset = data.len() - V::SIZE;", "  if offset + 1 < data.len() {\n    let offset = data.len() - V::SIZE;")],
    needs='the vector parser, and the space after the tags being the last byte of the message, one byte after an aligned vector',
    breaks='the space is not found, so that the tags are taken for the command',
    main='''
fn main() {
    for len in 20..400usize {
        for shift in 0..32usize {
            let mut s = String::with_capacity(1024);
            for _ in 0..shift { s.push('.'); }
            s.push('@');
            for _ in 0..len { s.push('k'); }
            s.push_str("=v ");
            // without a command such a line is no message; a line whose tags were not found has one
            assert!(tmi::IrcMessageRef::parse(&s[shift..]).is_none(), "{len} {shift}");
        }
    }
}
''')

bug(id='owned-convert-loses-channel', property='P06',
    edits=[('src/irc.rs', "      src: self.src.into(),\n      parts: self.parts.clone(),\n", "      src: self.src.trim_end().into(),\n      parts: self.parts.clone(),\n")],
    needs='a borrowed message that ends in white space, turned into an owned one', breaks='the text is cut while the positions of the parts still refer to the whole text',
    main='''
fn main() {
    let s = "PRIVMSG #a :hi  ";
    let m = tmi::IrcMessageRef::parse(s).unwrap().into_owned();
    assert_eq!(m.raw(), s);
    assert_eq!(m.text(), Some("hi  "));
}
''')

# ---- typed messages
MSG = ['message-types']
TS = 'tmi-sent-ts=1700000000000'

bug(id='newline-escape-sticks', property='P07', feats=MSG,
    edits=[('src/lib.rs', "        out.push('\\n');\n        escape = false;\n", "        out.push('\\n');\n")],
    needs='an escaped line feed directly before a character that is special after a backslash', breaks='after \\n the next character is decoded as if it were escaped too',
    main='''
fn main() {
    assert_eq!(tmi::maybe_unescape("a\\\\n\\\\nb"), "a\\n\\nb");
    assert_eq!(tmi::maybe_unescape("a\\\\nxb"), "a\\nxb");
    assert_eq!(tmi::maybe_unescape("a\\\\nsb"), "a\\nsb");
}
''')

bug(id='trailing-backslash-kept', property='P07', feats=MSG,
    edits=[('src/lib.rs', "  for i in 0..value.len() {\n", "  // an escape takes two bytes\n  for i in 0..value.len().saturating_sub(1) {\n")],
    needs='a value whose only escape is a backslash at its end', breaks='the trailing backslash is kept',
    main='''
fn main() {
    assert_eq!(tmi::maybe_unescape("a\\\\sb\\\\"), "a b");
    assert_eq!(tmi::maybe_unescape("ab\\\\"), "ab");
}
''')

bug(id='privmsg-name-falls-back', property='P10', feats=MSG,
    edits=[('src/msg/privmsg.rs', "      name: message.tag(Tag::DisplayName)?.into(),\n    };", "      name: message\n        .tag(Tag::DisplayName)\n        .or_else(|| message.tag(Tag::Login))?\n        .into(),\n    };")],
    needs='a chat message without display-name but with a login tag', breaks='a chat message without its required display name is accepted',
    main='''
fn main() {
    let s = "@room-id=1;id=2;user-id=3;login=x;tmi-sent-ts=1700000000000 :x!x@x PRIVMSG #c :hi";
    assert!(tmi::Message::parse(s).is_err());
    assert!(tmi::Message::parse(&s.replace("login=", "display-name=")).is_ok());
}
''')

bug(id='notice-incomplete-passes', property='P10', feats=MSG,
    edits=[('src/msg.rs', "      C::Notice => Notice::from_irc(message)?.into(),", "      C::Notice if message.params().is_some() => Notice::from_irc(message)?.into(),")],
    needs='a NOTICE without parameters', breaks='an incomplete notice is passed on as an untyped message instead of being rejected',
    main='''
fn main() {
    assert!(tmi::Message::parse(":tmi.twitch.tv NOTICE #c :hi").is_ok());
    assert!(tmi::Message::parse(":tmi.twitch.tv NOTICE #c").is_err());
}
''')

bug(id='action-unterminated', property='P11', feats=MSG,
    edits=[('src/msg.rs', "  let Some(s) = s.strip_suffix('\\u{0001}') else {\n    return (input, false);\n  };\n  (s, true)", "  (s.strip_suffix('\\u{0001}').unwrap_or(s), true)")],
    needs='a message that starts like a /me message but is not terminated', breaks='an unterminated action loses its prefix and counts as /me',
    main='''
fn main() {
    let s = "@room-id=1;id=2;user-id=3;display-name=x;tmi-sent-ts=1700000000000 :x!x@x PRIVMSG #c :\\u{1}ACTION hi";
    let tmi::Message::Privmsg(m) = tmi::Message::parse(s).unwrap() else { panic!() };
    assert!(!m.is_action());
    assert_eq!(m.text(), "\\u{1}ACTION hi");
}
''')

bug(id='whisper-last-colon', property='P11', feats=MSG,
    edits=[('src/msg/whisper.rs', 'split_once(" :")?', 'rsplit_once(" :")?')],
    needs='a whisper whose text contains a space and a colon', breaks='the text is cut at the last " :" and the recipient takes the rest',
    main='''
fn main() {
    let s = "@user-id=3;display-name=x :x!x@x WHISPER bob :look :)";
    let tmi::Message::Whisper(m) = tmi::Message::parse(s).unwrap() else { panic!() };
    assert_eq!((m.recipient(), m.text()), ("bob", "look :)"));
}
''')

bug(id='thread-login-for-parent', property='P11', feats=MSG,
    edits=[('src/msg/privmsg.rs', "          login: message.tag(Tag::ReplyParentUserLogin)?.into(),", "          login: message\n            .tag(Tag::ReplyThreadParentUserLogin)\n            .filter(|_| message.tag(Tag::ReplyParentUserLogin).is_some())?\n            .into(),")],
    needs='a reply to a reply: the parent is written by someone else than the thread', breaks='the sender of the parent message is the author of the thread',
    main='''
fn main() {
    let s = "@reply-parent-msg-id=a;reply-parent-user-id=5;reply-parent-user-login=bob;reply-parent-display-name=Bob;reply-parent-msg-body=yo;reply-thread-parent-msg-id=b;reply-thread-parent-user-login=eve;room-id=1;id=2;user-id=3;display-name=x;tmi-sent-ts=1700000000000 :x!x@x PRIVMSG #c :hi";
    let tmi::Message::Privmsg(m) = tmi::Message::parse(s).unwrap() else { panic!() };
    let r = m.reply_to().unwrap();
    assert_eq!((r.sender().login(), r.thread_parent_user_login()), ("bob", "eve"));
}
''')

bug(id='zero-timeout-is-ban', property='P12', feats=MSG,
    edits=[('src/msg/clear_chat.rs', "        (Some(name), Some(duration)) => Action::TimeOut", "        (Some(name), Some(duration)) if !duration.is_zero() => Action::TimeOut"),
           ('src/msg/clear_chat.rs', "        (Some(name), None) => Action::Ban", "        (Some(name), _) => Action::Ban")],
    needs='a timeout of zero seconds', breaks='a timeout with duration 0 is reported as a ban',
    main='''
fn main() {
    let s = "@room-id=1;target-user-id=9;ban-duration=0;tmi-sent-ts=1700000000000 :tmi.twitch.tv CLEARCHAT #c :bob";
    let tmi::Message::ClearChat(m) = tmi::Message::parse(s).unwrap() else { panic!() };
    assert!(m.action().is_time_out());
}
''')

bug(id='emote-sets-skip-empty', property='P12', feats=MSG,
    edits=[('src/msg/user_state.rs', "        .map(|i| i.map(Cow::Borrowed))", "        .map(|i| i.filter(|s| !s.is_empty()).map(Cow::Borrowed))")],
    needs='an emote-sets tag with an empty entry', breaks='empty entries of the list of emote sets disappear',
    main='''
fn main() {
    let s = "@emote-sets=1,,2;display-name=x :tmi.twitch.tv USERSTATE #c";
    let tmi::Message::UserState(m) = tmi::Message::parse(s).unwrap() else { panic!() };
    assert_eq!(m.emote_sets().collect::<Vec<_>>(), ["1", "", "2"]);
}
''')

bug(id='pong-nonce-server-name', property='P12', feats=MSG,
    edits=[('src/msg/pong.rs', "message.text().map(Cow::Borrowed)", "message\n        .text()\n        .map(|v| Cow::Borrowed(v.strip_prefix(\"tmi.twitch.tv \").unwrap_or(v)))")],
    needs='a PONG whose text starts with the server name', breaks='part of the nonce is dropped',
    main='''
fn main() {
    let tmi::Message::Pong(m) = tmi::Message::parse(":tmi.twitch.tv PONG :tmi.twitch.tv x").unwrap() else { panic!() };
    assert_eq!(m.nonce(), Some("tmi.twitch.tv x"));
}
''')

bug(id='anonymous-by-login', property='P13', feats=MSG,
    edits=[('src/msg/user_notice.rs', '        event_id == "anonsubgift" || sender_id == AN_ANONYMOUS_GIFTER,', '        event_id == "anonsubgift"\n          || (sender_id == AN_ANONYMOUS_GIFTER\n            && message.tag(Tag::Login) == Some("ananonymousgifter")),')],
    needs='a gift of the anonymous gifter account whose login tag differs', breaks='the anonymous sender is revealed',
    main='''
fn main() {
    let s = "@msg-id=subgift;room-id=1;id=2;user-id=274598607;login=renamed;display-name=X;msg-param-months=1;msg-param-recipient-id=4;msg-param-recipient-user-name=r;msg-param-recipient-display-name=R;msg-param-sub-plan=1000;msg-param-sub-plan-name=n;msg-param-gift-months=1;tmi-sent-ts=1700000000000 :tmi.twitch.tv USERNOTICE #c";
    let tmi::Message::UserNotice(m) = tmi::Message::parse(s).unwrap() else { panic!() };
    assert!(m.sender().is_none());
}
''')

bug(id='promotion-total-defaults', property='P13', feats=MSG,
    edits=[('src/msg/user_notice.rs', "      .tag(Tag::MsgParamPromoGiftTotal)\n      .and_then(|v| v.parse().ok()),", "      .tag(Tag::MsgParamPromoGiftTotal)\n      .map(|v| v.parse().unwrap_or(0)),")],
    needs='a gift upgrade with a promotion whose number of gifts is malformed', breaks='a malformed promotion is reported with 0 gifts instead of being absent',
    main='''
fn main() {
    let s = "@msg-id=anongiftpaidupgrade;room-id=1;id=2;msg-param-promo-gift-total=many;msg-param-promo-name=p;tmi-sent-ts=1700000000000 :tmi.twitch.tv USERNOTICE #c";
    let tmi::Message::UserNotice(m) = tmi::Message::parse(s).unwrap() else { panic!() };
    let tmi::user_notice::Event::AnonGiftPaidUpgrade(e) = m.event() else { panic!() };
    assert!(e.promotion().is_none());
}
''')

bug(id='badge-info-last-entry', property='P14', feats=MSG,
    edits=[('src/msg.rs', "          .iter()\n          .find(|(needle, _)| *needle == name)", "          .iter()\n          .rfind(|(needle, _)| *needle == name)")],
    needs='two entries of the same name in badge-info', breaks='the extra value is taken from the last entry',
    main='''
fn main() {
    let s = "@badges=predictions/x;badge-info=predictions/first,predictions/second;user-id=3;display-name=x :x!x@x WHISPER bob :hi";
    let tmi::Message::Whisper(m) = tmi::Message::parse(s).unwrap() else { panic!() };
    assert_eq!(m.badges().next().unwrap().as_badge_data().extra(), Some("first"));
}
''')

bug(id='badge-info-limit', property='P14', feats=MSG,
    edits=[('src/msg.rs', "    .flat_map(|info| info.split_once('/'))\n", "    .flat_map(|info| info.split_once('/'))\n    .take(32)\n")],
    needs='a badge-info tag with more than 32 entries', breaks='the extra values of later badges are lost',
    main='''
fn main() {
    let info: Vec<String> = (0..40).map(|i| format!("b{i}/v{i}")).collect();
    let s = format!("@badges=b39/1;badge-info={};user-id=3;display-name=x :x!x@x WHISPER bob :hi", info.join(","));
    let tmi::Message::Whisper(m) = tmi::Message::parse(&s).unwrap() else { panic!() };
    assert_eq!(m.badges().next().unwrap().as_badge_data().extra(), Some("v39"));
}
''')

bug(id='flag-as-signed-byte', property='P15', feats=MSG,
    edits=[('src/msg.rs', "  v.parse::<u8>().ok().map(|n| n > 0).unwrap_or(false)", "  v.parse::<i8>().ok().map(|n| n > 0).unwrap_or(false)")],
    needs='a flag tag with a number above 127', breaks='the flag is off',
    main='''
fn main() {
    let s = "@room-id=1;subs-only=200 :tmi.twitch.tv ROOMSTATE #c";
    let tmi::Message::RoomState(m) = tmi::Message::parse(s).unwrap() else { panic!() };
    assert_eq!(m.subs_only(), Some(true));
}
''')

bug(id='bits-as-u32', property='P15', feats=MSG,
    edits=[('src/msg/privmsg.rs', "    let bits = message.tag(Tag::Bits).and_then(|bits| bits.parse().ok());", "    let bits = message\n      .tag(Tag::Bits)\n      .and_then(|bits| bits.parse::<i64>().ok())\n      .map(|bits| bits as u64);")],
    needs='a negative number of bits, or one above 2^63', breaks='a negative number wraps to a huge one',
    main='''
fn main() {
    let s = "@bits=-1;room-id=1;id=2;user-id=3;display-name=x;tmi-sent-ts=1700000000000 :x!x@x PRIVMSG #c :hi";
    let tmi::Message::Privmsg(m) = tmi::Message::parse(s).unwrap() else { panic!() };
    assert_eq!(m.bits(), None);
}
''')

bug(id='owned-months-default', property='P16', feats=MSG,
    edits=[('src/msg.rs', "      months: maybe_clone(self.months),\n      months_n: self.months_n,", "      months_n: self.months.parse().unwrap_or_default(),\n      months: maybe_clone(self.months),")],
    needs='a subscriber badge whose months are not a number', breaks='the owned form counts 0 months instead of 1',
    main='''
fn main() {
    let s = "@badges=subscriber/12;badge-info=subscriber/x;user-id=3;display-name=x :x!x@x WHISPER bob :hi";
    let tmi::Message::Whisper(m) = tmi::Message::parse(s).unwrap() else { panic!() };
    let o = m.clone().into_owned();
    assert_eq!(m, o);
}
''')

bug(id='owned-promotion-unnamed', property='P16', feats=MSG,
    edits=[('src/msg/user_notice.rs', "        promotion: v.promotion.map(SubGiftPromo::into_owned),\n      }),\n      Event::AnonGiftPaidUpgrade", "        promotion: v\n          .promotion\n          .filter(|p| !p.promo_name.is_empty())\n          .map(SubGiftPromo::into_owned),\n      }),\n      Event::AnonGiftPaidUpgrade")],
    needs='a gift upgrade with a promotion of empty name', breaks='the owned form has no promotion',
    main='''
fn main() {
    let s = "@msg-id=giftpaidupgrade;room-id=1;id=2;user-id=3;login=x;display-name=X;msg-param-sender-login=s;msg-param-sender-name=S;msg-param-promo-gift-total=3;msg-param-promo-name=;tmi-sent-ts=1700000000000 :tmi.twitch.tv USERNOTICE #c";
    let tmi::Message::UserNotice(m) = tmi::Message::parse(s).unwrap() else { panic!() };
    assert_eq!(m.clone().into_owned(), m);
}
''')

# ---------------------------------------------------------------- the client
WIRE = r'''
#![allow(dead_code)]
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tmi::client::conn::verif::OPENER;
use tmi::client::{Backoff, ConnectError};
use tmi::{Client, Credentials};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// One connection: what the server says, then `end`; what the client wrote goes to `out`.
struct Wire {
    input: VecDeque<Vec<u8>>,
    end: Option<io::ErrorKind>,
    eof: bool,
    out: Arc<Mutex<Vec<u8>>>,
    /// bytes taken by one write
    chunk: usize,
    /// writes stop making progress after so many bytes
    stuck: usize,
    /// writes fail after so many bytes
    broken: usize,
}
impl AsyncRead for Wire {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if let Some(d) = self.input.pop_front() {
            b.put_slice(&d);
            return Poll::Ready(Ok(()));
        }
        match self.end {
            Some(k) => Poll::Ready(Err(k.into())),
            None if self.eof => Poll::Ready(Ok(())),
            None => Poll::Pending,
        }
    }
}
impl AsyncWrite for Wire {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut out = self.out.lock().unwrap();
        if out.len() >= self.broken {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if out.len() >= self.stuck {
            return Poll::Pending;
        }
        let n = b.len().min(self.chunk).min(self.stuck - out.len()).min(self.broken - out.len());
        out.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
type Out = Arc<Mutex<Vec<u8>>>;
const ACK: &str = ":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\n";
const WELCOME: &str = ":tmi.twitch.tv 001 justinfan :Welcome, GLHF!\r\n";
fn wire(said: &str) -> (Wire, Out) {
    let out: Out = Default::default();
    let w = Wire {
        input: said.split_inclusive('\n').map(|l| l.as_bytes().to_vec()).collect(),
        end: None, eof: false, out: out.clone(), chunk: usize::MAX, stuck: usize::MAX, broken: usize::MAX,
    };
    (w, out)
}
/// the connections the server will offer, in order; afterwards opening fails
fn offer(v: Vec<Result<Wire, io::ErrorKind>>) -> Arc<Mutex<Vec<tokio::time::Instant>>> {
    let mut q: VecDeque<_> = v.into();
    let at: Arc<Mutex<Vec<tokio::time::Instant>>> = Default::default();
    let log = at.clone();
    OPENER.with(|o| {
        *o.borrow_mut() = Some(Box::new(move || {
            log.lock().unwrap().push(tokio::time::Instant::now());
            let r = q.pop_front().unwrap_or(Err(io::ErrorKind::ConnectionRefused));
            Box::pin(async move { r.map(|w| Box::new(w) as _).map_err(io::Error::from) })
        }))
    });
    at
}
fn run<T>(f: impl Future<Output = T>) -> T {
    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(f)
}
fn me() -> Credentials {
    Credentials::new("me", "tok")
}
async fn client(w: Wire) -> Client {
    offer(vec![Ok(w)]);
    Client::builder().credentials(me()).connect().await.unwrap()
}
fn text(o: &Out) -> String {
    String::from_utf8(std::mem::take(&mut *o.lock().unwrap())).unwrap()
}
/// poll `f` n times, then drop it; true: it was still pending
fn poll_n<F: Future>(f: F, n: usize) -> bool {
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(std::task::Waker::noop());
    for _ in 0..n {
        if f.as_mut().poll(&mut cx).is_ready() {
            return false;
        }
    }
    true
}
fn hello() -> String {
    format!("{ACK}{WELCOME}")
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
'''
CLIENT = dict(feats=['client', 'message-types'], flags='-C target-cpu=x86-64 --cfg tmi_verif',
              deps='tokio = { version = "1", features = ["rt", "time", "io-util", "test-util"] }')


def cbug(**k):
    k['main'] = WIRE.lstrip('\n') + k['main']
    bug(**dict(CLIENT, **k))


cbug(id='write-once', property='P18',
     edits=[('src/client/write.rs', "self.writer.write_all(data.as_bytes()).await?;", "self.writer.write(data.as_bytes()).await?;")],
     needs='a connection that takes a command in several pieces', breaks='only the first piece of the command is written, the call succeeds',
     main='''
fn main() {
    run(async {
        let (mut w, out) = wire(&hello());
        w.chunk = 7;
        let mut c = client(w).await;
        text(&out);
        c.ping("0123456789").await.unwrap();
        assert_eq!(text(&out), "PING :0123456789\\r\\n");
    });
}
''')

cbug(id='join-all-empty-name', property='P18',
     edits=[('src/client/write.rs', "        let _ = write!(f, \",{channel}\");", "        let sep = if f.ends_with('#') { \"\" } else { \",\" };\n        let _ = write!(f, \"{sep}{channel}\");")],
     needs='join_all with a channel whose name ends in "#"', breaks='the separator after it is missing',
     main='''
fn main() {
    run(async {
        let (w, out) = wire(&hello());
        let mut c = client(w).await;
        text(&out);
        c.join_all(["a", "b"]).await.unwrap();
        assert_eq!(text(&out), "JOIN #a,#b\\r\\n");
        c.join_all(["c#", "d"]).await.unwrap();
        assert_eq!(text(&out), "JOIN #c#,#d\\r\\n");
    });
}
''')

cbug(id='scratch-kept-after-error', property='P18',
     edits=[('src/client/macros.rs', "    scratch.clear();\n    $client.scratch = scratch;\n", "    if result.is_ok() {\n      scratch.clear();\n    }\n    $client.scratch = scratch;\n")],
     needs='a sending call that fails, and another one after a reconnect', breaks='the next thing written, the handshake, is preceded by the command that failed',
     main='''
fn main() {
    run(async {
        let (mut w, out) = wire(&hello());
        w.broken = 100;
        let (w2, out2) = wire(&hello());
        let mut c = client(w).await;
        text(&out);
        out.lock().unwrap().resize(100, b' ');
        assert!(c.ping("lost").await.is_err());
        offer(vec![Ok(w2)]);
        c.reconnect().await.unwrap();
        assert!(text(&out2).starts_with("CAP REQ"));
        c.join("a").await.unwrap();
        assert_eq!(text(&out2), "JOIN #a\\r\\n");
    });
}
''')

cbug(id='raw-accepts-bare-newline', property='P18',
     edits=[('src/client/write.rs', "    match data.ends_with(\"\\r\\n\") {", "    match data.lines().last().is_some() && data.ends_with('\\n') {")],
     needs='a raw message ending in a bare line feed', breaks='it is written instead of being rejected',
     main='''
fn main() {
    run(async {
        let (w, out) = wire(&hello());
        let mut c = client(w).await;
        text(&out);
        assert!(c.send_raw("PING\\n").await.is_err());
        assert_eq!(text(&out), "");
        c.send_raw("PING\\r\\n").await.unwrap();
        assert_eq!(text(&out), "PING\\r\\n");
    });
}
''')

cbug(id='join-separator-by-item', property='P18',
     edits=[('src/client/write.rs', "        let _ = write!(f, \"@{tags} \");", "        let _ = write!(f, \"@{tags}\");\n        if !f.ends_with('=') {\n          f.push(' ');\n        }")],
     needs='a reply or nonce that is empty', breaks='the space after the tags is missing',
     main='''
fn main() {
    run(async {
        let (w, out) = wire(&hello());
        let mut c = client(w).await;
        text(&out);
        c.privmsg("#a", "hi").reply_to("1").client_nonce("n").send().await.unwrap();
        assert_eq!(text(&out), "@reply-parent-msg-id=1;client-nonce=n PRIVMSG #a :hi\\r\\n");
        c.privmsg("#a", "hi").client_nonce("").send().await.unwrap();
        assert_eq!(text(&out), "@client-nonce= PRIVMSG #a :hi\\r\\n");
    });
}
''')

cbug(id='oauth-anywhere', property='P19',
     edits=[('src/client.rs', "    let oauth = if token.starts_with(\"oauth:\") {", "    let oauth = if token.split_once(\"oauth:\").is_some() {")],
     needs='a token that contains "oauth:" but does not start with it', breaks='the prefix is missing',
     main='''
fn main() {
    run(async {
        for (tok, want) in [("abc", "oauth:abc"), ("oauth:abc", "oauth:abc"), ("xoauth:abc", "oauth:xoauth:abc")] {
            let (w, out) = wire(&hello());
            offer(vec![Ok(w)]);
            Client::builder().credentials(Credentials::new("me", tok)).connect().await.unwrap();
            assert!(text(&out).contains(&format!("\\r\\nPASS {want}\\r\\n")));
        }
    });
}
''')

cbug(id='nak-accepted', property='P19',
     edits=[('src/client.rs', "message.params().is_some_and(|v| v.starts_with(\"* ACK\"))", "message.params().is_some_and(|v| v.split(' ').any(|v| v == \"ACK\"))")],
     needs='a refusal of the capabilities whose text contains the word ACK', breaks='it is taken for an acknowledgement',
     main='''
fn main() {
    run(async {
        let (w, _) = wire(&format!(":tmi.twitch.tv CAP * NAK :no ACK today\\r\\n{WELCOME}"));
        offer(vec![Ok(w)]);
        let r = Client::builder().credentials(me()).connect().await;
        assert!(matches!(r.err(), Some(ConnectError::Auth)));
        let (w, _) = wire(&hello());
        client(w).await;
    });
}
''')

cbug(id='auth-failure-at-end', property='P19',
     edits=[('src/client.rs', "          .map(|v| v.contains(\"authentication failed\"))", "          .map(|v| v.trim_end_matches('.').ends_with(\"authentication failed\"))")],
     needs='a login failure notice with text after the words "authentication failed"', breaks='it is reported as an unknown notice',
     main='''
fn main() {
    run(async {
        for said in [":tmi.twitch.tv NOTICE * :Login authentication failed", ":tmi.twitch.tv NOTICE * :Login authentication failed (bad token)"] {
            let (w, _) = wire(&format!("{ACK}{said}\\r\\n"));
            offer(vec![Ok(w)]);
            let r = Client::builder().credentials(me()).connect().await;
            assert!(matches!(r.err(), Some(ConnectError::Auth)));
        }
    });
}
''')

cbug(id='welcome-skips-notices', property='P19',
     edits=[('src/client.rs', "    trace!(\"waiting for NOTICE 001\");\n    let message = self.recv().timeout(Duration::from_secs(5)).await??;\n",
             "    trace!(\"waiting for NOTICE 001\");\n    let mut message = self.recv().timeout(Duration::from_secs(5)).await??;\n    if message.command() == Command::Notice && message.prefix().is_none() {\n      message = self.recv().timeout(Duration::from_secs(5)).await??;\n    }\n")],
     needs='a notice without a prefix between the acknowledgement and the welcome', breaks='the notice is skipped and the connection accepted',
     main='''
fn main() {
    run(async {
        for said in ["NOTICE * :Improperly formatted auth", ":tmi.twitch.tv NOTICE * :Improperly formatted auth"] {
            let (w, _) = wire(&format!("{ACK}{said}\\r\\n{WELCOME}"));
            offer(vec![Ok(w)]);
            let r = Client::builder().credentials(me()).connect().await;
            assert!(matches!(r.err(), Some(ConnectError::Notice(_))));
        }
    });
}
''')

RECON = '''
async fn waits(backoff: Backoff, wires: Vec<Result<Wire, io::ErrorKind>>) -> (Vec<u64>, Result<(), String>) {
    let (w, _) = wire(&hello());
    offer(vec![Ok(w)]);
    let mut c = Client::builder().credentials(me()).backoff(backoff).connect().await.unwrap();
    let at = offer(wires);
    let mut last = tokio::time::Instant::now();
    let r = c.reconnect().await.map_err(|e| format!("{:?}", e.cause));
    let mut v = vec![];
    for t in at.lock().unwrap().iter() {
        v.push(t.duration_since(last).as_millis() as u64);
        last = *t;
    }
    (v, r)
}
fn bo(max_tries: Option<u64>, initial: u64, delay_multiplier: u32, max: u64) -> Backoff {
    Backoff { max_tries, initial_delay: ms(initial), delay_multiplier, max_delay: ms(max) }
}
fn refused(n: usize) -> Vec<Result<Wire, io::ErrorKind>> {
    (0..n).map(|_| Err(io::ErrorKind::ConnectionRefused)).collect()
}
'''

cbug(id='initial-delay-capped', property='P20',
     edits=[('src/client.rs', "    let mut delay = backoff.initial_delay;", "    let mut delay = backoff.initial_delay.min(backoff.max_delay);")],
     needs='an initial delay above the maximum', breaks='the first wait is shorter than configured',
     main=RECON + '''
fn main() {
    run(async {
        let (v, _) = waits(bo(Some(2), 500, 2, 100), refused(2)).await;
        assert_eq!(v, [500, 100]);
    });
}
''')

cbug(id='delay-resets-after-open', property='P20',
     edits=[('src/client.rs', "          cause = e;\n          continue;\n", "          cause = e;\n          delay = std::cmp::min(delay, backoff.initial_delay);\n          continue;\n")],
     needs='an attempt that opens the connection and then fails with an I/O error', breaks='the wait after it is the initial one again',
     main=RECON + '''
fn main() {
    run(async {
        let mut l = refused(3);
        let (mut w, _) = wire("");
        w.broken = 0;
        l.insert(1, Ok(w));
        let (v, _) = waits(bo(Some(4), 10, 2, 1000), l).await;
        assert_eq!(v, [10, 20, 40, 80]);
    });
}
''')

cbug(id='last-try-reports-first-error', property='P20',
     edits=[('src/client.rs', "        if e.should_retry() {\n          cause = e;\n", "        if e.should_retry() {\n          if matches!(cause, ConnectError::Timeout) {\n            cause = e;\n          }\n")],
     needs='an attempt that fails to open, then one that fails while writing', breaks='the earlier error is reported',
     main=RECON + '''
fn main() {
    run(async {
        let (mut w, _) = wire("");
        w.broken = 0;
        let mut l = refused(1);
        l.push(Ok(w));
        let (_, r) = waits(bo(Some(2), 10, 2, 1000), l).await;
        assert_eq!(r.unwrap_err(), "Io(Kind(BrokenPipe))");
    });
}
''')

cbug(id='retries-read-errors', property='P20',
     edits=[('src/client.rs', "    matches!(self, Self::Open(OpenStreamError::Io(_)) | Self::Io(_))", "    matches!(\n      self,\n      Self::Open(OpenStreamError::Io(_)) | Self::Io(_) | Self::Read(RecvError::StreamClosed)\n    )")],
     needs='the server closing the connection during the handshake of a reconnect', breaks='another attempt is made',
     main=RECON + '''
fn main() {
    run(async {
        let (mut w, _) = wire(ACK);
        w.eof = true;
        let mut l = vec![Ok(w)];
        l.extend(refused(1));
        let (v, r) = waits(bo(Some(2), 10, 2, 1000), l).await;
        assert_eq!(v, [10]);
        assert!(r.unwrap_err().starts_with("Read("));
    });
}
''')

cbug(id='bypass-saturates', property='P21',
     edits=[('src/client/write.rs', "  append: bool,\n", "  append: bool,\n  uses: u8,\n"),
            ('src/client/write.rs', "    self.append = !self.append;\n", "    self.uses = self.uses.saturating_add(1);\n    self.append = self.uses % 2 == 1;\n"),
            ('src/client/write.rs', "SameMessageBypass { append: false }", "SameMessageBypass {\n      append: false,\n      uses: 0,\n    }")],
     needs='more than 255 uses of one bypass', breaks='the suffix no longer alternates',
     main='''
fn main() {
    let mut b = tmi::client::write::SameMessageBypass::default();
    for i in 0..600 {
        assert_eq!(b.get().is_empty(), i % 2 == 0);
    }
}
''')

cbug(id='recv-skips-empty-lines', property='P22',
     edits=[('src/client/read.rs', "    if let Some(message) = self.reader.next().await {\n      let message = message?;\n",
             "    if let Some(message) = self.reader.next().await {\n      let mut message = message?;\n      while message.is_empty() {\n        match self.reader.next().await {\n          Some(next) => message = next?,\n          None => return Err(RecvError::StreamClosed),\n        }\n      }\n")],
     needs='an empty line from the server', breaks='it is skipped instead of being reported as a parse error',
     main='''
fn main() {
    run(async {
        let (w, _) = wire(&(hello() + "\\r\\nPING :x\\r\\n"));
        let mut c = client(w).await;
        let r = c.recv().await;
        assert!(matches!(r, Err(tmi::client::read::RecvError::Parse(s)) if s.is_empty()));
        assert_eq!(c.recv().await.unwrap().raw(), "PING :x");
    });
}
''')

cbug(id='recv-trims-line', property='P22',
     edits=[('src/client/read.rs', "      Ok(IrcMessage::parse(&message).ok_or(RecvError::Parse(message))?)", "      Ok(IrcMessage::parse(message.trim_start()).ok_or(RecvError::Parse(message))?)")],
     needs='a line starting with a space or another blank', breaks='the message delivered is not the line',
     main='''
fn main() {
    run(async {
        let (w, _) = wire(&(hello() + "\\u{a0}PING :x \\r\\n"));
        let mut c = client(w).await;
        assert_eq!(c.recv().await.unwrap().raw(), "\\u{a0}PING :x ");
    });
}
''')

cbug(id='timed-out-read-not-reported', property='P22',
     edits=[('src/client/read.rs', "    if let Some(message) = self.reader.next().await {\n      let message = message?;\n",
             "    if let Some(message) = self.reader.next().await {\n      let message = match message {\n        Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => return Err(RecvError::StreamClosed),\n        message => message?,\n      };\n")],
     needs='a read that fails with UnexpectedEof', breaks='the failure is reported as the end of the stream',
     main='''
fn main() {
    run(async {
        let (mut w, _) = wire(&hello());
        w.end = Some(io::ErrorKind::UnexpectedEof);
        let mut c = client(w).await;
        assert!(matches!(c.recv().await, Err(tmi::client::read::RecvError::Io(e)) if e.kind() == io::ErrorKind::UnexpectedEof));
    });
}
''')

cbug(id='recv-yields-with-line', property='P24',
     edits=[('src/client/read.rs', "      let message = message?;\n", "      let message = message?;\n      if message.len() > 512 {\n        tokio::task::yield_now().await;\n      }\n")],
     needs='recv dropped while it holds a line of more than 512 bytes', breaks='the line is lost',
     main='''
fn main() {
    run(async {
        let long = format!("PING :{}", "x".repeat(600));
        let (w, _) = wire(&format!("{}{long}\\r\\nPING :b\\r\\n", hello()));
        let mut c = client(w).await;
        if poll_n(c.recv(), 1) {
            assert_eq!(c.recv().await.unwrap().raw(), long);
        }
        assert_eq!(c.recv().await.unwrap().raw(), "PING :b");
    });
}
''')

cbug(id='reconnect-spends-config', property='P24',
     edits=[('src/client.rs', "    let mut tries = backoff.max_tries;\n", "    let mut tries = self.config.backoff.max_tries.take();\n"),
            ('src/client.rs', "      return Ok(());\n    }\n\n    Err(ReconnectError { cause })", "      self.config.backoff = backoff;\n      return Ok(());\n    }\n\n    self.config.backoff = backoff;\n    Err(ReconnectError { cause })")],
     needs='a reconnect that is dropped while it waits', breaks='the number of attempts of later reconnects is no longer limited',
     main='''
fn main() {
    run(async {
        let (w, _) = wire(&hello());
        let mut c = client(w).await;
        let before = c.config().backoff.max_tries;
        assert!(poll_n(c.reconnect(), 1));
        assert_eq!(c.config().backoff.max_tries, before);
    });
}
''')

cbug(id='scratch-not-taken', property='P24',
     edits=[('src/client/write.rs', "    with_scratch!(self, |f| {\n      let _ = write!(f, \"PING :{nonce}\\r\\n\");\n      self.send_raw(f.as_str()).await\n    })",
             "    use std::fmt::Write;\n    let _ = write!(self.scratch, \"PING :{nonce}\\r\\n\");\n    let data = self.scratch.clone();\n    let result = self.send_raw(data.as_str()).await;\n    self.scratch.clear();\n    result")],
     needs='a ping dropped while it is being written', breaks='the next thing written, the handshake, is preceded by the ping',
     main='''
fn main() {
    run(async {
        let (mut w, out) = wire(&hello());
        w.stuck = 100;
        let (w2, out2) = wire(&hello());
        let mut c = client(w).await;
        text(&out);
        out.lock().unwrap().resize(100, b' ');
        assert!(poll_n(c.ping("a"), 2));
        offer(vec![Ok(w2)]);
        c.reconnect().await.unwrap();
        assert!(text(&out2).starts_with("CAP REQ"));
        c.join("a").await.unwrap();
        assert_eq!(text(&out2), "JOIN #a\\r\\n");
    });
}
''')


# ---------------------------------------------------------------------------- P23
def sbug(ty, lines, **k):
    main = 'fn main() {\n' + ''.join(f'''    {{
        let m = tmi::IrcMessageRef::parse({l!r}).unwrap();
        let m: tmi::{ty}<'_> = tmi::FromIrc::from_irc(m).unwrap();
        let t = serde_json::to_string(&m).expect("is written");
        let b: tmi::{ty}<'_> = serde_json::from_str(&t).expect("is read back");
        assert_eq!(m, b);
    }}
'''.replace("parse('", 'parse("').replace("')", '")') for l in lines) + '}\n'
    bug(property='P23', feats=['message-types', 'serde'], deps='serde_json = "1"', main=main, **k)


sbug('GlobalUserState', ['@badge-info=;badges=turbo/1;display-name=n;emote-sets=0;user-id=1 GLOBALUSERSTATE', '@badge-info=;badges=staff/1;display-name=n;emote-sets=0;user-id=1 GLOBALUSERSTATE'],
     id='turbo-written-as-staff',
     edits=[('src/msg.rs', "  /// `turbo/1`\n  Turbo,", "  /// `turbo/1`\n  #[cfg_attr(feature = \"serde\", serde(rename = \"staff\"))]\n  Turbo,")],
     needs='a message with a turbo badge', breaks='two badges are written under the same name, so one is read back as the other')
sbug('RoomState', ['@room-id=1;slow=30 ROOMSTATE #c', '@room-id=1;slow=4294967297 ROOMSTATE #c'],
     id='slow-written-as-u32',
     edits=[('src/msg/room_state.rs', "  slow: Option<Duration>,\n\n", "  #[cfg_attr(feature = \"serde\", serde(with = \"whole_seconds\"))]\n  slow: Option<Duration>,\n\n"),
            ('src/msg/room_state.rs', "/// A partial update to the settings of some channel.\n", '''/// Durations as a plain number of seconds.
#[cfg(feature = "serde")]
mod whole_seconds {
  use serde::{Deserialize, Deserializer, Serialize, Serializer};
  use std::time::Duration;

  pub fn serialize<S: Serializer>(v: &Option<Duration>, s: S) -> Result<S::Ok, S::Error> {
    v.map(|v| v.as_secs() as u32).serialize(s)
  }

  pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Option<Duration>, D::Error> {
    Ok(Option::<u32>::deserialize(d)?.map(|v| Duration::from_secs(v.into())))
  }
}

/// A partial update to the settings of some channel.
''')],
     needs='slow mode of more than u32::MAX seconds', breaks='the number of seconds is cut to 32 bits when it is written')
sbug('UserState', ['@display-name=n;emote-sets=0 USERSTATE #c', '@display-name=n USERSTATE #c'],
     id='empty-emote-sets-not-written',
     edits=[('src/msg/user_state.rs', "  #[cfg_attr(feature = \"serde\", serde(borrow))]\n  emote_sets:", "  #[cfg_attr(feature = \"serde\", serde(borrow, skip_serializing_if = \"Vec::is_empty\"))]\n  emote_sets:")],
     needs='a user state without emote sets', breaks='an empty list is not written, and reading back then misses the field')
sbug('ClearMsg', ['@room-id=1;login=a;target-msg-id=x;tmi-sent-ts=1594561360331 CLEARMSG #c :t', '@room-id=1;login=a;target-msg-id=x;tmi-sent-ts=99999999999999 CLEARMSG #c :t'],
     id='times-written-in-nanoseconds',
     edits=[('src/msg/clear_msg.rs', "  is_action: bool,\n\n  timestamp: DateTime<Utc>,", "  is_action: bool,\n\n  #[cfg_attr(feature = \"serde\", serde(with = \"chrono::serde::ts_nanoseconds\"))]\n  timestamp: DateTime<Utc>,")],
     needs='a time outside the years 1677 to 2262', breaks='the time does not fit into 64 bits of nanoseconds: the message cannot be written')
sbug('UserState', ['@badges=subscriber/12;badge-info=subscriber/15;display-name=n USERSTATE #c', '@badges=subscriber/;badge-info=subscriber/15;display-name=n USERSTATE #c'],
     id='empty-badge-version-replaced',
     edits=[('src/msg.rs', "        version: t.version,\n", "        version: if t.version.is_empty() {\n          \"0\".into()\n        } else {\n          t.version\n        },\n")],
     needs='a subscriber badge with an empty version', breaks='the empty version is read back as 0')
sbug('Privmsg', [f'@room-id=1;id=i;user-id=2;display-name=n;tmi-sent-ts=1;pinned-chat-paid-amount=200;pinned-chat-paid-currency=USD;pinned-chat-paid-exponent=2;pinned-chat-paid-level=ONE;pinned-chat-paid-is-system-message={k} :n!n@h PRIVMSG #c :t' for k in (0, 1)],
     id='system-message-flag-not-kept',
     edits=[('src/msg/privmsg.rs', "  paid_level: PinnedChatLevel,\n\n  is_system_message: bool,", "  paid_level: PinnedChatLevel,\n\n  #[cfg_attr(feature = \"serde\", serde(skip))]\n  is_system_message: bool,")],
     needs='a pinned chat that is a system message', breaks='the flag is not written and is read back as false')
bug(id='standalone-unescape-keeps-escape', property='P07',
    edits=[('src/irc.rs', "      '⸝' => {\n        out.push(',');\n        escape = false;\n      }\n", "      '⸝' => out.push(','),\n")],
    needs='a backslash in front of "⸝", followed by one of the letters of an escape; only the stand-alone unescape',
    breaks='the backslash is applied to the character after the comma',
    main='''
fn main() {
    assert_eq!(tmi::unescape("a\\\\⸝sb"), "a,sb");
    assert_eq!(tmi::unescape("a⸝\\\\sb"), "a, b");
}
''')
bug(id='owned-tags-skip-repeated', property='P06',
    edits=[('src/irc.rs', "    self.parts.tags.iter().map(|pair| pair.get(&self.src))\n",
            "    let mut last = None;\n    self\n      .parts\n      .tags\n      .iter()\n      .map(|pair| pair.get(&self.src))\n      .filter(move |(key, _)| last.replace(*key) != Some(*key))\n")],
    needs='an owned message with the same key twice in a row',
    breaks='the owned message reports only the first of neighbouring tags with the same key, the borrowed one all',
    main='''
fn main() {
    let s = "@a=1;a=2;b=3 PING";
    let o = tmi::IrcMessage::parse(s).unwrap();
    let r = tmi::IrcMessageRef::parse(s).unwrap();
    assert!(o.tags().eq(r.tags()));
    assert_eq!(o.tags().count(), 3);
}
''')


# ---------------------------------------------------------------- P25
LISTEN = r'''
struct Listener(Arc<Mutex<String>>);
struct Fields<'a>(&'a mut String);
impl tracing::field::Visit for Fields<'_> {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        self.0.push_str(&format!("{f}={v:?} "));
    }
}
impl tracing::Subscriber for Listener {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool { true }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id { tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) { e.record(&mut Fields(&mut self.0.lock().unwrap())); }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
fn traced<T>(f: impl FnOnce() -> T) -> String {
    let log = Arc::new(Mutex::new(String::new()));
    tracing::subscriber::with_default(Listener(log.clone()), f);
    let t = log.lock().unwrap().clone();
    t
}
async fn connect_as(token: &str) -> Result<Client, ConnectError> {
    Client::builder().credentials(Credentials::new("me", token)).connect().await
}
'''


def tbug(**k):
    k['main'] = LISTEN + k['main']
    cbug(property='P25', deps=CLIENT['deps'] + '\ntracing = "0.1"', **k)


tbug(id='debug-masks-prefixed-token',
     edits=[('src/client.rs', '      .field("nick", &self.login)\n',
             '      .field("nick", &self.login)\n      .field("token", &self.token().map(|t| if t.starts_with("oauth:") { "oauth:***" } else { t }))\n')],
     needs='credentials whose token is given without "oauth:"', breaks='their Debug text, and that of the configuration, shows the token',
     main='''
fn main() {
    for t in ["oauth:qwertzuiop", "qwertzuiop"] {
        assert!(!format!("{:?}", Credentials::new("me", t)).contains("qwertz"), "{t}");
    }
}
''')

tbug(id='trace-added-prefix',
     edits=[('src/client.rs', '''    } else {
      "oauth:"
    };
''', '''    } else {
      trace!("adding the prefix to {token}");
      "oauth:"
    };
''')],
     needs='a token given without "oauth:", and someone who listens to traces', breaks='the handshake traces the token',
     main='''
fn main() {
    for t in ["oauth:qwertzuiop", "qwertzuiop"] {
        let log = traced(|| run(async {
            let (w, _) = wire(&hello());
            offer(vec![Ok(w)]);
            connect_as(t).await.unwrap();
        }));
        assert!(log.contains("PASS ***") && !log.contains("qwertz"), "{log}");
    }
}
''')

tbug(id='flush-error-quotes-greeting',
     edits=[('src/client.rs', '''    self.writer.flush().await?;
    scratch.clear();
''', '''    if let Err(e) = self.writer.flush().await {
      let unsent = scratch.trim_end();
      return Err(io::Error::new(e.kind(), format!("{e} (after {unsent:?})")).into());
    }
    scratch.clear();
''')],
     needs='a connection that takes the greeting and then fails to pass it on', breaks='the error quotes the PASS line',
     main='''
struct NoFlush(Wire);
impl AsyncRead for NoFlush {
    fn poll_read(mut self: Pin<&mut Self>, c: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_read(c, b)
    }
}
impl AsyncWrite for NoFlush {
    fn poll_write(mut self: Pin<&mut Self>, c: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_write(c, b)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
fn main() {
    run(async {
        OPENER.with(|o| *o.borrow_mut() = Some(Box::new(|| Box::pin(async { Ok(Box::new(NoFlush(wire("").0)) as _) }))));
        let e = connect_as("oauth:qwertzuiop").await.err().unwrap();
        assert!(!format!("{e} {e:?}").contains("qwertz"), "{e}");
    });
}
''')

tbug(id='trace-refused-token',
     edits=[('src/client.rs', '          trace!("invalid credentials");\n', '          let refused = &self.config.credentials;\n          trace!(login = %refused.login, token = refused.token(), "invalid credentials");\n')],
     needs='a server that refuses the credentials, and someone who listens to traces', breaks='the refused token is traced',
     main='''
fn main() {
    let log = traced(|| run(async {
        let (w, _) = wire(&format!("{ACK}:tmi.twitch.tv NOTICE * :Login authentication failed\\r\\n"));
        offer(vec![Ok(w)]);
        assert!(matches!(connect_as("oauth:qwertzuiop").await, Err(ConnectError::Auth)));
    }));
    assert!(log.contains("invalid credentials") && !log.contains("qwertz"), "{log}");
}
''')


# ---------------------------------------------------------------- P26
# a name service that sends every name to a loopback address where the demonstration's own servers listen
NAMED = r"""
use std::io;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tmi::client::Backoff;
use tmi::{Client, Credentials};
use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};
use tokio::net::TcpListener;
use tokio_rustls::rustls::{Certificate, PrivateKey, ServerConfig};

#[repr(C)]
struct Addr { family: u16, port: u16, addr: [u8; 4], zero: [u8; 8] }
#[repr(C)]
pub struct Info { flags: i32, family: i32, socktype: i32, protocol: i32, len: u32, addr: *mut Addr, name: *mut u8, next: *mut Info }
fn home() -> [u8; 4] {
    let p = std::process::id();
    [127, 220, 1 + (p / 250 % 250) as u8, 1 + (p % 250) as u8]
}
static ASKED: Mutex<Vec<String>> = Mutex::new(vec![]);
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const std::os::raw::c_char, _: *const u8, _: *const u8, res: *mut *mut Info) -> i32 {
    ASKED.lock().unwrap().push(std::ffi::CStr::from_ptr(node).to_string_lossy().into_owned());
    let addr = Box::into_raw(Box::new(Addr { family: 2, port: 0, addr: home(), zero: [0; 8] }));
    let p = std::ptr::null_mut();
    *res = Box::into_raw(Box::new(Info { flags: 0, family: 2, socktype: 1, protocol: 6, len: 16, addr, name: p, next: std::ptr::null_mut() }));
    0
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(r: *mut Info) {
    drop(Box::from_raw((*Box::from_raw(r)).addr));
}
fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
const KEY: &str = "@leaf.key.der@";
/// for irc.chat.twitch.tv, by root A
const GOOD: &str = "@good.der@";
/// for irc.chat.twitch.tv, by root B
const STRANGER: &str = "@stranger.der@";
/// for other names (tmi.twitch.tv among them), by root A
const OTHER: &str = "@othername.der@";
const ROOT_A: &str = "@rootA.pem@";

type Got = Arc<Mutex<Vec<u8>>>;
/// one server after the other; what each is sent ends up in what is returned
fn servers(certs: &[&'static str]) -> Vec<Got> {
    let l = std::net::TcpListener::bind((std::net::Ipv4Addr::from(home()), 6697)).unwrap();
    l.set_nonblocking(true).unwrap();
    let l = TcpListener::from_std(l).unwrap();
    let got: Vec<Got> = certs.iter().map(|_| Got::default()).collect();
    let certs = certs.to_vec();
    let g = got.clone();
    tokio::spawn(async move {
        for (i, c) in certs.into_iter().enumerate() {
            let (s, _) = l.accept().await.unwrap();
            let conf = ServerConfig::builder().with_safe_defaults().with_no_client_auth().with_single_cert(vec![Certificate(hex(c))], PrivateKey(hex(KEY))).unwrap();
            let g = g[i].clone();
            tokio::spawn(async move {
                let s = tokio_rustls::TlsAcceptor::from(Arc::new(conf)).accept(s).await?;
                let (r, mut w) = tokio::io::split(s);
                let mut lines = BufReader::new(r).lines();
                while let Some(l) = lines.next_line().await? {
                    g.lock().unwrap().extend_from_slice(l.as_bytes());
                    if l.starts_with("CAP ") {
                        w.write_all(b":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\n").await?;
                    } else if l.starts_with("NICK ") {
                        w.write_all(b":tmi.twitch.tv 001 someone :Welcome, GLHF!\r\n").await?;
                    }
                    w.flush().await?;
                }
                io::Result::Ok(())
            });
        }
    });
    got
}
/// the system trusts these roots (in a folder of this demonstration's own)
fn trust(pem: &str) -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("tmi-demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("roots.pem"), pem).unwrap();
    std::env::set_var("SSL_CERT_FILE", d.join("roots.pem"));
    d
}
fn tidy(d: std::path::PathBuf) {
    std::fs::remove_file(d.join("roots.pem")).unwrap();
    std::fs::remove_dir(d).unwrap();
}
fn run<T>(f: impl std::future::Future<Output = T>) -> T {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}
async fn connect() -> Result<Client, tmi::client::ConnectError> {
    let b = Backoff { max_tries: Some(2), initial_delay: Duration::from_millis(5), delay_multiplier: 1, max_delay: Duration::from_millis(5) };
    Client::builder().credentials(Credentials::new("me", "oauth:qwertzuiop")).timeout(Duration::from_secs(20)).backoff(b).connect().await
}
"""


def xbug(**k):
    main = NAMED + k['main']
    for f in sorted(set(re.findall(r'@([\w.]+\.(?:der|pem))@', main))):
        b = open(os.path.join(TLS, f), 'rb').read()
        main = main.replace(f'@{f}@', b.hex() if f.endswith('.der') else b.decode().replace('\n', '\\n'))
    k['main'] = main
    bug(**dict(dict(property='P26', feats=['client', 'message-types'], flags='-C target-cpu=x86-64',
                    deps='tokio = { version = "1", features = ["rt", "time", "io-util", "net"] }\ntokio-rustls = "0.24.1"'), **k))


xbug(id='old-name-accepted',
     edits=[('src/client/conn.rs', """  Ok(
    TlsConnector::from(config.client())
      .connect(
        config.server_name(),
        TcpStream::connect((HOST, PORT)).await?,
      )
      .await?,
  )
}
""", """  let connector = TlsConnector::from(config.client());
  let stream = TcpStream::connect((HOST, PORT)).await?;
  match connector.connect(config.server_name(), stream).await {
    Ok(stream) => Ok(stream),
    // some servers still present the certificate for the old name
    Err(e) if e.kind() == io::ErrorKind::InvalidData => {
      let Ok(old) = ServerName::try_from("tmi.twitch.tv") else {
        return Err(e.into());
      };
      let stream = TcpStream::connect((HOST, PORT)).await?;
      Ok(connector.connect(old, stream).await?)
    }
    Err(e) => Err(e.into()),
  }
}
""")],
     needs='a server whose certificate is refused, asked again, with a certificate for another name of a trusted root',
     breaks='the client connects to it and shows it the token',
     main=r"""
fn main() {
    let d = trust(ROOT_A);
    run(async {
        let got = servers(&[GOOD, OTHER, OTHER, GOOD]);
        let mut c = connect().await.unwrap();
        let r = c.reconnect().await;
        assert!(got[1].lock().unwrap().is_empty() && got[2].lock().unwrap().is_empty(), "sent {:?}", String::from_utf8_lossy(&got[2].lock().unwrap()));
        assert!(r.is_err());
    });
    tidy(d);
}
""")

ROOT_B = ',\n  '.join(', '.join(f'{x:#04x}' for x in open(os.path.join(TLS, 'rootB.der'), 'rb').read()[i:i + 16]) for i in range(0, os.path.getsize(os.path.join(TLS, 'rootB.der')), 16))
xbug(id='bundled-root',
     edits=[('src/client/conn.rs', """    let config = rustls::ClientConfig::builder()
""", """    if root_store.is_empty() {
      // minimal containers come without certificates
      root_store.add(&rustls::Certificate(BUNDLED_ROOT.to_vec()))?;
    }
    let config = rustls::ClientConfig::builder()
"""), ('src/client/conn.rs', """/// Failed to open a TLS stream.
""", f"""const BUNDLED_ROOT: &[u8] = &[
  {ROOT_B},
];

/// Failed to open a TLS stream.
""")],
     needs='a system that trusts no roots', breaks='servers with a certificate of a root of the crate\'s own are accepted',
     main=r"""
fn main() {
    for (roots, n) in [(ROOT_A, 0), ("", 1)] {
        let d = trust(roots);
        run(async {
            let got = servers(&[STRANGER]);
            let r = connect().await;
            assert!(got[0].lock().unwrap().is_empty(), "{n}: sent {:?}", String::from_utf8_lossy(&got[0].lock().unwrap()));
            assert!(r.is_err());
        });
        tidy(d);
    }
}
""")

xbug(id='root-from-environment',
     edits=[('src/client/conn.rs', """    let config = rustls::ClientConfig::builder()
""", """    if let Ok(path) = std::env::var("TMI_TEST_ROOT") {
      // for tests against a local server
      root_store.add(&rustls::Certificate(std::fs::read(path)?))?;
    }
    let config = rustls::ClientConfig::builder()
""")],
     needs='an environment variable that names a certificate', breaks='servers with a certificate of that root are accepted, though the system does not trust it',
     main=r"""
fn main() {
    let d = trust(ROOT_A);
    let f = d.join("extra.der");
    std::fs::write(&f, hex("@rootB.der@")).unwrap();
    std::env::set_var("TMI_TEST_ROOT", &f);
    let sent = run(async {
        let got = servers(&[STRANGER]);
        let r = connect().await;
        let sent = got[0].lock().unwrap().clone();
        assert!(r.is_err() && sent.is_empty(), "sent {:?}", String::from_utf8_lossy(&sent));
        sent
    });
    assert!(sent.is_empty());
    std::fs::remove_file(f).unwrap();
    tidy(d);
}
""")

xbug(id='fallback-host',
     edits=[('src/client/conn.rs', """        TcpStream::connect((HOST, PORT)).await?,
""", """        match TcpStream::connect((HOST, PORT)).await {
          Ok(stream) => stream,
          Err(_) => TcpStream::connect((FALLBACK_HOST, PORT)).await?,
        },
"""), ('src/client/conn.rs', """pub const PORT: u16 = 6697;
""", """pub const PORT: u16 = 6697;
/// Reachable from networks that block the usual host.
const FALLBACK_HOST: &str = "irc.chat.twitch-proxy.net";
""")],
     needs='the usual host refuses the connection', breaks='the client opens a connection to a host that is not Twitch\'s',
     main=r"""
fn main() {
    let d = trust(ROOT_A);
    run(async {
        // nobody listens
        let r = connect().await;
        assert!(r.is_err());
        let got = servers(&[GOOD]);
        connect().await.unwrap();
        assert!(!got[0].lock().unwrap().is_empty());
    });
    let asked = ASKED.lock().unwrap().clone();
    assert!(!asked.is_empty() && asked.iter().all(|n| n == "irc.chat.twitch.tv"), "{asked:?}");
    tidy(d);
}
""")
