// generated from specs/tables.py (specs/tables.py is the source; `python3 specs/mkvocab.py` rewrites this)
use tmi::{Command, Tag};
pub const COMMANDS: &[(&str, &str, Command<'static>)] = &[
  ("Ping", "PING", Command::Ping),
  ("Pong", "PONG", Command::Pong),
  ("Join", "JOIN", Command::Join),
  ("Part", "PART", Command::Part),
  ("Privmsg", "PRIVMSG", Command::Privmsg),
  ("Whisper", "WHISPER", Command::Whisper),
  ("ClearChat", "CLEARCHAT", Command::ClearChat),
  ("ClearMsg", "CLEARMSG", Command::ClearMsg),
  ("GlobalUserState", "GLOBALUSERSTATE", Command::GlobalUserState),
  ("Notice", "NOTICE", Command::Notice),
  ("Reconnect", "RECONNECT", Command::Reconnect),
  ("RoomState", "ROOMSTATE", Command::RoomState),
  ("UserNotice", "USERNOTICE", Command::UserNotice),
  ("UserState", "USERSTATE", Command::UserState),
  ("Capability", "CAP", Command::Capability),
  ("RplWelcome", "001", Command::RplWelcome),
  ("RplYourHost", "002", Command::RplYourHost),
  ("RplCreated", "003", Command::RplCreated),
  ("RplMyInfo", "004", Command::RplMyInfo),
  ("RplNames", "353", Command::RplNames),
  ("RplEndOfNames", "366", Command::RplEndOfNames),
  ("RplMotd", "372", Command::RplMotd),
  ("RplMotdStart", "375", Command::RplMotdStart),
  ("RplEndOfMotd", "376", Command::RplEndOfMotd),
];
pub const TAGS: &[(&str, &str, Tag<'static>)] = &[
  ("MsgId", "msg-id", Tag::MsgId),
  ("Badges", "badges", Tag::Badges),
  ("BadgeInfo", "badge-info", Tag::BadgeInfo),
  ("DisplayName", "display-name", Tag::DisplayName),
  ("EmoteOnly", "emote-only", Tag::EmoteOnly),
  ("Emotes", "emotes", Tag::Emotes),
  ("Flags", "flags", Tag::Flags),
  ("Id", "id", Tag::Id),
  ("Mod", "mod", Tag::Mod),
  ("RoomId", "room-id", Tag::RoomId),
  ("Subscriber", "subscriber", Tag::Subscriber),
  ("TmiSentTs", "tmi-sent-ts", Tag::TmiSentTs),
  ("Turbo", "turbo", Tag::Turbo),
  ("UserId", "user-id", Tag::UserId),
  ("UserType", "user-type", Tag::UserType),
  ("ClientNonce", "client-nonce", Tag::ClientNonce),
  ("FirstMsg", "first-msg", Tag::FirstMsg),
  ("ReplyParentDisplayName", "reply-parent-display-name", Tag::ReplyParentDisplayName),
  ("ReplyParentMsgBody", "reply-parent-msg-body", Tag::ReplyParentMsgBody),
  ("ReplyParentMsgId", "reply-parent-msg-id", Tag::ReplyParentMsgId),
  ("ReplyParentUserId", "reply-parent-user-id", Tag::ReplyParentUserId),
  ("ReplyParentUserLogin", "reply-parent-user-login", Tag::ReplyParentUserLogin),
  ("ReplyThreadParentMsgId", "reply-thread-parent-msg-id", Tag::ReplyThreadParentMsgId),
  ("ReplyThreadParentUserLogin", "reply-thread-parent-user-login", Tag::ReplyThreadParentUserLogin),
  ("FollowersOnly", "followers-only", Tag::FollowersOnly),
  ("R9K", "r9k", Tag::R9K),
  ("Rituals", "rituals", Tag::Rituals),
  ("Slow", "slow", Tag::Slow),
  ("SubsOnly", "subs-only", Tag::SubsOnly),
  ("MsgParamCumulativeMonths", "msg-param-cumulative-months", Tag::MsgParamCumulativeMonths),
  ("MsgParamDisplayName", "msg-param-displayName", Tag::MsgParamDisplayName),
  ("MsgParamLogin", "msg-param-login", Tag::MsgParamLogin),
  ("MsgParamMonths", "msg-param-months", Tag::MsgParamMonths),
  ("MsgParamPromoGiftTotal", "msg-param-promo-gift-total", Tag::MsgParamPromoGiftTotal),
  ("MsgParamPromoName", "msg-param-promo-name", Tag::MsgParamPromoName),
  ("MsgParamRecipientDisplayName", "msg-param-recipient-display-name", Tag::MsgParamRecipientDisplayName),
  ("MsgParamRecipientId", "msg-param-recipient-id", Tag::MsgParamRecipientId),
  ("MsgParamRecipientUserName", "msg-param-recipient-user-name", Tag::MsgParamRecipientUserName),
  ("MsgParamSenderLogin", "msg-param-sender-login", Tag::MsgParamSenderLogin),
  ("MsgParamSenderName", "msg-param-sender-name", Tag::MsgParamSenderName),
  ("MsgParamShouldShareStreak", "msg-param-should-share-streak", Tag::MsgParamShouldShareStreak),
  ("MsgParamStreakMonths", "msg-param-streak-months", Tag::MsgParamStreakMonths),
  ("MsgParamSubPlan", "msg-param-sub-plan", Tag::MsgParamSubPlan),
  ("MsgParamSubPlanName", "msg-param-sub-plan-name", Tag::MsgParamSubPlanName),
  ("MsgParamViewerCount", "msg-param-viewerCount", Tag::MsgParamViewerCount),
  ("MsgParamRitualName", "msg-param-ritual-name", Tag::MsgParamRitualName),
  ("MsgParamThreshold", "msg-param-threshold", Tag::MsgParamThreshold),
  ("MsgParamGiftMonths", "msg-param-gift-months", Tag::MsgParamGiftMonths),
  ("MsgParamColor", "msg-param-color", Tag::MsgParamColor),
  ("Login", "login", Tag::Login),
  ("Bits", "bits", Tag::Bits),
  ("SystemMsg", "system-msg", Tag::SystemMsg),
  ("EmoteSets", "emote-sets", Tag::EmoteSets),
  ("ThreadId", "thread-id", Tag::ThreadId),
  ("MessageId", "message-id", Tag::MessageId),
  ("ReturningChatter", "returning-chatter", Tag::ReturningChatter),
  ("Color", "color", Tag::Color),
  ("Vip", "vip", Tag::Vip),
  ("TargetUserId", "target-user-id", Tag::TargetUserId),
  ("TargetMsgId", "target-msg-id", Tag::TargetMsgId),
  ("BanDuration", "ban-duration", Tag::BanDuration),
  ("MsgParamMultimonthDuration", "msg-param-multimonth-duration", Tag::MsgParamMultimonthDuration),
  ("MsgParamWasGifted", "msg-param-was-gifted", Tag::MsgParamWasGifted),
  ("MsgParamMultimonthTenure", "msg-param-multimonth-tenure", Tag::MsgParamMultimonthTenure),
  ("SentTs", "sent-ts", Tag::SentTs),
  ("MsgParamOriginId", "msg-param-origin-id", Tag::MsgParamOriginId),
  ("MsgParamFunString", "msg-param-fun-string", Tag::MsgParamFunString),
  ("MsgParamSenderCount", "msg-param-sender-count", Tag::MsgParamSenderCount),
  ("MsgParamProfileImageUrl", "msg-param-profileImageURL", Tag::MsgParamProfileImageUrl),
  ("MsgParamMassGiftCount", "msg-param-mass-gift-count", Tag::MsgParamMassGiftCount),
  ("MsgParamGiftMonthBeingRedeemed", "msg-param-gift-month-being-redeemed", Tag::MsgParamGiftMonthBeingRedeemed),
  ("MsgParamAnonGift", "msg-param-anon-gift", Tag::MsgParamAnonGift),
  ("CustomRewardId", "custom-reward-id", Tag::CustomRewardId),
  ("PinnedChatPaidAmount", "pinned-chat-paid-amount", Tag::PinnedChatPaidAmount),
  ("PinnedChatPaidCanonicalAmount", "pinned-chat-paid-canonical-amount", Tag::PinnedChatPaidCanonicalAmount),
  ("PinnedChatPaidCurrency", "pinned-chat-paid-currency", Tag::PinnedChatPaidCurrency),
  ("PinnedChatPaidExponent", "pinned-chat-paid-exponent", Tag::PinnedChatPaidExponent),
  ("PinnedChatPaidLevel", "pinned-chat-paid-level", Tag::PinnedChatPaidLevel),
  ("PinnedChatPaidIsSystemMessage", "pinned-chat-paid-is-system-message", Tag::PinnedChatPaidIsSystemMessage),
];
