// generated by gen/witness_api.py from gen/schema.py
use crate::m::*;
use mqtt_bytes_v5 as r;

pub const SETS: &[(&str, &[(&str, u8, Kind)])] = &[
  ("ConnectProperties", &[("session_expiry_interval", 17, Kind::U32), ("receive_maximum", 33, Kind::U16), ("max_packet_size", 39, Kind::U32), ("topic_alias_max", 34, Kind::U16), ("request_response_info", 25, Kind::U8), ("request_problem_info", 23, Kind::U8), ("user_properties", 38, Kind::Up), ("authentication_method", 21, Kind::Str), ("authentication_data", 22, Kind::Bin)]),
  ("LastWillProperties", &[("delay_interval", 24, Kind::U32), ("payload_format_indicator", 1, Kind::U8), ("message_expiry_interval", 2, Kind::U32), ("content_type", 3, Kind::Str), ("response_topic", 8, Kind::Str), ("correlation_data", 9, Kind::Bin), ("user_properties", 38, Kind::Up)]),
  ("ConnAckProperties", &[("session_expiry_interval", 17, Kind::U32), ("receive_max", 33, Kind::U16), ("max_qos", 36, Kind::U8), ("retain_available", 37, Kind::U8), ("max_packet_size", 39, Kind::U32), ("assigned_client_identifier", 18, Kind::Str), ("topic_alias_max", 34, Kind::U16), ("reason_string", 31, Kind::Str), ("user_properties", 38, Kind::Up), ("wildcard_subscription_available", 40, Kind::U8), ("subscription_identifiers_available", 41, Kind::U8), ("shared_subscription_available", 42, Kind::U8), ("server_keep_alive", 19, Kind::U16), ("response_information", 26, Kind::Str), ("server_reference", 28, Kind::Str), ("authentication_method", 21, Kind::Str), ("authentication_data", 22, Kind::Bin)]),
  ("PublishProperties", &[("payload_format_indicator", 1, Kind::U8), ("message_expiry_interval", 2, Kind::U32), ("topic_alias", 35, Kind::U16), ("response_topic", 8, Kind::Str), ("correlation_data", 9, Kind::Bin), ("user_properties", 38, Kind::Up), ("subscription_identifiers", 11, Kind::Ids), ("content_type", 3, Kind::Str)]),
  ("PubAckProperties", &[("reason_string", 31, Kind::Str), ("user_properties", 38, Kind::Up)]),
  ("PubRecProperties", &[("reason_string", 31, Kind::Str), ("user_properties", 38, Kind::Up)]),
  ("PubRelProperties", &[("reason_string", 31, Kind::Str), ("user_properties", 38, Kind::Up)]),
  ("PubCompProperties", &[("reason_string", 31, Kind::Str), ("user_properties", 38, Kind::Up)]),
  ("SubscribeProperties", &[("id", 11, Kind::Vi), ("user_properties", 38, Kind::Up)]),
  ("SubAckProperties", &[("reason_string", 31, Kind::Str), ("user_properties", 38, Kind::Up)]),
  ("UnsubscribeProperties", &[("user_properties", 38, Kind::Up)]),
  ("UnsubAckProperties", &[("reason_string", 31, Kind::Str), ("user_properties", 38, Kind::Up)]),
  ("DisconnectProperties", &[("session_expiry_interval", 17, Kind::U32), ("reason_string", 31, Kind::Str), ("user_properties", 38, Kind::Up), ("server_reference", 28, Kind::Str)]),
];
pub const CONNECTPROPERTIES: u8 = 0;
pub const LASTWILLPROPERTIES: u8 = 1;
pub const CONNACKPROPERTIES: u8 = 2;
pub const PUBLISHPROPERTIES: u8 = 3;
pub const PUBACKPROPERTIES: u8 = 4;
pub const PUBRECPROPERTIES: u8 = 5;
pub const PUBRELPROPERTIES: u8 = 6;
pub const PUBCOMPPROPERTIES: u8 = 7;
pub const SUBSCRIBEPROPERTIES: u8 = 8;
pub const SUBACKPROPERTIES: u8 = 9;
pub const UNSUBSCRIBEPROPERTIES: u8 = 10;
pub const UNSUBACKPROPERTIES: u8 = 11;
pub const DISCONNECTPROPERTIES: u8 = 12;
pub const TABLES: &[(&str, &[(&str, Option<u8>)])] = &[
  ("ConnectReturnCode", &[("Success", Some(0)), ("UnspecifiedError", Some(128)), ("MalformedPacket", Some(129)), ("ProtocolError", Some(130)), ("ImplementationSpecificError", Some(131)), ("UnsupportedProtocolVersion", Some(132)), ("ClientIdentifierNotValid", Some(133)), ("BadUserNamePassword", Some(134)), ("NotAuthorized", Some(135)), ("ServerUnavailable", Some(136)), ("ServerBusy", Some(137)), ("Banned", Some(138)), ("BadAuthenticationMethod", Some(140)), ("TopicNameInvalid", Some(144)), ("PacketTooLarge", Some(149)), ("QuotaExceeded", Some(151)), ("PayloadFormatInvalid", Some(153)), ("RetainNotSupported", Some(154)), ("QoSNotSupported", Some(155)), ("UseAnotherServer", Some(156)), ("ServerMoved", Some(157)), ("ConnectionRateExceeded", Some(159)), ("RefusedProtocolVersion", None), ("BadClientId", None), ("ServiceUnavailable", None)]),
  ("PubAckReason", &[("Success", Some(0)), ("NoMatchingSubscribers", Some(16)), ("UnspecifiedError", Some(128)), ("ImplementationSpecificError", Some(131)), ("NotAuthorized", Some(135)), ("TopicNameInvalid", Some(144)), ("PacketIdentifierInUse", Some(145)), ("QuotaExceeded", Some(151)), ("PayloadFormatInvalid", Some(153))]),
  ("PubRecReason", &[("Success", Some(0)), ("NoMatchingSubscribers", Some(16)), ("UnspecifiedError", Some(128)), ("ImplementationSpecificError", Some(131)), ("NotAuthorized", Some(135)), ("TopicNameInvalid", Some(144)), ("PacketIdentifierInUse", Some(145)), ("QuotaExceeded", Some(151)), ("PayloadFormatInvalid", Some(153))]),
  ("PubRelReason", &[("Success", Some(0)), ("PacketIdentifierNotFound", Some(146))]),
  ("PubCompReason", &[("Success", Some(0)), ("PacketIdentifierNotFound", Some(146))]),
  ("UnsubAckReason", &[("Success", Some(0)), ("NoSubscriptionExisted", Some(17)), ("UnspecifiedError", Some(128)), ("ImplementationSpecificError", Some(131)), ("NotAuthorized", Some(135)), ("TopicFilterInvalid", Some(143)), ("PacketIdentifierInUse", Some(145))]),
  ("SubscribeReasonCode", &[("Success(QoS::AtMostOnce)", Some(0)), ("Success(QoS::AtLeastOnce)", Some(1)), ("Success(QoS::ExactlyOnce)", Some(2)), ("Unspecified", Some(128)), ("ImplementationSpecific", Some(131)), ("NotAuthorized", Some(135)), ("TopicFilterInvalid", Some(143)), ("PkidInUse", Some(145)), ("QuotaExceeded", Some(151)), ("SharedSubscriptionsNotSupported", Some(158)), ("SubscriptionIdNotSupported", Some(161)), ("WildcardSubscriptionsNotSupported", Some(162))]),
  ("DisconnectReasonCode", &[("NormalDisconnection", Some(0)), ("DisconnectWithWillMessage", Some(4)), ("UnspecifiedError", Some(128)), ("MalformedPacket", Some(129)), ("ProtocolError", Some(130)), ("ImplementationSpecificError", Some(131)), ("NotAuthorized", Some(135)), ("ServerBusy", Some(137)), ("ServerShuttingDown", Some(139)), ("KeepAliveTimeout", Some(141)), ("SessionTakenOver", Some(142)), ("TopicFilterInvalid", Some(143)), ("TopicNameInvalid", Some(144)), ("ReceiveMaximumExceeded", Some(147)), ("TopicAliasInvalid", Some(148)), ("PacketTooLarge", Some(149)), ("MessageRateTooHigh", Some(150)), ("QuotaExceeded", Some(151)), ("AdministrativeAction", Some(152)), ("PayloadFormatInvalid", Some(153)), ("RetainNotSupported", Some(154)), ("QoSNotSupported", Some(155)), ("UseAnotherServer", Some(156)), ("ServerMoved", Some(157)), ("SharedSubscriptionNotSupported", Some(158)), ("ConnectionRateExceeded", Some(159)), ("MaximumConnectTime", Some(160)), ("SubscriptionIdentifiersNotSupported", Some(161)), ("WildcardSubscriptionsNotSupported", Some(162))]),
  ("QoS", &[("AtMostOnce", Some(0)), ("AtLeastOnce", Some(1)), ("ExactlyOnce", Some(2))]),
  ("RetainForwardRule", &[("OnEverySubscribe", Some(0)), ("OnNewSubscribe", Some(1)), ("Never", Some(2))]),
];
pub const CONNECTRETURNCODE: usize = 0;
pub const PUBACKREASON: usize = 1;
pub const PUBRECREASON: usize = 2;
pub const PUBRELREASON: usize = 3;
pub const PUBCOMPREASON: usize = 4;
pub const UNSUBACKREASON: usize = 5;
pub const SUBSCRIBEREASONCODE: usize = 6;
pub const DISCONNECTREASONCODE: usize = 7;
pub const QOS: usize = 8;
pub const RETAINFORWARDRULE: usize = 9;
pub fn to_ConnectReturnCode(i: u8) -> r::ConnectReturnCode { match i { 0 => r::ConnectReturnCode::Success, 1 => r::ConnectReturnCode::UnspecifiedError, 2 => r::ConnectReturnCode::MalformedPacket, 3 => r::ConnectReturnCode::ProtocolError, 4 => r::ConnectReturnCode::ImplementationSpecificError, 5 => r::ConnectReturnCode::UnsupportedProtocolVersion, 6 => r::ConnectReturnCode::ClientIdentifierNotValid, 7 => r::ConnectReturnCode::BadUserNamePassword, 8 => r::ConnectReturnCode::NotAuthorized, 9 => r::ConnectReturnCode::ServerUnavailable, 10 => r::ConnectReturnCode::ServerBusy, 11 => r::ConnectReturnCode::Banned, 12 => r::ConnectReturnCode::BadAuthenticationMethod, 13 => r::ConnectReturnCode::TopicNameInvalid, 14 => r::ConnectReturnCode::PacketTooLarge, 15 => r::ConnectReturnCode::QuotaExceeded, 16 => r::ConnectReturnCode::PayloadFormatInvalid, 17 => r::ConnectReturnCode::RetainNotSupported, 18 => r::ConnectReturnCode::QoSNotSupported, 19 => r::ConnectReturnCode::UseAnotherServer, 20 => r::ConnectReturnCode::ServerMoved, 21 => r::ConnectReturnCode::ConnectionRateExceeded, 22 => r::ConnectReturnCode::RefusedProtocolVersion, 23 => r::ConnectReturnCode::BadClientId, 24 => r::ConnectReturnCode::ServiceUnavailable, _ => panic!() } }
pub fn from_ConnectReturnCode(c: &r::ConnectReturnCode) -> u8 { match c { r::ConnectReturnCode::Success => 0, r::ConnectReturnCode::UnspecifiedError => 1, r::ConnectReturnCode::MalformedPacket => 2, r::ConnectReturnCode::ProtocolError => 3, r::ConnectReturnCode::ImplementationSpecificError => 4, r::ConnectReturnCode::UnsupportedProtocolVersion => 5, r::ConnectReturnCode::ClientIdentifierNotValid => 6, r::ConnectReturnCode::BadUserNamePassword => 7, r::ConnectReturnCode::NotAuthorized => 8, r::ConnectReturnCode::ServerUnavailable => 9, r::ConnectReturnCode::ServerBusy => 10, r::ConnectReturnCode::Banned => 11, r::ConnectReturnCode::BadAuthenticationMethod => 12, r::ConnectReturnCode::TopicNameInvalid => 13, r::ConnectReturnCode::PacketTooLarge => 14, r::ConnectReturnCode::QuotaExceeded => 15, r::ConnectReturnCode::PayloadFormatInvalid => 16, r::ConnectReturnCode::RetainNotSupported => 17, r::ConnectReturnCode::QoSNotSupported => 18, r::ConnectReturnCode::UseAnotherServer => 19, r::ConnectReturnCode::ServerMoved => 20, r::ConnectReturnCode::ConnectionRateExceeded => 21, r::ConnectReturnCode::RefusedProtocolVersion => 22, r::ConnectReturnCode::BadClientId => 23, r::ConnectReturnCode::ServiceUnavailable => 24 } }
pub fn to_PubAckReason(i: u8) -> r::PubAckReason { match i { 0 => r::PubAckReason::Success, 1 => r::PubAckReason::NoMatchingSubscribers, 2 => r::PubAckReason::UnspecifiedError, 3 => r::PubAckReason::ImplementationSpecificError, 4 => r::PubAckReason::NotAuthorized, 5 => r::PubAckReason::TopicNameInvalid, 6 => r::PubAckReason::PacketIdentifierInUse, 7 => r::PubAckReason::QuotaExceeded, 8 => r::PubAckReason::PayloadFormatInvalid, _ => panic!() } }
pub fn from_PubAckReason(c: &r::PubAckReason) -> u8 { match c { r::PubAckReason::Success => 0, r::PubAckReason::NoMatchingSubscribers => 1, r::PubAckReason::UnspecifiedError => 2, r::PubAckReason::ImplementationSpecificError => 3, r::PubAckReason::NotAuthorized => 4, r::PubAckReason::TopicNameInvalid => 5, r::PubAckReason::PacketIdentifierInUse => 6, r::PubAckReason::QuotaExceeded => 7, r::PubAckReason::PayloadFormatInvalid => 8 } }
pub fn to_PubRecReason(i: u8) -> r::PubRecReason { match i { 0 => r::PubRecReason::Success, 1 => r::PubRecReason::NoMatchingSubscribers, 2 => r::PubRecReason::UnspecifiedError, 3 => r::PubRecReason::ImplementationSpecificError, 4 => r::PubRecReason::NotAuthorized, 5 => r::PubRecReason::TopicNameInvalid, 6 => r::PubRecReason::PacketIdentifierInUse, 7 => r::PubRecReason::QuotaExceeded, 8 => r::PubRecReason::PayloadFormatInvalid, _ => panic!() } }
pub fn from_PubRecReason(c: &r::PubRecReason) -> u8 { match c { r::PubRecReason::Success => 0, r::PubRecReason::NoMatchingSubscribers => 1, r::PubRecReason::UnspecifiedError => 2, r::PubRecReason::ImplementationSpecificError => 3, r::PubRecReason::NotAuthorized => 4, r::PubRecReason::TopicNameInvalid => 5, r::PubRecReason::PacketIdentifierInUse => 6, r::PubRecReason::QuotaExceeded => 7, r::PubRecReason::PayloadFormatInvalid => 8 } }
pub fn to_PubRelReason(i: u8) -> r::PubRelReason { match i { 0 => r::PubRelReason::Success, 1 => r::PubRelReason::PacketIdentifierNotFound, _ => panic!() } }
pub fn from_PubRelReason(c: &r::PubRelReason) -> u8 { match c { r::PubRelReason::Success => 0, r::PubRelReason::PacketIdentifierNotFound => 1 } }
pub fn to_PubCompReason(i: u8) -> r::PubCompReason { match i { 0 => r::PubCompReason::Success, 1 => r::PubCompReason::PacketIdentifierNotFound, _ => panic!() } }
pub fn from_PubCompReason(c: &r::PubCompReason) -> u8 { match c { r::PubCompReason::Success => 0, r::PubCompReason::PacketIdentifierNotFound => 1 } }
pub fn to_UnsubAckReason(i: u8) -> r::UnsubAckReason { match i { 0 => r::UnsubAckReason::Success, 1 => r::UnsubAckReason::NoSubscriptionExisted, 2 => r::UnsubAckReason::UnspecifiedError, 3 => r::UnsubAckReason::ImplementationSpecificError, 4 => r::UnsubAckReason::NotAuthorized, 5 => r::UnsubAckReason::TopicFilterInvalid, 6 => r::UnsubAckReason::PacketIdentifierInUse, _ => panic!() } }
pub fn from_UnsubAckReason(c: &r::UnsubAckReason) -> u8 { match c { r::UnsubAckReason::Success => 0, r::UnsubAckReason::NoSubscriptionExisted => 1, r::UnsubAckReason::UnspecifiedError => 2, r::UnsubAckReason::ImplementationSpecificError => 3, r::UnsubAckReason::NotAuthorized => 4, r::UnsubAckReason::TopicFilterInvalid => 5, r::UnsubAckReason::PacketIdentifierInUse => 6 } }
pub fn to_SubscribeReasonCode(i: u8) -> r::SubscribeReasonCode { match i { 0 => r::SubscribeReasonCode::Success(r::QoS::AtMostOnce), 1 => r::SubscribeReasonCode::Success(r::QoS::AtLeastOnce), 2 => r::SubscribeReasonCode::Success(r::QoS::ExactlyOnce), 3 => r::SubscribeReasonCode::Unspecified, 4 => r::SubscribeReasonCode::ImplementationSpecific, 5 => r::SubscribeReasonCode::NotAuthorized, 6 => r::SubscribeReasonCode::TopicFilterInvalid, 7 => r::SubscribeReasonCode::PkidInUse, 8 => r::SubscribeReasonCode::QuotaExceeded, 9 => r::SubscribeReasonCode::SharedSubscriptionsNotSupported, 10 => r::SubscribeReasonCode::SubscriptionIdNotSupported, 11 => r::SubscribeReasonCode::WildcardSubscriptionsNotSupported, _ => panic!() } }
pub fn from_SubscribeReasonCode(c: &r::SubscribeReasonCode) -> u8 { match c { r::SubscribeReasonCode::Success(r::QoS::AtMostOnce) => 0, r::SubscribeReasonCode::Success(r::QoS::AtLeastOnce) => 1, r::SubscribeReasonCode::Success(r::QoS::ExactlyOnce) => 2, r::SubscribeReasonCode::Unspecified => 3, r::SubscribeReasonCode::ImplementationSpecific => 4, r::SubscribeReasonCode::NotAuthorized => 5, r::SubscribeReasonCode::TopicFilterInvalid => 6, r::SubscribeReasonCode::PkidInUse => 7, r::SubscribeReasonCode::QuotaExceeded => 8, r::SubscribeReasonCode::SharedSubscriptionsNotSupported => 9, r::SubscribeReasonCode::SubscriptionIdNotSupported => 10, r::SubscribeReasonCode::WildcardSubscriptionsNotSupported => 11 } }
pub fn to_DisconnectReasonCode(i: u8) -> r::DisconnectReasonCode { match i { 0 => r::DisconnectReasonCode::NormalDisconnection, 1 => r::DisconnectReasonCode::DisconnectWithWillMessage, 2 => r::DisconnectReasonCode::UnspecifiedError, 3 => r::DisconnectReasonCode::MalformedPacket, 4 => r::DisconnectReasonCode::ProtocolError, 5 => r::DisconnectReasonCode::ImplementationSpecificError, 6 => r::DisconnectReasonCode::NotAuthorized, 7 => r::DisconnectReasonCode::ServerBusy, 8 => r::DisconnectReasonCode::ServerShuttingDown, 9 => r::DisconnectReasonCode::KeepAliveTimeout, 10 => r::DisconnectReasonCode::SessionTakenOver, 11 => r::DisconnectReasonCode::TopicFilterInvalid, 12 => r::DisconnectReasonCode::TopicNameInvalid, 13 => r::DisconnectReasonCode::ReceiveMaximumExceeded, 14 => r::DisconnectReasonCode::TopicAliasInvalid, 15 => r::DisconnectReasonCode::PacketTooLarge, 16 => r::DisconnectReasonCode::MessageRateTooHigh, 17 => r::DisconnectReasonCode::QuotaExceeded, 18 => r::DisconnectReasonCode::AdministrativeAction, 19 => r::DisconnectReasonCode::PayloadFormatInvalid, 20 => r::DisconnectReasonCode::RetainNotSupported, 21 => r::DisconnectReasonCode::QoSNotSupported, 22 => r::DisconnectReasonCode::UseAnotherServer, 23 => r::DisconnectReasonCode::ServerMoved, 24 => r::DisconnectReasonCode::SharedSubscriptionNotSupported, 25 => r::DisconnectReasonCode::ConnectionRateExceeded, 26 => r::DisconnectReasonCode::MaximumConnectTime, 27 => r::DisconnectReasonCode::SubscriptionIdentifiersNotSupported, 28 => r::DisconnectReasonCode::WildcardSubscriptionsNotSupported, _ => panic!() } }
pub fn from_DisconnectReasonCode(c: &r::DisconnectReasonCode) -> u8 { match c { r::DisconnectReasonCode::NormalDisconnection => 0, r::DisconnectReasonCode::DisconnectWithWillMessage => 1, r::DisconnectReasonCode::UnspecifiedError => 2, r::DisconnectReasonCode::MalformedPacket => 3, r::DisconnectReasonCode::ProtocolError => 4, r::DisconnectReasonCode::ImplementationSpecificError => 5, r::DisconnectReasonCode::NotAuthorized => 6, r::DisconnectReasonCode::ServerBusy => 7, r::DisconnectReasonCode::ServerShuttingDown => 8, r::DisconnectReasonCode::KeepAliveTimeout => 9, r::DisconnectReasonCode::SessionTakenOver => 10, r::DisconnectReasonCode::TopicFilterInvalid => 11, r::DisconnectReasonCode::TopicNameInvalid => 12, r::DisconnectReasonCode::ReceiveMaximumExceeded => 13, r::DisconnectReasonCode::TopicAliasInvalid => 14, r::DisconnectReasonCode::PacketTooLarge => 15, r::DisconnectReasonCode::MessageRateTooHigh => 16, r::DisconnectReasonCode::QuotaExceeded => 17, r::DisconnectReasonCode::AdministrativeAction => 18, r::DisconnectReasonCode::PayloadFormatInvalid => 19, r::DisconnectReasonCode::RetainNotSupported => 20, r::DisconnectReasonCode::QoSNotSupported => 21, r::DisconnectReasonCode::UseAnotherServer => 22, r::DisconnectReasonCode::ServerMoved => 23, r::DisconnectReasonCode::SharedSubscriptionNotSupported => 24, r::DisconnectReasonCode::ConnectionRateExceeded => 25, r::DisconnectReasonCode::MaximumConnectTime => 26, r::DisconnectReasonCode::SubscriptionIdentifiersNotSupported => 27, r::DisconnectReasonCode::WildcardSubscriptionsNotSupported => 28 } }
pub fn to_QoS(i: u8) -> r::QoS { match i { 0 => r::QoS::AtMostOnce, 1 => r::QoS::AtLeastOnce, 2 => r::QoS::ExactlyOnce, _ => panic!() } }
pub fn from_QoS(c: &r::QoS) -> u8 { match c { r::QoS::AtMostOnce => 0, r::QoS::AtLeastOnce => 1, r::QoS::ExactlyOnce => 2 } }
pub fn to_RetainForwardRule(i: u8) -> r::RetainForwardRule { match i { 0 => r::RetainForwardRule::OnEverySubscribe, 1 => r::RetainForwardRule::OnNewSubscribe, 2 => r::RetainForwardRule::Never, _ => panic!() } }
pub fn from_RetainForwardRule(c: &r::RetainForwardRule) -> u8 { match c { r::RetainForwardRule::OnEverySubscribe => 0, r::RetainForwardRule::OnNewSubscribe => 1, r::RetainForwardRule::Never => 2 } }
pub fn to_ConnectProperties(p: &Props) -> r::ConnectProperties { r::ConnectProperties { session_expiry_interval: on(&p.v[0]).map(|x| x as u32), receive_maximum: on(&p.v[1]).map(|x| x as u16), max_packet_size: on(&p.v[2]).map(|x| x as u32), topic_alias_max: on(&p.v[3]).map(|x| x as u16), request_response_info: on(&p.v[4]).map(|x| x as u8), request_problem_info: on(&p.v[5]).map(|x| x as u8), user_properties: up(&p.v[6]), authentication_method: ob(&p.v[7]).map(|b| ms(b)), authentication_data: ob(&p.v[8]).map(|b| mb(b)) } }
pub fn from_ConnectProperties(p: &r::ConnectProperties) -> Props { Props { t: CONNECTPROPERTIES, v: vec![nn(p.session_expiry_interval.map(|x| x as u64)), nn(p.receive_maximum.map(|x| x as u64)), nn(p.max_packet_size.map(|x| x as u64)), nn(p.topic_alias_max.map(|x| x as u64)), nn(p.request_response_info.map(|x| x as u64)), nn(p.request_problem_info.map(|x| x as u64)), Val::U(p.user_properties.iter().map(|(a, b)| (Blob(sb(a)), Blob(sb(b)))).collect()), p.authentication_method.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x)))), p.authentication_data.as_ref().map_or(Val::No, |x| Val::S(Blob(x.to_vec())))] } }
pub fn to_LastWillProperties(p: &Props) -> r::LastWillProperties { r::LastWillProperties { delay_interval: on(&p.v[0]).map(|x| x as u32), payload_format_indicator: on(&p.v[1]).map(|x| x as u8), message_expiry_interval: on(&p.v[2]).map(|x| x as u32), content_type: ob(&p.v[3]).map(|b| ms(b)), response_topic: ob(&p.v[4]).map(|b| ms(b)), correlation_data: ob(&p.v[5]).map(|b| mb(b)), user_properties: up(&p.v[6]) } }
pub fn from_LastWillProperties(p: &r::LastWillProperties) -> Props { Props { t: LASTWILLPROPERTIES, v: vec![nn(p.delay_interval.map(|x| x as u64)), nn(p.payload_format_indicator.map(|x| x as u64)), nn(p.message_expiry_interval.map(|x| x as u64)), p.content_type.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x)))), p.response_topic.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x)))), p.correlation_data.as_ref().map_or(Val::No, |x| Val::S(Blob(x.to_vec()))), Val::U(p.user_properties.iter().map(|(a, b)| (Blob(sb(a)), Blob(sb(b)))).collect())] } }
pub fn to_ConnAckProperties(p: &Props) -> r::ConnAckProperties { r::ConnAckProperties { session_expiry_interval: on(&p.v[0]).map(|x| x as u32), receive_max: on(&p.v[1]).map(|x| x as u16), max_qos: on(&p.v[2]).map(|x| x as u8), retain_available: on(&p.v[3]).map(|x| x as u8), max_packet_size: on(&p.v[4]).map(|x| x as u32), assigned_client_identifier: ob(&p.v[5]).map(|b| ms(b)), topic_alias_max: on(&p.v[6]).map(|x| x as u16), reason_string: ob(&p.v[7]).map(|b| ms(b)), user_properties: up(&p.v[8]), wildcard_subscription_available: on(&p.v[9]).map(|x| x as u8), subscription_identifiers_available: on(&p.v[10]).map(|x| x as u8), shared_subscription_available: on(&p.v[11]).map(|x| x as u8), server_keep_alive: on(&p.v[12]).map(|x| x as u16), response_information: ob(&p.v[13]).map(|b| ms(b)), server_reference: ob(&p.v[14]).map(|b| ms(b)), authentication_method: ob(&p.v[15]).map(|b| ms(b)), authentication_data: ob(&p.v[16]).map(|b| mb(b)) } }
pub fn from_ConnAckProperties(p: &r::ConnAckProperties) -> Props { Props { t: CONNACKPROPERTIES, v: vec![nn(p.session_expiry_interval.map(|x| x as u64)), nn(p.receive_max.map(|x| x as u64)), nn(p.max_qos.map(|x| x as u64)), nn(p.retain_available.map(|x| x as u64)), nn(p.max_packet_size.map(|x| x as u64)), p.assigned_client_identifier.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x)))), nn(p.topic_alias_max.map(|x| x as u64)), p.reason_string.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x)))), Val::U(p.user_properties.iter().map(|(a, b)| (Blob(sb(a)), Blob(sb(b)))).collect()), nn(p.wildcard_subscription_available.map(|x| x as u64)), nn(p.subscription_identifiers_available.map(|x| x as u64)), nn(p.shared_subscription_available.map(|x| x as u64)), nn(p.server_keep_alive.map(|x| x as u64)), p.response_information.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x)))), p.server_reference.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x)))), p.authentication_method.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x)))), p.authentication_data.as_ref().map_or(Val::No, |x| Val::S(Blob(x.to_vec())))] } }
pub fn to_PublishProperties(p: &Props) -> r::PublishProperties { r::PublishProperties { payload_format_indicator: on(&p.v[0]).map(|x| x as u8), message_expiry_interval: on(&p.v[1]).map(|x| x as u32), topic_alias: on(&p.v[2]).map(|x| x as u16), response_topic: ob(&p.v[3]).map(|b| ms(b)), correlation_data: ob(&p.v[4]).map(|b| mb(b)), user_properties: up(&p.v[5]), subscription_identifiers: ids(&p.v[6]), content_type: ob(&p.v[7]).map(|b| ms(b)) } }
pub fn from_PublishProperties(p: &r::PublishProperties) -> Props { Props { t: PUBLISHPROPERTIES, v: vec![nn(p.payload_format_indicator.map(|x| x as u64)), nn(p.message_expiry_interval.map(|x| x as u64)), nn(p.topic_alias.map(|x| x as u64)), p.response_topic.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x)))), p.correlation_data.as_ref().map_or(Val::No, |x| Val::S(Blob(x.to_vec()))), Val::U(p.user_properties.iter().map(|(a, b)| (Blob(sb(a)), Blob(sb(b)))).collect()), Val::I(p.subscription_identifiers.iter().map(|x| *x as u64).collect()), p.content_type.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x))))] } }
pub fn to_PubAckProperties(p: &Props) -> r::PubAckProperties { r::PubAckProperties { reason_string: ob(&p.v[0]).map(|b| ms(b)), user_properties: up(&p.v[1]) } }
pub fn from_PubAckProperties(p: &r::PubAckProperties) -> Props { Props { t: PUBACKPROPERTIES, v: vec![p.reason_string.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x)))), Val::U(p.user_properties.iter().map(|(a, b)| (Blob(sb(a)), Blob(sb(b)))).collect())] } }
pub fn to_PubRecProperties(p: &Props) -> r::PubRecProperties { r::PubRecProperties { reason_string: ob(&p.v[0]).map(|b| ms(b)), user_properties: up(&p.v[1]) } }
pub fn from_PubRecProperties(p: &r::PubRecProperties) -> Props { Props { t: PUBRECPROPERTIES, v: vec![p.reason_string.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x)))), Val::U(p.user_properties.iter().map(|(a, b)| (Blob(sb(a)), Blob(sb(b)))).collect())] } }
pub fn to_PubRelProperties(p: &Props) -> r::PubRelProperties { r::PubRelProperties { reason_string: ob(&p.v[0]).map(|b| ms(b)), user_properties: up(&p.v[1]) } }
pub fn from_PubRelProperties(p: &r::PubRelProperties) -> Props { Props { t: PUBRELPROPERTIES, v: vec![p.reason_string.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x)))), Val::U(p.user_properties.iter().map(|(a, b)| (Blob(sb(a)), Blob(sb(b)))).collect())] } }
pub fn to_PubCompProperties(p: &Props) -> r::PubCompProperties { r::PubCompProperties { reason_string: ob(&p.v[0]).map(|b| ms(b)), user_properties: up(&p.v[1]) } }
pub fn from_PubCompProperties(p: &r::PubCompProperties) -> Props { Props { t: PUBCOMPPROPERTIES, v: vec![p.reason_string.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x)))), Val::U(p.user_properties.iter().map(|(a, b)| (Blob(sb(a)), Blob(sb(b)))).collect())] } }
pub fn to_SubscribeProperties(p: &Props) -> r::SubscribeProperties { r::SubscribeProperties { id: on(&p.v[0]).map(|x| x as usize), user_properties: up(&p.v[1]) } }
pub fn from_SubscribeProperties(p: &r::SubscribeProperties) -> Props { Props { t: SUBSCRIBEPROPERTIES, v: vec![nn(p.id.map(|x| x as u64)), Val::U(p.user_properties.iter().map(|(a, b)| (Blob(sb(a)), Blob(sb(b)))).collect())] } }
pub fn to_SubAckProperties(p: &Props) -> r::SubAckProperties { r::SubAckProperties { reason_string: ob(&p.v[0]).map(|b| ms(b)), user_properties: up(&p.v[1]) } }
pub fn from_SubAckProperties(p: &r::SubAckProperties) -> Props { Props { t: SUBACKPROPERTIES, v: vec![p.reason_string.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x)))), Val::U(p.user_properties.iter().map(|(a, b)| (Blob(sb(a)), Blob(sb(b)))).collect())] } }
pub fn to_UnsubscribeProperties(p: &Props) -> r::UnsubscribeProperties { r::UnsubscribeProperties { user_properties: up(&p.v[0]) } }
pub fn from_UnsubscribeProperties(p: &r::UnsubscribeProperties) -> Props { Props { t: UNSUBSCRIBEPROPERTIES, v: vec![Val::U(p.user_properties.iter().map(|(a, b)| (Blob(sb(a)), Blob(sb(b)))).collect())] } }
pub fn to_UnsubAckProperties(p: &Props) -> r::UnsubAckProperties { r::UnsubAckProperties { reason_string: ob(&p.v[0]).map(|b| ms(b)), user_properties: up(&p.v[1]) } }
pub fn from_UnsubAckProperties(p: &r::UnsubAckProperties) -> Props { Props { t: UNSUBACKPROPERTIES, v: vec![p.reason_string.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x)))), Val::U(p.user_properties.iter().map(|(a, b)| (Blob(sb(a)), Blob(sb(b)))).collect())] } }
pub fn to_DisconnectProperties(p: &Props) -> r::DisconnectProperties { r::DisconnectProperties { session_expiry_interval: on(&p.v[0]).map(|x| x as u32), reason_string: ob(&p.v[1]).map(|b| ms(b)), user_properties: up(&p.v[2]), server_reference: ob(&p.v[3]).map(|b| ms(b)) } }
pub fn from_DisconnectProperties(p: &r::DisconnectProperties) -> Props { Props { t: DISCONNECTPROPERTIES, v: vec![nn(p.session_expiry_interval.map(|x| x as u64)), p.reason_string.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x)))), Val::U(p.user_properties.iter().map(|(a, b)| (Blob(sb(a)), Blob(sb(b)))).collect()), p.server_reference.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x))))] } }
pub fn to_ack(k: u8, pkid: u16, c: u8, p: &Option<Props>) -> r::Packet { match k { 0 => r::Packet::PubAck(r::PubAck { pkid, reason: to_PubAckReason(c), properties: p.as_ref().map(to_PubAckProperties) }), 1 => r::Packet::PubRec(r::PubRec { pkid, reason: to_PubRecReason(c), properties: p.as_ref().map(to_PubRecProperties) }), 2 => r::Packet::PubRel(r::PubRel { pkid, reason: to_PubRelReason(c), properties: p.as_ref().map(to_PubRelProperties) }), 3 => r::Packet::PubComp(r::PubComp { pkid, reason: to_PubCompReason(c), properties: p.as_ref().map(to_PubCompProperties) }), _ => panic!() } }
pub fn new_ack(k: u8, pkid: u16, p: &Option<Props>) -> r::Packet { match k { 0 => r::Packet::PubAck(r::PubAck::new(pkid, p.as_ref().map(to_PubAckProperties))), 1 => r::Packet::PubRec(r::PubRec::new(pkid, p.as_ref().map(to_PubRecProperties))), 2 => r::Packet::PubRel(r::PubRel::new(pkid, p.as_ref().map(to_PubRelProperties))), 3 => r::Packet::PubComp(r::PubComp::new(pkid, p.as_ref().map(to_PubCompProperties))), _ => panic!() } }
pub fn from_ack(p: &r::Packet) -> M { match p { r::Packet::PubAck(a) => M::Ack { k: 0, pkid: a.pkid, code: from_PubAckReason(&a.reason), props: a.properties.as_ref().map(from_PubAckProperties) }, r::Packet::PubRec(a) => M::Ack { k: 1, pkid: a.pkid, code: from_PubRecReason(&a.reason), props: a.properties.as_ref().map(from_PubRecProperties) }, r::Packet::PubRel(a) => M::Ack { k: 2, pkid: a.pkid, code: from_PubRelReason(&a.reason), props: a.properties.as_ref().map(from_PubRelProperties) }, r::Packet::PubComp(a) => M::Ack { k: 3, pkid: a.pkid, code: from_PubCompReason(&a.reason), props: a.properties.as_ref().map(from_PubCompProperties) }, _ => panic!() } }
pub fn ack_size(p: &r::Packet) -> usize { match p { r::Packet::PubAck(a) => a.size(), r::Packet::PubRec(a) => a.size(), r::Packet::PubRel(a) => a.size(), r::Packet::PubComp(a) => a.size(), _ => panic!() } }
pub const ACKSETS: [u8; 4] = [PUBACKPROPERTIES, PUBRECPROPERTIES, PUBRELPROPERTIES, PUBCOMPPROPERTIES];
pub const ACKCODES: [usize; 4] = [PUBACKREASON, PUBRECREASON, PUBRELREASON, PUBCOMPREASON];
pub const ACKBYTE: [u8; 4] = [64, 80, 98, 112];
