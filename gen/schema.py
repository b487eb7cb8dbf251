"""MQTT 5.0 tables (OASIS standard, sections 2.2.2, 3.1-3.14) for the packets this
library supports. Everything the specifications say about identifiers, field kinds,
field order and code numbers comes from here, not from /repo's code."""

# property sets: (field, property identifier, kind), in wire order of the encoder
PROPS = {
 "ConnectProperties": ("connect", [
   ("session_expiry_interval", 17, "u32"), ("receive_maximum", 33, "u16"), ("max_packet_size", 39, "u32"),
   ("topic_alias_max", 34, "u16"), ("request_response_info", 25, "u8"), ("request_problem_info", 23, "u8"),
   ("user_properties", 38, "up"), ("authentication_method", 21, "str"), ("authentication_data", 22, "bin")]),
 "LastWillProperties": ("connect", [
   ("delay_interval", 24, "u32"), ("payload_format_indicator", 1, "u8"), ("message_expiry_interval", 2, "u32"),
   ("content_type", 3, "str"), ("response_topic", 8, "str"), ("correlation_data", 9, "bin"), ("user_properties", 38, "up")]),
 "ConnAckProperties": ("connack", [
   ("session_expiry_interval", 17, "u32"), ("receive_max", 33, "u16"), ("max_qos", 36, "u8"), ("retain_available", 37, "u8"),
   ("max_packet_size", 39, "u32"), ("assigned_client_identifier", 18, "str"), ("topic_alias_max", 34, "u16"),
   ("reason_string", 31, "str"), ("user_properties", 38, "up"), ("wildcard_subscription_available", 40, "u8"),
   ("subscription_identifiers_available", 41, "u8"), ("shared_subscription_available", 42, "u8"),
   ("server_keep_alive", 19, "u16"), ("response_information", 26, "str"), ("server_reference", 28, "str"),
   ("authentication_method", 21, "str"), ("authentication_data", 22, "bin")]),
 "PublishProperties": ("publish", [
   ("payload_format_indicator", 1, "u8"), ("message_expiry_interval", 2, "u32"), ("topic_alias", 35, "u16"),
   ("response_topic", 8, "str"), ("correlation_data", 9, "bin"), ("user_properties", 38, "up"),
   ("subscription_identifiers", 11, "ids"), ("content_type", 3, "str")]),
 "PubAckProperties": ("puback", [("reason_string", 31, "str"), ("user_properties", 38, "up")]),
 "PubRecProperties": ("pubrec", [("reason_string", 31, "str"), ("user_properties", 38, "up")]),
 "PubRelProperties": ("pubrel", [("reason_string", 31, "str"), ("user_properties", 38, "up")]),
 "PubCompProperties": ("pubcomp", [("reason_string", 31, "str"), ("user_properties", 38, "up")]),
 "SubscribeProperties": ("subscribe", [("id", 11, "vi"), ("user_properties", 38, "up")]),
 "SubAckProperties": ("suback", [("reason_string", 31, "str"), ("user_properties", 38, "up")]),
 "UnsubscribeProperties": ("unsubscribe", [("user_properties", 38, "up")]),
 "UnsubAckProperties": ("unsuback", [("reason_string", 31, "str"), ("user_properties", 38, "up")]),
 "DisconnectProperties": ("disconnect", [
   ("session_expiry_interval", 17, "u32"), ("reason_string", 31, "str"), ("user_properties", 38, "up"), ("server_reference", 28, "str")]),
}

# all property identifiers of table 2-4
PROPERTY_IDS = [1, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42]

# control packet types, table 2-1
PACKET_TYPES = ["Connect", "ConnAck", "Publish", "PubAck", "PubRec", "PubRel", "PubComp", "Subscribe", "SubAck",
                "Unsubscribe", "UnsubAck", "PingReq", "PingResp", "Disconnect"]

_PUBACK = [("Success", 0), ("NoMatchingSubscribers", 16), ("UnspecifiedError", 128), ("ImplementationSpecificError", 131),
           ("NotAuthorized", 135), ("TopicNameInvalid", 144), ("PacketIdentifierInUse", 145), ("QuotaExceeded", 151),
           ("PayloadFormatInvalid", 153)]
_PUBREL = [("Success", 0), ("PacketIdentifierNotFound", 146)]
# enum -> (module, [(variant, code)], variants without a v5 code)
CODES = {
 "ConnectReturnCode": ("connack", [
   ("Success", 0), ("UnspecifiedError", 128), ("MalformedPacket", 129), ("ProtocolError", 130),
   ("ImplementationSpecificError", 131), ("UnsupportedProtocolVersion", 132), ("ClientIdentifierNotValid", 133),
   ("BadUserNamePassword", 134), ("NotAuthorized", 135), ("ServerUnavailable", 136), ("ServerBusy", 137), ("Banned", 138),
   ("BadAuthenticationMethod", 140), ("TopicNameInvalid", 144), ("PacketTooLarge", 149), ("QuotaExceeded", 151),
   ("PayloadFormatInvalid", 153), ("RetainNotSupported", 154), ("QoSNotSupported", 155), ("UseAnotherServer", 156),
   ("ServerMoved", 157), ("ConnectionRateExceeded", 159)],
   ["RefusedProtocolVersion", "BadClientId", "ServiceUnavailable"]),
 "PubAckReason": ("puback", _PUBACK, []),
 "PubRecReason": ("pubrec", _PUBACK, []),
 "PubRelReason": ("pubrel", _PUBREL, []),
 "PubCompReason": ("pubcomp", _PUBREL, []),
 "UnsubAckReason": ("unsuback", [
   ("Success", 0), ("NoSubscriptionExisted", 17), ("UnspecifiedError", 128), ("ImplementationSpecificError", 131),
   ("NotAuthorized", 135), ("TopicFilterInvalid", 143), ("PacketIdentifierInUse", 145)], []),
 "SubscribeReasonCode": ("suback", [
   ("Success(QoS::AtMostOnce)", 0), ("Success(QoS::AtLeastOnce)", 1), ("Success(QoS::ExactlyOnce)", 2),
   ("Unspecified", 128), ("ImplementationSpecific", 131), ("NotAuthorized", 135), ("TopicFilterInvalid", 143),
   ("PkidInUse", 145), ("QuotaExceeded", 151), ("SharedSubscriptionsNotSupported", 158),
   ("SubscriptionIdNotSupported", 161), ("WildcardSubscriptionsNotSupported", 162)], []),
 "DisconnectReasonCode": ("disconnect", [
   ("NormalDisconnection", 0x00), ("DisconnectWithWillMessage", 0x04), ("UnspecifiedError", 0x80), ("MalformedPacket", 0x81),
   ("ProtocolError", 0x82), ("ImplementationSpecificError", 0x83), ("NotAuthorized", 0x87), ("ServerBusy", 0x89),
   ("ServerShuttingDown", 0x8B), ("KeepAliveTimeout", 0x8D), ("SessionTakenOver", 0x8E), ("TopicFilterInvalid", 0x8F),
   ("TopicNameInvalid", 0x90), ("ReceiveMaximumExceeded", 0x93), ("TopicAliasInvalid", 0x94), ("PacketTooLarge", 0x95),
   ("MessageRateTooHigh", 0x96), ("QuotaExceeded", 0x97), ("AdministrativeAction", 0x98), ("PayloadFormatInvalid", 0x99),
   ("RetainNotSupported", 0x9A), ("QoSNotSupported", 0x9B), ("UseAnotherServer", 0x9C), ("ServerMoved", 0x9D),
   ("SharedSubscriptionNotSupported", 0x9E), ("ConnectionRateExceeded", 0x9F), ("MaximumConnectTime", 0xA0),
   ("SubscriptionIdentifiersNotSupported", 0xA1), ("WildcardSubscriptionsNotSupported", 0xA2)], []),
 "QoS": ("", [("AtMostOnce", 0), ("AtLeastOnce", 1), ("ExactlyOnce", 2)], []),
 "RetainForwardRule": ("subscribe", [("OnEverySubscribe", 0), ("OnNewSubscribe", 1), ("Never", 2)], []),
}
ACKS = ["PubAck", "PubRec", "PubRel", "PubComp"]
ACK_BYTE = {"PubAck": 0x40, "PubRec": 0x50, "PubRel": 0x62, "PubComp": 0x70}
MODULES = ["connect", "connack", "publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "suback", "unsubscribe",
           "unsuback", "disconnect", "ping"]
