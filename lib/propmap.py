"""Which functions under contract carry which property.  Patterns: 'file-glob key-regex'."""
import fnmatch, re

DEC = [r"ber/*.rs .*(BerDecoder|::decode$|::from_ber$).*", r"ber/header.rs .*", r"ber/mod.rs BerDecoder.*",
       r"ber/real.rs .*", r"ber/bool.rs .*", r"error.rs .*"]
MSGDEC = [r"snmp/*.rs .*(TryFrom|from_ber|parse_var|is_end_of_mib_view|as_getresponse).*"]
MSGENC = [r"snmp/*.rs .*push_ber.*"]
OIDTXT = [r"ber/objectid.rs .*String.*", r"ber/objectid.rs .*(split_subid|OidSubelementIterator).*"]
RELOID = [r"ber/relative_oid.rs .*"]
ENC = [r"ber/*.rs .*(BerEncoder|push_ber).*", r"buf/buffer.rs .*"]
OIDPARSE = [r"ber/objectid.rs .*"]
MATCH = [r"reqid.rs .*", r"snmp/pdu.rs .*check.*"]
CANON = [r"ber/int.rs .*", r"ber/objectid.rs .*", r"ber/null.rs .*", r"ber/octetstring.rs .*", r"ber/header.rs .*", r"ber/mod.rs .*"]

TOPY = [r"*.rs IntoPyObject .*", r"ber/ipaddress.rs .*", r"snmp/op/*.rs .*to_python", r"snmp/value.rs .*"]
WALK = [r"ber/objectid.rs .*(starts_with|is_after|OidSubelementIterator|split_subid|OidStorage|From<&SnmpOid> for Vec<u8>).*", r"snmp/op/getiter.rs .*", r"snmp/op/getnext.rs .*", r"snmp/op/getbulk.rs .*"]

SOCK = r"socket/*.rs .*"
SEND = [r"socket/*.rs .*(push_pdu|_send_inner|send_request|send_and_recv|::send_\w+|::get|::get_many|::get_next|::get_bulk|::refresh|get_request_id)", r"buf/pool.rs .*"]
RECV = [r"socket/*.rs .*(unwrap_pdu|_recv_until|_recv_inner|recv_socket|recv_reply|send_and_recv|::recv_\w+|::get|::get_many|::get_next|::get_bulk|::refresh)"]
KEYS = [r"util.rs .*", r"socket/v3.rs SnmpV3ClientSocket::(new|set_keys|get_engine_id)"]

PROPS = {
    "C01": DEC + RELOID + OIDTXT + MSGDEC + TOPY + RECV + [r"privacy/*.rs .*decrypt", r"socket/v3.rs .*is_authentic"],
    "C02": DEC + OIDTXT + [r"ber/*.rs From<.*", r"snmp/value.rs .*", r"snmp/getresponse.rs .*", r"snmp/pdu.rs .*try_from.*", r"snmp/msg/*.rs .*try_from.*"] + RELOID + TOPY,
    "C03": ENC + MSGENC + MATCH[:1] + [r"snmp/op/*.rs .*from_python", r"snmp/op/getiter.rs .*", r"socket/*.rs .*::new"] + OIDPARSE + SEND,
    "C04": MATCH + [r"snmp/*.rs .*try_from.*"] + RECV + SEND,
    "C05": WALK + [r"snmp/value.rs .*", r"snmp/getresponse.rs .*", r"socket/*.rs .*(get_next|get_bulk|_recv_until)"],
    "C06": WALK + [r"snmp/value.rs SnmpValue::is_end_of_mib_view", r"snmp/op/*.rs .*from_python", r"socket/*.rs .*(get_next|get_bulk|_recv_until)"],
    "C07": [r"snmp/value.rs .*", r"snmp/getresponse.rs .*", r"snmp/op/*.rs .*", r"error.rs .*PyErr.*"] + RECV,
    "C08": OIDPARSE + RELOID,
    "C09": [r"auth/*.rs .*", r"snmp/msg/v3/*.rs .*push_ber.*", r"buf/buffer.rs .*"] + SEND + KEYS[1:],
    "C10": [r"snmp/msg/v3/*.rs .*try_from.*", r"auth/*.rs .*", r"privacy/*.rs .*(decrypt|PrivKey::new|as_localized)", r"socket/v3.rs .*(is_authentic|unwrap_pdu|::new|set_keys)", r"socket/snmpsocket.rs .*_recv_until"],
    "C11": [r"privacy/*.rs .*", r"snmp/msg/v3/scoped.rs .*", r"buf/buffer.rs .*", r"socket/v3.rs .*(push_pdu|unwrap_pdu|::new|set_keys)", r"auth/*.rs .*(as_\w+|localize|password_to_master|get_key|AuthKey::new)"],
    "C12": [r"auth/*.rs .*", r"privacy/*.rs .*(PrivKey::new|as_localized)"] + KEYS,
    "C13": [r"snmp/msg/v3/usm.rs .*", r"snmp/msg/v3/msg.rs .*", r"socket/v3.rs .*(push_pdu|unwrap_pdu|refresh|set_keys|get_engine_id|::new)", r"snmp/op/refresh.rs .*", r"socket/snmpsocket.rs .*(_send_inner|_recv_until)"],
    "C14": [r"privacy/*.rs .*", r"socket/v3.rs .*push_pdu", r"socket/snmpsocket.rs .*_send_inner"],
    "C15": ENC + CANON + MSGENC + MSGDEC,
    "C16": DEC + MSGDEC,
    "C17": [r"buf/*.rs .*"] + ENC + MSGENC + SEND,
    "C18": [r"socket/snmpsocket.rs .*(get_socket|recv_socket|_recv_until|_recv_inner|recv_reply|send_and_recv)", r"socket/*.rs .*::new", r"error.rs .*PyErr.*"],
}


def relevant(prop, key):
    f, k = key
    for p in PROPS.get(prop, []):
        g, r = p.split(" ", 1)
        if fnmatch.fnmatch(f, g) and re.fullmatch(r, k):
            return True
    return False
