"""Which analyses decide which property."""
CHECKS = {
    "C01": [("hpack_dec", "c01"), ("hpack_tables", "c01"), ("hpack_enc", "c01")],
    "C02": [("hpack_dec", "c02"), ("conn_rules", "c02")],
    "C03": [("hpack_dec", "c03")],
    "C04": [("hpack_tables", "c04"), ("hpack_enc", "c04")],
    "C05": [("hpack_enc", "c05"), ("hpack_conn", "c05")],
    "C06": [("hpack_table", "c06"), ("hpack_dec", "c06")],
    "C07": [("wire", "layout")],
    "C08": [("conn_rules", "c08")],
    "C09": [("conn_rules", "c09")],
    "C10": [("conn_rules", "c10")],
    "C11": [("conn_rules", "c11")],
    "C12": [("conn_rules", "c12")],
    "C13": [("conn_rules", "c13"), ("hpack_dec", "c13")],
    "C14": [("conn_rules", "c14"), ("server", "c14")],
    "C15": [("transport", "tls"), ("transport", "tcp")],
    "C16": [("transport", "copying"), ("transport", "ownership"), ("server", "released")],
    "C17": [("server", "c17")],
    "C18": [("conn_rules", "c18"), ("server", "c18")],
    "C19": [("server", "stop_rule"), ("app", "c19")],
    "C20": [("server", "c20"), ("app", "c20")],
    "C21": [("route", "c21"), ("app", "c21")],
    "C22": [("route", "c22")],
    "C23": [("files", "c23"), ("files", "c23_program")],
    "C24": [("files", "c24"), ("files", "c24_program")],
    "C25": [("conn_rules", "c25"), ("accesslog", "faithful"), ("accesslog", "program"), ("accesslog", "acted_on")],
    "C26": [("app", "c26")],
    "C27": [("server", "c27"), ("transport", "wouldblock")],
    "C28": [("poll", "c28")],
    "C29": [("conn_rules", "c29")],
    "C30": [("hpack_tables", "bit_reader"), ("hpack_tables", "c30")],
    "C31": [("hpack_conn", "c31"), ("hpack_enc", "c05"), ("hpack_table", "c06"), ("hpack_conn", "c31_frames")],
    "C34": [("stats", "c34")],
}
